//! A process that delegates to a library process and counts accesses, so that a run that would
//! never end is stopped after a fixed amount of work (not of time).
use reCTBN::params::{Params, StateType};
use reCTBN::process::{NetworkError, NetworkProcess, NetworkProcessState};
use std::collections::BTreeSet;
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Counted<N: NetworkProcess> {
    pub inner: N,
    left: AtomicU64,
}

impl<N: NetworkProcess> Counted<N> {
    pub fn new(inner: N) -> Counted<N> {
        Counted::with_limit(inner, 400_000_000)
    }
    pub fn with_limit(inner: N, limit: u64) -> Counted<N> {
        Counted { inner, left: AtomicU64::new(limit) }
    }
    fn tick(&self) {
        // Relaxed and racy on purpose: an approximate budget is enough.
        let l = self.left.load(Ordering::Relaxed);
        if l == 0 {
            panic!("no end after the whole work budget: the operation does not terminate");
        }
        self.left.store(l - 1, Ordering::Relaxed);
    }
}

impl<N: NetworkProcess> NetworkProcess for Counted<N> {
    fn initialize_adj_matrix(&mut self) {
        self.inner.initialize_adj_matrix()
    }
    fn add_node(&mut self, n: Params) -> Result<usize, NetworkError> {
        self.inner.add_node(n)
    }
    fn add_edge(&mut self, parent: usize, child: usize) {
        self.inner.add_edge(parent, child)
    }
    fn get_node_indices(&self) -> Range<usize> {
        self.inner.get_node_indices()
    }
    fn get_number_of_nodes(&self) -> usize {
        self.inner.get_number_of_nodes()
    }
    fn get_node(&self, node_idx: usize) -> &Params {
        self.tick();
        self.inner.get_node(node_idx)
    }
    fn get_node_mut(&mut self, node_idx: usize) -> &mut Params {
        self.inner.get_node_mut(node_idx)
    }
    fn get_param_index_network(&self, node: usize, current_state: &NetworkProcessState) -> usize {
        self.inner.get_param_index_network(node, current_state)
    }
    fn get_param_index_from_custom_parent_set(&self, current_state: &Vec<StateType>, parent_set: &BTreeSet<usize>) -> usize {
        self.inner.get_param_index_from_custom_parent_set(current_state, parent_set)
    }
    fn get_parent_set(&self, node: usize) -> BTreeSet<usize> {
        self.inner.get_parent_set(node)
    }
    fn get_children_set(&self, node: usize) -> BTreeSet<usize> {
        self.inner.get_children_set(node)
    }
}
