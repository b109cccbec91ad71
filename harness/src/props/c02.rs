//! C02: model-based editing of a CTBN.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array2, Array3};
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::{RandomGraphGenerator, UniformGraphGenerator};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// insert a node; with `params` it arrives carrying parameters
    AddNode { card: usize, params: bool },
    AddEdge(u8, u8),
    Reset,
    RandomGraph { density: f64, seed: u64 },
    SetCim { node: u8, seed: u64 },
    SetStats { node: u8, value: u8 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct History {
    ops: Vec<Op>,
}

fn histories() -> BoxedStrategy<History> {
    let op = || {
        prop_oneof![
            3 => (card(6), any::<bool>()).prop_map(|(card, params)| Op::AddNode { card, params }),
            8 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AddEdge(a, b)),
            1 => Just(Op::Reset),
            1 => (prop_oneof![Just(0.0), Just(1.0), 0.0f64..1.0], any::<u64>())
                .prop_map(|(density, seed)| Op::RandomGraph { density, seed }),
            7 => (any::<u8>(), any::<u64>()).prop_map(|(node, seed)| Op::SetCim { node, seed }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(node, value)| Op::SetStats { node, value }),
        ]
    };
    let first = vec((card(6), any::<bool>()).prop_map(|(card, params)| Op::AddNode { card, params }), 1..6);
    boxed((first, vec(op(), 1..40)).prop_map(|(mut a, b)| {
        a.extend(b);
        History { ops: a }
    }))
}

/// Histories over many nodes (all the operations of `histories`).
fn wide_histories() -> BoxedStrategy<History> {
    let op = || {
        prop_oneof![
            2 => (card(3), any::<bool>()).prop_map(|(card, params)| Op::AddNode { card, params }),
            1 => (30usize..300, any::<bool>()).prop_map(|(card, params)| Op::AddNode { card, params }),
            30 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AddEdge(a, b)),
            1 => Just(Op::Reset),
            1 => (prop_oneof![Just(0.0), Just(1.0), 0.0f64..0.1], any::<u64>())
                .prop_map(|(density, seed)| Op::RandomGraph { density, seed }),
            20 => (any::<u8>(), any::<u64>()).prop_map(|(node, seed)| Op::SetCim { node, seed }),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(node, value)| Op::SetStats { node, value }),
        ]
    };
    let first = vec((card(3), any::<bool>()).prop_map(|(card, params)| Op::AddNode { card, params }), 20..140);
    boxed((first, vec(op(), 1..120)).prop_map(|(mut a, b)| {
        a.extend(b);
        History { ops: a }
    }))
}

#[derive(Clone, Default)]
struct MNode {
    label: String,
    card: usize,
    cim: Option<Array3<f64>>,
    m: Option<Array3<usize>>,
    t: Option<Array2<f64>>,
}

impl MNode {
    fn clear(&mut self) {
        self.cim = None;
        self.m = None;
        self.t = None;
    }
}

fn compare(net: &CtbnNetwork, nodes: &Vec<MNode>, edges: &Option<BTreeSet<(usize, usize)>>) -> Result<(), String> {
    let n = nodes.len();
    ensure!(net.get_number_of_nodes() == n, "{} nodes reported, {} inserted", net.get_number_of_nodes(), n);
    ensure!(net.get_node_indices() == (0..n), "node indices {:?}", net.get_node_indices());
    for (i, m) in nodes.iter().enumerate() {
        let p = net.get_node(i);
        ensure!(p.get_label() == &m.label, "node {} has label {}, inserted as {}", i, p.get_label(), m.label);
        ensure!(p.get_reserved_space_as_parent() == m.card, "node {} changed its cardinality", i);
        let p = node_params(p);
        ensure!(p.get_cim() == &m.cim, "node {}: CIM is {:?}, expected {:?}", i, p.get_cim(), m.cim);
        ensure!(p.get_transitions() == &m.m, "node {}: transitions {:?}, expected {:?}", i, p.get_transitions(), m.m);
        ensure!(p.get_residence_time() == &m.t, "node {}: times {:?}, expected {:?}", i, p.get_residence_time(), m.t);
    }
    if let Some(edges) = edges {
        for i in 0..n {
            let ps: BTreeSet<usize> = edges.iter().filter(|e| e.1 == i).map(|e| e.0).collect();
            let cs: BTreeSet<usize> = edges.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
            ensure!(net.get_parent_set(i) == ps, "parents of {}: {:?}, expected {:?}", i, net.get_parent_set(i), ps);
            ensure!(net.get_children_set(i) == cs, "children of {}: {:?}, expected {:?}", i, net.get_children_set(i), cs);
        }
        match net.get_adj_matrix() {
            None => return Err("no adjacency matrix although the graph is initialised".into()),
            Some(a) => {
                ensure!(a.shape() == [n, n], "adjacency matrix of shape {:?} for {} nodes", a.shape(), n);
                for i in 0..n {
                    for j in 0..n {
                        ensure!(
                            a[[i, j]] == edges.contains(&(i, j)) as u16,
                            "adjacency entry ({}, {}) is {}, edges are {:?}", i, j, a[[i, j]], edges
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

fn run(h: &History) -> Check {
    let mut net = CtbnNetwork::new();
    let mut nodes: Vec<MNode> = vec![];
    let mut edges: Option<BTreeSet<(usize, usize)>> = None;
    let (mut lost, mut repeated, mut after_edges, mut params_edge) = (false, false, false, false);
    fn drop_all(nodes: &mut Vec<MNode>, edges: &Option<BTreeSet<(usize, usize)>>) -> bool {
        let mut any = false;
        if let Some(e) = edges {
            for (_, c) in e {
                any |= nodes[*c].cim.is_some();
                nodes[*c].clear();
            }
        }
        any
    }
    for (step, op) in h.ops.iter().enumerate() {
        let n = nodes.len();
        match op {
            Op::AddNode { card, params } => {
                let label = format!("node-{}", step);
                let mut p = new_node(&label, *card);
                if *params {
                    p.set_cim_unchecked(Array3::from_elem((1, *card, *card), 0.5));
                    p.set_transitions(Array3::from_elem((1, *card, *card), 3));
                    p.set_residence_time(Array2::from_elem((1, *card), 2.0));
                }
                if edges.as_ref().map_or(false, |e| !e.is_empty()) {
                    after_edges = true;
                }
                let r = net.add_node(Params::DiscreteStatesContinousTime(p));
                ensure!(r.as_ref().ok() == Some(&n), "step {}: node number {} inserted, got {:?}", step, n, r);
                lost |= drop_all(&mut nodes, &edges);
                edges = None;
                nodes.push(MNode { label, card: *card, ..Default::default() });
            }
            Op::AddEdge(a, b) => {
                let (a, b) = (*a as usize % n, *b as usize % n);
                if a == b {
                    continue;
                }
                net.add_edge(a, b);
                let e = edges.get_or_insert_with(BTreeSet::new);
                repeated |= !e.insert((a, b));
                params_edge |= nodes[b].cim.is_some();
                nodes[b].clear();
            }
            Op::Reset => {
                net.initialize_adj_matrix();
                lost |= drop_all(&mut nodes, &edges);
                edges = Some(BTreeSet::new());
            }
            Op::RandomGraph { density, seed } => {
                let mut g = UniformGraphGenerator::new(*density, Some(*seed));
                g.generate_graph(&mut net);
                lost |= drop_all(&mut nodes, &edges);
                // the drawn edges are read back from one view; the others must agree with it
                let mut e = BTreeSet::new();
                for i in 0..n {
                    for p in net.get_parent_set(i) {
                        ensure!(p < n && p != i, "random graph has edge {} -> {}", p, i);
                        e.insert((p, i));
                        nodes[i].clear();
                    }
                }
                edges = Some(e);
            }
            Op::SetCim { node, seed } => {
                let i = *node as usize % n;
                let u: usize = match &edges {
                    None => 1,
                    Some(e) => e.iter().filter(|e| e.1 == i).fold(1, |u, e| u.saturating_mul(nodes[e.0].card)),
                };
                let limit = if nodes.len() > 12 { 100_000 } else { 5000 };
                if u.saturating_mul(nodes[i].card * nodes[i].card) > limit {
                    continue;
                }
                let k = nodes[i].card;
                let spec = RateSpec { kind: RateKind::Uniform, seed: *seed, scale: 0 };
                let c = gen_cim(&spec, u, k, &mut Rand::new(*seed));
                let a = Array3::from_shape_fn((u, k, k), |(u, x, y)| c[u][x][y]);
                match net.get_node_mut(i) {
                    Params::DiscreteStatesContinousTime(p) => {
                        let r = p.set_cim(a.clone());
                        ensure!(r.is_ok(), "step {}: valid CIM rejected: {:?}", step, r);
                    }
                }
                nodes[i].cim = Some(a);
            }
            Op::SetStats { node, value } => {
                let i = *node as usize % n;
                let k = nodes[i].card;
                let m = Array3::from_elem((1, k, k), *value as usize);
                let t = Array2::from_elem((1, k), *value as f64);
                match net.get_node_mut(i) {
                    Params::DiscreteStatesContinousTime(p) => {
                        p.set_transitions(m.clone());
                        p.set_residence_time(t.clone());
                    }
                }
                nodes[i].m = Some(m);
                nodes[i].t = Some(t);
            }
        }
        // in the wide histories the nodes first inserted bare are looked at together
        if nodes.len() > 12 && edges.is_none() && step % 16 != 0 && step + 1 < h.ops.len() {
            continue;
        }
        compare(&net, &nodes, &edges).map_err(|e| format!("after step {} ({:?}): {}", step, op, e))?;
    }
    Ok(Obs::new(edges.map_or(false, |e| !e.is_empty()) && nodes.len() > 1)
        .tag(nodes.len() > 64, "more than 64 nodes")
        .tag(lost, "parameters dropped with edges")
        .tag(repeated, "repeated edge")
        .tag(after_edges, "node inserted after edges")
        .tag(params_edge, "edge into a node with parameters"))
}

pub fn subs() -> Vec<Sub> {
    vec![sub(
        "edit history",
        "1..5 initial nodes followed by up to 40 operations (insert node, add edge, reset, random graph, assign CIM or statistics), compared with a set-of-edges model after every step; non-trivial: ends with at least one edge and two nodes",
        80_000,
        histories,
        run,
    ), sub(
        "wide edit history",
        "as above with 20..140 initial nodes, cardinalities up to 299 and up to 120 operations; non-trivial: as above",
        250,
        wide_histories,
        run,
    )]
}
