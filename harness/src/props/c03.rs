//! C03: numbering of parent configurations.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::Array1;
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    cards: Vec<usize>,
    edges: Vec<(usize, usize)>,
    masks: Vec<u32>,
    fill: u64,
    /// order in which the edges are inserted
    reversed: bool,
}

fn structure(c: &Case) -> Result<CtbnNetwork, String> {
    let net = Net { cards: c.cards.clone(), parents: vec![vec![]; c.cards.len()], cims: vec![] };
    let mut net = net.build_structure()?;
    let mut e = c.edges.clone();
    if c.reversed {
        e.reverse();
    }
    for (a, b) in e {
        net.add_edge(a, b);
    }
    Ok(net)
}

fn cases() -> BoxedStrategy<Case> {
    boxed(
        (vec(card(12), 1..13), vec((0usize..64, 0usize..64), 0..60), vec(any::<u32>(), 1..4), any::<u64>(), any::<bool>())
            .prop_map(|(cards, raw, masks, fill, reversed)| {
                let edges = clean_edges(&cards, &raw, 5000);
                Case { cards, edges, masks, fill, reversed }
            }),
    )
}

/// Every configuration of `set` on one random filling of the remaining variables.
fn check_set(net: &CtbnNetwork, cards: &[usize], node: Option<usize>, set: &[usize], rng: &mut Rand) -> Result<usize, String> {
    let total: usize = set.iter().map(|v| cards[*v]).product();
    let bset: BTreeSet<usize> = set.iter().cloned().collect();
    let mut seen = vec![false; total];
    for want in 0..total {
        let mut state: Vec<usize> = cards.iter().map(|c| rng.below(*c)).collect();
        let mut r = want;
        for v in set {
            state[*v] = r % cards[*v];
            r /= cards[*v];
        }
        let s = st(&state);
        let got = net.get_param_index_from_custom_parent_set(&s, &bset);
        ensure!(got == want, "set {:?} in state {:?} (cardinalities {:?}): index {} instead of {}", set, state, cards, got, want);
        if let Some(node) = node {
            let got = net.get_param_index_network(node, &s);
            ensure!(got == want, "node {} with parents {:?} in state {:?} (cardinalities {:?}): index {} instead of {}", node, set, state, cards, got, want);
        }
        ensure!(!seen[got], "index {} given twice", got);
        seen[got] = true;
    }
    Ok(total)
}

fn bijection(c: &Case) -> Check {
    let net = structure(c)?;
    let n = c.cards.len();
    let mut rng = Rand::new(c.fill);
    let (mut big, mut mixed) = (false, false);
    for node in 0..n {
        let ps: Vec<usize> = net.get_parent_set(node).into_iter().collect();
        let mut want: Vec<usize> = c.edges.iter().filter(|e| e.1 == node).map(|e| e.0).collect();
        want.sort();
        ensure!(ps == want, "parents of {} are {:?}, expected {:?}", node, ps, want);
        check_set(&net, &c.cards, Some(node), &ps, &mut rng)?;
        big |= ps.len() > 2;
        mixed |= ps.len() > 1 && ps.iter().any(|p| c.cards[*p] != c.cards[ps[0]]);
    }
    for m in &c.masks {
        let mut set = vec![];
        let mut size = 1;
        for v in 0..n {
            if m >> v & 1 == 1 && size * c.cards[v] <= 4000 {
                size *= c.cards[v];
                set.push(v);
            }
        }
        check_set(&net, &c.cards, None, &set, &mut rng)?;
    }
    Ok(Obs::new(mixed).tag(big, "three or more parents").tag(mixed, "mixed cardinalities"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Wide {
    cards: Vec<usize>,
    edges: Vec<(usize, usize)>,
    sets: Vec<Vec<u16>>,
    fill: u64,
}

/// Parent sets with up to 2^62 configurations: generated states and the ends of the numbering.
fn wide(c: &Wide) -> Check {
    let case = Case { cards: c.cards.clone(), edges: c.edges.clone(), masks: vec![], fill: c.fill, reversed: c.fill % 2 == 0 };
    let net = structure(&case)?;
    let n = c.cards.len();
    let mut rng = Rand::new(c.fill);
    let mut widest = 0;
    let mut look = |node: Option<usize>, set: &[usize]| -> Result<(), String> {
        let bset: BTreeSet<usize> = set.iter().cloned().collect();
        let total: usize = set.iter().map(|v| c.cards[*v]).product();
        widest = widest.max(total);
        for i in 0..12 {
            let mut state: Vec<usize> = c.cards.iter().map(|c| rng.below(*c)).collect();
            for v in set {
                match i {
                    0 => state[*v] = 0,
                    1 => state[*v] = c.cards[*v] - 1,
                    // all but one parent at the end of its domain
                    2..=5 => state[*v] = c.cards[*v] - 1,
                    _ => {}
                }
            }
            if (2..=5).contains(&i) && !set.is_empty() {
                let v = set[rng.below(set.len())];
                state[v] = rng.below(c.cards[v]);
            }
            let want = mixed_index(&c.cards, set, &state);
            let s = st(&state);
            let got = net.get_param_index_from_custom_parent_set(&s, &bset);
            ensure!(got == want, "set {:?} in state {:?}: index {} instead of {}", set, state, got, want);
            if let Some(node) = node {
                let got = net.get_param_index_network(node, &s);
                ensure!(got == want, "node {} with parents {:?} in state {:?}: index {} instead of {}", node, set, state, got, want);
            }
        }
        Ok(())
    };
    for node in 0..n {
        let ps: Vec<usize> = net.get_parent_set(node).into_iter().collect();
        let mut want: Vec<usize> = c.edges.iter().filter(|e| e.1 == node).map(|e| e.0).collect();
        want.sort();
        ensure!(ps == want, "parents of {} are {:?}, expected {:?}", node, ps, want);
        look(Some(node), &ps)?;
    }
    for l in &c.sets {
        look(None, &subset_of_list(&c.cards, usize::MAX, l, 1 << 62))?;
    }
    Ok(Obs::new(widest > 1 << 16)
        .tag(n > 64, "more than 64 nodes")
        .tag(widest > 1 << 32, "more than 2^32 configurations")
        .tag(c.cards.iter().any(|k| *k > 255), "more than 255 states"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Joint {
    cards: Vec<usize>,
    picks: Vec<u64>,
}

fn inverse(c: &Joint) -> Check {
    let n = c.cards.len();
    let net = Net { cards: c.cards.clone(), parents: vec![vec![]; n], cims: vec![] }.build_structure()?;
    let all: BTreeSet<usize> = (0..n).collect();
    let total: usize = c.cards.iter().product();
    let dom = Array1::from_vec(c.cards.clone());
    let mut idxs: Vec<usize> = c.picks.iter().map(|p| (*p % total as u64) as usize).collect();
    idxs.push(0);
    idxs.push(total - 1);
    if total <= 300 {
        idxs = (0..total).collect();
    }
    for i in idxs {
        let s = CtbnNetwork::idx_to_state(&dom, i).to_vec();
        ensure!(s == decode(&c.cards, i), "joint state {} of {:?} is {:?}, expected {:?}", i, c.cards, s, decode(&c.cards, i));
        let back = net.get_param_index_from_custom_parent_set(&st(&s), &all);
        ensure!(back == i, "joint state {} of {:?} maps to {:?} and back to {}", i, c.cards, s, back);
    }
    Ok(Obs::new(n > 1).tag(c.cards.iter().any(|x| *x != c.cards[0]), "mixed cardinalities"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "parent index",
            "networks of 1..12 nodes, cardinalities 2..12: all configurations of every node's parent set and of generated sets, other variables filled at random; non-trivial: some node has two parents of different cardinality",
            12_000,
            cases,
            bijection,
        ),
        sub(
            "joint state inverse",
            "cardinality vectors of 1..12 nodes: all joint states when at most 300, else generated ones and both ends; non-trivial: more than one node",
            40_000,
            || boxed((vec(card(12), 1..13), vec(any::<u64>(), 1..40)).prop_map(|(cards, picks)| Joint { cards, picks })),
            inverse,
        ),
        sub(
            "wide parent index",
            "networks of 13..140 nodes with up to 700 states and parent sets of up to 2^62 configurations: indices of generated states and of the ends of the numbering; non-trivial: some set with more than 65536 configurations",
            300,
            || {
                let card = prop_oneof![12 => 2usize..=3, 4 => 2usize..=9, 1 => 2usize..=700];
                let edge = (0usize..1024, prop_oneof![2 => 0usize..1024, 1 => 0usize..3]);
                boxed((vec(card, 13..140), vec(edge, 0..400), vec(vec(any::<u16>(), 0..80), 1..6), any::<u64>())
                    .prop_map(|(cards, raw, sets, fill)| {
                        let edges = clean_edges(&cards, &raw, 1 << 62);
                        Wide { cards, edges, sets, fill }
                    }))
            },
            wide,
        ),
    ]
}
