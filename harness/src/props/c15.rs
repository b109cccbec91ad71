//! C15: the estimation cache.
use super::c13::{alpha, bayes};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array2, Array3};
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};
use reCTBN::tools::Dataset;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Estimator {
    Mle,
    Bayes(usize, f64),
    /// a table that spells out node and parent set
    Tag,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Requests {
    net: NetSpec,
    data: DataSpec,
    node: u8,
    estimator: Estimator,
    masks: Vec<u32>,
}

struct Tag;
impl ParameterLearning for Tag {
    fn fit<T: NetworkProcess>(&self, net: &T, _d: &Dataset, node: usize, parent_set: Option<BTreeSet<usize>>) -> Params {
        let set: Vec<usize> = parent_set.unwrap().into_iter().collect();
        let n = set.len();
        let mut p = net.get_node(node).clone();
        match &mut p {
            Params::DiscreteStatesContinousTime(q) => {
                q.set_cim_unchecked(Array3::from_shape_fn((1, 1, n + 1), |(_, _, i)| if i < n { set[i] as f64 } else { node as f64 }));
                q.set_transitions(Array3::from_shape_fn((1, n, 1), |(_, i, _)| set[i]));
                q.set_residence_time(Array2::from_elem((1, 1), set.iter().sum::<usize>() as f64));
            }
        }
        p
    }
}

/// Everything a fitted node carries, with the bits of its numbers.
fn image(p: &Params) -> (String, Vec<usize>, Vec<u64>, Vec<usize>, Vec<u64>) {
    let q = node_params(p);
    let cim = q.get_cim().as_ref().map(|a| (a.shape().to_vec(), a.iter().map(|x| x.to_bits()).collect())).unwrap_or((vec![999], vec![]));
    let tr = q.get_transitions().as_ref().map(|a| a.iter().cloned().collect()).unwrap_or(vec![]);
    let t = q.get_residence_time().as_ref().map(|a| a.iter().map(|x| x.to_bits()).collect()).unwrap_or(vec![]);
    (q.get_label().clone(), cim.0, cim.1, tr, t)
}

fn replay<P: ParameterLearning>(pl: &P, net: &CtbnNetwork, d: &Dataset, node: usize, sets: &[Vec<usize>]) -> Result<(), String> {
    let mut cache = Cache::new(pl);
    for (i, s) in sets.iter().enumerate() {
        let set: BTreeSet<usize> = s.iter().cloned().collect();
        let got = cache.fit(net, d, node, Some(set.clone()));
        let want = pl.fit(net, d, node, Some(set));
        ensure!(
            image(&got) == image(&want),
            "request {} (parents {:?}, after {:?}): the cache returns {:?}, the estimator {:?}",
            i, s, &sets[..i], node_params(&got).get_cim(), node_params(&want).get_cim()
        );
    }
    Ok(())
}

fn requests(c: &Requests) -> Check {
    let m = c.net.net();
    let node = c.node as usize % m.n();
    let sets: Vec<Vec<usize>> = c.masks.iter().map(|mask| subset(&m.cards, node, *mask, 300)).collect();
    sequence(&m, c.data.expand(&m), node, sets, c.estimator)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WideRequests {
    net: NetSpec,
    data: DataSpec,
    node: u16,
    estimator: Estimator,
    sets: Vec<Vec<u16>>,
    again: Vec<u8>,
    rows: usize,
}

fn wide_requests(c: &WideRequests) -> Check {
    let m = c.net.net();
    let node = c.node as usize % m.n();
    // the tagging estimator does not look at the data, so its sets may be of any size
    let rows = if matches!(c.estimator, Estimator::Tag) { 1 << 60 } else { c.rows };
    let mut sets: Vec<Vec<usize>> = c.sets.iter().map(|l| subset_of_list(&m.cards, node, l, rows)).collect();
    for a in &c.again {
        let what = sets[*a as usize % sets.len()].clone();
        let at = (*a as usize / 3) % (sets.len() + 1);
        sets.insert(at, what);
    }
    sequence(&m, c.data.expand(&m), node, sets, c.estimator)
}

fn sequence(m: &Net, trajs: Vec<Traj>, node: usize, sets: Vec<Vec<usize>>, estimator: Estimator) -> Check {
    let n = m.n();
    let d = dataset(&trajs, n);
    let net = m.build()?;
    match estimator {
        Estimator::Mle => replay(&MLE {}, &net, &d, node, &sets)?,
        Estimator::Bayes(alpha, tau) => replay(&BayesianApproach { alpha, tau }, &net, &d, node, &sets)?,
        Estimator::Tag => replay(&Tag, &net, &d, node, &sets)?,
    }
    let sizes: Vec<usize> = sets.iter().map(|s| s.len()).collect();
    let mut seen: Vec<&Vec<usize>> = vec![];
    let mut repeats = 0;
    for s in &sets {
        if seen.contains(&s) {
            repeats += 1;
        }
        seen.push(s);
    }
    let falls = sizes.windows(2).any(|w| w[1] < w[0]);
    Ok(Obs::new(repeats > 0 && falls)
        .tag(sizes.windows(2).any(|w| w[1] > w[0] + 1), "size jumps up by more than one")
        .tag(sizes.windows(2).any(|w| w[1] + 1 < w[0]), "size jumps down by more than one")
        .tag(sets.iter().enumerate().any(|(i, s)| sets[..i].iter().any(|r| r.len() == s.len() && r != s)), "different sets of the same size")
        .tag(sizes.first().map_or(false, |x| *x > 2), "starts with a large set")
        .tag(n > 64, "more than 64 nodes")
        .tag(sizes.iter().any(|k| *k > 8), "more than eight parents")
        .tag(sets.len() > 255, "more than 255 requests")
        .tag(matches!(estimator, Estimator::Tag), "tagging estimator"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Decisions {
    net: NetSpec,
    data: DataSpec,
    child: u8,
    alpha_f: f64,
    alpha_chi: f64,
    bayes: Option<(usize, f64)>,
    /// (candidate, separating set, F or chi-squared)
    asks: Vec<(u8, u32, bool)>,
}

fn ask<P: ParameterLearning>(c: &Decisions, pl: &P, net: &CtbnNetwork, cards: &[usize], d: &Dataset) -> Result<(usize, usize), String> {
    let n = cards.len();
    let child = c.child as usize % n;
    let mut shared = Cache::new(pl);
    let (mut yes, mut no) = (0, 0);
    let (f, chi) = (F::new(c.alpha_f), ChiSquare::new(c.alpha_chi));
    for (i, (p, mask, which)) in c.asks.iter().enumerate() {
        let parent = (child + 1 + *p as usize % (n - 1)) % n;
        let sep: BTreeSet<usize> = subset(cards, child, mask & !(1 << parent), 300 / cards[parent]).into_iter().collect();
        let mut fresh = Cache::new(pl);
        let (a, b) = if *which {
            (
                catching(|| f.call(net, child, parent, &sep, d, &mut shared)),
                catching(|| f.call(net, child, parent, &sep, d, &mut fresh)),
            )
        } else {
            (
                catching(|| chi.call(net, child, parent, &sep, d, &mut shared)),
                catching(|| chi.call(net, child, parent, &sep, d, &mut fresh)),
            )
        };
        ensure!(a == b, "decision {} ({} -> {} given {:?}, F: {}) is {:?} with a used cache, {:?} with a fresh one", i, parent, child, sep, which, a, b);
        match a {
            Ok(true) => yes += 1,
            Ok(false) => no += 1,
            // The F test fails on rows without transitions (a known finding of C14): that is a
            // decision like the others here, as long as it does not depend on the cache.
            Err(e) => ensure!(known_panic(&e), "decision {}: panicked: {}", i, e),
        }
    }
    Ok((yes, no))
}

fn decisions(c: &Decisions) -> Check {
    let m = c.net.net();
    let trajs = c.data.expand(&m);
    let d = dataset(&trajs, m.n());
    let net = m.build_structure()?;
    let (yes, no) = match c.bayes {
        None => ask(c, &MLE {}, &net, &m.cards, &d)?,
        Some((alpha, tau)) => ask(c, &BayesianApproach { alpha, tau }, &net, &m.cards, &d)?,
    };
    Ok(Obs::new(yes > 0 && no > 0).tag(c.asks.len() > 8, "more than eight decisions"))
}

pub fn subs() -> Vec<Sub> {
    const NETS: NetCfg = NetCfg { n: (2, 7), max_card: 4, max_edges: 8, max_rows: 80, max_joint: 20_000, scale: 0 };
    vec![
        sub(
            "request sequences",
            "sequences of up to 30 parent sets (any order of sizes, repetitions) requested through one cache over the two estimators or a tagging one; every answer compared bit by bit with the estimator's own; non-trivial: a repeated set and a later smaller set",
            25_000,
            || {
                let estimator = prop_oneof![
                    1 => Just(Estimator::Mle),
                    1 => (0usize..20, (-2.0f64..2.0).prop_map(|e| 10f64.powf(e))).prop_map(|(a, t)| Estimator::Bayes(a, t)),
                    1 => Just(Estimator::Tag),
                ];
                let mask = prop_oneof![2 => any::<u32>(), 2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b), 1 => (0u32..8).prop_map(|b| 1 << b), 1 => Just(0u32), 1 => Just(u32::MAX)];
                let masks = (vec(mask, 1..16), vec(any::<u8>(), 0..16)).prop_map(|(m, again)| {
                    let mut out = m.clone();
                    for a in again {
                        let at = a as usize % (out.len() + 1);
                        let what = m[(a as usize / 7) % m.len()];
                        out.insert(at, what);
                    }
                    out
                });
                let data = prop_oneof![1 => any_data(1), 2 => (any::<u64>(), 1usize..3, 5usize..80).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len })];
                boxed((net_spec(NETS), data, any::<u8>(), estimator, masks)
                    .prop_map(|(net, data, node, estimator, masks)| Requests { net, data, node, estimator, masks }))
            },
            requests,
        ),
        sub(
            "decisions",
            "sequences of up to 14 F and chi-squared decisions for one child sharing a cache, each compared with the decision taken with a fresh cache; non-trivial: both outcomes occur",
            6_000,
            || {
                let data = prop_oneof![1 => any_data(1), 3 => (any::<u64>(), 1usize..4, 20usize..400).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len })];
                let spec = prop_oneof![2 => rich(6, 96), 1 => (net_spec(NETS), data)];
                boxed((spec, any::<u8>(), alpha(), alpha(), bayes(), vec((any::<u8>(), any::<u32>(), any::<bool>()), 1..15))
                    .prop_map(|((net, data), child, alpha_f, alpha_chi, bayes, asks)| Decisions { net, data, child, alpha_f, alpha_chi, bayes, asks }))
            },
            decisions,
        ),
        sub(
            "request sequences (many nodes)",
            "as the first check over 8..200 nodes, with sets of related members (differing by 64, 128 or a power of two, or by one member) and up to 600 requests; non-trivial: as above",
            2_000,
            || {
                let estimator = prop_oneof![
                    1 => Just(Estimator::Mle),
                    1 => (0usize..20, (-2.0f64..2.0).prop_map(|e| 10f64.powf(e))).prop_map(|(a, t)| Estimator::Bayes(a, t)),
                    2 => Just(Estimator::Tag),
                ];
                let set = prop_oneof![
                    3 => vec(any::<u16>(), 0..4),
                    1 => vec(any::<u16>(), 0..40),
                    // pairs of sets whose members differ by a fixed distance
                    3 => (vec(0u16..64, 1..4), prop_oneof![Just(32u16), Just(64), Just(128), Just(256), 1u16..200]).prop_map(|(mut v, k)| {
                        for x in v.iter_mut() {
                            *x += k;
                        }
                        v
                    }),
                    3 => vec(0u16..64, 1..4),
                ];
                let sets = prop_oneof![6 => vec(set.clone(), 1..40), 1 => vec(set, 200..600)];
                let near = sets.prop_map(|sets| {
                    // each set also with its first member moved by 64
                    let mut out = vec![];
                    for s in sets {
                        out.push(s.clone());
                        if s.len() % 2 == 1 {
                            let mut t = s;
                            t[0] = t[0].wrapping_add(64);
                            out.push(t);
                        }
                    }
                    out
                });
                let data = (any::<u64>(), 1usize..3, 5usize..150, any::<bool>()).prop_map(|(seed, trajs, len, multi)| DataSpec::Walk { seed, trajs, len, multi });
                boxed((wide_spec((8, 200), 5, 60, 0), data, any::<u16>(), estimator, near, vec(any::<u8>(), 0..30), prop_oneof![Just(100usize), Just(600)])
                    .prop_map(|(net, data, node, estimator, sets, again, rows)| WideRequests { net, data, node, estimator, sets, again, rows }))
            },
            wide_requests,
        ),
    ]
}
