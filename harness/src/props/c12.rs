//! C12: hill climbing.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::params::ParamsTrait;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};

const NETS: NetCfg = NetCfg { n: (1, 7), max_card: 3, max_edges: 10, max_rows: 150, max_joint: 10_000, scale: 0 };

/// How the scores of the parent sets of one node are ranked. All ranks of a node are distinct.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Shape {
    /// a random permutation of the sets
    Random,
    /// sets ranked by the sum of random weights of their members (ties broken at random)
    Additive,
    /// weights plus pair effects of the given strength
    Pairs(f64),
    /// the larger the better / worse, with noise
    Size(bool, f64),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Scores {
    shape: Shape,
    seed: u64,
    /// score = (rank + shift) * 2^unit
    shift: i64,
    unit: i32,
}

impl Scores {
    /// Score of every subset (bit mask) of the n nodes for one node.
    fn table(&self, n: usize, node: usize, variant: u64) -> Vec<f64> {
        let mut r = Rand::new(fnv(format!("{}/{}/{}", self.seed, node, variant).as_bytes()));
        let w: Vec<f64> = (0..n).map(|_| r.normal() - 0.2).collect();
        let pair: Vec<Vec<f64>> = (0..n).map(|_| (0..n).map(|_| r.normal()).collect()).collect();
        let size = 1usize << n;
        let raw: Vec<f64> = (0..size)
            .map(|mask| {
                let on: Vec<usize> = (0..n).filter(|v| mask >> v & 1 == 1).collect();
                let noise = r.f();
                match self.shape {
                    Shape::Random => noise,
                    Shape::Additive => on.iter().map(|v| w[*v]).sum::<f64>() + noise * 1e-6,
                    Shape::Pairs(s) => {
                        let mut x: f64 = on.iter().map(|v| w[*v]).sum();
                        for (i, a) in on.iter().enumerate() {
                            for b in &on[..i] {
                                x += s * pair[*a][*b];
                            }
                        }
                        x + noise * 1e-6
                    }
                    Shape::Size(up, s) => on.len() as f64 * if up { 1.0 } else { -1.0 } + s * noise,
                }
            })
            .collect();
        let mut order: Vec<usize> = (0..size).collect();
        order.sort_by(|a, b| raw[*a].partial_cmp(&raw[*b]).unwrap().then(a.cmp(b)));
        let mut out = vec![0.0; size];
        for (rank, mask) in order.iter().enumerate() {
            out[*mask] = (rank as f64 + self.shift as f64) * 2f64.powi(self.unit);
        }
        out
    }
}

struct TableScore {
    tables: Vec<Vec<f64>>,
    calls: AtomicU64,
}

impl ScoreFunction for TableScore {
    fn call<T: NetworkProcess>(&self, _net: &T, node: usize, parent_set: &BTreeSet<usize>, _d: &Dataset) -> f64 {
        if self.calls.fetch_add(1, Ordering::Relaxed) > 400_000 {
            panic!("hill climbing does not terminate");
        }
        self.tables[node][mask_of(parent_set)]
    }
}

fn mask_of(s: &BTreeSet<usize>) -> usize {
    s.iter().fold(0, |a, v| a | 1 << v)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    net: NetSpec,
    scores: Scores,
    max: Option<u8>,
    /// the input network has its edges and parameters
    dressed: bool,
    other: u8,
}

fn data_for(n: usize) -> Dataset {
    dataset(&[Traj { t: vec![0.0, 1.0], ev: vec![vec![0; n], vec![0; n]] }], n)
}

fn masks(net: &CtbnNetwork) -> Vec<usize> {
    (0..net.get_number_of_nodes()).map(|v| mask_of(&net.get_parent_set(v))).collect()
}

pub fn same_nodes(net: &CtbnNetwork, m: &Net) -> Result<(), String> {
    ensure!(net.get_number_of_nodes() == m.n(), "{} nodes left of {}", net.get_number_of_nodes(), m.n());
    for v in 0..m.n() {
        let p = net.get_node(v);
        ensure!(p.get_label() == &format!("n{}", v), "node {} is now labelled {}", v, p.get_label());
        ensure!(p.get_reserved_space_as_parent() == m.cards[v], "node {} now has {} states", v, p.get_reserved_space_as_parent());
        for w in 0..m.n() {
            ensure!(
                net.get_parent_set(v).contains(&w) == net.get_children_set(w).contains(&v),
                "nodes {} and {} disagree about the edge between them", w, v
            );
        }
    }
    Ok(())
}

fn table_scores(c: &Case) -> Check {
    let m = c.net.net();
    let n = m.n();
    let max = c.max.map(|x| x as usize);
    let limit = max.unwrap_or(n);
    let tables: Vec<Vec<f64>> = (0..n).map(|v| c.scores.table(n, v, 0)).collect();
    let run = |tables: &Vec<Vec<f64>>, dressed: bool| -> Result<CtbnNetwork, String> {
        let score = TableScore { tables: tables.clone(), calls: AtomicU64::new(0) };
        let net = if dressed {
            m.build()?
        } else {
            Net { parents: vec![vec![]; n], ..m.clone() }.build_structure()?
        };
        Ok(HillClimbing::new(score, max).fit_transform(net, &data_for(n)))
    };
    let out = run(&tables, c.dressed)?;
    same_nodes(&out, &m)?;
    let got = masks(&out);
    for v in 0..n {
        let s = got[v];
        let size = s.count_ones() as usize;
        ensure!(s >> v & 1 == 0, "node {} is its own parent", v);
        ensure!(size <= limit, "node {} has {} parents, at most {} allowed", v, size, limit);
        ensure!(tables[v][s] >= tables[v][0], "parent set {:#b} of node {} scores {} below the empty set {}", s, v, tables[v][s], tables[v][0]);
        for w in 0..n {
            if w == v {
                continue;
            }
            let t = s ^ (1 << w);
            if t.count_ones() as usize <= limit {
                ensure!(
                    tables[v][t] <= tables[v][s],
                    "parent set {:#b} of node {} scores {}, changing node {} scores {}", s, v, tables[v][s], w, tables[v][t]
                );
            }
        }
    }
    // the previous graph and parameters have no influence
    let again = masks(&run(&tables, !c.dressed)?);
    ensure!(again == got, "the previous graph changes the result from {:?} to {:?}", got, again);
    // nor have the scores of other nodes
    let v = c.other as usize % n;
    let mut others: Vec<Vec<f64>> = (0..n).map(|w| c.scores.table(n, w, 1)).collect();
    others[v] = tables[v].clone();
    let third = masks(&run(&others, c.dressed)?);
    ensure!(third[v] == got[v], "other nodes' scores change the parents of node {} from {:#b} to {:#b}", v, got[v], third[v]);
    let biggest = got.iter().map(|s| s.count_ones()).max().unwrap_or(0);
    Ok(Obs::new(biggest >= 2)
        .tag(c.net.edges.len() > 0, "input network with edges")
        .tag(max.map_or(false, |x| biggest as usize == x), "size limit reached")
        .tag(max == Some(0), "no parents allowed")
        .tag(max.is_none(), "no limit")
        .tag(c.scores.unit < -10, "tiny score differences")
        .tag(biggest as usize == n - 1 && n > 2, "all others are parents"))
}

fn scores() -> BoxedStrategy<Scores> {
    let shape = prop_oneof![
        2 => Just(Shape::Random),
        3 => Just(Shape::Additive),
        3 => (0.3f64..3.0).prop_map(Shape::Pairs),
        2 => (any::<bool>(), 0.0f64..6.0).prop_map(|(u, s)| Shape::Size(u, s)),
    ];
    // the last two: differences that are tiny compared with the scores, as those of log-likelihoods are
    let shift = prop_oneof![
        2 => Just(0i64),
        1 => -100_000i64..100_000,
        1 => Just(-64i64),
        1 => (20u32..46).prop_map(|e| 1i64 << e),
        1 => (20u32..46).prop_map(|e| -(1i64 << e)),
    ];
    let unit = prop_oneof![2 => Just(0i32), 1 => -60i32..-10, 1 => 0i32..60];
    boxed((shape, any::<u64>(), shift, unit).prop_map(|(shape, seed, shift, unit)| Scores { shape, seed, shift, unit }))
}

// ---------------------------------------------------------------------------------------------
// Many nodes: scores computed on the fly

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WideCase {
    net: NetSpec,
    seed: u64,
    /// mean of the weights, strength of the pair effects, cost growing with the square of the size
    mean: f64,
    pairs: f64,
    crowd: f64,
    unit: i32,
    max: Option<u8>,
    dressed: bool,
}

/// A score of every parent set: member weights, pair effects, a cost of size, and a small value drawn
/// from the set itself that keeps all scores distinct.
struct LazyScore {
    seed: u64,
    mean: f64,
    pairs: f64,
    crowd: f64,
    unit: i32,
    calls: AtomicU64,
}

impl LazyScore {
    fn of(c: &WideCase) -> LazyScore {
        LazyScore { seed: c.seed, mean: c.mean, pairs: c.pairs, crowd: c.crowd, unit: c.unit, calls: AtomicU64::new(0) }
    }
    fn draw(&self, a: u64, b: u64, c: u64) -> Rand {
        let mut s = self.seed ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        s = splitmix(&mut s) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03);
        s = splitmix(&mut s) ^ c.wrapping_mul(0xABCD_EF12_3456_789B);
        Rand::new(s)
    }
    fn value(&self, node: usize, set: &BTreeSet<usize>) -> f64 {
        let mut x = 0.0;
        let mut mix = 0u64;
        for a in set {
            x += self.mean + self.draw(node as u64, *a as u64, 1).normal();
            let mut h = mix ^ *a as u64;
            mix = splitmix(&mut h).wrapping_add(mix);
            if self.pairs > 0.0 {
                for b in set.range(..a) {
                    x += self.pairs * self.draw(node as u64, *a as u64, 2 + *b as u64).normal();
                }
            }
        }
        x -= self.crowd * (set.len() * set.len()) as f64;
        x += 1e-9 * self.draw(node as u64, mix, set.len() as u64 + 1_000_000).f();
        x * 2f64.powi(self.unit)
    }
}

impl ScoreFunction for LazyScore {
    fn call<T: NetworkProcess>(&self, _net: &T, node: usize, parent_set: &BTreeSet<usize>, _d: &Dataset) -> f64 {
        if self.calls.fetch_add(1, Ordering::Relaxed) > 20_000_000 {
            panic!("hill climbing does not terminate");
        }
        self.value(node, parent_set)
    }
}

fn wide_scores(c: &WideCase) -> Check {
    let m = c.net.net();
    let n = m.n();
    let max = c.max.map(|x| x as usize);
    let limit = max.unwrap_or(n);
    let run = |dressed: bool| -> Result<Vec<BTreeSet<usize>>, String> {
        let net = if dressed { m.build()? } else { Net { parents: vec![vec![]; n], ..m.clone() }.build_structure()? };
        let out = HillClimbing::new(LazyScore::of(c), max).fit_transform(net, &data_for(n));
        same_nodes(&out, &m)?;
        Ok((0..n).map(|v| out.get_parent_set(v)).collect())
    };
    let got = run(c.dressed)?;
    let score = LazyScore::of(c);
    for v in 0..n {
        let s = &got[v];
        let here = score.value(v, s);
        ensure!(!s.contains(&v), "node {} is its own parent", v);
        ensure!(s.len() <= limit, "node {} has {} parents, at most {} allowed", v, s.len(), limit);
        let empty = score.value(v, &BTreeSet::new());
        ensure!(here >= empty, "parents {:?} of node {} score {} below the empty set {}", s, v, here, empty);
        for w in 0..n {
            if w == v {
                continue;
            }
            let mut t = s.clone();
            if !t.remove(&w) {
                t.insert(w);
            }
            if t.len() <= limit {
                let there = score.value(v, &t);
                ensure!(there <= here, "parents {:?} of node {} score {}, changing node {} scores {}", s, v, here, w, there);
            }
        }
    }
    let again = run(!c.dressed)?;
    ensure!(again == got, "the previous graph changes the result from {:?} to {:?}", got, again);
    let biggest = got.iter().map(|s| s.len()).max().unwrap_or(0);
    Ok(Obs::new(biggest >= 2)
        .tag(n > 64, "more than 64 nodes")
        .tag(biggest > 16, "more than 16 parents")
        .tag(max.map_or(false, |x| biggest == x), "size limit reached")
        .tag(max.is_none(), "no limit"))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Real {
    net: NetSpec,
    data: DataSpec,
    alpha: usize,
    tau: f64,
    bic: bool,
    max: Option<u8>,
}

fn real_scores(c: &Real) -> Check {
    let m = c.net.net();
    let n = m.n();
    let trajs = c.data.expand(&m);
    if trajs.is_empty() {
        return Ok(Obs::new(false));
    }
    let intervals: usize = trajs.iter().map(|t| t.t.len() - 1).sum();
    if intervals == 0 {
        return Ok(Obs::new(false).tag(true, "no interval"));
    }
    let d = dataset(&trajs, n);
    let max = c.max.map(|x| x as usize);
    let limit = max.unwrap_or(n);
    let net = m.build()?;
    let out = if c.bic {
        HillClimbing::new(BIC::new(c.alpha, c.tau), max).fit_transform(net, &d)
    } else {
        HillClimbing::new(LogLikelihood::new(c.alpha, c.tau), max).fit_transform(net, &d)
    };
    same_nodes(&out, &m)?;
    let got = masks(&out);
    let (mut decided, mut largest) = (0, 0);
    for v in 0..n {
        let s = got[v];
        let size = s.count_ones() as usize;
        ensure!(s >> v & 1 == 0, "node {} is its own parent", v);
        ensure!(size <= limit, "node {} has {} parents, at most {} allowed", v, size, limit);
        let table: Vec<(f64, f64)> = (0..1usize << n)
            .map(|mask| {
                if mask >> v & 1 == 1 {
                    return (f64::NEG_INFINITY, 0.0);
                }
                let ps: Vec<usize> = (0..n).filter(|w| mask >> w & 1 == 1).collect();
                let st = stats(&m.cards, &trajs, v, &ps);
                if c.bic {
                    bic_score(&st, c.alpha, c.tau, intervals)
                } else {
                    ll_score(&st, c.alpha, c.tau)
                }
            })
            .collect();
        let tol = 1e-8 * (1.0 + table.iter().map(|x| x.1).fold(0.0, f64::max));
        let mut sorted: Vec<f64> = table.iter().map(|x| x.0).filter(|x| x.is_finite()).collect();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if sorted.windows(2).any(|w| w[1] - w[0] < 2.0 * tol) {
            continue; // (nearly) tied scores: the statement does not apply
        }
        decided += 1;
        largest = largest.max(size);
        ensure!(table[s].0 >= table[0].0 - tol, "parents {:#b} of node {} score {} below the empty set {}", s, v, table[s].0, table[0].0);
        for w in 0..n {
            let t = s ^ (1 << w);
            if w != v && t.count_ones() as usize <= limit {
                ensure!(
                    table[t].0 <= table[s].0 + tol,
                    "parents {:#b} of node {} score {}, changing node {} scores {}", s, v, table[s].0, w, table[t].0
                );
            }
        }
    }
    Ok(Obs::new(decided > 0 && largest > 0)
        .tag(c.bic, "BIC")
        .tag(decided < n, "some node with ties")
        .tag(largest > 1, "two or more parents")
        .tag(max.map_or(false, |x| largest == x), "size limit reached"))
}

/// Larger networks: only the learned set's neighbours are scored; sets that nearly tie are left out.
fn real_wide(c: &Real) -> Check {
    let m = c.net.net();
    let n = m.n();
    let trajs = c.data.expand(&m);
    let intervals: usize = trajs.iter().map(|t| t.t.len() - 1).sum();
    let d = dataset(&trajs, n);
    let max = c.max.map(|x| x as usize);
    let limit = max.unwrap_or(n);
    let net = m.build()?;
    let out = if c.bic {
        HillClimbing::new(BIC::new(c.alpha, c.tau), max).fit_transform(net, &d)
    } else {
        HillClimbing::new(LogLikelihood::new(c.alpha, c.tau), max).fit_transform(net, &d)
    };
    same_nodes(&out, &m)?;
    let (mut decided, mut largest, mut full) = (0, 0, 0);
    for v in 0..n {
        let s = out.get_parent_set(v);
        ensure!(!s.contains(&v), "node {} is its own parent", v);
        ensure!(s.len() <= limit, "node {} has {} parents, at most {} allowed", v, s.len(), limit);
        let score = |set: &BTreeSet<usize>| {
            let ps: Vec<usize> = set.iter().cloned().collect();
            let st = stats(&m.cards, &trajs, v, &ps);
            if c.bic {
                bic_score(&st, c.alpha, c.tau, intervals)
            } else {
                ll_score(&st, c.alpha, c.tau)
            }
        };
        let here = score(&s);
        let mut near = vec![score(&BTreeSet::new())];
        for w in 0..n {
            let mut t = s.clone();
            if w != v && !t.remove(&w) {
                t.insert(w);
            }
            if w != v && t.len() <= limit {
                near.push(score(&t));
            }
        }
        let tol = 1e-8 * (1.0 + near.iter().map(|x| x.1).fold(here.1, f64::max));
        let mut sorted: Vec<f64> = near.iter().skip(1).map(|x| x.0).collect();
        sorted.push(here.0);
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if sorted.windows(2).any(|w| w[1] - w[0] < 2.0 * tol) {
            continue;
        }
        decided += 1;
        largest = largest.max(s.len());
        full += (s.len() == limit) as usize;
        for x in &near {
            ensure!(x.0 <= here.0 + tol, "parents {:?} of node {} score {}, the empty set or a neighbour scores {}", s, v, here.0, x.0);
        }
    }
    Ok(Obs::new(decided > 0 && largest > 0)
        .tag(n > 8, "more than eight nodes")
        .tag(c.bic, "BIC")
        .tag(largest > 2, "three or more parents")
        .tag(full > 0, "size limit reached"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "arbitrary scores",
            "hill climbing over score tables without ties (random, additive, pair effects, size driven; spaced from 2^-60 to 2^60) for 1..7 nodes, maximum set sizes 0..8 or none, input networks with or without edges and parameters; size, self-parent and local optimality checked on the table, and repeated with the other input network and with the other nodes' scores changed; non-trivial: a learned set of at least two parents",
            40_000,
            || {
                let max = prop_oneof![3 => Just(None), 4 => (0u8..9).prop_map(Some)];
                boxed((net_spec(NETS), scores(), max, any::<bool>(), any::<u8>())
                    .prop_map(|(net, scores, max, dressed, other)| Case { net, scores, max, dressed, other }))
            },
            table_scores,
        ),
        sub(
            "likelihood and BIC",
            "hill climbing with both library scores on simulated and arbitrary datasets over 2..4 nodes; local optimality checked under independently computed scores, nodes with (nearly) tied sets left out; non-trivial: a decided node with a parent",
            6_000,
            || {
                const SMALL4: NetCfg = NetCfg { n: (2, 4), max_card: 3, max_edges: 6, max_rows: 60, max_joint: 81, scale: 0 };
                let max = prop_oneof![3 => Just(None), 3 => (0u8..5).prop_map(Some)];
                let data = prop_oneof![
                    1 => any_data(0),
                    3 => (any::<u64>(), 1usize..6, 20usize..600).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len }),
                ];
                let tau = prop_oneof![1 => Just(1.0), 2 => (-2.0f64..2.0).prop_map(|e| 10f64.powf(e))];
                boxed((net_spec(SMALL4), data, 1usize..20, tau, any::<bool>(), max)
                    .prop_map(|(net, data, alpha, tau, bic, max)| Real { net, data, alpha, tau, bic, max }))
            },
            real_scores,
        ),
        sub(
            "arbitrary scores (many nodes)",
            "as the first check for 8..110 nodes with scores computed on the fly (member weights, pair effects, cost of size, all distinct) and maximum sizes 0..40 or none; non-trivial: a learned set of at least two parents",
            300,
            || {
                let max = prop_oneof![3 => Just(None), 4 => (0u8..12).prop_map(Some), 1 => (12u8..40).prop_map(Some)];
                let n = prop_oneof![2 => 8usize..30, 1 => 30usize..111];
                let net = (n, any::<u64>(), 0usize..60).prop_map(|(n, seed, e)| {
                    let mut r = Rand::new(seed);
                    let cards: Vec<usize> = (0..n).map(|_| 2 + r.below(2)).collect();
                    let raw: Vec<(usize, usize)> = (0..e).map(|_| (r.below(n), r.below(n))).collect();
                    NetSpec { edges: clean_edges(&cards, &raw, 60), cards, rates: RateSpec { kind: RateKind::Uniform, seed, scale: 0 } }
                });
                boxed((net, any::<u64>(), -1.5f64..1.0, prop_oneof![Just(0.0), 0.05f64..1.0], prop_oneof![Just(0.0), 0.0f64..0.2], prop_oneof![2 => Just(0i32), 1 => -40i32..40], max, any::<bool>())
                    .prop_map(|(net, seed, mean, mut pairs, crowd, unit, max, dressed)| {
                        if net.n() > 40 {
                            pairs = 0.0;
                        }
                        WideCase { net, seed, mean, pairs, crowd, unit, max, dressed }
                    }))
            },
            wide_scores,
        ),
        sub(
            "likelihood and BIC (many nodes)",
            "as the second check for 5..24 nodes and maximum sizes up to 4: the learned sets compared with the empty set and with all neighbouring sets; non-trivial: a decided node with a parent",
            300,
            || {
                let net = wide_spec((5, 24), 5, 60, 0);
                let data = (any::<u64>(), 1usize..6, 100usize..2000).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len });
                let tau = prop_oneof![1 => Just(1.0), 2 => (-2.0f64..2.0).prop_map(|e| 10f64.powf(e))];
                boxed((net, data, 1usize..20, tau, any::<bool>(), 0u8..5)
                    .prop_map(|(net, data, alpha, tau, bic, max)| Real { net, data, alpha, tau, bic, max: Some(max) }))
            },
            real_wide,
        ),
    ]
}
