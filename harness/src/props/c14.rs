//! C14: the two independence tests.
use super::c13::{alpha, and, bayes, decide};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array2, Array3};
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::Params;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};
use reCTBN::tools::Dataset;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Tables {
    k: usize,
    seed: u64,
    /// counts up to 10^size
    size: f64,
    /// probability of a zero cell / zero row
    zero_cell: f64,
    zero_row: f64,
    relation: Relation,
    alpha: f64,
    /// number of matrices in the two tensors and the positions compared
    u: (usize, usize),
    at: (usize, usize),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Relation {
    Identical,
    Independent,
    /// counts drawn around a common row of proportions; rates z standard errors apart
    Near(f64),
    /// second = first * factor (rounded)
    Scaled(usize),
    /// one row differs, the others are equal
    OneRow(f64),
}

struct Pair {
    m1: Vec<Vec<usize>>,
    q1: Vec<f64>,
    m2: Vec<Vec<usize>>,
    q2: Vec<f64>,
}

fn row(c: &Tables, x: usize, r: &mut Rand) -> Vec<usize> {
    let mut out = vec![0; c.k];
    if r.f() < c.zero_row {
        return out;
    }
    let scale = 10f64.powf(r.f() * c.size);
    for y in 0..c.k {
        if y != x && r.f() >= c.zero_cell {
            out[y] = (r.f() * scale).ceil() as usize;
        }
    }
    out
}

fn disturb(base: &[usize], z: f64, r: &mut Rand) -> Vec<usize> {
    base.iter().map(|v| ((*v as f64) + z * (*v as f64).sqrt() * r.normal()).round().max(0.0) as usize).collect()
}

fn pair(c: &Tables) -> Pair {
    let mut r = Rand::new(c.seed);
    let k = c.k;
    let odd = r.below(k);
    let mut p = Pair { m1: vec![], q1: vec![], m2: vec![], q2: vec![] };
    for x in 0..k {
        let a = row(c, x, &mut r);
        let rate = 10f64.powf(r.f() * 4.0 - 2.0);
        let (b, rate2) = match &c.relation {
            Relation::Identical => (a.clone(), rate),
            Relation::Independent => (row(c, x, &mut r), 10f64.powf(r.f() * 4.0 - 2.0)),
            Relation::Near(z) => {
                let b = disturb(&a, *z, &mut r);
                (b, 0.0)
            }
            Relation::Scaled(f) => (a.iter().map(|v| v * f).collect(), rate),
            Relation::OneRow(z) => {
                if x == odd {
                    let b = disturb(&a, *z, &mut r);
                    (b, 0.0)
                } else {
                    (a.clone(), rate)
                }
            }
        };
        let (t1, t2) = (a.iter().sum::<usize>() as f64, b.iter().sum::<usize>() as f64);
        let rate2 = if rate2 > 0.0 {
            rate2
        } else {
            let z = match &c.relation {
                Relation::Near(z) | Relation::OneRow(z) => z * r.normal(),
                _ => 0.0,
            };
            rate * (z * (1.0 / t1.max(1.0) + 1.0 / t2.max(1.0)).sqrt()).exp()
        };
        // what an estimator gives for a row without transitions: zero, not a number, or a prior rate
        let idle = |t: f64, q: f64, r: &mut Rand| if t > 0.0 { q } else { [0.0, f64::NAN, q][r.below(3)] };
        let (qa, mut qb) = (idle(t1, rate, &mut r), idle(t2, rate2, &mut r));
        if c.relation == Relation::Identical {
            qb = qa;
        }
        p.q1.push(qa);
        p.q2.push(qb);
        p.m1.push(a);
        p.m2.push(b);
    }
    p
}

/// Places a table at position `at` of a tensor of `u` matrices, the others being unrelated.
fn tensor(c: &Tables, m: &[Vec<usize>], q: &[f64], u: usize, at: usize, r: &mut Rand) -> (Array3<usize>, Array3<f64>) {
    let k = c.k;
    let mut counts = Array3::<usize>::zeros((u, k, k));
    let mut cim = Array3::<f64>::zeros((u, k, k));
    for i in 0..u {
        for x in 0..k {
            let decoy = row(c, x, r);
            let mr = if i == at { &m[x] } else { &decoy };
            let rate = if i == at { q[x] } else { 10f64.powf(r.f() * 6.0 - 3.0) };
            let tot = mr.iter().sum::<usize>().max(1) as f64;
            for y in 0..k {
                counts[[i, x, y]] = mr[y];
                cim[[i, x, y]] = if y == x { -rate } else { rate * mr[y] as f64 / tot };
            }
        }
    }
    (counts, cim)
}

fn matrices(c: &Tables) -> Check {
    let p = pair(c);
    let mut r = Rand::new(c.seed ^ 1);
    let (i, j) = (c.at.0 % c.u.0, c.at.1 % c.u.1);
    let (m1, q1) = tensor(c, &p.m1, &p.q1, c.u.0, i, &mut r);
    let (m2, q2) = tensor(c, &p.m2, &p.q2, c.u.1, j, &mut r);
    let f = catching(|| F::new(c.alpha).compare_matrices(i, &m1, &q1, j, &m2, &q2));
    let chi = ChiSquare::new(c.alpha).compare_matrices(i, &m1, j, &m2);
    let r1: Vec<f64> = p.m1.iter().map(|x| x.iter().sum::<usize>() as f64).collect();
    let r2: Vec<f64> = p.m2.iter().map(|x| x.iter().sum::<usize>() as f64).collect();
    let (wf, wc) = (f_test(c.alpha, &r1, &p.q1, &r2, &p.q2), chi_test(c.alpha, &p.m1, &p.m2));
    let panics = f_panics(&r1, &r2);
    let spoiled = chi_spoiled(&p.m1, &p.m2);
    let known = f.is_err() || (!chi && wc == Verdict::Equal);
    if c.relation == Relation::Identical {
        ensure!(f_agrees(&f, Verdict::Equal, panics), "F test (alpha {}) on identical tables gives {:?}: counts {:?} rates {:?}", c.alpha, f, p.m1, p.q1);
        ensure!(chi_agrees(chi, Verdict::Equal, spoiled), "chi-squared test (alpha {}) calls identical tables different: {:?}", c.alpha, p.m1);
    }
    ensure!(f_agrees(&f, wf, panics), "F test (alpha {}) gives equal={:?}, expected {:?}: transitions {:?} {:?} rates {:?} {:?}", c.alpha, f, wf, r1, r2, p.q1, p.q2);
    ensure!(chi_agrees(chi, wc, spoiled), "chi-squared test (alpha {}) says equal={}, expected {:?}: {:?} {:?}", c.alpha, chi, wc, p.m1, p.m2);
    let zero_rows = (0..c.k).any(|x| r1[x] == 0.0 || r2[x] == 0.0);
    let cells = (0..c.k).any(|x| (0..c.k).any(|y| x != y && p.m1[x][y] == 0 && p.m2[x][y] == 0 && r1[x] > 0.0 && r2[x] > 0.0));
    Ok(Obs::new(r1.iter().zip(&r2).any(|(a, b)| *a > 0.0 && *b > 0.0))
        .tag(known, "known finding met")
        .tag(zero_rows, "a row without transitions")
        .tag(cells, "a cell without transitions in both")
        .tag(wf == Verdict::Equal, "F: equal")
        .tag(wf == Verdict::Different, "F: different")
        .tag(wf == Verdict::Different && r1.iter().zip(&r2).zip(p.q1.iter().zip(&p.q2)).all(|((a, b), (x, y))| *a == 0.0 || *b == 0.0 || y / x < 1.0), "F: different on the lower side only")
        .tag(wc == Verdict::Equal, "chi-squared: equal")
        .tag(wc == Verdict::Different, "chi-squared: different")
        .tag(wf == Verdict::Borderline || wc == Verdict::Borderline, "borderline: not compared")
        .tag(c.u.0 > 1 && i != j, "different positions"))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Call {
    net: NetSpec,
    data: DataSpec,
    child: u8,
    parent: u8,
    mask: u32,
    alpha_f: f64,
    alpha_chi: f64,
    bayes: Option<(usize, f64)>,
}

fn pick(n: usize, child: u8, parent: u8) -> (usize, usize) {
    let c = child as usize % n;
    let p = (c + 1 + parent as usize % (n - 1)) % n;
    (c, p)
}

/// The separating set: nodes of the mask other than child and parent, limited in size.
fn separating(cards: &[usize], child: usize, parent: usize, mask: u32, max: usize) -> Vec<usize> {
    let n = cards.len();
    if n <= 8 {
        return subset(cards, child, mask & !(1 << parent), max / cards[parent]);
    }
    let mut r = Rand::new(mask as u64);
    let list: Vec<u16> = (0..r.below(12)).map(|_| r.below(n) as u16).filter(|v| *v as usize != parent).collect();
    subset_of_list(cards, child, &list, max / cards[parent])
}

fn run_tests<P: ParameterLearning>(c: &Call, m: &Net, d: &Dataset, child: usize, parent: usize, sep: &[usize], pl: &P) -> Result<(Result<bool, String>, bool), String> {
    let net = m.build_structure()?;
    let set: BTreeSet<usize> = sep.iter().cloned().collect();
    let f = catching(|| F::new(c.alpha_f).call(&net, child, parent, &set, d, &mut Cache::new(pl)));
    let chi = ChiSquare::new(c.alpha_chi).call(&net, child, parent, &set, d, &mut Cache::new(pl));
    Ok((f, chi))
}

fn calls(c: &Call) -> Check {
    let m = c.net.net();
    let trajs = c.data.expand(&m);
    let (child, parent) = pick(m.n(), c.child, c.parent);
    let sep = separating(&m.cards, child, parent, c.mask, 400);
    let d = dataset(&trajs, m.n());
    let (f, chi) = match c.bayes {
        None => run_tests(c, &m, &d, child, parent, &sep, &MLE {})?,
        Some((alpha, tau)) => run_tests(c, &m, &d, child, parent, &sep, &BayesianApproach { alpha, tau })?,
    };
    let want = decide(&m.cards, &trajs, child, parent, &sep, c.alpha_f, c.alpha_chi, c.bayes);
    let (wf, wc) = (want.f, want.chi);
    ensure!(f_agrees(&f, wf, want.f_panics), "F test of {} -> {} given {:?} says independent={:?}, expected {:?}", parent, child, sep, f, wf);
    ensure!(chi_agrees(chi, wc, want.chi_spoiled), "chi-squared test of {} -> {} given {:?} says independent={}, expected {:?}", parent, child, sep, chi, wc);
    let border = and(wf, wc) == Verdict::Borderline;
    Ok(Obs::new(!sep.is_empty())
        .tag(f.is_err() || (!chi && wc == Verdict::Equal), "known finding met")
        .tag(sep.len() > 1, "two or more separating nodes")
        .tag(sep.iter().any(|s| *s < parent) && sep.iter().any(|s| *s > parent), "parent numbered between separating nodes")
        .tag(wf == Verdict::Equal, "F: independent")
        .tag(wf == Verdict::Different, "F: dependent")
        .tag(wc == Verdict::Equal, "chi-squared: independent")
        .tag(wc == Verdict::Different, "chi-squared: dependent")
        .tag(border, "borderline: not compared")
        .tag(trajs.iter().map(|t| t.t.len()).sum::<usize>() > 200_000, "more than 200000 rows")
        .tag(m.parents[child].contains(&parent), "true parent"))
}

// ---------------------------------------------------------------------------------------------
// Matching of configurations, with a stand-in estimator

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Matching {
    cards: Vec<usize>,
    child: u8,
    parent: u8,
    mask: u32,
    seed: u64,
    /// the configuration of the larger set that is made to differ, if any, and in which way
    odd: Option<(u32, bool)>,
    /// every count is multiplied by it
    #[serde(default = "one")]
    factor: usize,
}

fn one() -> usize {
    1
}

/// Every configuration of the separating set has a table of its own, far from the others; the
/// configurations of the larger set repeat it, except for the odd one.
struct Matched {
    cards: Vec<usize>,
    parent: usize,
    sep: Vec<usize>,
    seed: u64,
    odd: Option<(usize, bool)>,
    factor: usize,
}

impl ParameterLearning for Matched {
    fn fit<T: NetworkProcess>(&self, net: &T, _d: &Dataset, node: usize, parent_set: Option<BTreeSet<usize>>) -> Params {
        let set: Vec<usize> = parent_set.unwrap().into_iter().collect();
        let big = set.contains(&self.parent);
        let cards: Vec<usize> = set.iter().map(|v| self.cards[*v]).collect();
        let u: usize = cards.iter().product();
        let k = self.cards[node];
        let mut counts = Array3::<usize>::zeros((u, k, k));
        let mut cim = Array3::<f64>::zeros((u, k, k));
        let mut time = Array2::<f64>::zeros((u, k));
        let mut state = vec![0; self.cards.len()];
        for i in 0..u {
            for (v, x) in set.iter().zip(decode(&cards, i)) {
                state[*v] = x;
            }
            let j = mixed_index(&self.cards, &self.sep, &state);
            let mut r = Rand::new(self.seed.wrapping_add(1000 * j as u64));
            let odd = match self.odd {
                Some((o, kind)) if big && o % u == i => Some(kind),
                _ => None,
            };
            for x in 0..k {
                let mut rate = 10f64.powf(r.f() * 6.0 - 3.0);
                let mut row: Vec<usize> = (0..k).map(|y| if y == x { 0 } else { self.factor * (500 + r.below(20_000)) }).collect();
                if x == j % k {
                    match odd {
                        Some(true) => rate *= 2.0,
                        Some(false) => {
                            // move counts between two cells, keeping the total
                            let others: Vec<usize> = (0..k).filter(|y| *y != x).collect();
                            if others.len() > 1 {
                                let (a, b) = (others[0], others[1]);
                                let moved = if self.seed % 2 == 0 { row[a] - 100 } else { row[a] / 2 };
                                row[a] -= moved;
                                row[b] += moved;
                            }
                        }
                        None => {}
                    }
                }
                let tot: usize = row.iter().sum();
                for y in 0..k {
                    counts[[i, x, y]] = row[y];
                    cim[[i, x, y]] = if y == x { -rate } else { rate * row[y] as f64 / tot as f64 };
                }
                time[[i, x]] = tot as f64 / rate;
            }
        }
        let mut p = net.get_node(node).clone();
        match &mut p {
            Params::DiscreteStatesContinousTime(q) => {
                q.set_cim_unchecked(cim);
                q.set_transitions(counts);
                q.set_residence_time(time);
            }
        }
        p
    }
}

fn matching(c: &Matching) -> Check {
    matching_up_to(c, 400)
}

fn matching_up_to(c: &Matching, max: usize) -> Check {
    let n = c.cards.len();
    let (child, parent) = pick(n, c.child, c.parent);
    let sep = separating(&c.cards, child, parent, c.mask, max);
    let configs: usize = sep.iter().map(|v| c.cards[*v]).product::<usize>() * c.cards[parent];
    let m = Net { cards: c.cards.clone(), parents: vec![vec![]; n], cims: vec![] };
    let net = m.build_structure()?;
    let d = dataset(&[Traj { t: vec![0.0, 1.0], ev: vec![vec![0; n], vec![0; n]] }], n);
    let odd = c.odd.map(|(o, kind)| (o as usize % configs, kind));
    let stub = Matched { cards: c.cards.clone(), parent, sep: sep.clone(), seed: c.seed, odd, factor: c.factor };
    let set: BTreeSet<usize> = sep.iter().cloned().collect();
    let f = F::new(1e-6).call(&net, child, parent, &set, &d, &mut Cache::new(&stub));
    let chi = ChiSquare::new(1e-6).call(&net, child, parent, &set, &d, &mut Cache::new(&stub));
    let want_f = !matches!(odd, Some((_, true)));
    let want_chi = !matches!(odd, Some((_, false))) || m.cards[child] == 2;
    ensure!(f == want_f, "{} -> {} given {:?} (cardinalities {:?}), odd configuration {:?}: the F test says independent={}", parent, child, sep, c.cards, odd, f);
    ensure!(chi == want_chi, "{} -> {} given {:?} (cardinalities {:?}), odd configuration {:?}: the chi-squared test says independent={}", parent, child, sep, c.cards, odd, chi);
    Ok(Obs::new(!sep.is_empty())
        .tag(sep.len() > 1, "two or more separating nodes")
        .tag(sep.iter().any(|s| *s < parent) && sep.iter().any(|s| *s > parent), "parent numbered between separating nodes")
        .tag(odd.is_none(), "all match")
        .tag(matches!(odd, Some((_, true))), "one rate differs")
        .tag(matches!(odd, Some((_, false))), "one row of proportions differs")
        .tag(odd.map_or(false, |o| o.0 + 1 == configs), "the last configuration differs"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "tables",
            "pairs of count and rate tables (2..8 states, counts 0..1e6, empty cells and rows, identical, unrelated, scaled, near the decision threshold, one row different) placed in tensors among unrelated ones, significance levels 1e-9..0.5; both tests compared with independently computed statistics and distribution functions; non-trivial: a row with transitions in both tables",
            150_000,
            || {
                let relation = prop_oneof![
                    1 => Just(Relation::Identical),
                    2 => Just(Relation::Independent),
                    5 => (0.2f64..6.0).prop_map(Relation::Near),
                    2 => (1usize..200).prop_map(Relation::Scaled),
                    3 => (0.5f64..20.0).prop_map(Relation::OneRow),
                ];
                let z = || prop_oneof![5 => Just(0.0), 1 => 0.0f64..0.4, 1 => 0.4f64..0.95];
                boxed((2usize..9, any::<u64>(), 0.2f64..6.0, z(), z(), relation, alpha(), (1usize..5, 1usize..5), (0usize..5, 0usize..5))
                    .prop_map(|(k, seed, size, zero_cell, zero_row, relation, alpha, u, at)| Tables { k, seed, size, zero_cell, zero_row, relation, alpha, u, at }))
            },
            matrices,
        ),
        sub(
            "tables (large)",
            "as above with up to 48 states, counts up to 40000 (row totals up to 2e7) and up to 40 matrices per tensor; non-trivial: as above",
            6_000,
            || {
                let relation = prop_oneof![
                    1 => Just(Relation::Identical),
                    1 => Just(Relation::Independent),
                    5 => (0.2f64..6.0).prop_map(Relation::Near),
                    1 => (1usize..10).prop_map(Relation::Scaled),
                    3 => (0.5f64..20.0).prop_map(Relation::OneRow),
                ];
                let z = || prop_oneof![8 => Just(0.0), 1 => 0.0f64..0.1];
                let k = prop_oneof![2 => 2usize..9, 3 => 9usize..48];
                boxed((k, any::<u64>(), 0.2f64..4.6, z(), z(), relation, alpha(), (1usize..40, 1usize..40), (0usize..40, 0usize..40))
                    .prop_map(|(k, seed, size, zero_cell, zero_row, relation, alpha, u, at)| Tables { k, seed, size, zero_cell, zero_row, relation, alpha, u, at }))
            },
            matrices,
        ),
        sub(
            "data",
            "both tests called on datasets over 2..5 nodes for any child, candidate and separating set, with maximum likelihood and Bayesian estimates; compared with independently computed statistics per configuration; non-trivial: a non-empty separating set",
            15_000,
            || {
                const NETS: NetCfg = NetCfg { n: (2, 5), max_card: 5, max_edges: 8, max_rows: 80, max_joint: 1000, scale: 0 };
                let data = prop_oneof![
                    2 => any_data(1),
                    3 => (any::<u64>(), 1usize..4, 10usize..600).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len }),
                ];
                let spec = prop_oneof![2 => rich(5, 72), 1 => (net_spec(NETS), data)];
                boxed((spec, any::<u8>(), any::<u8>(), any::<u32>(), alpha(), alpha(), bayes())
                    .prop_map(|((net, data), child, parent, mask, alpha_f, alpha_chi, bayes)| Call { net, data, child, parent, mask, alpha_f, alpha_chi, bayes }))
            },
            calls,
        ),
        sub(
            "data (large)",
            "as above on networks of 3..30 nodes with up to 40 states and simulated datasets of 2000..30000 events, some on two or three binary nodes of up to 800000; non-trivial: as above",
            300,
            || {
                const FEW: NetCfg = NetCfg { n: (2, 5), max_card: 3, max_edges: 8, max_rows: 80, max_joint: 1000, scale: 0 };
                let data = (any::<u64>(), 1usize..6, 2000usize..6000).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len });
                let many = (any::<u64>(), 500usize..3000, 2usize..10).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len });
                const TINY: NetCfg = NetCfg { n: (2, 3), max_card: 2, max_edges: 3, max_rows: 80, max_joint: 1000, scale: 0 };
                let huge = (any::<u64>(), 1usize..3, 150_000usize..400_000).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len });
                let shape = prop_oneof![
                    14 => (wide_spec((3, 30), 40, 60, 0), prop_oneof![3 => boxed(data.clone()), 1 => boxed(many.clone())]),
                    21 => (net_spec(FEW), prop_oneof![3 => boxed(data), 1 => boxed(many)]),
                    1 => (net_spec(TINY), boxed(huge)),
                ];
                boxed((shape, any::<u8>(), any::<u8>(), any::<u32>(), alpha(), alpha(), bayes())
                    .prop_map(|((mut net, data), child, parent, mask, alpha_f, alpha_chi, bayes)| {
                        if mask % 3 > 0 {
                            net.rates.kind = RateKind::Ints;
                        }
                        Call { net, data, child, parent, mask, alpha_f, alpha_chi, bayes }
                    }))
            },
            calls,
        ),
        sub(
            "matching configurations",
            "a stand-in estimator gives every configuration of the separating set its own table, which all matching configurations of the larger set repeat except possibly one; each test must notice exactly that one, wherever the candidate is numbered; non-trivial: a non-empty separating set",
            40_000,
            || {
                let odd = proptest::option::weighted(0.7, (any::<u32>(), any::<bool>()));
                let factor = prop_oneof![2 => Just(1usize), 1 => 2usize..150];
                boxed((vec(2usize..6, 2..7), any::<u8>(), any::<u8>(), any::<u32>(), any::<u64>(), odd, factor)
                    .prop_map(|(cards, child, parent, mask, seed, odd, factor)| Matching { cards, child, parent, mask, seed, odd, factor }))
            },
            matching,
        ),
        sub(
            "matching configurations (many nodes)",
            "as above for 7..40 nodes and up to 3000 configurations; non-trivial: as above",
            800,
            || {
                let odd = proptest::option::weighted(0.8, (any::<u32>(), any::<bool>()));
                let card = prop_oneof![6 => 2usize..4, 1 => 2usize..9];
                boxed((vec(card, 7..40), any::<u8>(), any::<u8>(), any::<u64>(), odd)
                    .prop_map(|(cards, child, parent, seed, odd)| Matching { cards, child, parent, mask: seed as u32, seed, odd, factor: 1 }))
            },
            |c| matching_up_to(c, 3000),
        ),
    ]
}
