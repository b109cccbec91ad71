//! C23: simulate, learn the structure, fit the parameters.
use super::c12::same_nodes;
use super::c13::decide;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::trajectory_generator;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Learner {
    Likelihood,
    Bic,
    CtpcMle,
    CtpcBayes,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    cards: Vec<usize>,
    edges: Vec<(usize, usize)>,
    rates: u64,
    /// factor by which each parent changes its child's rates
    factor: f64,
    /// time unit 10^scale
    scale: i32,
    seed: u64,
    trajs: u64,
    learner: Learner,
    max: Option<u8>,
    alpha: usize,
    tau: f64,
    relabel: Option<u64>,
}

const LEVEL: f64 = 1e-9;
const MAX_EVENTS: f64 = 250_000.0;
/// Networks of up to this many nodes are analysed as a whole, larger ones part by part.
const SMALL: usize = 4;

fn model(c: &Case) -> Net {
    let n = c.cards.len();
    let mut parents = vec![vec![]; n];
    // large networks consist of parts of at most three connected nodes
    let mut part: Vec<usize> = (0..n).collect();
    for (a, b) in &c.edges {
        let (a, b) = (a % n, b % n);
        let joined = (0..n).filter(|v| part[*v] == part[a] || part[*v] == part[b]).count();
        if a != b && !parents[b].contains(&a) && parents[b].len() < 2 && (n <= SMALL || joined <= 3) {
            parents[b].push(a);
            let (from, to) = (part[b], part[a]);
            part.iter_mut().filter(|x| **x == from).for_each(|x| *x = to);
        }
    }
    let unit = 10f64.powi(c.scale);
    let mut cims = vec![];
    for v in 0..n {
        parents[v].sort();
        let mut r = Rand::new(fnv(format!("{}/{}", c.rates, v).as_bytes()));
        let k = c.cards[v];
        let base: Vec<Vec<f64>> = (0..k).map(|_| (0..k).map(|_| 0.7 + 0.6 * r.f()).collect()).collect();
        // one multiplier per parent and value: the factor for one value, less for the others
        let mult: Vec<Vec<f64>> = parents[v]
            .iter()
            .map(|p| {
                let mut m: Vec<f64> = (0..c.cards[*p]).map(|i| c.factor.powf(i as f64 / (c.cards[*p] - 1) as f64)).collect();
                for i in (1..m.len()).rev() {
                    m.swap(i, r.below(i + 1));
                }
                m
            })
            .collect();
        let u: usize = parents[v].iter().map(|p| c.cards[*p]).product();
        let pc: Vec<usize> = parents[v].iter().map(|p| c.cards[*p]).collect();
        cims.push(
            (0..u)
                .map(|i| {
                    let f: f64 = decode(&pc, i).iter().enumerate().map(|(j, x)| mult[j][*x]).product();
                    (0..k)
                        .map(|x| {
                            let mut row: Vec<f64> = (0..k).map(|y| if y == x { 0.0 } else { base[x][y] * f / unit }).collect();
                            row[x] = -row.iter().sum::<f64>();
                            row
                        })
                        .collect()
                })
                .collect(),
        );
    }
    Net { cards: c.cards.clone(), parents, cims }
}

fn stationary(q: &Mat) -> Vec<f64> {
    let n = q.len();
    // transpose, last equation replaced by the normalisation
    let mut a: Mat = (0..n).map(|i| (0..n).map(|j| q[j][i]).collect::<Vec<f64>>()).collect();
    let scale = q.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    a.iter_mut().flatten().for_each(|x| *x /= scale);
    a[n - 1] = vec![1.0; n];
    let mut b = vec![0.0; n];
    b[n - 1] = 1.0;
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().partial_cmp(&a[*y][i].abs()).unwrap()).unwrap();
        a.swap(i, p);
        b.swap(i, p);
        for r in i + 1..n {
            let f = a[r][i] / a[i][i];
            if f != 0.0 {
                for k in i..n {
                    let v = a[i][k];
                    a[r][k] -= f * v;
                }
                b[r] -= f * b[i];
            }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|k| a[i][k] * x[k]).sum();
        x[i] = (b[i] - s) / a[i][i];
    }
    x
}

/// Long-run time and flows per configuration of `set` (ascending) and state of `node`.
struct Flow {
    time: HashMap<(usize, usize), f64>,
    flow: HashMap<(usize, usize, usize), f64>,
}

fn flow(m: &Net, pi: &[f64], node: usize, set: &[usize]) -> Flow {
    let mut f = Flow { time: HashMap::new(), flow: HashMap::new() };
    for (i, p) in pi.iter().enumerate() {
        let x = decode(&m.cards, i);
        let u = mixed_index(&m.cards, set, &x);
        *f.time.entry((u, x[node])).or_insert(0.0) += p;
        for y in 0..m.cards[node] {
            if y != x[node] {
                *f.flow.entry((u, x[node], y)).or_insert(0.0) += p * m.row(node, &x)[y];
            }
        }
    }
    f
}

/// What adding `p` to `set` gains for `node`: (log-likelihood per unit of time, strongest exit rate
/// contrast per square root of a unit of time).
fn gain(m: &Net, pi: &[f64], node: usize, set: &[usize], p: usize) -> (f64, f64) {
    let mut big = set.to_vec();
    big.push(p);
    big.sort();
    let (fs, fb) = (flow(m, pi, node, set), flow(m, pi, node, &big));
    let cards: Vec<usize> = big.iter().map(|v| m.cards[*v]).collect();
    let (mut ll, mut best) = (0.0, 0.0f64);
    for ((u, x), t) in &fb.time {
        let mut state = vec![0; m.n()];
        for (v, s) in big.iter().zip(decode(&cards, *u)) {
            state[*v] = s;
        }
        let w = mixed_index(&m.cards, set, &state);
        let ts = fs.time[&(w, *x)];
        let (mut out, mut outs) = (0.0, 0.0);
        for y in 0..m.cards[node] {
            if y != *x {
                let (a, b) = (fb.flow[&(*u, *x, y)], fs.flow[&(w, *x, y)]);
                ll += a * ((a / t) / (b / ts)).ln();
                out += a;
                outs += b;
            }
        }
        let z = ((out / t) / (outs / ts)).ln().abs() / (1.0 / out + 1.0 / outs).sqrt();
        best = best.max(z);
    }
    (ll, best)
}

fn subsets_without(n: usize, node: usize, p: usize) -> Vec<Vec<usize>> {
    let rest: Vec<usize> = (0..n).filter(|v| *v != node && *v != p).collect();
    (0..1usize << rest.len()).map(|m| rest.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, v)| *v).collect()).collect()
}

/// Log-likelihood of the maximum likelihood fit.
fn max_ll(s: &Stats) -> f64 {
    let mut out = 0.0;
    for (mu, tu) in s.m.iter().zip(&s.t) {
        for (row, t) in mu.iter().zip(tu) {
            for c in row {
                if *c > 0 {
                    out += *c as f64 * ((*c as f64 / t).ln() - 1.0);
                }
            }
        }
    }
    out
}

fn learn(c: &Case, m: &Net, d: &reCTBN::tools::Dataset) -> Result<Vec<Vec<usize>>, String> {
    let net = Net { parents: vec![vec![]; m.n()], ..m.clone() }.build_structure()?;
    // A limit that binds may cost a true parent (an accidental one found first takes the place).
    let max = c.max.map(|x| (x as usize).max(m.n() - 1));
    let tau = c.tau * 10f64.powi(c.scale);
    let (f, chi) = (F::new(LEVEL), ChiSquare::new(LEVEL));
    let out = match c.learner {
        Learner::Likelihood => HillClimbing::new(LogLikelihood::new(c.alpha, tau), max).fit_transform(net, d),
        Learner::Bic => HillClimbing::new(BIC::new(c.alpha, tau), max).fit_transform(net, d),
        Learner::CtpcMle => CTPC::new(MLE {}, f, chi).fit_transform(net, d),
        Learner::CtpcBayes => CTPC::new(BayesianApproach { alpha: c.alpha, tau }, f, chi).fit_transform(net, d),
    };
    same_nodes(&out, m)?;
    Ok((0..m.n()).map(|v| out.get_parent_set(v).into_iter().collect()).collect())
}

/// The learned graph must contain every true edge; an extra edge must be explained by the data and
/// be a plausible accident. Returns the number of extra edges.
fn judge(c: &Case, m: &Net, trajs: &[Traj], got: &[Vec<usize>]) -> Result<usize, String> {
    let n = m.n();
    let tau = c.tau * 10f64.powi(c.scale);
    let intervals: usize = trajs.iter().map(|t| t.t.len() - 1).sum();
    let mut extras = 0;
    for v in 0..n {
        for p in &m.parents[v] {
            ensure!(got[v].contains(p), "{:?}: edge {} -> {} not recovered: learned parents {:?}, true parents {:?}", c.learner, p, v, got, m.parents);
        }
        for e in got[v].iter().filter(|e| !m.parents[v].contains(e)) {
            extras += 1;
            let without: Vec<usize> = got[v].iter().cloned().filter(|x| x != e).collect();
            let (with_s, without_s) = (stats(&m.cards, trajs, v, &got[v]), stats(&m.cards, trajs, v, &without));
            let dof = (with_s.m.len() - without_s.m.len()) * m.cards[v] * (m.cards[v] - 1);
            let lr = 2.0 * (max_ll(&with_s) - max_ll(&without_s));
            match c.learner {
                Learner::Likelihood | Learner::Bic => {
                    let score = |s: &Stats| if c.learner == Learner::Bic { bic_score(s, c.alpha, tau, intervals) } else { ll_score(s, c.alpha, tau) };
                    let (a, b) = (score(&with_s), score(&without_s));
                    ensure!(a.0 >= b.0 - 1e-8 * (a.1 + b.1), "{:?}: spurious edge {} -> {}: score {} with, {} without", c.learner, e, v, a.0, b.0);
                }
                _ => {
                    let bayes = if c.learner == Learner::CtpcBayes { Some((c.alpha, tau)) } else { None };
                    // some decision must have gone against the true parents as separating set
                    let d = decide(&m.cards, trajs, v, *e, &m.parents[v], LEVEL, LEVEL, bayes);
                    ensure!(
                        d.f != Verdict::Equal || d.chi != Verdict::Equal || d.chi_spoiled,
                        "{:?}: spurious edge {} -> {}: independent given the true parents {:?}", c.learner, e, v, m.parents[v]
                    );
                }
            }
            ensure!(
                chi2_cdf(lr, dof as f64) < 1.0 - 1e-13,
                "{:?}: spurious edge {} -> {}: likelihood ratio {} with {} degrees of freedom: the simulated data depend on it", c.learner, e, v, lr, dof
            );
        }
    }
    Ok(extras)
}

/// The nodes connected with each other, each list ascending.
fn parts(m: &Net) -> Vec<Vec<usize>> {
    let n = m.n();
    let mut part: Vec<usize> = (0..n).collect();
    for v in 0..n {
        for p in &m.parents[v] {
            let (from, to) = (part[v], part[*p]);
            part.iter_mut().filter(|x| **x == from).for_each(|x| *x = to);
        }
    }
    (0..n).map(|i| (0..n).filter(|v| part[*v] == i).collect::<Vec<_>>()).filter(|x| !x.is_empty()).collect()
}

fn restrict(m: &Net, nodes: &[usize]) -> Net {
    let at = |v: usize| nodes.iter().position(|x| *x == v).unwrap();
    Net {
        cards: nodes.iter().map(|v| m.cards[*v]).collect(),
        parents: nodes.iter().map(|v| m.parents[*v].iter().map(|p| at(*p)).collect()).collect(),
        cims: nodes.iter().map(|v| m.cims[*v].clone()).collect(),
    }
}

/// Events per unit of time and the time it takes to see every true edge with a wide margin.
fn effort(m: &Net, ctpc: bool) -> (f64, f64) {
    let n = m.n();
    let pi = stationary(&m.generator());
    // events per unit of time, and the slowest row of the full conditional tables
    let mut speed = 0.0;
    let mut slowest = f64::INFINITY;
    for v in 0..n {
        let rest: Vec<usize> = (0..n).filter(|w| *w != v).collect();
        let f = flow(&m, &pi, v, &rest);
        speed += f.flow.values().sum::<f64>();
        let mut rows: HashMap<(usize, usize), f64> = HashMap::new();
        for ((u, x, _), q) in &f.flow {
            *rows.entry((*u, *x)).or_insert(0.0) += q;
        }
        slowest = rows.values().cloned().fold(slowest, f64::min);
    }
    let mut total = 250.0 / slowest;
    // every true parent must be visible given any other set, with a wide margin
    for v in 0..n {
        for p in &m.parents[v] {
            for s in subsets_without(n, v, *p) {
                let (ll, z) = gain(&m, &pi, v, &s, *p);
                let configs: usize = s.iter().map(|x| m.cards[*x]).product();
                let params = (configs * m.cards[v] * (m.cards[v] - 1) * (m.cards[*p] - 1)) as f64;
                let need = if ctpc { (16.0 / z).powi(2) } else { (4.0 * params * (MAX_EVENTS).ln() / 2.0 + 100.0) / ll };
                total = total.max(need);
            }
        }
    }
    (speed, total)
}

fn recover(c: &Case) -> Check {
    let m = model(c);
    let n = m.n();
    let ctpc = matches!(c.learner, Learner::CtpcMle | Learner::CtpcBayes);
    let (speed, total) = if n <= SMALL {
        effort(&m, ctpc)
    } else {
        parts(&m).iter().map(|x| effort(&restrict(&m, x), ctpc)).fold((0.0, 0.0f64), |a, b| (a.0 + b.0, a.1.max(b.1)))
    };
    if total * speed > MAX_EVENTS {
        return Ok(Obs::new(false).tag(true, "would need too much data"));
    }
    let trajs_n = c.trajs.min((total * speed / 500.0) as u64).max(1);
    let net = m.build()?;
    let d = trajectory_generator(&net, trajs_n, total / trajs_n as f64, Some(c.seed));
    let trajs = from_dataset(&d);
    let got = learn(c, &m, &d)?;
    let extras = judge(c, &m, &trajs, &got)?;
    if let (Some(seed), 0) = (c.relabel, extras) {
        let mut r = Rand::new(seed);
        let mut perm: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            perm.swap(i, r.below(i + 1));
        }
        let mut m2 = m.clone();
        for v in 0..n {
            m2.cards[perm[v]] = m.cards[v];
            m2.parents[perm[v]] = m.parents[v].iter().map(|p| perm[*p]).collect();
            m2.parents[perm[v]].sort();
        }
        let moved: Vec<Traj> = trajs
            .iter()
            .map(|t| Traj {
                t: t.t.clone(),
                ev: t.ev.iter().map(|row| {
                    let mut x = vec![0; n];
                    for v in 0..n {
                        x[perm[v]] = row[v];
                    }
                    x
                }).collect(),
            })
            .collect();
        let got2 = learn(c, &m2, &dataset(&moved, n))?;
        judge(c, &m2, &moved, &got2).map_err(|e| format!("renumbered {:?}: {}", perm, e))?;
    }
    // parameters on the recovered structure
    let tau = c.tau * 10f64.powi(c.scale);
    for v in 0..n {
        for bayes in [false, true] {
            let set = Some(m.parents[v].iter().cloned().collect());
            let p = if bayes { BayesianApproach { alpha: c.alpha, tau }.fit(&net, &d, v, set) } else { MLE {}.fit(&net, &d, v, set) };
            let q = node_params(&p);
            let (cim, time) = match (q.get_cim(), q.get_residence_time()) {
                (Some(a), Some(b)) => (a, b),
                _ => return Err("the fitted node carries no parameters or times".into()),
            };
            let u = m.configs(v) as f64;
            let (a, t0) = if bayes { (c.alpha as f64 / u, tau / u) } else { (0.0, 0.0) };
            for i in 0..m.configs(v) {
                for x in 0..m.cards[v] {
                    let t = time[[i, x]];
                    for y in 0..m.cards[v] {
                        let truth = m.cims[v][i][x][y];
                        if y != x {
                            let allowed = 9.0 * (truth * t).sqrt() + 12.0 + a + truth * t0;
                            ensure!(
                                (cim[[i, x, y]] - truth).abs() * (t + t0) <= allowed,
                                "node {} configuration {}: fitted rate {} -> {} is {} after {} units of time, true rate {} (Bayesian: {})",
                                v, i, x, y, cim[[i, x, y]], t, truth, bayes
                            );
                        }
                    }
                }
            }
        }
    }
    Ok(Obs::new(m.has_edges())
        .tag(extras == 0, "exact recovery")
        .tag(extras > 0, "an accidental extra edge")
        .tag(m.parents.iter().any(|p| p.len() > 1), "two parents")
        .tag((0..n).any(|v| m.parents[v].iter().any(|p| m.parents[*p].contains(&v))), "two nodes influence each other")
        .tag(m.cards.iter().any(|k| *k > 2), "three states")
        .tag(n > 8, "more than eight nodes")
        .tag(c.relabel.is_some(), "renumbered")
        .tag(ctpc, "CTPC")
        .tag(c.learner == Learner::Bic, "BIC")
        .tag(c.learner == Learner::Likelihood, "log-likelihood"))
}

fn learner() -> BoxedStrategy<Learner> {
    boxed(prop_oneof![Just(Learner::Likelihood), Just(Learner::Bic), Just(Learner::CtpcMle), Just(Learner::CtpcBayes)])
}

pub fn subs() -> Vec<Sub> {
    vec![sub(
        "recovery",
        "networks of 2..4 nodes with 2..3 states and up to two parents per node, each parent changing its child's rates by a factor of 4..8, time units 1e-9..1e9; the library simulates as much data as makes every true edge visible with a wide margin (computed from the stationary distribution), learns the structure and fits the parameters; every true edge must be found, an extra edge must be justified by independently computed scores or tests and be a plausible accident, every rate must be within the martingale bound; non-trivial: a network with edges and enough data",
        400,
        || {
            let cards = proptest::collection::vec(prop_oneof![2 => Just(2usize), 1 => Just(3usize)], 2..5);
            let scale = prop_oneof![2 => Just(0i32), 1 => -3i32..4, 1 => -9i32..10];
            boxed((cards, proptest::collection::vec((0usize..64, 0usize..64), 0..9), any::<u64>(), 4.0f64..8.0, scale, any::<u64>(), 1u64..30,
                (learner(), proptest::option::of(2u8..5), 1usize..4, 0.3f64..3.0, proptest::option::weighted(0.3, any::<u64>())))
                .prop_map(|(cards, edges, rates, factor, scale, seed, trajs, (learner, max, alpha, tau, relabel))| Case {
                    cards, edges, rates, factor, scale, seed, trajs, learner, max, alpha, tau, relabel,
                }))
        },
        recover,
    ), sub(
        "recovery (many nodes)",
        "as above for networks of 8..20 nodes that consist of independent parts of up to three nodes; non-trivial: as above",
        40,
        || {
            let cards = proptest::collection::vec(prop_oneof![6 => Just(2usize), 1 => Just(3usize)], 8..20);
            let scale = prop_oneof![2 => Just(0i32), 1 => -3i32..4];
            boxed((cards, proptest::collection::vec((0usize..640, 0usize..640), 4..30), any::<u64>(), 5.0f64..8.0, scale, any::<u64>(), 1u64..60,
                (learner(), proptest::option::weighted(0.3, 2u8..5), 1usize..4, 0.3f64..3.0, proptest::option::weighted(0.2, any::<u64>())))
                .prop_map(|(cards, edges, rates, factor, scale, seed, trajs, (learner, max, alpha, tau, relabel))| Case {
                    cards, edges, rates, factor, scale, seed, trajs, learner, max, alpha, tau, relabel,
                }))
        },
        recover,
    )]
}
