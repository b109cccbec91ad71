//! C06: the probability law of sampled trajectories.
use super::c05::{kind, library_process, process_model, Kind};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::with_process;
use proptest::prelude::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use reCTBN::params::{Params, ParamsTrait, StateType};
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::trajectory_generator;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub const NETS: NetCfg = NetCfg { n: (1, 4), max_card: 4, max_edges: 8, max_rows: 70, max_joint: 300, scale: 0 };

/// Counts and times of every (stratum, node, configuration, state[, next]) of a set of paths.
/// Strata are functions of the past only, so in each of them count - rate * time is a martingale.
pub struct Tally {
    time: HashMap<(u8, usize, usize, usize), f64>,
    count: HashMap<(u8, usize, usize, usize, usize), u64>,
    pub events: u64,
}

pub const STRATA: [&str; 7] = [
    "overall",
    "parents changed since the node's last move",
    "first trajectory",
    "later trajectories",
    "first 10 events of a later trajectory",
    "node has not moved yet",
    "another node moved just before",
];

impl Tally {
    pub fn new() -> Tally {
        Tally { time: HashMap::new(), count: HashMap::new(), events: 0 }
    }
    pub fn add(&mut self, m: &Net, tr: &Traj, index: usize) {
        let n = m.n();
        let mut fresh = vec![true; n];
        let mut parent_moved = vec![false; n];
        let mut last_mover: Option<usize> = None;
        for i in 1..tr.t.len() {
            let (a, b) = (&tr.ev[i - 1], &tr.ev[i]);
            let dt = tr.t[i] - tr.t[i - 1];
            for v in 0..n {
                let u = m.u(v, a);
                for s in 0..STRATA.len() {
                    let on = match s {
                        0 => true,
                        1 => parent_moved[v],
                        2 => index == 0,
                        3 => index > 0,
                        4 => index > 0 && i <= 10,
                        5 => fresh[v],
                        _ => last_mover.map_or(false, |l| l != v),
                    };
                    if !on {
                        continue;
                    }
                    *self.time.entry((s as u8, v, u, a[v])).or_insert(0.0) += dt;
                    if a[v] != b[v] {
                        *self.count.entry((s as u8, v, u, a[v], b[v])).or_insert(0) += 1;
                    }
                }
            }
            last_mover = None;
            for v in 0..n {
                if a[v] != b[v] {
                    self.events += 1;
                    fresh[v] = false;
                    parent_moved[v] = false;
                    last_mover = Some(v);
                }
            }
            for v in 0..n {
                if m.parents[v].iter().any(|p| a[*p] != b[*p]) && a[v] == b[v] {
                    parent_moved[v] = true;
                }
            }
        }
    }
    pub fn check(&self, m: &Net) -> Result<(u64, f64), String> {
        let mut tests = 0;
        let mut best = 0.0f64;
        for ((s, v, u, x), t) in &self.time {
            for y in 0..m.cards[*v] {
                if y == *x {
                    continue;
                }
                let q = m.cims[*v][*u][*x][y];
                let c = *self.count.get(&(*s, *v, *u, *x, y)).unwrap_or(&0) as f64;
                let var = q * t;
                tests += 1;
                best = best.max(var);
                ensure!(
                    dev_ok(c - var, var),
                    "node {} (configuration {}) moved {} -> {} {} times in {} units of time at rate {}, expected {:.1} [{}]",
                    v, u, x, y, c, t, q, var, STRATA[*s as usize]
                );
            }
            // exit rates: all moves out of x together
            let q: f64 = (0..m.cards[*v]).filter(|y| y != x).map(|y| m.cims[*v][*u][*x][y]).sum();
            let c: u64 = (0..m.cards[*v]).map(|y| *self.count.get(&(*s, *v, *u, *x, y)).unwrap_or(&0)).sum();
            ensure!(
                dev_ok(c as f64 - q * t, q * t),
                "node {} (configuration {}) left state {} {} times in {} units of time at rate {}, expected {:.1} [{}]",
                v, u, x, c, t, q, q * t, STRATA[*s as usize]
            );
        }
        // per node, aggregated over everything
        for s in 0..STRATA.len() as u8 {
            for v in 0..m.n() {
                let mut exp = 0.0;
                for ((s2, v2, u, x), t) in &self.time {
                    if *s2 == s && *v2 == v {
                        exp += t * -m.cims[v][*u][*x][*x];
                    }
                }
                let c: u64 = self.count.iter().filter(|((s2, v2, _, _, _), _)| *s2 == s && *v2 == v).map(|(_, c)| *c).sum();
                ensure!(
                    dev_ok(c as f64 - exp, exp),
                    "node {} moved {} times, expected {:.1} [{}]", v, c, exp, STRATA[s as usize]
                );
            }
        }
        Ok((tests, best))
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Law {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    /// events per trajectory at typical rates, and total number of events
    per_traj: f64,
    total: f64,
    sampler: bool,
}

fn rates(c: &Law) -> Check {
    rates_with(c, 500.0)
}

fn rates_with(c: &Law, trivial: f64) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let t_end = (c.per_traj / m.typical_rate()).min(10.0 * c.total / m.max_total_rate());
    let n = ((c.total / c.per_traj).ceil() as u64).clamp(1, 20_000);
    let mut tally = Tally::new();
    with_process!(&lib, p => {
        if c.sampler {
            // through the iterator, with requested initial states and resets
            let mut r = Rand::new(c.seed);
            let groups = 20;
            for g in 0..groups {
                let init: Vec<usize> = m.cards.iter().map(|c| r.below(*c)).collect();
                let mut s = ForwardSampler::new(p, Some(r.u64()), Some(st(&init)));
                for i in 0..(n / groups).max(1) {
                    let mut tr = Traj { t: vec![], ev: vec![] };
                    loop {
                        let x = s.next().ok_or_else(|| "the sampler ended".to_string())?;
                        if x.t >= t_end && !tr.t.is_empty() {
                            break;
                        }
                        tr.t.push(x.t);
                        tr.ev.push(unst(&x.state));
                    }
                    tr.t.push(t_end);
                    tr.ev.push(tr.ev.last().unwrap().clone());
                    tally.add(&m, &tr, i as usize);
                    s.reset();
                }
                let _ = g;
            }
        } else {
            let d = trajectory_generator(p, n, t_end, Some(c.seed));
            for (i, tr) in from_dataset(&d).iter().enumerate() {
                tally.add(&m, tr, i);
            }
        }
    });
    let (_, best) = tally.check(&m)?;
    Ok(Obs::new(best >= trivial)
        .tag(m.n() > 16, "more than 16 nodes")
        .tag(m.cards.iter().any(|k| *k > 16), "more than 16 states")
        .tag(m.has_edges(), "with edges")
        .tag(m.has_zero_rate(), "zero rates")
        .tag(c.kind != Kind::Ctbn, "Markov process")
        .tag(c.per_traj < 10.0, "short trajectories")
        .tag(tally.events > 20_000, "more than 20000 events"))
}

fn law(total: f64) -> BoxedStrategy<Law> {
    let per = prop_oneof![1 => 1.0f64..10.0, 1 => 10.0f64..300.0, 1 => Just(total)];
    boxed((net_spec(NETS), kind(), seed(), per, any::<bool>())
        .prop_map(move |(net, kind, seed, per_traj, sampler)| Law { net, kind, seed, per_traj, total, sampler }))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Initial {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    n: u64,
    resets: bool,
}

fn binom_ok(count: u64, n: u64, p: f64) -> bool {
    dev_ok(count as f64 - n as f64 * p, n as f64 * p * (1.0 - p))
}

/// As `binom_ok`, with the sharper bound exp(-d^2 / (2 n p)) for too small a count.
fn tail_ok(count: u64, n: u64, p: f64) -> bool {
    let mean = n as f64 * p;
    binom_ok(count, n, p) && mean - count as f64 <= 8.4 * mean.sqrt()
}

fn initial(c: &Initial) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let n = c.n;
    let states: Vec<Vec<usize>> = with_process!(&lib, p => {
        if c.resets {
            let mut s = ForwardSampler::new(p, Some(c.seed), None);
            (0..n).map(|_| { s.reset(); unst(&s.next().unwrap().state) }).collect()
        } else {
            let t_end = 1e-3 / m.max_total_rate();
            from_dataset(&trajectory_generator(p, n, t_end, Some(c.seed))).into_iter().map(|t| t.ev[0].clone()).collect()
        }
    });
    for v in 0..m.n() {
        for x in 0..m.cards[v] {
            let cnt = states.iter().filter(|s| s[v] == x).count() as u64;
            ensure!(binom_ok(cnt, n, 1.0 / m.cards[v] as f64), "node {} starts in state {} in {} of {} cases", v, x, cnt, n);
        }
        for w in 0..v {
            for x in 0..m.cards[v] {
                for y in 0..m.cards[w] {
                    let cnt = states.iter().filter(|s| s[v] == x && s[w] == y).count() as u64;
                    let p = 1.0 / (m.cards[v] * m.cards[w]) as f64;
                    ensure!(binom_ok(cnt, n, p), "nodes {}, {} start in states {}, {} in {} of {} cases", v, w, x, y, cnt, n);
                }
            }
        }
        // consecutive initial states are independent
        for x in 0..m.cards[v] {
            let cnt = states.chunks(2).filter(|s| s.len() == 2 && s[0][v] == x && s[1][v] == x).count() as u64;
            let p = 1.0 / (m.cards[v] as f64).powi(2);
            ensure!(binom_ok(cnt, n / 2, p), "node {} starts twice in a row in state {} in {} of {} pairs", v, x, cnt, n / 2);
        }
    }
    Ok(Obs::new(m.n() > 1).tag(c.resets, "sampler resets").tag(m.cards.iter().any(|x| *x > 3), "cardinality > 3"))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Draws {
    k: usize,
    u: usize,
    rates: RateSpec,
    seed: u64,
    n: u64,
}

fn single_steps(c: &Draws) -> Check {
    let cim = gen_cim(&c.rates, c.u, c.k, &mut Rand::new(c.rates.seed));
    let mut p = new_node("x", c.k);
    let a = ndarray::Array3::from_shape_fn((c.u, c.k, c.k), |(u, x, y)| cim[u][x][y]);
    p.set_cim(a).map_err(|e| format!("valid CIM rejected: {:?}", e))?;
    let p = Params::DiscreteStatesContinousTime(p);
    let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
    let mut pick = Rand::new(c.seed);
    for _ in 0..if c.n < 1_000_000 { 3 } else { 1 } {
        let (u, x) = (pick.below(c.u), pick.below(c.k));
        let rate = -cim[u][x][x];
        // probabilities of longer times, down to those of about a hundred draws
        let ps = [0.9999f64, 0.999, 0.98, 0.9, 0.7, 0.5, 0.3, 0.1, 0.02, 1e-3, 1e-4, 4.54e-5, 1.6e-5];
        let mut above = [0u64; 13];
        // pairs of draws in which both fall below their medians, next states after a short time
        let (mut last, mut both, mut pairs) = (None::<bool>, 0u64, 0u64);
        let mut after_short = vec![0u64; c.k];
        let mut uni_after = vec![0u64; c.k];
        let mut next = vec![0u64; c.k];
        let mut uni = vec![0u64; c.k];
        let mut sum = 0.0;
        for _ in 0..c.n {
            let t = p.get_random_residence_time(x, u, &mut rng).map_err(|e| format!("{:?}", e))?;
            ensure!(t >= 0.0, "residence time {}", t);
            sum += (t * rate).min(60.0);
            for (i, q) in ps.iter().enumerate() {
                if t * rate > -q.ln() {
                    above[i] += 1;
                }
            }
            let StateType::Discrete(y) = p.get_random_state(x, u, &mut rng).map_err(|e| format!("{:?}", e))?;
            ensure!(y < c.k && y != x && cim[u][x][y] > 0.0, "state {} drawn from {} in row {:?}", y, x, cim[u][x]);
            next[y] += 1;
            let short = t * rate <= std::f64::consts::LN_2;
            after_short[y] += short as u64;
            last = match last {
                None => Some(short),
                Some(s) => {
                    pairs += 1;
                    both += (s && short) as u64;
                    None
                }
            };
            let StateType::Discrete(y) = p.get_random_state_uniform(&mut rng);
            ensure!(y < c.k, "uniform state {} of {}", y, c.k);
            uni[y] += 1;
            uni_after[y] += short as u64;
        }
        ensure!(binom_ok(both, pairs, 0.25), "both residence times below the median in {} of {} pairs of draws", both, pairs);
        for (i, q) in ps.iter().enumerate() {
            ensure!(tail_ok(above[i], c.n, *q), "{} of {} residence times (rate {}) exceed the one that should be exceeded with probability {}", above[i], c.n, rate, q);
        }
        // sum of n exponentials truncated at 60: standard deviation sqrt(n), sub-exponential tails
        ensure!((sum - c.n as f64).abs() <= 9.0 * (c.n as f64).sqrt() + 60.0, "mean residence time {} of rate {}", sum / c.n as f64 / rate, rate);
        for y in 0..c.k {
            if y != x {
                ensure!(binom_ok(next[y], c.n, cim[u][x][y] / rate), "state {} drawn {} of {} times from {} in row {:?}", y, next[y], c.n, x, cim[u][x]);
                ensure!(binom_ok(after_short[y], c.n, 0.5 * cim[u][x][y] / rate), "state {} drawn {} of {} times from {} after a residence time below the median, in row {:?}", y, after_short[y], c.n, x, cim[u][x]);
            }
            ensure!(binom_ok(uni_after[y], c.n, 0.5 / c.k as f64), "uniform state {} drawn {} of {} times after a residence time below the median", y, uni_after[y], c.n);
            ensure!(binom_ok(uni[y], c.n, 1.0 / c.k as f64), "uniform state {} drawn {} of {} times", y, uni[y], c.n);
        }
    }
    Ok(Obs::new(c.k > 2).tag(matches!(c.rates.kind, RateKind::Zeros(_)), "zero rates"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "transition rates (dense)",
            "networks and Markov processes simulated for about 60000 events in long or short trajectories; for every node, configuration, state, next state and seven strata of the past, count - rate * time is tested; non-trivial: some cell with at least 500 expected transitions",
            320,
            || law(60_000.0),
            rates,
        ),
        sub(
            "transition rates (many networks)",
            "as above with about 4000 events for each of many networks; non-trivial: some cell with at least 500 expected transitions",
            3_000,
            || law(4_000.0),
            rates,
        ),
        sub(
            "initial states",
            "initial states of 4000 trajectories or sampler resets when none is requested: uniform per node, independent between nodes and between repetitions; non-trivial: more than one node",
            200,
            || boxed((net_spec(NETS), kind(), seed(), any::<bool>())
                .prop_map(|(net, kind, seed, resets)| Initial { net, kind, seed, n: 4000, resets })),
            initial,
        ),
        sub(
            "single draws",
            "5000 residence times, next states and uniform states of a node with 2..12 states for three (configuration, state) pairs; quantiles, mean, frequencies and joint frequencies of consecutive draws tested; non-trivial: more than two states",
            400,
            || boxed((card(12), 1usize..5, rate_spec(9), seed())
                .prop_map(|(k, u, rates, seed)| Draws { k, u, rates, seed, n: 5000 })),
            single_steps,
        ),
        sub(
            "single draws (many)",
            "8000000 of these draws for one (configuration, state) pair of nodes with 2..40 states and rates over several decades, so that the tails (one draw in sixty thousand) and rare next states are tested; non-trivial: as above",
            16,
            || {
                let k = prop_oneof![3 => 2usize..13, 1 => 13usize..40];
                boxed((k, 1usize..5, rate_spec(3), seed())
                    .prop_map(|(k, u, rates, seed)| Draws { k, u, rates, seed, n: 8_000_000 }))
            },
            single_steps,
        ),
        sub(
            "transition rates (wide)",
            "as above for networks of 17..60 nodes, and for nodes and Markov processes with up to 40 states, about 30000 events each; non-trivial: some cell with at least 100 expected transitions",
            40,
            || {
                const STATES: NetCfg = NetCfg { n: (1, 2), max_card: 40, max_edges: 2, max_rows: 200, max_joint: 1600, scale: 0 };
                let per = prop_oneof![1 => 10.0f64..300.0, 1 => Just(30_000.0)];
                let shape = prop_oneof![
                    2 => (wide_spec((17, 60), 6, 40, 0), Just(Kind::Ctbn)),
                    1 => (net_spec(STATES), prop_oneof![Just(Kind::Ctbn), Just(Kind::Ctmp)]),
                ];
                boxed((shape, seed(), per, any::<bool>())
                    .prop_map(|((net, kind), seed, per_traj, sampler)| Law { net, kind, seed, per_traj, total: 30_000.0, sampler }))
            },
            |c| rates_with(c, 100.0),
        ),
    ]
}
