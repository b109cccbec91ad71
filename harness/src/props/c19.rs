//! C19: Monte Carlo reward estimates.
use super::c05::{kind, library_process, process_model, Kind, Lib};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::with_process;
use proptest::prelude::*;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use serde::{Deserialize, Serialize};

pub const NETS: NetCfg = NetCfg { n: (1, 4), max_card: 5, max_edges: 6, max_rows: 60, max_joint: 24, scale: 0 };

/// Reward tables per node of the process that is evaluated.
#[derive(Clone, Debug)]
pub struct Rewards {
    pub inst: Vec<Vec<f64>>,
    pub trans: Vec<Vec<Vec<f64>>>,
}

impl Rewards {
    pub fn zero(m: &Net) -> Rewards {
        Rewards {
            inst: m.cards.iter().map(|k| vec![0.0; *k]).collect(),
            trans: m.cards.iter().map(|k| vec![vec![0.0; *k]; *k]).collect(),
        }
    }
    /// Random tables: instantaneous and transition rewards of the given scales.
    pub fn random(m: &Net, seed: u64, inst: f64, trans: f64, zeros: f64) -> Rewards {
        let mut r = Rand::new(seed);
        let mut v = |s: f64| if r.f() < zeros { 0.0 } else { s * (2.0 * r.f() - 0.7) };
        Rewards {
            inst: m.cards.iter().map(|k| (0..*k).map(|_| v(inst)).collect()).collect(),
            // diagonals are never earned: their values must not matter
            trans: m.cards.iter().map(|k| (0..*k).map(|_| (0..*k).map(|_| v(trans)).collect()).collect()).collect(),
        }
    }
    pub fn combine(a: f64, x: &Rewards, b: f64, y: &Rewards) -> Rewards {
        let mut out = x.clone();
        for v in 0..x.inst.len() {
            for s in 0..x.inst[v].len() {
                out.inst[v][s] = a * x.inst[v][s] + b * y.inst[v][s];
                for t in 0..x.inst[v].len() {
                    out.trans[v][s][t] = a * x.trans[v][s][t] + b * y.trans[v][s][t];
                }
            }
        }
        out
    }
    pub fn abs(&self) -> Rewards {
        let mut out = self.clone();
        out.inst.iter_mut().flatten().for_each(|x| *x = x.abs());
        out.trans.iter_mut().flatten().flatten().for_each(|x| *x = x.abs());
        out
    }
    pub fn function<N: NetworkProcess>(&self, p: &N) -> FactoredRewardFunction {
        let mut f = FactoredRewardFunction::initialize_from_network_process(p);
        for v in 0..self.inst.len() {
            for s in 0..self.inst[v].len() {
                f.get_instantaneous_reward_mut(v)[s] = self.inst[v][s];
                for t in 0..self.inst[v].len() {
                    f.get_transition_reward_mut(v)[[s, t]] = self.trans[v][s][t];
                }
            }
        }
        f
    }
    /// Joint instantaneous and transition rewards, states numbered by `encode`.
    pub fn joint(&self, m: &Net) -> (Vec<f64>, Mat) {
        let n = m.joint();
        let states: Vec<Vec<usize>> = (0..n).map(|i| decode(&m.cards, i)).collect();
        let inst = states.iter().map(|s| (0..m.n()).map(|v| self.inst[v][s[v]]).sum()).collect();
        let mut trans = vec![vec![0.0; n]; n];
        for i in 0..n {
            for v in 0..m.n() {
                for y in 0..m.cards[v] {
                    if y != states[i][v] {
                        let mut s = states[i].clone();
                        s[v] = y;
                        trans[i][encode(&m.cards, &s)] = self.trans[v][states[i][v]][y];
                    }
                }
            }
        }
        (inst, trans)
    }
}

/// Mean and variance of the accumulated reward of one trajectory from every state.
pub fn moments(q: &Mat, inst: &[f64], trans: &Mat, gamma: f64, t: f64) -> Vec<(f64, f64)> {
    let n = q.len();
    let dim = 2 * n + 1;
    let mut a = vec![vec![0.0; dim]; dim];
    for x in 0..n {
        let (mut r, mut c2) = (inst[x], 0.0);
        for y in 0..n {
            a[x][y] = q[x][y] * t;
            a[n + x][n + y] = q[x][y] * t;
            if y != x {
                r += q[x][y] * trans[x][y];
                c2 += q[x][y] * trans[x][y] * trans[x][y];
                a[x][n + y] += 2.0 * q[x][y] * trans[x][y] * t;
            }
        }
        a[x][x] -= 2.0 * gamma * t;
        a[n + x][n + x] -= gamma * t;
        a[x][n + x] += 2.0 * inst[x] * t;
        a[x][2 * n] = c2 * t;
        a[n + x][2 * n] = r * t;
    }
    let e = expm(&a);
    (0..n).map(|x| (e[n + x][2 * n], (e[x][2 * n] - e[n + x][2 * n].powi(2)).max(0.0))).collect()
}

pub fn criteria(gamma: Option<f64>) -> RewardCriteria {
    match gamma {
        None => RewardCriteria::FiniteHorizon,
        Some(g) => RewardCriteria::InfiniteHorizon { discount_factor: g },
    }
}

pub fn plain(n: usize, t: f64, gamma: Option<f64>, seed: u64) -> MonteCarloReward {
    MonteCarloReward::new(n, 0.0, 0.0, t, criteria(gamma), Some(seed))
}

fn value(lib: &Lib, r: &Rewards, mc: &MonteCarloReward, state: &[usize]) -> f64 {
    with_process!(lib, p => mc.evaluate_state(p, &r.function(p), &st(state)))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Base {
    pub net: NetSpec,
    pub kind: Kind,
    pub seed: u64,
    pub start: u64,
    /// expected number of events up to the end time at typical rates
    pub events: f64,
    /// discount rate times end time
    pub discount: Option<f64>,
}

pub struct Setting {
    pub m: Net,
    pub lib: Lib,
    pub t: f64,
    pub gamma: Option<f64>,
    pub start: Vec<usize>,
}

pub fn setting(c: &Base) -> Result<Setting, String> {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let t = (c.events / m.typical_rate()).min(20.0 * c.events.max(1.0) / m.max_total_rate());
    let mut r = Rand::new(c.start);
    let start = m.cards.iter().map(|k| r.below(*k)).collect();
    Ok(Setting { lib, t, gamma: c.discount.map(|d| d / t), start, m })
}

pub fn base(max_events: f64) -> BoxedStrategy<Base> {
    let events = prop_oneof![1 => 0.05f64..1.0, 3 => 1.0f64..max_events.min(12.0), 1 => 1.0f64..max_events];
    let discount = proptest::option::of((-2.0f64..1.5).prop_map(|e| 10f64.powf(e)));
    boxed((net_spec(NETS), kind(), seed(), any::<u64>(), events, discount)
        .prop_map(|(net, kind, seed, start, events, discount)| Base { net, kind, seed, start, events, discount }))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Expect {
    pub base: Base,
    pub rewards: u64,
    pub inst: f64,
    pub trans: f64,
    pub zeros: f64,
    /// total number of simulated events
    pub budget: f64,
}

/// Compares an estimate with the exact mean; returns the ratio of the standard deviation to the mean.
pub fn against_moments(what: &str, est: f64, n: usize, m: &Net, r: &Rewards, gamma: f64, t: f64, start: &[usize]) -> Result<f64, String> {
    let q = m.generator();
    let (ji, jt) = r.joint(m);
    let i = encode(&m.cards, start);
    let (mean, var) = moments(&q, &ji, &jt, gamma, t)[i];
    let (ai, at) = r.abs().joint(m);
    let absolute = moments(&q, &ai, &at, gamma, t).iter().map(|x| x.0).fold(0.0, f64::max);
    let jump = at.iter().flatten().cloned().fold(0.0, f64::max) + 2.0 * absolute;
    let bound = (9.0 * (n as f64 * var).sqrt() + 12.0 * jump) / n as f64 + 1e-8 * absolute;
    ensure!(
        (est - mean).abs() <= bound,
        "{}: average of {} trajectories is {}, expected {} (standard error {:.3e}, allowed deviation {:.3e})",
        what, n, est, mean, (var / n as f64).sqrt(), bound
    );
    Ok(bound / (absolute + 1e-300))
}

pub fn expectation(c: &Expect) -> Check {
    let s = setting(&c.base)?;
    let r = Rewards::random(&s.m, c.rewards, c.inst, c.trans, c.zeros);
    let n = (c.budget / (1.0 + s.t * s.m.max_total_rate())).clamp(1500.0, 60_000.0) as usize;
    let est = value(&s.lib, &r, &plain(n, s.t, s.gamma, c.base.seed), &s.start);
    let rel = against_moments("expectation", est, n, &s.m, &r, s.gamma.unwrap_or(0.0), s.t, &s.start)?;
    Ok(Obs::new(rel < 0.1)
        .tag(s.gamma.is_some(), "discounted")
        .tag(c.base.kind != Kind::Ctbn, "Markov process")
        .tag(s.m.has_edges(), "with edges")
        .tag(c.inst > 0.0 && c.trans > 0.0, "both kinds of reward")
        .tag(c.inst == 0.0, "transition rewards only")
        .tag(c.trans == 0.0, "instantaneous rewards only")
        .tag(rel < 0.02, "allowed deviation below 2% of the absolute reward"))
}

pub fn expect(budget: f64) -> BoxedStrategy<Expect> {
    let scales = prop_oneof![3 => (0.1f64..10.0, 0.1f64..10.0), 1 => (0.1f64..10.0, Just(0.0)), 1 => (Just(0.0), 0.1f64..10.0)];
    let zeros = prop_oneof![1 => Just(0.0), 1 => 0.0f64..0.8];
    boxed((base(60.0), any::<u64>(), scales, zeros)
        .prop_map(move |(base, rewards, (inst, trans), zeros)| Expect { base, rewards, inst, trans, zeros, budget }))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Exact {
    base: Base,
    rewards: u64,
    other: u64,
    a: f64,
    b: f64,
    n: usize,
    node: u8,
    from: u8,
    to: u8,
    early: Option<(f64, f64)>,
}

fn identities(c: &Exact) -> Check {
    let s = setting(&c.base)?;
    let (m, t) = (&s.m, s.t);
    let seed = c.base.seed;
    let run = |r: &Rewards, n: usize, g: Option<f64>| value(&s.lib, r, &plain(n, t, g, seed), &s.start);
    let horizon = match s.gamma {
        None => t,
        Some(g) => -(-g * t).exp_m1() / g,
    };

    // a constant instantaneous reward is worth exactly the horizon, also with early stopping
    let mut rng = Rand::new(c.rewards);
    let mut constant = Rewards::zero(m);
    let mut sum = 0.0;
    let mut size = 0.0f64;
    for v in 0..m.n() {
        let x = 4.0 * rng.f() - 2.0;
        sum += x;
        size += x.abs();
        constant.inst[v].iter_mut().for_each(|y| *y = x);
    }
    let tol = 1e-9 * size * horizon;
    let mc = match c.early {
        None => plain(c.n, t, s.gamma, seed),
        Some((err, alpha)) => MonteCarloReward::new(c.n, err, alpha, t, criteria(s.gamma), Some(seed)),
    };
    let got = value(&s.lib, &constant, &mc, &s.start);
    ensure!(
        (got - sum * horizon).abs() <= tol,
        "constant instantaneous reward {} over {} (discount {:?}) gives {}, expected {}", sum, t, s.gamma, got, sum * horizon
    );

    // linear in the reward, for the same trajectories
    let r1 = Rewards::random(m, c.rewards, 2.0, 3.0, 0.2);
    let r2 = Rewards::random(m, c.other, 3.0, 2.0, 0.2);
    let (v1, v2) = (run(&r1, c.n, s.gamma), run(&r2, c.n, s.gamma));
    let v12 = run(&Rewards::combine(c.a, &r1, c.b, &r2), c.n, s.gamma);
    let mag = run(&Rewards::combine(c.a.abs(), &r1.abs(), c.b.abs(), &r2.abs()), c.n, s.gamma);
    ensure!(
        (v12 - c.a * v1 - c.b * v2).abs() <= 1e-9 * mag,
        "not linear: {} * {} + {} * {} = {}, evaluated together {}", c.a, v1, c.b, v2, c.a * v1 + c.b * v2, v12
    );
    ensure!(mag >= 0.0, "non-negative rewards give {}", mag);

    // telescoping: paying the increase of a potential gives the potential at the end minus at the start
    let potential: Vec<Vec<f64>> = m.cards.iter().map(|k| (0..*k).map(|_| 2.0 * rng.f() - 1.0).collect()).collect();
    let mut tele = Rewards::zero(m);
    for v in 0..m.n() {
        for x in 0..m.cards[v] {
            for y in 0..m.cards[v] {
                tele.trans[v][x][y] = potential[v][y] - potential[v][x];
            }
        }
    }
    let pot = |x: &[usize]| -> f64 { (0..m.n()).map(|v| potential[v][x[v]]).sum() };
    let end = run(&tele, 1, None) + pot(&s.start);
    let joint = m.cards.iter().fold(1usize, |a, k| a.saturating_mul(*k));
    let hit = joint <= 100 && (0..joint).any(|i| (pot(&decode(&m.cards, i)) - end).abs() <= 1e-9);
    let range: f64 = potential.iter().map(|p| p.iter().cloned().fold(f64::MIN, f64::max) - p.iter().cloned().fold(f64::MAX, f64::min)).sum();
    ensure!((end - pot(&s.start)).abs() <= range + 1e-9, "transition rewards that telescope sum to {}, but no two states differ by more than {}", end - pot(&s.start), range);
    ensure!(hit || joint > 100, "transition rewards that telescope sum to {}, which no state explains", end - pot(&s.start));

    // times in the states of a node add up to the horizon, counts of moves are whole and consistent
    let v = c.node as usize % m.n();
    let k = m.cards[v];
    let (x, y) = (c.from as usize % k, c.to as usize % k);
    let mut total = 0.0;
    for state in 0..k {
        let mut only = Rewards::zero(m);
        only.inst[v][state] = 1.0;
        let dwell = run(&only, c.n, s.gamma);
        ensure!(dwell >= -1e-12 * horizon && dwell <= horizon * (1.0 + 1e-9), "time {} in state {} of node {}, horizon {}", dwell, state, v, horizon);
        total += dwell;
    }
    ensure!((total - horizon).abs() <= 1e-9 * horizon, "times in the states of node {} add up to {}, horizon {}", v, total, horizon);
    let mut moves = Rewards::zero(m);
    if x != y {
        moves.trans[v][x][y] = 1.0;
    }
    let count = run(&moves, 1, None);
    ensure!(count >= 0.0 && count == count.round(), "{} moves of node {} from {} to {}", count, v, x, y);
    if m.cims[v].iter().all(|u| u[x][y] <= 0.0) {
        ensure!(count == 0.0, "{} impossible moves of node {} from {} to {}", count, v, x, y);
    }

    // a vanishing discount is the finite horizon
    let weak = 1e-5 / t;
    let (fin, disc) = (run(&r1, c.n, None), run(&r1, c.n, Some(weak)));
    let size = run(&r1.abs(), c.n, None);
    ensure!((fin - disc).abs() <= 1.1e-5 * size + 1e-9, "finite horizon {}, discounted at {}: {}", fin, weak, disc);

    // a stronger discount never pays more for non-negative rewards, and less than exp(-gamma t) never
    if let Some(g) = s.gamma {
        let d = run(&r1.abs(), c.n, Some(g));
        ensure!(d <= size * (1.0 + 1e-9), "discounted {} exceeds undiscounted {}", d, size);
        ensure!(d >= size * (-g * t).exp() * (1.0 - 1e-9) - 1e-12 * size, "discounted {} below exp(-gamma T) times {}", d, size);
    }
    Ok(Obs::new(mag > 0.0 && joint > 2)
        .tag(s.gamma.is_some(), "discounted")
        .tag(c.base.kind != Kind::Ctbn, "Markov process")
        .tag((end - pot(&s.start)).abs() > 1e-9, "ends in another state")
        .tag(count > 0.0, "counted moves")
        .tag(c.early.is_some(), "early stopping"))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Stop {
    base: Base,
    rewards: u64,
    /// allowed error in units of the standard deviation of one trajectory
    err: f64,
    alpha: f64,
    n: usize,
}

fn stopping(c: &Stop) -> Check {
    let s = setting(&c.base)?;
    let r = Rewards::random(&s.m, c.rewards, 2.0, 2.0, 0.1);
    let means: Vec<f64> = (1..=c.n).map(|k| value(&s.lib, &r, &plain(k, s.t, s.gamma, c.base.seed), &s.start)).collect();
    let mut returns = vec![];
    for k in 0..c.n {
        returns.push(means[k] * (k + 1) as f64 - if k > 0 { means[k - 1] * k as f64 } else { 0.0 });
    }
    let big = returns.iter().map(|x| x.abs()).fold(0.0, f64::max);
    let sd = {
        let mean = means[c.n - 1];
        (returns.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / c.n as f64).sqrt()
    };
    if sd <= 1e-4 * big {
        return Ok(Obs::new(false).tag(true, "no spread: not compared"));
    }
    let err = c.err * sd;
    let mut allowed = vec![];
    let mut sure = false;
    for k in 4..=c.n {
        let mean = means[k - 1];
        let var = returns[..k].iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (k - 1) as f64;
        if var <= 1e-8 * big * big {
            allowed.push(k); // rounding decides
            continue;
        }
        let p = 2.0 * normal_cdf(-(k as f64).sqrt() * err / var.sqrt());
        let margin = 1e-6 + 1e-5 * c.alpha;
        if p < c.alpha - margin {
            allowed.push(k);
            sure = true;
            break;
        }
        if p < c.alpha + margin {
            allowed.push(k);
        }
    }
    if !sure {
        allowed.push(c.n);
    }
    let mc = MonteCarloReward::new(c.n, err, c.alpha, s.t, criteria(s.gamma), Some(c.base.seed));
    let got = value(&s.lib, &r, &mc, &s.start);
    let close_to = |k: usize| (got - means[k - 1]).abs() <= 1e-9 * big;
    ensure!(
        allowed.iter().any(|k| close_to(*k)),
        "maximum {}, allowed error {}, level {}: the estimate {} is the average of the first {:?} trajectories, expected the first {:?} ({})",
        c.n, err, c.alpha, got, (1..=c.n).filter(|k| close_to(*k)).collect::<Vec<_>>(), allowed, means[*allowed.last().unwrap() - 1]
    );
    let last = *allowed.last().unwrap();
    Ok(Obs::new(sure && last < c.n)
        .tag(last == 4 && sure, "stops at the fourth trajectory")
        .tag(last > 6 && sure, "stops after the sixth trajectory")
        .tag(last > 100 && sure, "stops after the hundredth trajectory")
        .tag(!sure, "uses the maximum")
        .tag(c.n < 4, "maximum below four")
        .tag(allowed.len() > 1, "rounding may decide"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "expectation",
            "random rewards on networks and Markov processes of up to 24 joint states, finite horizon or discounted, end times of 0.05 to 60 typical events; the average of 1500..60000 trajectories compared with the exact mean and variance from the joint generator; non-trivial: allowed deviation below 10% of the expected absolute reward",
            400,
            || expect(400_000.0),
            expectation,
        ),
        sub(
            "identities",
            "identities that hold for every set of trajectories: constant rewards, linearity, telescoping transition rewards, times adding up to the horizon, whole move counts, vanishing discount, discount bounds; non-trivial: more than two joint states and a positive reward",
            8_000,
            || {
                let coeff = || prop_oneof![1 => Just(0.0), 4 => -5.0f64..5.0];
                let early = proptest::option::weighted(0.3, (1e-6f64..1.0, 1e-6f64..0.9));
                boxed((base(60.0), (any::<u64>(), any::<u64>()), coeff(), coeff(), 1usize..25, any::<(u8, u8, u8)>(), early)
                    .prop_map(|(base, (rewards, other), a, b, n, (node, from, to), early)| Exact { base, rewards, other, a, b, n, node, from, to, early }))
            },
            identities,
        ),
        sub(
            "identities (large)",
            "as above for networks of up to 40 nodes with up to 40 states and for paths of up to 20000 changes; non-trivial: as above",
            120,
            || {
                let coeff = || prop_oneof![1 => Just(0.0), 4 => -5.0f64..5.0];
                let early = proptest::option::weighted(0.3, (1e-6f64..1.0, 1e-6f64..0.9));
                let net = prop_oneof![1 => (net_spec(NETS), kind()), 2 => (wide_spec((2, 40), 40, 60, 1), Just(Kind::Ctbn))];
                let events = prop_oneof![1 => 1.0f64..100.0, 2 => 100.0f64..20_000.0];
                let discount = proptest::option::of((-2.0f64..1.5).prop_map(|e| 10f64.powf(e)));
                let base = (net, seed(), any::<u64>(), events, discount)
                    .prop_map(|((net, kind), seed, start, events, discount)| Base { net, kind, seed, start, events, discount });
                boxed((base, (any::<u64>(), any::<u64>()), coeff(), coeff(), 1usize..4, any::<(u8, u8, u8)>(), early)
                    .prop_map(|(base, (rewards, other), a, b, n, (node, from, to), early)| Exact { base, rewards, other, a, b, n, node, from, to, early }))
            },
            identities,
        ),
        sub(
            "stopping rule",
            "the number of trajectories used, recovered from the averages of the first 1, 2, ... trajectories, compared with the stopping rule computed from them; allowed errors 0.01..3 standard deviations, levels 1e-6..0.99, maxima 1..60; non-trivial: stops before the maximum",
            4_000,
            || {
                let err = (-2.0f64..0.5).prop_map(|e| 10f64.powf(e));
                let alpha = prop_oneof![1 => (-6.0f64..0.0).prop_map(|e| 10f64.powf(e)), 2 => 0.01f64..0.99];
                boxed((base(20.0), any::<u64>(), err, alpha, 1usize..60)
                    .prop_map(|(base, rewards, err, alpha, n)| Stop { base, rewards, err, alpha, n }))
            },
            stopping,
        ),
        sub(
            "stopping rule (late)",
            "as above with maxima of 100..600 and allowed errors for which the rule is met between the 20th and the 900th trajectory; non-trivial: as above",
            250,
            || {
                let alpha = prop_oneof![1 => (-4.0f64..0.0).prop_map(|e| 10f64.powf(e)), 2 => 0.01f64..0.6];
                boxed((base(6.0), any::<u64>(), 20.0f64..900.0, alpha, 100usize..600).prop_map(|(base, rewards, at, alpha, n)| {
                    // smallest z with 2 * normal_cdf(-z) <= alpha
                    let (mut low, mut high) = (0.0f64, 40.0f64);
                    for _ in 0..60 {
                        let z = (low + high) / 2.0;
                        if 2.0 * normal_cdf(-z) > alpha { low = z } else { high = z }
                    }
                    Stop { base, rewards, err: high / at.sqrt(), alpha, n }
                }))
            },
            stopping,
        ),
    ]
}
