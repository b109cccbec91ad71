//! C20: evaluation of the whole state space and relative rewards.
use super::c05::{kind, library_process, process_model, Kind};
use super::c07::in_pool;
use super::c19::{criteria, Rewards};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::with_process;
use proptest::prelude::*;
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::{MonteCarloReward, NeighborhoodRelativeReward};
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

const NETS: NetCfg = NetCfg { n: (1, 6), max_card: 7, max_edges: 8, max_rows: 100, max_joint: 300, scale: 0 };

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Space {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    rewards: u64,
    n: usize,
    events: f64,
    discount: Option<f64>,
    early: (f64, f64),
    threads: usize,
}

fn keys(map: &HashMap<NetworkProcessState, f64>, m: &Net) -> Result<Vec<f64>, String> {
    ensure!(map.len() == m.joint(), "{} entries for {} joint states", map.len(), m.joint());
    let mut out = vec![];
    for i in 0..m.joint() {
        let x = decode(&m.cards, i);
        match map.get(&st(&x)) {
            Some(v) => out.push(*v),
            None => return Err(format!("no entry for state {:?}", x)),
        }
    }
    Ok(out)
}

fn space(c: &Space) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let t = c.events / m.max_total_rate();
    let mc = MonteCarloReward::new(c.n, c.early.0, c.early.1, t, criteria(c.discount.map(|d| d / t)), Some(c.seed));
    let r = Rewards::random(&m, c.rewards, 2.0, 2.0, 0.1);
    let mut rng = Rand::new(c.seed);
    with_process!(&lib, p => {
        let f = r.function(p);
        let map = if c.threads == 0 { mc.evaluate_state_space(p, &f) } else { in_pool(c.threads, || mc.evaluate_state_space(p, &f)) };
        let got = keys(&map, &m)?;
        for i in 0..m.joint() {
            if m.joint() <= 30 || rng.below(m.joint()) < 30 {
                let x = decode(&m.cards, i);
                let alone = mc.evaluate_state(p, &f, &st(&x));
                ensure!(alone.to_bits() == got[i].to_bits(), "state {:?} evaluates to {} alone, {} with the state space", x, alone, got[i]);
            }
        }
        Ok(Obs::new(m.n() > 1 && m.cards.iter().any(|k| *k != m.cards[0]))
            .tag(m.joint() > 60, "more than 60 joint states")
            .tag(m.joint() > 1024, "more than 1024 joint states")
            .tag(c.kind != Kind::Ctbn, "Markov process")
            .tag(c.threads > 0, "own thread pool"))
    })
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ratio {
    cards: Vec<usize>,
    seed: u64,
    shape: Shape,
    markov: bool,
    /// limit on the number of joint states
    #[serde(default = "small")]
    limit: usize,
    /// every value is multiplied by it
    #[serde(default = "one")]
    unit: f64,
    /// share of values that are negated
    #[serde(default)]
    negative: f64,
}

fn one() -> f64 {
    1.0
}

fn small() -> usize {
    250
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Shape {
    /// 10^U(-d, d)
    Spread(f64),
    /// sums of node values (neighbours differ little)
    Smooth,
    /// one state has a tiny or huge value
    Spike(f64),
    Constant,
}

/// An inner evaluation with given values.
struct Fixed {
    cards: Vec<usize>,
    values: Vec<f64>,
}

impl RewardEvaluation for Fixed {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, _p: &N, _r: &R) -> HashMap<NetworkProcessState, f64> {
        (0..self.values.len()).map(|i| (st(&decode(&self.cards, i)), self.values[i])).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, _p: &N, _r: &R, s: &NetworkProcessState) -> f64 {
        self.values[encode(&self.cards, &unst(s))]
    }
}

fn neighbours(cards: &[usize], values: &[f64], i: usize) -> (f64, usize) {
    let x = decode(cards, i);
    let mut best = 1.0f64;
    let mut arg = i;
    for v in 0..cards.len() {
        for y in 0..cards[v] {
            let mut z = x.clone();
            z[v] = y;
            let j = encode(cards, &z);
            if values[i] / values[j] > best {
                best = values[i] / values[j];
                arg = j;
            }
        }
    }
    (best, arg)
}

fn compare(cards: &[usize], values: &[f64], got: &[f64]) -> Result<bool, String> {
    let mut beyond = false;
    let reach = |x: f64| values.iter().map(|y| x / y).fold(1.0, f64::max);
    for i in 0..values.len() {
        let (want, arg) = neighbours(cards, values, i);
        ensure!(got[i] >= 1.0, "relative reward {} of {:?} is below one", got[i], decode(cards, i));
        ensure!(
            close(got[i], want, 1e-12, 0.0),
            "relative reward of {:?} is {}, expected {} (neighbour {:?}, values {} and {})",
            decode(cards, i), got[i], want, decode(cards, arg), values[i], values[arg]
        );
        beyond |= want < reach(values[i]) * 0.999;
    }
    Ok(beyond)
}

fn ratio(c: &Ratio) -> Check {
    let mut cards = c.cards.clone();
    if c.markov {
        cards.truncate(1);
    }
    while cards.iter().product::<usize>() > c.limit {
        cards.pop();
    }
    let total: usize = cards.iter().product();
    let mut r = Rand::new(c.seed);
    let values: Vec<f64> = match &c.shape {
        Shape::Spread(d) => (0..total).map(|_| 10f64.powf((2.0 * r.f() - 1.0) * d)).collect(),
        Shape::Smooth => {
            let part: Vec<Vec<f64>> = cards.iter().map(|k| (0..*k).map(|_| 0.1 + r.f()).collect()).collect();
            (0..total).map(|i| decode(&cards, i).iter().enumerate().map(|(v, x)| part[v][*x]).sum()).collect()
        }
        Shape::Spike(f) => {
            let at = r.below(total);
            (0..total).map(|i| (1.0 + r.f()) * if i == at { *f } else { 1.0 }).collect()
        }
        Shape::Constant => vec![0.1 + r.f(); total],
    };
    let mut signs = Rand::new(c.seed ^ 0x5157);
    let values: Vec<f64> = values.iter().map(|x| x * c.unit * if signs.f() < c.negative { -1.0 } else { 1.0 }).collect();
    let inner = Fixed { cards: cards.clone(), values: values.clone() };
    let m = Net { parents: vec![vec![]; cards.len()], cims: vec![], cards };
    let map = if c.markov {
        let mut p = reCTBN::process::ctmp::CtmpProcess::new();
        p.add_node(reCTBN::params::Params::DiscreteStatesContinousTime(new_node("x", m.cards[0]))).map_err(|e| format!("{:?}", e))?;
        let f = Rewards::zero(&m).function(&p);
        NeighborhoodRelativeReward::new(inner).evaluate_state_space(&p, &f)
    } else {
        let net = m.build_structure()?;
        let f = Rewards::zero(&m).function(&net);
        NeighborhoodRelativeReward::new(inner).evaluate_state_space(&net, &f)
    };
    let got = keys(&map, &m)?;
    let beyond = compare(&m.cards, &values, &got)?;
    Ok(Obs::new(beyond)
        .tag(m.n() > 3, "more than three nodes")
        .tag(matches!(c.shape, Shape::Spike(_)), "one state stands out")
        .tag(c.markov, "Markov process")
        .tag(c.negative > 0.0, "negative values")
        .tag(c.unit < 1e-9 || c.unit > 1e9, "very small or large values")
        .tag(total > 60, "more than 60 joint states")
        .tag(total > 1024, "more than 1024 joint states"))
}

fn ratio_of_estimates(c: &Space) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let t = c.events / m.max_total_rate();
    // positive rewards only
    let mut r = Rewards::random(&m, c.rewards, 2.0, 2.0, 0.0).abs();
    r.inst.iter_mut().flatten().for_each(|x| *x += 0.1);
    let mc = || MonteCarloReward::new(c.n, c.early.0, c.early.1, t, criteria(c.discount.map(|d| d / t)), Some(c.seed));
    with_process!(&lib, p => {
        let f = r.function(p);
        let inner = keys(&mc().evaluate_state_space(p, &f), &m)?;
        let got = keys(&NeighborhoodRelativeReward::new(mc()).evaluate_state_space(p, &f), &m)?;
        let beyond = compare(&m.cards, &inner, &got)?;
        Ok(Obs::new(beyond).tag(c.kind != Kind::Ctbn, "Markov process"))
    })
}

fn large_space() -> BoxedStrategy<Space> {
    const LARGE: NetCfg = NetCfg { n: (2, 13), max_card: 40, max_edges: 10, max_rows: 400, max_joint: 6000, scale: 0 };
    let discount = proptest::option::of((-2.0f64..1.0).prop_map(|e| 10f64.powf(e)));
    boxed((net_spec(LARGE), seed(), any::<u64>(), 1usize..5, 0.1f64..3.0, discount, prop_oneof![9 => Just(0usize), 1 => 1usize..7])
        .prop_map(|(net, seed, rewards, n, events, discount, threads)| Space { net, kind: Kind::Ctbn, seed, rewards, n, events, discount, early: (0.0, 0.0), threads }))
}

fn space_case(max_n: usize) -> BoxedStrategy<Space> {
    let discount = proptest::option::of((-2.0f64..1.0).prop_map(|e| 10f64.powf(e)));
    let early = prop_oneof![2 => Just((0.0, 0.0)), 1 => (0.01f64..1.0, 0.05f64..0.9)];
    let threads = prop_oneof![20 => Just(0usize), 1 => 1usize..7];
    boxed((net_spec(NETS), kind(), seed(), any::<u64>(), 1..max_n, 0.1f64..6.0, discount, early, threads)
        .prop_map(|(net, kind, seed, rewards, n, events, discount, early, threads)| Space { net, kind, seed, rewards, n, events, discount, early, threads }))
}

fn unit() -> BoxedStrategy<f64> {
    boxed(prop_oneof![3 => Just(1.0), 2 => (-12.0f64..12.0).prop_map(|e| 10f64.powf(e)), 1 => (-250.0f64..250.0).prop_map(|e| 10f64.powf(e))])
}

fn negative() -> BoxedStrategy<f64> {
    boxed(prop_oneof![3 => Just(0.0), 1 => Just(1.0), 1 => 0.0f64..1.0])
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "state space",
            "state spaces of up to 300 joint states evaluated with a seed: exactly one entry per joint state, equal to the state's own evaluation bit by bit, in the default or a pool of 1..6 threads; non-trivial: several nodes with different numbers of states",
            4_000,
            || space_case(12),
            space,
        ),
        sub(
            "ratios of given values",
            "the relative reward over an inner evaluation with arbitrary values (spread over decades, smooth, one outlier, constant; of any magnitude between 1e-250 and 1e250; positive, negative or mixed) on 1..7 nodes; compared with the ratio over all states that differ in at most one node; non-trivial: some state's ratio is below the one over all states",
            8_000,
            || {
                let shape = prop_oneof![3 => (0.05f64..4.0).prop_map(Shape::Spread), 3 => Just(Shape::Smooth), 2 => (-3.0f64..3.0).prop_map(|e| Shape::Spike(10f64.powf(e))), 1 => Just(Shape::Constant)];
                boxed((proptest::collection::vec(card(7), 1..8), any::<u64>(), shape, proptest::bool::weighted(0.1), unit(), negative())
                    .prop_map(|(cards, seed, shape, markov, unit, negative)| Ratio { cards, seed, shape, markov, limit: 250, unit, negative }))
            },
            ratio,
        ),
        sub(
            "ratios of estimates",
            "the relative reward over seeded Monte Carlo evaluation with positive rewards, compared with the ratios of the separately evaluated state space; non-trivial: some state's ratio is below the one over all states",
            1_500,
            || space_case(8),
            ratio_of_estimates,
        ),
        sub(
            "state space (large)",
            "as the first check with up to 6000 joint states over 2..13 nodes with up to 40 states; non-trivial: as above",
            100,
            large_space,
            space,
        ),
        sub(
            "ratios of given values (large)",
            "as the second check with up to 6000 joint states over 1..13 nodes with up to 60 states, and a Markov process of up to 300 states; non-trivial: as above",
            100,
            || {
                let shape = prop_oneof![3 => (0.05f64..4.0).prop_map(Shape::Spread), 3 => Just(Shape::Smooth), 2 => (-3.0f64..3.0).prop_map(|e| Shape::Spike(10f64.powf(e)))];
                let cards = prop_oneof![2 => proptest::collection::vec(card(4), 5..14), 1 => proptest::collection::vec(2usize..60, 2..4), 1 => proptest::collection::vec(2usize..300, 1..2)];
                boxed((cards, any::<u64>(), shape, proptest::bool::weighted(0.1), unit(), negative())
                    .prop_map(|(cards, seed, shape, markov, unit, negative)| Ratio { cards, seed, shape, markov, limit: 6000, unit, negative }))
            },
            ratio,
        ),
    ]
}
