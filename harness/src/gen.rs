//! Serialisable case descriptions and the proptest strategies that draw them.

use crate::fw::{boxed, fnv};
use crate::model::{Net, Rand, Traj};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum RateKind {
    /// off-diagonal rates uniform in 0.1..5
    Uniform,
    /// 10^U(-d, d)
    LogUniform(f64),
    /// as Uniform but each rate is zero with the given probability (one positive rate per row stays)
    Zeros(f64),
    /// integers 1..9
    Ints,
    /// each (node, configuration, state) has its own magnitude over d decades
    RowScales(f64),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct RateSpec {
    pub kind: RateKind,
    pub seed: u64,
    /// all rates are multiplied by 10^scale
    pub scale: i32,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct NetSpec {
    pub cards: Vec<usize>,
    /// (parent, child), no self loops, no repetitions
    pub edges: Vec<(usize, usize)>,
    pub rates: RateSpec,
}

#[derive(Clone, Copy)]
pub struct NetCfg {
    pub n: (usize, usize),
    pub max_card: usize,
    pub max_edges: usize,
    /// limit on (parent configurations of a node) * (cardinality of the node)
    pub max_rows: usize,
    /// limit on the number of joint states
    pub max_joint: usize,
    pub scale: i32,
}


impl NetSpec {
    pub fn n(&self) -> usize {
        self.cards.len()
    }
    pub fn parents(&self) -> Vec<Vec<usize>> {
        let mut p = vec![vec![]; self.n()];
        for (a, b) in &self.edges {
            p[*b].push(*a);
        }
        for v in p.iter_mut() {
            v.sort();
        }
        p
    }
    pub fn net(&self) -> Net {
        let parents = self.parents();
        let mut cims = vec![];
        for v in 0..self.n() {
            let u: usize = parents[v].iter().map(|p| self.cards[*p]).product();
            let mut rng = Rand::new(fnv(format!("{}/{}", self.rates.seed, v).as_bytes()));
            cims.push(gen_cim(&self.rates, u, self.cards[v], &mut rng));
        }
        Net { cards: self.cards.clone(), parents, cims }
    }
}

pub fn gen_cim(spec: &RateSpec, u: usize, k: usize, rng: &mut Rand) -> Vec<Vec<Vec<f64>>> {
    let scale = 10f64.powi(spec.scale);
    (0..u)
        .map(|_| {
            (0..k)
                .map(|x| {
                    let mut row = vec![0.0; k];
                    let row_scale = match spec.kind {
                        RateKind::RowScales(d) => 10f64.powf((rng.f() * 2.0 - 1.0) * d),
                        _ => 1.0,
                    };
                    let keep = if k > 1 { (x + 1 + rng.below(k - 1)) % k } else { 0 };
                    for y in 0..k {
                        if y == x {
                            continue;
                        }
                        let v = match spec.kind {
                            RateKind::Uniform | RateKind::RowScales(_) => 0.1 + 4.9 * rng.f(),
                            RateKind::LogUniform(d) => 10f64.powf((rng.f() * 2.0 - 1.0) * d),
                            RateKind::Zeros(p) => {
                                let v = 0.1 + 4.9 * rng.f();
                                let z = rng.f() < p;
                                if z && y != keep {
                                    0.0
                                } else {
                                    v
                                }
                            }
                            RateKind::Ints => (1 + rng.below(9)) as f64,
                        };
                        row[y] = v * row_scale * scale;
                    }
                    let s: f64 = row.iter().sum();
                    row[x] = -s;
                    row
                })
                .collect()
        })
        .collect()
}

pub fn seed() -> BoxedStrategy<u64> {
    boxed(prop_oneof![
        1 => Just(0u64),
        1 => Just(u64::MAX),
        2 => 1u64..100,
        6 => any::<u64>(),
    ])
}

pub fn rate_spec(scale: i32) -> BoxedStrategy<RateSpec> {
    let kind = prop_oneof![
        3 => Just(RateKind::Uniform),
        2 => (0.5f64..3.0).prop_map(RateKind::LogUniform),
        3 => (0.2f64..0.9).prop_map(RateKind::Zeros),
        1 => Just(RateKind::Ints),
        2 => (0.5f64..2.0).prop_map(RateKind::RowScales),
    ];
    let sc: BoxedStrategy<i32> =
        if scale == 0 { boxed(Just(0)) } else { boxed(prop_oneof![1 => Just(0), 1 => -scale..=scale]) };
    boxed((kind, any::<u64>(), sc).prop_map(|(kind, seed, scale)| RateSpec { kind, seed, scale }))
}

pub fn card(max: usize) -> BoxedStrategy<usize> {
    if max <= 2 {
        return boxed(Just(2));
    }
    let mid = max.min(4);
    if max > 4 {
        boxed(prop_oneof![3 => Just(2usize), 4 => 2..=mid, 2 => 2..=max])
    } else {
        boxed(prop_oneof![1 => Just(2usize), 2 => 2..=mid])
    }
}

pub fn net_spec(c: NetCfg) -> BoxedStrategy<NetSpec> {
    let raw_edges = prop_oneof![
        3 => vec((0usize..64, 0usize..64), 0..=c.max_edges),
        1 => vec((0usize..64, 0usize..64), (c.max_edges / 2)..=c.max_edges),
    ];
    boxed(
        (vec(card(c.max_card), c.n.0..=c.n.1), raw_edges, rate_spec(c.scale)).prop_map(move |(mut cards, raw, rates)| {
            // respect the joint-state limit by reducing cardinalities from the back
            while cards.iter().map(|x| *x as u128).product::<u128>() > c.max_joint as u128 {
                if let Some(i) = cards.iter().rposition(|x| *x > 2) {
                    cards[i] -= 1;
                } else if cards.len() > c.n.0.max(1) {
                    cards.pop();
                } else {
                    break;
                }
            }
            let edges = clean_edges(&cards, &raw, c.max_rows);
            NetSpec { cards, edges, rates }
        }),
    )
}

pub fn clean_edges(cards: &[usize], raw: &[(usize, usize)], max_rows: usize) -> Vec<(usize, usize)> {
    let n = cards.len();
    let mut rows: Vec<usize> = cards.to_vec();
    let mut edges: Vec<(usize, usize)> = vec![];
    for (a, b) in raw {
        let (a, b) = (a % n, b % n);
        if a == b || edges.contains(&(a, b)) || rows[b].saturating_mul(cards[a]) > max_rows {
            continue;
        }
        rows[b] *= cards[a];
        edges.push((a, b));
    }
    edges
}

// ---------------------------------------------------------------------------------------------
// Datasets

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Step {
    /// length of the interval before this row, in 1/64
    pub dt: u32,
    /// raw (variable, value) assignments: none repeats the row, several change at once
    pub set: Vec<(u8, u8)>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct TrajSpec {
    pub t0: u32,
    pub init: Vec<u8>,
    pub steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum DataSpec {
    /// written out step by step (times are multiples of 1/64, so sums are exact)
    Explicit(Vec<TrajSpec>),
    /// random walks expanded from a seed; `multi` allows simultaneous changes and repeated rows
    Walk { seed: u64, trajs: usize, len: usize, multi: bool },
    /// the reference simulation of the case's network
    Simulated { seed: u64, trajs: usize, len: usize },
}

impl DataSpec {
    pub fn expand(&self, net: &Net) -> Vec<Traj> {
        let cards = &net.cards;
        let n = cards.len();
        match self {
            DataSpec::Explicit(ts) => ts
                .iter()
                .map(|t| {
                    let mut x: Vec<usize> = (0..n).map(|i| *t.init.get(i).unwrap_or(&0) as usize % cards[i]).collect();
                    let mut time = t.t0 as f64 / 64.0;
                    let mut tr = Traj { t: vec![time], ev: vec![x.clone()] };
                    for s in &t.steps {
                        time += s.dt as f64 / 64.0;
                        for (v, s) in &s.set {
                            let v = *v as usize % n;
                            x[v] = *s as usize % cards[v];
                        }
                        tr.t.push(time);
                        tr.ev.push(x.clone());
                    }
                    tr
                })
                .collect(),
            DataSpec::Walk { seed, trajs, len, multi } => {
                let mut rng = Rand::new(*seed);
                (0..*trajs)
                    .map(|_| {
                        let mut x: Vec<usize> = cards.iter().map(|c| rng.below(*c)).collect();
                        let mut time = if *multi { rng.f() * 10.0 - 5.0 } else { 0.0 };
                        let mut tr = Traj { t: vec![time], ev: vec![x.clone()] };
                        let len = if *multi { rng.below(*len + 1) } else { *len };
                        for _ in 0..len {
                            time += rng.exp(0.5 + x[0] as f64);
                            let k = if *multi { rng.below(4) } else { 1 };
                            for _ in 0..k {
                                let v = rng.below(n);
                                x[v] = if *multi {
                                    rng.below(cards[v])
                                } else {
                                    (x[v] + 1 + rng.below((cards[v] - 1).max(1))) % cards[v]
                                };
                            }
                            tr.t.push(time);
                            tr.ev.push(x.clone());
                        }
                        tr
                    })
                    .collect()
            }
            DataSpec::Simulated { seed, trajs, len } => {
                let mut rng = Rand::new(*seed);
                (0..*trajs).map(|_| net.simulate(&mut rng, f64::INFINITY, *len)).collect()
            }
        }
    }
}

pub fn explicit_data(min_dt: u32, max_trajs: usize, max_steps: usize) -> BoxedStrategy<DataSpec> {
    let step = (prop_oneof![1 => Just(min_dt), 9 => 1u32..512], vec((any::<u8>(), any::<u8>()), 0..4)).prop_map(|(dt, set)| Step { dt, set });
    let traj = (0u32..2000, vec(any::<u8>(), 0..8), vec(step, 0..=max_steps))
        .prop_map(|(t0, init, steps)| TrajSpec { t0, init, steps });
    boxed(vec(traj, 0..=max_trajs).prop_map(DataSpec::Explicit))
}

pub fn any_data(min_dt: u32) -> BoxedStrategy<DataSpec> {
    boxed(prop_oneof![
        3 => explicit_data(min_dt, 4, 30),
        2 => (any::<u64>(), 1usize..6, 0usize..200, any::<bool>())
            .prop_map(|(seed, trajs, len, multi)| DataSpec::Walk { seed, trajs, len, multi }),
        2 => (any::<u64>(), 1usize..6, 1usize..400)
            .prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len }),
    ])
}

/// Networks and simulated data in which (nearly) every transition of every configuration is seen.
pub fn rich(n_max: usize, max_joint: usize) -> BoxedStrategy<(NetSpec, DataSpec)> {
    let kind = prop_oneof![2 => Just(RateKind::Uniform), 2 => Just(RateKind::Ints), 1 => (0.1f64..0.5).prop_map(RateKind::LogUniform)];
    let cfg = NetCfg { n: (2, n_max), max_card: 4, max_edges: 6, max_rows: 40, max_joint, scale: 0 };
    boxed((net_spec(cfg), kind, any::<u64>(), 1usize..4, 20usize..120).prop_map(|(mut net, kind, seed, trajs, per_state)| {
        net.rates.kind = kind;
        let joint: usize = net.cards.iter().product();
        (net, DataSpec::Simulated { seed, trajs, len: per_state * joint })
    }))
}

/// A subset of the nodes other than `node`, decoded from a mask, with at most `max_rows` rows.
pub fn subset(cards: &[usize], node: usize, mask: u32, max_rows: usize) -> Vec<usize> {
    let mut rows = cards[node];
    let mut out = vec![];
    for v in 0..cards.len() {
        if v != node && mask >> v & 1 == 1 && rows * cards[v] <= max_rows {
            rows *= cards[v];
            out.push(v);
        }
    }
    out
}

/// As `subset`, for any number of nodes: the listed nodes (repetitions and `node` left out).
pub fn subset_of_list(cards: &[usize], node: usize, list: &[u16], max_rows: usize) -> Vec<usize> {
    let mut rows = cards.get(node).cloned().unwrap_or(1);
    let mut out: Vec<usize> = vec![];
    for v in list {
        let v = *v as usize % cards.len();
        if v != node && !out.contains(&v) && rows.saturating_mul(cards[v]) <= max_rows {
            rows *= cards[v];
            out.push(v);
        }
    }
    out.sort();
    out
}

// ---------------------------------------------------------------------------------------------
// Sizes beyond hand-written examples: many nodes, many states, many or long trajectories.

pub fn wide_spec(n: (usize, usize), big: usize, max_rows: usize, scale: i32) -> BoxedStrategy<NetSpec> {
    let card = prop_oneof![12 => 2usize..=3, 4 => 2usize..=5, 1 => 2..=big];
    // sometimes one node is a parent of all the others, as far as the number of rows allows
    let hub = proptest::option::weighted(0.25, any::<usize>());
    boxed((vec(card, n.0..=n.1), vec((0usize..1024, 0usize..1024), 0..=3 * n.1), hub, rate_spec(scale)).prop_map(move |(cards, mut raw, hub, rates)| {
        if let Some(h) = hub {
            raw.truncate(cards.len());
            raw.splice(0..0, (0..cards.len()).map(|c| (h % cards.len(), c)));
        }
        let edges = clean_edges(&cards, &raw, max_rows);
        NetSpec { cards, edges, rates }
    }))
}

/// One network with a large dataset, a node and a parent set, for the learning functions.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Big {
    pub net: NetSpec,
    pub data: DataSpec,
    pub node: u16,
    /// None: the network's own parents
    pub set: Option<Vec<u16>>,
    pub max_rows: usize,
    pub extra: u64,
}

impl Big {
    pub fn parents(&self, m: &Net, node: usize) -> Vec<usize> {
        match &self.set {
            Some(l) => subset_of_list(&m.cards, node, l, self.max_rows),
            None => m.parents[node].clone(),
        }
    }
}

pub fn big(own_parents: bool) -> BoxedStrategy<Big> {
    const FEW: NetCfg = NetCfg { n: (1, 6), max_card: 6, max_edges: 8, max_rows: 400, max_joint: 1_000_000, scale: 0 };
    const MANY_STATES: NetCfg = NetCfg { n: (1, 3), max_card: 320, max_edges: 3, max_rows: 1200, max_joint: usize::MAX, scale: 0 };
    const PAIR: NetCfg = NetCfg { n: (1, 2), max_card: 2, max_edges: 2, max_rows: 10, max_joint: 10, scale: 0 };
    const BINARY: NetCfg = NetCfg { n: (9, 19), max_card: 3, max_edges: 60, max_rows: 6000, max_joint: usize::MAX, scale: 0 };
    let walk = |trajs: std::ops::Range<usize>, len: std::ops::Range<usize>| {
        (any::<u64>(), trajs, len, any::<bool>()).prop_map(|(seed, trajs, len, multi)| DataSpec::Walk { seed, trajs, len, multi })
    };
    let simulated = |trajs: std::ops::Range<usize>, len: std::ops::Range<usize>| {
        (any::<u64>(), trajs, len).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len })
    };
    let shape = prop_oneof![
        // many nodes
        3 => (wide_spec((17, 140), 40, 2000, 0), boxed(walk(1..4, 50..1500)), Just(2000usize)),
        // many trajectories
        3 => (net_spec(FEW), boxed(prop_oneof![walk(200..5000, 0..6), simulated(200..3000, 1..6)]), Just(2000usize)),
        // long trajectories
        2 => (net_spec(FEW), boxed(prop_oneof![walk(1..3, 3000..30_000), simulated(1..3, 3000..30_000)]), Just(2000usize)),
        // counts of many digits
        1 => (net_spec(PAIR), boxed(prop_oneof![walk(1..3, 100_000..300_000), simulated(1..3, 100_000..300_000)]), Just(2000usize)),
        // many states
        2 => (net_spec(MANY_STATES), boxed(walk(1..4, 500..5000)), Just(2000usize)),
        // many parents and configurations
        2 => (net_spec(BINARY), boxed(walk(1..3, 500..5000)), prop_oneof![Just(3000usize), Just(70_000usize), Just(200_000usize)]),
    ];
    let set = vec(any::<u16>(), 0..20);
    let set: BoxedStrategy<Option<Vec<u16>>> =
        if own_parents { boxed(proptest::option::weighted(0.6, set)) } else { boxed(set.prop_map(Some)) };
    boxed((shape, any::<u16>(), set, any::<u64>()).prop_map(|((net, data, max_rows), node, set, extra)| {
        // wide matrices times many configurations would only cost memory
        let node_card = net.cards[node as usize % net.cards.len()];
        let max_rows = max_rows.min(2_000_000 / node_card);
        Big { net, data, node, set, max_rows, extra }
    }))
}
