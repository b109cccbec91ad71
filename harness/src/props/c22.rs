//! C22: single-node Markov processes.
use super::c06::Tally;
use super::c19::{against_moments, base, criteria, plain, Base, Rewards};
use super::c05::Kind;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::MonteCarloReward;
use reCTBN::reward::RewardEvaluation;
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::trajectory_generator;
use crate::wrap::Counted;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Add { card: usize, seed: u64 },
    AddEdge(u8, u8),
    InitGraph,
    Read(u8),
    Mutate(u64),
    OtherNode(u8),
}

fn ops(c: &Vec<Op>) -> Check {
    let mut p = CtmpProcess::new();
    // label, cardinality and matrix of the one node
    let mut model: Option<(String, usize, Option<ndarray::Array3<f64>>)> = None;
    let (mut second, mut refused) = (0, 0);
    let cim = |card: usize, seed: u64| {
        let spec = RateSpec { kind: RateKind::Uniform, seed, scale: 0 };
        let c = gen_cim(&spec, 1, card, &mut Rand::new(seed));
        ndarray::Array3::from_shape_fn((1, card, card), |(u, x, y)| c[u][x][y])
    };
    for (i, op) in c.iter().enumerate() {
        match op {
            Op::Add { card, seed } => {
                let label = format!("x{}", i);
                let mut node = new_node(&label, *card);
                let with = seed % 2 == 0;
                let m = cim(*card, *seed);
                if with {
                    node.set_cim(m.clone()).map_err(|e| format!("{:?}", e))?;
                }
                let r = p.add_node(Params::DiscreteStatesContinousTime(node));
                if model.is_none() {
                    match r {
                        Ok(idx) => ensure!(idx == 0, "the node was numbered {}", idx),
                        Err(e) => return Err(format!("the first node was refused: {:?}", e)),
                    }
                    model = Some((label, *card, if with { Some(m) } else { None }));
                } else {
                    ensure!(r.is_err(), "a second node was accepted");
                    second += 1;
                }
            }
            Op::AddEdge(a, b) => {
                if catching(|| p.add_edge(*a as usize, *b as usize)).is_ok() {
                    return Err(format!("edge {} -> {} was accepted", a, b));
                }
                refused += 1;
            }
            Op::InitGraph => {
                if catching(|| p.initialize_adj_matrix()).is_ok() {
                    return Err("a graph was initialised".into());
                }
                refused += 1;
            }
            Op::Read(_) => {}
            Op::Mutate(seed) => {
                if let Some(m) = &mut model {
                    let c = cim(m.1, *seed);
                    match p.get_node_mut(0) {
                        Params::DiscreteStatesContinousTime(q) => q.set_cim(c.clone()).map_err(|e| format!("{:?}", e))?,
                    }
                    m.2 = Some(c);
                }
            }
            Op::OtherNode(k) => {
                let idx = 1 + *k as usize;
                let state = st(&[0, 0]);
                let outcomes = [
                    ("get_node", catching(|| { p.get_node(idx); }).is_ok()),
                    ("get_parent_set", catching(|| { p.get_parent_set(idx); }).is_ok()),
                    ("get_children_set", catching(|| { p.get_children_set(idx); }).is_ok()),
                    ("get_param_index_network", catching(|| { p.get_param_index_network(idx, &state); }).is_ok()),
                    ("get_node_mut", catching(|| { p.get_node_mut(idx); }).is_ok()),
                ];
                for (name, ok) in outcomes {
                    ensure!(!ok, "{}({}) was accepted", name, idx);
                }
                refused += 1;
            }
        }
        // the whole observable state after every operation
        let count = model.is_some() as usize;
        ensure!(p.get_number_of_nodes() == count, "after operation {}: {} nodes, expected {}", i, p.get_number_of_nodes(), count);
        ensure!(p.get_node_indices() == (0..count), "after operation {}: node indices {:?}", i, p.get_node_indices());
        if let Some((label, card, cim)) = &model {
            let q = node_params(p.get_node(0));
            ensure!(q.get_label() == label && q.get_reserved_space_as_parent() == *card, "after operation {}: the node is {} with {} states, expected {} with {}", i, q.get_label(), q.get_reserved_space_as_parent(), label, card);
            ensure!(q.get_cim() == cim, "after operation {}: parameters {:?}, expected {:?}", i, q.get_cim(), cim);
            ensure!(p.get_parent_set(0).is_empty(), "parents {:?}", p.get_parent_set(0));
            ensure!(p.get_children_set(0).is_empty(), "children {:?}", p.get_children_set(0));
        }
    }
    Ok(Obs::new(second > 0 || refused > 0)
        .tag(second > 0, "second insertion")
        .tag(second > 1, "several more insertions")
        .tag(refused > 0, "refused operation")
        .tag(model.is_none(), "no node"))
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Law {
    net: NetSpec,
    seed: u64,
    per_traj: f64,
    total: f64,
    sampler: bool,
}

/// Trajectories of the amalgamated process, read back as states of the network.
fn law(c: &Law) -> Check {
    let m = c.net.net();
    let p = Counted::new(m.build()?.amalgamation());
    let t_end = (c.per_traj / m.typical_rate()).min(10.0 * c.total / m.max_total_rate());
    let n = ((c.total / c.per_traj).ceil() as u64).clamp(1, 10_000);
    let project = |tr: &Traj| Traj { t: tr.t.clone(), ev: tr.ev.iter().map(|x| decode(&m.cards, x[0])).collect() };
    let mut tally = Tally::new();
    let mut starts = vec![0u64; m.joint()];
    let mut add = |i: usize, tr: &Traj| -> Result<(), String> {
        for (j, x) in tr.ev.iter().enumerate() {
            ensure!(x.len() == 1 && x[0] < m.joint(), "trajectory {}, row {}: state {:?} of {} joint states", i, j, x, m.joint());
        }
        let tr = project(tr);
        for w in tr.ev.windows(2) {
            let moved = (0..m.n()).filter(|v| w[0][*v] != w[1][*v]).count();
            ensure!(moved <= 1, "joint step {:?} -> {:?}", w[0], w[1]);
        }
        starts[encode(&m.cards, &tr.ev[0])] += 1;
        tally.add(&m, &tr, i);
        Ok(())
    };
    if c.sampler {
        let mut s = ForwardSampler::new(&p, Some(c.seed), None);
        for i in 0..n {
            let mut tr = Traj { t: vec![], ev: vec![] };
            loop {
                let x = s.next().ok_or_else(|| "the sampler ended".to_string())?;
                if x.t >= t_end && !tr.t.is_empty() {
                    break;
                }
                tr.t.push(x.t);
                tr.ev.push(unst(&x.state));
            }
            tr.t.push(t_end);
            tr.ev.push(tr.ev.last().unwrap().clone());
            add(i as usize, &tr)?;
            s.reset();
        }
    } else {
        for (i, tr) in from_dataset(&trajectory_generator(&p, n, t_end, Some(c.seed))).iter().enumerate() {
            add(i, tr)?;
        }
    }
    let (_, best) = tally.check(&m)?;
    for (i, s) in starts.iter().enumerate() {
        let q = 1.0 / m.joint() as f64;
        ensure!(dev_ok(*s as f64 - n as f64 * q, n as f64 * q * (1.0 - q)), "{} of {} trajectories start in joint state {} of {}", s, n, i, m.joint());
    }
    Ok(Obs::new(best >= 200.0 && m.n() > 1)
        .tag(m.has_edges(), "with edges")
        .tag(m.has_zero_rate(), "zero rates")
        .tag(m.joint() > 255, "more than 255 joint states")
        .tag(c.sampler, "through the sampler"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Reward {
    base: Base,
    rewards: u64,
    budget: f64,
}

fn rewards(c: &Reward) -> Check {
    let m = c.base.net.net();
    let net = m.build()?;
    let p = net.amalgamation();
    let t = (c.base.events / m.typical_rate()).min(20.0 * c.base.events.max(1.0) / m.max_total_rate());
    let gamma = c.base.discount.map(|d| d / t);
    let mut rng = Rand::new(c.base.start);
    let start: Vec<usize> = m.cards.iter().map(|k| rng.below(*k)).collect();
    let r = Rewards::random(&m, c.rewards, 2.0, 2.0, 0.2);
    let (ji, jt) = r.joint(&m);
    let joint = Rewards { inst: vec![ji], trans: vec![jt] };
    let n = (c.budget / (1.0 + t * m.max_total_rate())).clamp(1500.0, 60_000.0) as usize;
    let mc = plain(n, t, gamma, c.base.seed);
    let i = encode(&m.cards, &start);
    let on_net = mc.evaluate_state(&net, &r.function(&net), &st(&start));
    let on_markov = mc.evaluate_state(&p, &joint.function(&p), &st(&[i]));
    let g = gamma.unwrap_or(0.0);
    let rel = against_moments("on the network", on_net, n, &m, &r, g, t, &start)?;
    against_moments("on the amalgamated process", on_markov, n, &m, &r, g, t, &start)?;
    // the state space of the Markov process
    let few = MonteCarloReward::new(3, 0.0, 0.0, t, criteria(gamma), Some(c.base.seed));
    let f = joint.function(&p);
    let map = few.evaluate_state_space(&p, &f);
    ensure!(map.len() == m.joint(), "{} entries for {} states", map.len(), m.joint());
    for j in 0..m.joint() {
        match map.get(&st(&[j])) {
            None => return Err(format!("no entry for state {}", j)),
            Some(v) => {
                let alone = few.evaluate_state(&p, &f, &st(&[j]));
                ensure!(v.to_bits() == alone.to_bits(), "state {} evaluates to {} alone, {} with the state space", j, alone, v);
            }
        }
    }
    Ok(Obs::new(rel < 0.1 && m.n() > 1).tag(m.has_edges(), "with edges").tag(gamma.is_some(), "discounted"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "operations",
            "sequences of up to 25 insertions, edge, graph and node operations on a single-node process compared after every step with a model; non-trivial: a second insertion or a refused operation",
            30_000,
            || {
                let op = prop_oneof![
                    4 => (2usize..7, any::<u64>()).prop_map(|(card, seed)| Op::Add { card, seed }),
                    1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AddEdge(a % 3, b % 3)),
                    1 => Just(Op::InitGraph),
                    2 => any::<u64>().prop_map(Op::Mutate),
                    1 => any::<u8>().prop_map(|k| Op::OtherNode(k % 4)),
                    1 => any::<u8>().prop_map(Op::Read),
                ];
                boxed(vec(op, 0..25))
            },
            ops,
        ),
        sub(
            "law",
            "amalgamations of networks of up to 48 joint states sampled for about 15000 events; trajectories are read back as states of the network and every node's transition counts in every configuration tested against its own rates, initial states against uniformity; non-trivial: several nodes and a cell with at least 200 expected transitions",
            400,
            || {
                const NETS: NetCfg = NetCfg { n: (1, 4), max_card: 4, max_edges: 8, max_rows: 60, max_joint: 48, scale: 0 };
                let per = prop_oneof![1 => 1.0f64..10.0, 1 => 10.0f64..300.0, 1 => Just(15_000.0)];
                boxed((net_spec(NETS), seed(), per, any::<bool>()).prop_map(|(net, seed, per_traj, sampler)| Law { net, seed, per_traj, total: 15_000.0, sampler }))
            },
            law,
        ),
        sub(
            "rewards",
            "expected rewards of networks of up to 24 joint states and of their amalgamations, with the reward tables carried over, both compared with the exact mean; state space of the Markov process; non-trivial: several nodes and an allowed deviation below 10% of the absolute reward",
            250,
            || boxed((base(20.0), any::<u64>()).prop_map(|(mut base, rewards)| {
                base.kind = Kind::Ctbn;
                Reward { base, rewards, budget: 200_000.0 }
            })),
            rewards,
        ),
        sub(
            "law (large)",
            "as the law check for amalgamations of up to 700 joint states and about 30000 events; non-trivial: as above",
            25,
            || {
                const NETS: NetCfg = NetCfg { n: (3, 9), max_card: 5, max_edges: 8, max_rows: 40, max_joint: 700, scale: 0 };
                let per = prop_oneof![1 => 10.0f64..300.0, 1 => Just(30_000.0)];
                boxed((net_spec(NETS), seed(), per, any::<bool>()).prop_map(|(net, seed, per_traj, sampler)| Law { net, seed, per_traj, total: 30_000.0, sampler }))
            },
            law,
        ),
    ]
}
