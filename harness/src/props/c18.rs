//! C18: the factored reward function.
use super::c05::Kind;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{Reward, RewardFunction};
use serde::{Deserialize, Serialize};

const NETS: NetCfg = NetCfg { n: (1, 8), max_card: 8, max_edges: 10, max_rows: 300, max_joint: 1_000_000_000, scale: 0 };

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// set an instantaneous reward: (node, state, value)
    Inst(u8, u8, f64),
    /// set a transition reward
    Trans(u8, u8, u8, f64),
    /// fill one table of a node: (node, transition table?, value)
    Fill(u8, bool, f64),
    /// evaluate: state seed, changed node and new state if any (same state when equal), previous given?
    Call(u64, u8, u8, bool),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    net: NetSpec,
    kind: Kind,
    ops: Vec<Op>,
}

fn tables_match(f: &FactoredRewardFunction, inst: &[Vec<f64>], trans: &[Vec<Vec<f64>>], when: &str) -> Result<(), String> {
    for v in 0..inst.len() {
        let k = inst[v].len();
        let a = f.get_instantaneous_reward(v);
        ensure!(a.shape() == [k], "{}: instantaneous rewards of node {} have shape {:?}, it has {} states", when, v, a.shape(), k);
        let b = f.get_transition_reward(v);
        ensure!(b.shape() == [k, k], "{}: transition rewards of node {} have shape {:?}, it has {} states", when, v, b.shape(), k);
        for x in 0..k {
            ensure!(a[x] == inst[v][x], "{}: instantaneous reward of node {} in state {} is {}, expected {}", when, v, x, a[x], inst[v][x]);
            for y in 0..k {
                ensure!(b[[x, y]] == trans[v][x][y], "{}: transition reward of node {} from {} to {} is {}, expected {}", when, v, x, y, b[[x, y]], trans[v][x][y]);
            }
        }
    }
    Ok(())
}

fn check(c: &Case) -> Check {
    let base = c.net.net();
    let m = match c.kind {
        Kind::Ctbn => base,
        _ => Net { cards: vec![base.cards[0]], parents: vec![vec![]], cims: vec![vec![base.cims[0][0].clone()]] },
    };
    let n = m.n();
    let mut f = match c.kind {
        Kind::Ctbn => {
            let net = m.build_structure()?;
            let f = FactoredRewardFunction::initialize_from_network_process(&net);
            ensure!(net.get_number_of_nodes() == n, "the process changed");
            f
        }
        _ => FactoredRewardFunction::initialize_from_network_process(&ctmp_from(m.cim_array(0))?),
    };
    let mut inst: Vec<Vec<f64>> = m.cards.iter().map(|k| vec![0.0; *k]).collect();
    let mut trans: Vec<Vec<Vec<f64>>> = m.cards.iter().map(|k| vec![vec![0.0; *k]; *k]).collect();
    tables_match(&f, &inst, &trans, "after initialisation")?;
    let (mut sets, mut moves, mut stays, mut calls) = (0, 0, 0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Inst(v, x, r) => {
                let v = *v as usize % n;
                let x = *x as usize % m.cards[v];
                f.get_instantaneous_reward_mut(v)[x] = *r;
                inst[v][x] = *r;
                sets += 1;
                tables_match(&f, &inst, &trans, &format!("after operation {}", i))?;
            }
            Op::Trans(v, x, y, r) => {
                let v = *v as usize % n;
                let (x, y) = (*x as usize % m.cards[v], *y as usize % m.cards[v]);
                f.get_transition_reward_mut(v)[[x, y]] = *r;
                trans[v][x][y] = *r;
                sets += 1;
                tables_match(&f, &inst, &trans, &format!("after operation {}", i))?;
            }
            Op::Fill(v, t, r) => {
                let v = *v as usize % n;
                let mut rng = Rand::new(r.to_bits());
                let k = m.cards[v];
                if *t {
                    for x in 0..k {
                        for y in 0..k {
                            trans[v][x][y] = r * rng.f();
                        }
                    }
                    let t = trans[v].clone();
                    f.get_transition_reward_mut(v).assign(&ndarray::Array2::from_shape_fn((k, k), |(x, y)| t[x][y]));
                } else {
                    inst[v] = (0..k).map(|_| r * rng.f()).collect();
                    f.get_instantaneous_reward_mut(v).assign(&ndarray::Array1::from_vec(inst[v].clone()));
                }
                sets += 1;
                tables_match(&f, &inst, &trans, &format!("after operation {}", i))?;
            }
            Op::Call(seed, v, y, given) => {
                let mut rng = Rand::new(*seed);
                let prev: Vec<usize> = m.cards.iter().map(|k| rng.below(*k)).collect();
                let v = *v as usize % n;
                let mut cur = prev.clone();
                cur[v] = *y as usize % m.cards[v];
                let want_inst: f64 = (0..n).map(|w| inst[w][cur[w]]).sum();
                let mag: f64 = (0..n).map(|w| inst[w][cur[w]].abs()).sum();
                let want_trans = if *given && cur[v] != prev[v] { trans[v][prev[v]][cur[v]] } else { 0.0 };
                let Reward { transition_reward, instantaneous_reward } = f.call(&st(&cur), if *given { Some(st(&prev)) } else { None }.as_ref());
                ensure!(
                    (instantaneous_reward - want_inst).abs() <= 1e-12 * mag,
                    "instantaneous reward of {:?} (previous {:?}) is {}, expected {}", cur, if *given { Some(&prev) } else { None }, instantaneous_reward, want_inst
                );
                ensure!(
                    transition_reward == want_trans,
                    "transition reward {:?} -> {:?} (previous given: {}) is {}, expected {}", prev, cur, given, transition_reward, want_trans
                );
                calls += 1;
                if *given && cur[v] != prev[v] {
                    moves += 1;
                }
                if *given && cur[v] == prev[v] {
                    stays += 1;
                }
            }
        }
    }
    Ok(Obs::new(sets > 0 && moves > 0 && n > 1)
        .tag(stays > 0, "previous state equal to the current one")
        .tag(calls > moves + stays, "no previous state")
        .tag(n > 4, "more than four nodes")
        .tag(c.kind != Kind::Ctbn, "Markov process"))
}

pub fn subs() -> Vec<Sub> {
    vec![sub(
        "operations",
        "sequences of up to 40 table changes and evaluations on reward functions of networks of 1..8 nodes with 2..8 states and of Markov processes, compared after every step with plain tables; non-trivial: more than one node, a table change and an evaluated transition",
        60_000,
        || {
            let value = || prop_oneof![4 => -10.0f64..10.0, 1 => Just(0.0), 1 => (-12.0f64..12.0).prop_map(|e| 10f64.powf(e)), 1 => (-12.0f64..12.0).prop_map(|e| -10f64.powf(e))];
            let op = prop_oneof![
                2 => (any::<u8>(), any::<u8>(), value()).prop_map(|(v, x, r)| Op::Inst(v, x, r)),
                2 => (any::<u8>(), any::<u8>(), any::<u8>(), value()).prop_map(|(v, x, y, r)| Op::Trans(v, x, y, r)),
                3 => (any::<u8>(), any::<bool>(), value()).prop_map(|(v, t, r)| Op::Fill(v, t, r)),
                5 => (any::<u64>(), any::<u8>(), any::<u8>(), proptest::bool::weighted(0.75)).prop_map(|(s, v, y, g)| Op::Call(s, v, y, g)),
            ];
            let kind = prop_oneof![6 => Just(Kind::Ctbn), 1 => Just(Kind::Ctmp)];
            boxed((net_spec(NETS), kind, vec(op, 1..40)).prop_map(|(net, kind, ops)| Case { net, kind, ops }))
        },
        check,
    ), sub(
        "operations (many nodes)",
        "as above on networks of 20..220 nodes with up to 250 states; non-trivial: as above",
        200,
        || {
            let value = || prop_oneof![4 => -10.0f64..10.0, 1 => Just(0.0), 1 => (-12.0f64..12.0).prop_map(|e| 10f64.powf(e))];
            let op = prop_oneof![
                2 => (any::<u8>(), any::<u8>(), value()).prop_map(|(v, x, r)| Op::Inst(v, x, r)),
                2 => (any::<u8>(), any::<u8>(), any::<u8>(), value()).prop_map(|(v, x, y, r)| Op::Trans(v, x, y, r)),
                3 => (any::<u8>(), any::<bool>(), value()).prop_map(|(v, t, r)| Op::Fill(v, t, r)),
                5 => (any::<u64>(), any::<u8>(), any::<u8>(), proptest::bool::weighted(0.75)).prop_map(|(s, v, y, g)| Op::Call(s, v, y, g)),
            ];
            boxed((wide_spec((20, 220), 250, 400, 0), vec(op, 1..60)).prop_map(|(net, ops)| Case { net, kind: Kind::Ctbn, ops }))
        },
        check,
    )]
}
