//! C09 (maximum likelihood) and C10 (Bayesian) parameter fitting.
use super::c08::{compare, NETS};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::{DiscreteStatesContinousTimeParams, Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    net: NetSpec,
    data: DataSpec,
    node: u8,
    /// None: the network's own parents
    mask: Option<u32>,
    alpha: usize,
    tau: f64,
    /// the network carries parameters of its own
    with_params: bool,
}

fn cases() -> BoxedStrategy<Case> {
    let alpha = prop_oneof![1 => Just(0usize), 3 => Just(1usize), 3 => 1usize..1000, 1 => 1000usize..10_000_000];
    let tau = prop_oneof![1 => Just(0.0), 2 => Just(1.0), 4 => (-3.0f64..4.0).prop_map(|e| 10f64.powf(e)), 1 => (-12.0f64..12.0).prop_map(|e| 10f64.powf(e))];
    boxed(
        (net_spec(NETS), any_data(1), any::<u8>(), proptest::option::weighted(0.6, any::<u32>()), alpha, tau, any::<bool>())
            .prop_map(|(net, data, node, mask, alpha, tau, with_params)| Case { net, data, node, mask, alpha, tau, with_params }),
    )
}

/// As `Case`, with sizes beyond hand-written examples.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LargeCase {
    big: Big,
    alpha: usize,
    tau: f64,
    with_params: bool,
}

fn large_cases() -> BoxedStrategy<LargeCase> {
    let tau = prop_oneof![1 => Just(0.0), 2 => Just(1.0), 4 => (-3.0f64..4.0).prop_map(|e| 10f64.powf(e)), 1 => (-12.0f64..12.0).prop_map(|e| 10f64.powf(e))];
    let alpha = prop_oneof![1 => Just(0usize), 3 => Just(1usize), 3 => 1usize..1000, 1 => 1000usize..10_000_000];
    boxed((big(true), alpha, tau, any::<bool>()).prop_map(|(big, alpha, tau, with_params)| LargeCase { big, alpha, tau, with_params }))
}

struct Setting {
    explicit: bool,
    with_params: bool,
    alpha: usize,
    tau: f64,
    m: Net,
    net: CtbnNetwork,
    trajs: Vec<Traj>,
    node: usize,
    set: Vec<usize>,
    want: Stats,
}

fn setting(c: &Case) -> Result<Setting, String> {
    let m = c.net.net();
    let node = c.node as usize % m.n();
    let trajs = c.data.expand(&m);
    let set = match c.mask {
        Some(mask) => subset(&m.cards, node, mask, 2000),
        None => m.parents[node].clone(),
    };
    prepare(m, trajs, node, set, c.mask.is_some(), c.with_params, c.alpha, c.tau)
}

fn large_setting(c: &LargeCase) -> Result<Setting, String> {
    let m = c.big.net.net();
    let node = c.big.node as usize % m.n();
    let trajs = c.big.data.expand(&m);
    let set = c.big.parents(&m, node);
    prepare(m, trajs, node, set, c.big.set.is_some(), c.with_params, c.alpha, c.tau)
}

fn prepare(m: Net, trajs: Vec<Traj>, node: usize, set: Vec<usize>, explicit: bool, with_params: bool, alpha: usize, tau: f64) -> Result<Setting, String> {
    // walks may contain intervals of length zero only by rounding, simulations none
    let net = if with_params { m.build()? } else { m.build_structure()? };
    let want = stats(&m.cards, &trajs, node, &set);
    Ok(Setting { explicit, with_params, alpha, tau, m, net, trajs, node, set, want })
}

fn fit<P: ParameterLearning>(s: &Setting, pl: &P) -> Result<DiscreteStatesContinousTimeParams, String> {
    let d = dataset(&s.trajs, s.m.n());
    let arg = if s.explicit { Some(s.set.iter().cloned().collect()) } else { None };
    let p = match pl.fit(&s.net, &d, s.node, arg) {
        Params::DiscreteStatesContinousTime(p) => p,
    };
    ensure!(from_dataset(&d) == s.trajs, "the dataset changed");
    for v in 0..s.m.n() {
        let ps: Vec<usize> = s.net.get_parent_set(v).into_iter().collect();
        ensure!(ps == s.m.parents[v], "parents of node {} changed to {:?}", v, ps);
        let q = node_params(s.net.get_node(v));
        let cim = if s.with_params { Some(s.m.cim_array(v)) } else { None };
        ensure!(q.get_cim() == &cim && q.get_transitions().is_none() && q.get_residence_time().is_none(), "the network's node {} changed", v);
    }
    ensure!(p.get_label() == &format!("n{}", s.node), "label {} instead of n{}", p.get_label(), s.node);
    ensure!(p.get_reserved_space_as_parent() == s.m.cards[s.node], "cardinality {}", p.get_reserved_space_as_parent());
    let (lm, lt) = match (p.get_transitions(), p.get_residence_time()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err("the fitted node carries no sufficient statistics".into()),
    };
    compare(lm, lt, &s.want, "stored statistics")?;
    let k = s.m.cards[s.node];
    match p.get_cim() {
        Some(cim) => ensure!(cim.shape() == [s.want.m.len(), k, k], "CIM of shape {:?}, expected {:?}", cim.shape(), [s.want.m.len(), k, k]),
        None => return Err("the fitted node has no CIM".into()),
    }
    Ok(p)
}

/// Row (u, x) of the fitted CIM must be (count + a) / (time + t) with the diagonal closing the sum.
fn check_row(p: &DiscreteStatesContinousTimeParams, s: &Setting, u: usize, x: usize, a: f64, t: f64) -> Result<(), String> {
    let cim = p.get_cim().as_ref().unwrap();
    let k = s.m.cards[s.node];
    let mut sum = 0.0;
    for y in 0..k {
        if y != x {
            let want = (s.want.m[u][x][y] as f64 + a) / (s.want.t[u][x] + t);
            ensure!(
                close(cim[[u, x, y]], want, 1e-8, 0.0),
                "intensity {} -> {} in configuration {} of {:?} is {:e}, expected ({} + {}) / ({} + {}) = {:e}",
                x, y, u, s.set, cim[[u, x, y]], s.want.m[u][x][y], a, s.want.t[u][x], t, want
            );
            sum += cim[[u, x, y]];
        }
    }
    ensure!(close(cim[[u, x, x]], -sum, 1e-9, 0.0), "diagonal of state {} in configuration {} is {:e}, minus the row sum is {:e}", x, u, cim[[u, x, x]], -sum);
    Ok(())
}

fn obs(s: &Setting, visited: usize, unvisited: usize) -> Obs {
    Obs::new(visited > 0 && s.want.m.iter().flatten().flatten().any(|x| *x > 0))
        .tag(unvisited > 0, "unvisited configuration or state")
        .tag(!s.explicit, "network's own parents")
        .tag(s.explicit && s.set != s.m.parents[s.node], "other parents than the network's")
        .tag(s.set.len() > 1, "two or more parents")
        .tag(s.m.cards[s.node] > 4, "cardinality > 4")
        .tag(s.m.n() > 64, "more than 64 nodes")
        .tag(s.trajs.len() > 255, "more than 255 trajectories")
        .tag(s.m.cards[s.node] > 64, "more than 64 states")
        .tag(s.want.m.len() > 255, "more than 255 configurations")
}

fn mle(c: &Case) -> Check {
    check_mle(&setting(c)?)
}

fn mle_large(c: &LargeCase) -> Check {
    check_mle(&large_setting(c)?)
}

fn check_mle(s: &Setting) -> Check {
    let p = fit(s, &MLE {})?;
    let (mut vis, mut unvis) = (0, 0);
    for u in 0..s.want.m.len() {
        for x in 0..s.m.cards[s.node] {
            if s.want.t[u][x] > 0.0 {
                vis += 1;
                check_row(&p, s, u, x, 0.0, 0.0)?;
            } else {
                unvis += 1;
            }
        }
    }
    Ok(obs(s, vis, unvis))
}

fn bayes(c: &Case) -> Check {
    check_bayes(&setting(c)?)
}

fn bayes_large(c: &LargeCase) -> Check {
    check_bayes(&large_setting(c)?)
}

fn check_bayes(s: &Setting) -> Check {
    let p = fit(s, &BayesianApproach { alpha: s.alpha, tau: s.tau })?;
    let configs = s.want.m.len() as f64;
    let (a, t) = (s.alpha as f64 / configs, s.tau / configs);
    let (mut vis, mut unvis) = (0, 0);
    for u in 0..s.want.m.len() {
        for x in 0..s.m.cards[s.node] {
            if s.want.t[u][x] + t > 0.0 {
                check_row(&p, s, u, x, a, t)?;
            }
            if s.want.t[u][x] > 0.0 {
                vis += 1;
            } else {
                unvis += 1;
            }
        }
    }
    if s.alpha >= 1 && s.tau > 0.0 {
        ensure!(p.validate_params() == Ok(()), "the fitted node does not validate: {:?}", p.validate_params());
        let cim = p.get_cim().clone().unwrap();
        let mut fresh = new_node("fresh", s.m.cards[s.node]);
        ensure!(fresh.set_cim(cim.clone()).is_ok(), "the fitted CIM cannot be set on a node: {:?}", cim);
        for ((_, x, y), v) in cim.indexed_iter() {
            ensure!(v.is_finite() && ((x == y && *v < 0.0) || (x != y && *v >= 0.0)), "entry ({}, {}) = {}", x, y, v);
        }
    }
    if s.alpha == 0 && s.tau == 0.0 {
        let q = fit(s, &MLE {})?;
        let (a, b) = (p.get_cim().as_ref().unwrap(), q.get_cim().as_ref().unwrap());
        for u in 0..s.want.m.len() {
            for x in 0..s.m.cards[s.node] {
                if s.want.t[u][x] > 0.0 {
                    for y in 0..s.m.cards[s.node] {
                        ensure!(close(a[[u, x, y]], b[[u, x, y]], 1e-9, 0.0), "without prior ({}, {}, {}) is {} but maximum likelihood gives {}", u, x, y, a[[u, x, y]], b[[u, x, y]]);
                    }
                }
            }
        }
    }
    Ok(obs(s, vis, unvis)
        .tag(s.alpha > 10 || s.tau > 10.0, "strong prior")
        .tag(s.alpha == 0 && s.tau == 0.0, "no prior")
        .tag(configs > 1.0, "several configurations"))
}

const RULE: &str = "datasets over 1..6 nodes with 2..12 states, explicit parent sets (any) and the network's own, networks with and without parameters of their own; non-trivial: some configuration visited and some transition of the node";

const LARGE: &str = "as above with 17..140 nodes, 200..5000 trajectories, trajectories of up to 300000 rows, up to 320 states or up to 100000 parent configurations; non-trivial: as above";

pub fn subs_mle() -> Vec<Sub> {
    vec![sub("maximum likelihood", RULE, 60_000, cases, mle), sub("large", LARGE, 700, large_cases, mle_large)]
}

pub fn subs_bayes() -> Vec<Sub> {
    vec![sub("bayesian", RULE, 60_000, cases, bayes), sub("large", LARGE, 700, large_cases, bayes_large)]
}
