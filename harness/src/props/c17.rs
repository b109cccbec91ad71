//! C17: random parameters.
use super::c05::Kind;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::{RandomParametersGenerator, UniformParametersGenerator};
use serde::{Deserialize, Serialize};

const NETS: NetCfg = NetCfg { n: (1, 6), max_card: 9, max_edges: 12, max_rows: 1500, max_joint: 10_000_000, scale: 0 };

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    net: NetSpec,
    kind: Kind,
    lo: f64,
    width: f64,
    seed: Option<u64>,
    /// the network has parameters already
    dressed: bool,
    rounds: usize,
}

/// Exit rates per node in configuration and state order.
fn inspect<N: NetworkProcess>(p: &N, m: &Net, lo: f64, hi: f64) -> Result<Vec<Vec<f64>>, String> {
    let mut out = vec![];
    ensure!(p.get_number_of_nodes() == m.n(), "{} nodes, {} before", p.get_number_of_nodes(), m.n());
    for v in 0..m.n() {
        let ps: Vec<usize> = p.get_parent_set(v).into_iter().collect();
        ensure!(ps == m.parents[v], "parents of node {} changed from {:?} to {:?}", v, m.parents[v], ps);
        let q = node_params(p.get_node(v));
        ensure!(q.get_reserved_space_as_parent() == m.cards[v], "cardinality of node {} changed", v);
        let cim = match q.get_cim() {
            Some(c) => c,
            None => return Err(format!("node {} has no parameters", v)),
        };
        let (u, k) = (m.configs(v), m.cards[v]);
        ensure!(cim.shape() == [u, k, k], "parameters of node {} have shape {:?}, expected {:?}", v, cim.shape(), [u, k, k]);
        let mut rates = vec![];
        for a in 0..u {
            for x in 0..k {
                let d = cim[[a, x, x]];
                let mut sum = 0.0;
                for y in 0..k {
                    if y != x {
                        let o = cim[[a, x, y]];
                        ensure!(o > 0.0 && o.is_finite(), "node {}: rate {} -> {} in configuration {} is {}", v, x, y, a, o);
                        sum += o;
                    }
                }
                let slack = 1e-9 * hi.abs();
                ensure!(-d >= lo - slack && -d <= hi + slack, "node {}: exit rate {} of state {} in configuration {} outside {}..{}", v, -d, x, a, lo, hi);
                ensure!(close(-d, sum, 1e-9, 0.0), "node {}: diagonal {} does not balance the row sum {}", v, d, sum);
                rates.push(-d);
            }
        }
        q.validate_params().map_err(|e| format!("generated parameters of node {} are invalid: {:?}", v, e))?;
        let mut copy = new_node("copy", k);
        copy.set_cim(cim.clone()).map_err(|e| format!("generated parameters of node {} are refused: {:?}", v, e))?;
        out.push(rates);
    }
    Ok(out)
}

fn generate(c: &Case) -> Check {
    let base = c.net.net();
    let hi = c.lo + c.width;
    if !(hi > c.lo) {
        return Ok(Obs::new(false).tag(true, "interval empty after rounding"));
    }
    let mut g = UniformParametersGenerator::new(c.lo..hi, c.seed);
    let m = match c.kind {
        Kind::Ctbn => base.clone(),
        _ => Net { cards: vec![base.cards[0]], parents: vec![vec![]], cims: vec![vec![base.cims[0][0].clone()]] },
    };
    let mut all: Vec<Vec<Vec<f64>>> = vec![];
    match c.kind {
        Kind::Ctbn => {
            let mut net = if c.dressed { m.build()? } else { m.build_structure()? };
            for _ in 0..c.rounds {
                g.generate_parameters(&mut net);
                all.push(inspect(&net, &m, c.lo, hi)?);
            }
        }
        _ => {
            let mut p = CtmpProcess::new();
            p.add_node(Params::DiscreteStatesContinousTime(new_node("x", m.cards[0]))).map_err(|e| format!("{:?}", e))?;
            for _ in 0..c.rounds {
                g.generate_parameters(&mut p);
                all.push(inspect(&p, &m, c.lo, hi)?);
            }
        }
    }
    // with many representable values in the interval no two exit rates coincide
    if c.width > 1e-3 * hi {
        let mut flat: Vec<f64> = all.iter().flatten().flatten().cloned().collect();
        let n = flat.len();
        flat.sort_by(|a, b| a.partial_cmp(b).unwrap());
        flat.dedup();
        ensure!(flat.len() + 1 >= n, "only {} different exit rates among {}", flat.len(), n);
    }
    let rows: usize = all.iter().flatten().map(|x| x.len()).sum();
    Ok(Obs::new(m.has_edges() && rows > 10)
        .tag(c.lo == 0.0, "interval from zero")
        .tag(hi > 1e6, "rates above 1e6")
        .tag(hi < 1e-6, "rates below 1e-6")
        .tag(c.width < 1e-6 * hi, "narrow interval")
        .tag(c.kind != Kind::Ctbn, "Markov process")
        .tag(c.rounds > 1, "regenerated")
        .tag(m.cards.iter().any(|x| *x > 5), "more than five states"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Spread {
    net: NetSpec,
    lo: f64,
    width: f64,
    seed: u64,
    reps: usize,
}

fn spread(c: &Spread) -> Check {
    let m = c.net.net();
    let hi = c.lo + c.width;
    let mut g = UniformParametersGenerator::new(c.lo..hi, Some(c.seed));
    let mut net = m.build_structure()?;
    const B: usize = 8;
    let ok = |count: u64, total: u64, p: f64| dev_ok(count as f64 - total as f64 * p, total as f64 * p * (1.0 - p));
    let mut bins = [0u64; B];
    let (mut total, mut both, mut pairs) = (0u64, 0u64, 0u64);
    // per node, (first state, other states), (first configuration, other configurations)
    let mut strata = vec![[[0u64; B]; 4]; m.n()];
    let mut sizes = vec![[0u64; 4]; m.n()];
    for _ in 0..c.reps {
        g.generate_parameters(&mut net);
        for (v, rates) in inspect(&net, &m, c.lo, hi)?.iter().enumerate() {
            let mut last = None;
            for (i, r) in rates.iter().enumerate() {
                let b = (((r - c.lo) / c.width * B as f64) as usize).min(B - 1);
                bins[b] += 1;
                total += 1;
                let s = [(i % m.cards[v] != 0) as usize, 2 + (i >= m.cards[v]) as usize];
                for s in s {
                    strata[v][s][b] += 1;
                    sizes[v][s] += 1;
                }
                if i % 2 == 1 {
                    pairs += 1;
                    if last == Some(true) && b < B / 2 {
                        both += 1;
                    }
                }
                last = Some(b < B / 2);
            }
        }
    }
    for b in 0..B {
        ensure!(ok(bins[b], total, 1.0 / B as f64), "{} of {} exit rates fall in part {} of {} of {}..{}", bins[b], total, b, B, c.lo, hi);
        for v in 0..m.n() {
            for s in 0..4 {
                ensure!(
                    ok(strata[v][s][b], sizes[v][s], 1.0 / B as f64),
                    "node {}: {} of {} exit rates fall in part {} of {} of {}..{} ({})",
                    v, strata[v][s][b], sizes[v][s], b, B, c.lo, hi, ["first state", "other states", "first configuration", "other configurations"][s]
                );
            }
        }
    }
    ensure!(ok(both, pairs, 0.25), "{} of {} consecutive exit rates are both in the lower half", both, pairs);
    Ok(Obs::new(total > 2000).tag(total > 20_000, "more than 20000 rates"))
}

fn refusal(c: &(f64, f64)) -> Check {
    let r = catching(|| UniformParametersGenerator::new(c.0..c.1, Some(1)));
    let bad = c.0 < 0.0 || c.1 < 0.0;
    ensure!(r.is_err() == bad, "interval {}..{} is {}", c.0, c.1, if bad { "accepted" } else { "refused" });
    Ok(Obs::new(true).tag(bad, "below zero").tag(!bad, "not below zero"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "generated parameters",
            "networks of 1..6 nodes with 2..9 states (up to 1500 rows per node) and Markov processes, with or without earlier parameters, intervals from 1e-9 to 1e12, from zero, and narrow; shape, positivity, row sums, interval, validation, unchanged graph; non-trivial: edges and more than ten rows",
            20_000,
            || {
                let lo = prop_oneof![2 => Just(0.0), 3 => 0.0f64..10.0, 2 => (-9.0f64..12.0).prop_map(|e| 10f64.powf(e))];
                let width = prop_oneof![3 => (1e-3f64..10.0).prop_map(|w| (w, true)), 2 => (-9.0f64..12.0).prop_map(|e| (10f64.powf(e), false)), 1 => (-14.0f64..-4.0).prop_map(|e| (10f64.powf(e), true))];
                let kind = prop_oneof![5 => Just(Kind::Ctbn), 1 => Just(Kind::Ctmp)];
                boxed((net_spec(NETS), kind, lo, width, proptest::option::weighted(0.8, seed()), any::<bool>(), 1usize..3)
                    .prop_map(|(net, kind, lo, (w, relative), seed, dressed, rounds)| {
                        let width = if relative && lo > 0.0 { lo * w } else { w };
                        Case { net, kind, lo, width, seed, dressed, rounds }
                    }))
            },
            generate,
        ),
        sub(
            "spread",
            "repeated generation (about 20..4000 rows each time, 20..200 times): exit rates over eight equal parts of the interval, overall, per node, for first and other states and configurations, and consecutive pairs; non-trivial: more than 2000 rates",
            400,
            || {
                boxed((net_spec(NETS), 0.0f64..10.0, 1e-2f64..10.0, seed(), 20usize..200)
                    .prop_map(|(net, lo, width, seed, reps)| Spread { net, lo, width, seed, reps }))
            },
            spread,
        ),
        sub(
            "intervals",
            "intervals with ends on either side of zero; non-trivial: all",
            3_000,
            || {
                let e = || prop_oneof![2 => -2.0f64..5.0, 1 => Just(0.0), 1 => (-300.0f64..0.0).prop_map(|e| -10f64.powf(e)), 1 => Just(-f64::from_bits(1)), 1 => (-300.0f64..3.0).prop_map(|e| 10f64.powf(e))];
                boxed((e(), e()))
            },
            refusal,
        ),
        sub(
            "generated parameters (large)",
            "as the first check, for networks of 10..120 nodes, nodes with up to 250 states and up to 20000 rows per node; non-trivial: as above",
            100,
            || {
                const STATES: NetCfg = NetCfg { n: (1, 3), max_card: 250, max_edges: 3, max_rows: 2000, max_joint: usize::MAX, scale: 0 };
                const CONFIGS: NetCfg = NetCfg { n: (8, 16), max_card: 4, max_edges: 40, max_rows: 20_000, max_joint: usize::MAX, scale: 0 };
                let net = prop_oneof![2 => wide_spec((10, 120), 40, 600, 0), 1 => net_spec(STATES), 1 => net_spec(CONFIGS)];
                let lo = prop_oneof![1 => Just(0.0), 3 => 0.0f64..10.0];
                boxed((net, lo, 1e-2f64..10.0, proptest::option::weighted(0.8, seed()), any::<bool>(), 1usize..3)
                    .prop_map(|(net, lo, width, seed, dressed, rounds)| Case { net, kind: Kind::Ctbn, lo, width, seed, dressed, rounds }))
            },
            generate,
        ),
    ]
}
