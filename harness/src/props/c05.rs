//! C05: sampled trajectories are possible paths.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::wrap::Counted;
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::trajectory_generator;
use serde::{Deserialize, Serialize};

pub const NETS: NetCfg = NetCfg { n: (1, 6), max_card: 12, max_edges: 14, max_rows: 400, max_joint: 2_000_000, scale: 9 };

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Ctbn,
    /// single-node Markov process with the first node's first matrix
    Ctmp,
    /// amalgamation of the network (when it has at most 60 joint states)
    Amalgamated,
}

pub fn kind() -> BoxedStrategy<Kind> {
    boxed(prop_oneof![4 => Just(Kind::Ctbn), 1 => Just(Kind::Ctmp), 1 => Just(Kind::Amalgamated)])
}

/// The model of the process that is actually run for `kind`.
pub fn process_model(net: &Net, kind: Kind) -> (Net, Kind) {
    match kind {
        Kind::Ctbn => (net.clone(), kind),
        Kind::Ctmp => (
            Net { cards: vec![net.cards[0]], parents: vec![vec![]], cims: vec![vec![net.cims[0][0].clone()]] },
            kind,
        ),
        Kind::Amalgamated => {
            if net.joint() > 60 {
                (net.clone(), Kind::Ctbn)
            } else {
                (Net { cards: vec![net.joint()], parents: vec![vec![]], cims: vec![vec![net.generator()]] }, kind)
            }
        }
    }
}

pub enum Lib {
    Ctbn(Counted<reCTBN::process::ctbn::CtbnNetwork>),
    Ctmp(Counted<reCTBN::process::ctmp::CtmpProcess>),
}

pub fn library_process(net: &Net, kind: Kind) -> Result<Lib, String> {
    let (model, k) = process_model(net, kind);
    Ok(match k {
        Kind::Ctbn => Lib::Ctbn(Counted::new(model.build()?)),
        Kind::Ctmp => Lib::Ctmp(Counted::new(ctmp_from(model.cim_array(0))?)),
        Kind::Amalgamated => Lib::Ctmp(Counted::new(net.build()?.amalgamation())),
    })
}

#[macro_export]
macro_rules! with_process {
    ($lib:expr, $p:ident => $body:expr) => {
        match $lib {
            $crate::props::c05::Lib::Ctbn($p) => $body,
            $crate::props::c05::Lib::Ctmp($p) => $body,
        }
    };
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Steps(usize),
    Reset,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Walk {
    net: NetSpec,
    kind: Kind,
    init: Option<u64>,
    seed: u64,
    ops: Vec<Op>,
}

fn in_domain(m: &Net, s: &[usize]) -> bool {
    s.len() == m.n() && s.iter().zip(m.cards.iter()).all(|(x, c)| x < c)
}

/// One step from `a` to `b` must change exactly one node by a transition of positive rate.
fn check_step(m: &Net, a: &[usize], b: &[usize]) -> Result<usize, String> {
    ensure!(in_domain(m, b), "state {:?} is outside the domains {:?}", b, m.cards);
    let diff: Vec<usize> = (0..m.n()).filter(|v| a[*v] != b[*v]).collect();
    ensure!(diff.len() == 1, "step {:?} -> {:?} changes {} nodes", a, b, diff.len());
    let v = diff[0];
    let rate = m.row(v, a)[b[v]];
    ensure!(rate > 0.0, "step {:?} -> {:?}: node {} has rate {} (row {:?})", a, b, v, rate, m.row(v, a));
    Ok(v)
}

fn sampler(c: &Walk) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let init: Option<Vec<usize>> = c.init.map(|s| {
        let mut r = Rand::new(s);
        m.cards.iter().map(|c| r.below(*c)).collect()
    });
    with_process!(&lib, p => {
        let mut s = ForwardSampler::new(p, Some(c.seed), init.as_ref().map(|x| st(x)));
        let mut prev: Option<(f64, Vec<usize>)> = None;
        let (mut steps, mut resets, mut moved) = (0, 0, vec![false; m.n()]);
        for op in &c.ops {
            match op {
                Op::Reset => {
                    s.reset();
                    resets += 1;
                    prev = None;
                }
                Op::Steps(k) => {
                    for _ in 0..*k {
                        let x = match s.next() {
                            Some(x) => x,
                            None => return Err("the sampler ended".into()),
                        };
                        let state = unst(&x.state);
                        match &prev {
                            None => {
                                ensure!(x.t == 0.0, "first time is {}", x.t);
                                ensure!(in_domain(&m, &state), "initial state {:?} outside {:?}", state, m.cards);
                                if let Some(i) = &init {
                                    ensure!(&state == i, "starts in {:?}, requested {:?} ({} resets)", state, i, resets);
                                }
                            }
                            Some((t, a)) => {
                                ensure!(x.t >= *t, "time goes from {} to {}", t, x.t);
                                let v = check_step(&m, a, &state)?;
                                moved[v] = true;
                                steps += 1;
                            }
                        }
                        prev = Some((x.t, state));
                    }
                }
            }
        }
        Ok(Obs::new(steps >= 20)
            .tag(resets > 0, "reset")
            .tag(m.has_zero_rate(), "zero rates")
            .tag(m.n() == 1, "single node")
            .tag(c.kind != Kind::Ctbn, "Markov process")
            .tag(c.init.is_none(), "random initial state")
            .tag(moved.iter().filter(|x| **x).count() > 2, "three nodes moved")
            .tag(c.seed == 0 || c.seed == u64::MAX, "extreme seed"))
    })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Data {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    n: u64,
    /// expected number of events per trajectory at typical rates
    events: f64,
}

fn generator(c: &Data) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    // long enough to see events, short enough to keep their number bounded
    let t_end = (c.events / m.typical_rate()).min(c.events.max(3000.0) / m.max_total_rate());
    with_process!(&lib, p => {
        let d = trajectory_generator(p, c.n, t_end, Some(c.seed));
        let ts = from_dataset(&d);
        ensure!(ts.len() as u64 == c.n, "{} trajectories requested, {} generated", c.n, ts.len());
        let mut events = 0;
        for (i, t) in ts.iter().enumerate() {
            let len = t.t.len();
            ensure!(len >= 2 && t.ev.len() == len, "trajectory {} has {} times and {} rows", i, len, t.ev.len());
            ensure!(t.t[0] == 0.0, "trajectory {} starts at {}", i, t.t[0]);
            ensure!(t.t[len - 1] == t_end, "trajectory {} ends at {}, requested {}", i, t.t[len - 1], t_end);
            ensure!(t.ev[len - 1] == t.ev[len - 2], "trajectory {}: last rows differ: {:?} {:?}", i, t.ev[len - 2], t.ev[len - 1]);
            ensure!(in_domain(&m, &t.ev[0]), "trajectory {}: initial state {:?} outside {:?}", i, t.ev[0], m.cards);
            for j in 1..len - 1 {
                ensure!(t.t[j] >= t.t[j - 1], "trajectory {}: time goes from {} to {}", i, t.t[j - 1], t.t[j]);
                ensure!(t.t[j] < t_end, "trajectory {}: event at {} not before the end {}", i, t.t[j], t_end);
                check_step(&m, &t.ev[j - 1], &t.ev[j]).map_err(|e| format!("trajectory {}: {}", i, e))?;
                events += 1;
            }
        }
        Ok(Obs::new(events > 5)
            .tag(c.n == 0, "no trajectory")
            .tag(c.n > 255, "more than 255 trajectories")
            .tag(m.n() > 64, "more than 64 nodes")
            .tag(events > 4096, "more than 4096 events")
            .tag(c.n > 1, "several trajectories")
            .tag(m.has_zero_rate(), "zero rates")
            .tag(events > 200, "more than 200 events")
            .tag(c.kind != Kind::Ctbn, "Markov process"))
    })
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "sampler",
            "networks and Markov processes (zero rates, rates 1e-9..1e9, cycles), requested or random initial state, interleaved steps and resets; non-trivial: at least 20 steps",
            30_000,
            || {
                let op = prop_oneof![3 => (1usize..60).prop_map(Op::Steps), 1 => Just(Op::Reset)];
                boxed((net_spec(NETS), kind(), proptest::option::weighted(0.7, any::<u64>()), seed(), vec(op, 1..8))
                    .prop_map(|(net, kind, init, seed, ops)| Walk { net, kind, init, seed, ops }))
            },
            sampler,
        ),
        sub(
            "dataset generator",
            "datasets of 0..6 trajectories over the same processes, end times from a fraction of an event to hundreds of events; non-trivial: more than 5 events",
            20_000,
            || {
                let ev = prop_oneof![1 => 0.01f64..1.0, 3 => 1.0f64..60.0, 1 => 60.0f64..600.0];
                boxed((net_spec(NETS), kind(), seed(), 0u64..7, ev)
                    .prop_map(|(net, kind, seed, n, events)| Data { net, kind, seed, n, events }))
            },
            generator,
        ),
        sub(
            "wide sampler",
            "as the sampler check, on networks of 17..140 nodes with up to 120 states; non-trivial: at least 20 steps",
            250,
            || {
                let op = prop_oneof![3 => (1usize..300).prop_map(Op::Steps), 1 => Just(Op::Reset)];
                boxed((wide_spec((17, 140), 120, 1000, 4), proptest::option::weighted(0.7, any::<u64>()), seed(), vec(op, 1..8))
                    .prop_map(|(net, init, seed, ops)| Walk { net, kind: Kind::Ctbn, init, seed, ops }))
            },
            sampler,
        ),
        sub(
            "large datasets",
            "as the dataset check, with up to 140 nodes, up to 3000 trajectories or thousands of events per trajectory, and Markov processes of up to 250 states; non-trivial: more than 5 events",
            160,
            || {
                const MARKOV: NetCfg = NetCfg { n: (1, 1), max_card: 250, max_edges: 0, max_rows: 1000, max_joint: 1000, scale: 4 };
                let shape = prop_oneof![
                    2 => (wide_spec((17, 140), 60, 1000, 2), Just(Kind::Ctbn), 0u64..5, 10.0f64..1500.0),
                    2 => (net_spec(NETS), kind(), 250u64..3000, 0.1f64..6.0),
                    2 => (net_spec(NETS), kind(), 1u64..3, 1000.0f64..8000.0),
                    1 => (net_spec(MARKOV), Just(Kind::Ctmp), 1u64..40, 10.0f64..1500.0),
                ];
                boxed((shape, seed()).prop_map(|((net, kind, n, events), seed)| Data { net, kind, seed, n, events }))
            },
            generator,
        ),
    ]
}
