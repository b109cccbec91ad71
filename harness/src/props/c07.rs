//! C07: determinism given the seed, whatever the threads.
use super::c05::{kind, library_process, process_model, Kind};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::with_process;
use proptest::prelude::*;
use rayon::ThreadPoolBuilder;
use reCTBN::parameter_learning::{BayesianApproach, MLE};
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const NETS: NetCfg = NetCfg { n: (1, 5), max_card: 5, max_edges: 10, max_rows: 150, max_joint: 10_000, scale: 3 };
const TINY: NetCfg = NetCfg { n: (1, 4), max_card: 3, max_edges: 6, max_rows: 40, max_joint: 24, scale: 0 };

/// Another seed: unrelated, or one bit away.
fn other_seed(seed: u64, other: u64) -> u64 {
    let o = if other & 1 == 0 { seed ^ (1 << (other >> 1) % 64) } else { other };
    if o == seed { seed.wrapping_add(1) } else { o }
}

fn bits(ts: &[Traj]) -> Vec<(Vec<u64>, Vec<Vec<usize>>)> {
    ts.iter().map(|t| (t.t.iter().map(|x| x.to_bits()).collect(), t.ev.clone())).collect()
}

/// Runs `f` inside a pool with the given number of threads.
pub fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Gen {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    other: u64,
    n: u64,
    more: u64,
    events: f64,
}

fn sampling(c: &Gen) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let t_end = (c.events / m.typical_rate()).min(2000.0 / m.max_total_rate());
    with_process!(&lib, p => {
        let a = bits(&from_dataset(&trajectory_generator(p, c.n, t_end, Some(c.seed))));
        let b = bits(&from_dataset(&trajectory_generator(p, c.n, t_end, Some(c.seed))));
        ensure!(a == b, "two runs with seed {} give different datasets", c.seed);
        let more = bits(&from_dataset(&trajectory_generator(p, c.n + c.more, t_end, Some(c.seed))));
        ensure!(
            more.len() == (c.n + c.more) as usize && more[..c.n as usize] == a[..],
            "{} trajectories are not the first of {} with the same seed", c.n, c.n + c.more
        );
        let other = other_seed(c.seed, c.other);
        let d = from_dataset(&trajectory_generator(p, c.n.max(1), 20.0 / m.typical_rate(), Some(c.seed)));
        let e = from_dataset(&trajectory_generator(p, c.n.max(1), 20.0 / m.typical_rate(), Some(other)));
        if d[0].t.len() > 2 || e[0].t.len() > 2 {
            ensure!(bits(&d) != bits(&e), "seeds {} and {} give the same dataset", c.seed, other);
        }
        // two samplers advanced alternately, with a reset in the middle
        let walk = |s: &mut dyn Iterator<Item = reCTBN::sampling::Sample>| {
            let x = s.next().unwrap();
            (x.t.to_bits(), unst(&x.state))
        };
        let mut s1 = ForwardSampler::new(p, Some(c.seed), None);
        let mut s2 = ForwardSampler::new(p, Some(c.seed), None);
        for i in 0..40 {
            if i == 25 {
                s1.reset();
                s2.reset();
            }
            let (a, b) = (walk(&mut s1), walk(&mut s2));
            ensure!(a == b, "two samplers with seed {} differ at step {}: {:?} {:?}", c.seed, i, a, b);
        }
        Ok(Obs::new(a.iter().map(|x| x.0.len()).sum::<usize>() > 10)
            .tag(c.seed == 0 || c.seed == u64::MAX, "extreme seed")
            .tag(c.kind != Kind::Ctbn, "Markov process"))
    })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Generators {
    cards: Vec<usize>,
    density: f64,
    seed: u64,
    other: u64,
    rounds: usize,
}

fn random_networks(c: &Generators) -> Check {
    let blank = Net { cards: c.cards.clone(), parents: vec![vec![]; c.cards.len()], cims: vec![] };
    let make = |seed: u64| -> Result<Vec<(Vec<Vec<usize>>, Vec<Vec<u64>>)>, String> {
        let mut g = UniformGraphGenerator::new(c.density, Some(seed));
        let mut q = UniformParametersGenerator::new(0.5..6.0, Some(seed));
        let mut out = vec![];
        for _ in 0..c.rounds {
            let mut net = blank.build_structure()?;
            g.generate_graph(&mut net);
            q.generate_parameters(&mut net);
            let ps = net.get_node_indices().map(|i| net.get_parent_set(i).into_iter().collect()).collect();
            let cs = net
                .get_node_indices()
                .map(|i| node_params(net.get_node(i)).get_cim().as_ref().map_or(vec![], |c| c.iter().map(|x| x.to_bits()).collect()))
                .collect();
            out.push((ps, cs));
        }
        Ok(out)
    };
    let a = make(c.seed)?;
    ensure!(a == make(c.seed)?, "random graphs or parameters differ between two runs with seed {}", c.seed);
    let other = other_seed(c.seed, c.other);
    ensure!(a[0].1 != make(other)?[0].1, "seeds {} and {} give the same random parameters", c.seed, other);
    // a larger graph, whose chance of coming out twice is below 2^-60
    let edges = |seed: u64| -> Result<Vec<Vec<usize>>, String> {
        let mut net = Net { cards: vec![2; 16], parents: vec![vec![]; 16], cims: vec![] }.build_structure()?;
        UniformGraphGenerator::new(0.5, Some(seed)).generate_graph(&mut net);
        Ok(net.get_node_indices().map(|i| net.get_parent_set(i).into_iter().collect()).collect())
    };
    ensure!(edges(c.seed)? == edges(c.seed)?, "two random graphs with seed {} differ", c.seed);
    ensure!(edges(c.seed)? != edges(other)?, "seeds {} and {} give the same random graph", c.seed, other);
    if c.rounds > 1 {
        ensure!(a[0].1 != a[1].1, "a generator with seed {} repeats the same parameters", c.seed);
    }
    Ok(Obs::new(a.iter().any(|x| x.0.iter().any(|p| !p.is_empty()))))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Rewards {
    net: NetSpec,
    kind: Kind,
    seed: u64,
    table: u64,
    iterations: usize,
    horizon: f64,
    discount: Option<f64>,
    max_err: f64,
    threads: Vec<usize>,
}

fn random_reward<N: NetworkProcess>(p: &N, seed: u64) -> FactoredRewardFunction {
    let mut r = Rand::new(seed);
    let mut rf = FactoredRewardFunction::initialize_from_network_process(p);
    for i in p.get_node_indices() {
        rf.get_instantaneous_reward_mut(i).mapv_inplace(|_| r.f() * 10.0 - 5.0);
        rf.get_transition_reward_mut(i).mapv_inplace(|_| r.f() * 10.0 - 5.0);
    }
    rf
}

fn rewards(c: &Rewards) -> Check {
    let base = c.net.net();
    let (m, _) = process_model(&base, c.kind);
    let lib = library_process(&base, c.kind)?;
    let criteria = || match c.discount {
        None => RewardCriteria::FiniteHorizon,
        Some(d) => RewardCriteria::InfiniteHorizon { discount_factor: d },
    };
    with_process!(&lib, p => {
        let rf = random_reward(p, c.table);
        let mc = MonteCarloReward::new(c.iterations, c.max_err, 0.05, c.horizon / m.typical_rate(), criteria(), Some(c.seed));
        let mut reference: Option<BTreeMap<Vec<usize>, u64>> = None;
        let space = |mc: &MonteCarloReward| -> BTreeMap<Vec<usize>, u64> {
            mc.evaluate_state_space(p, &rf).iter().map(|(k, v)| (unst(k), v.to_bits())).collect()
        };
        for t in &c.threads {
            let got = in_pool(*t, || space(&mc));
            match &reference {
                None => reference = Some(got),
                Some(r) => ensure!(r == &got, "state-space evaluation with seed {} differs on a pool of {} threads", c.seed, t),
            }
        }
        // concurrent callers
        let (a, b) = in_pool(4, || rayon::join(|| space(&mc), || space(&mc)));
        let reference = reference.unwrap();
        ensure!(a == reference && b == reference, "concurrent state-space evaluations with seed {} differ", c.seed);
        let mut r = Rand::new(c.table);
        let mut moved = false;
        for _ in 0..2 {
            let x: Vec<usize> = m.cards.iter().map(|c| r.below(*c)).collect();
            let v1 = mc.evaluate_state(p, &rf, &st(&x));
            let v2 = mc.evaluate_state(p, &rf, &st(&x));
            ensure!(v1.to_bits() == v2.to_bits(), "two evaluations of {:?} with seed {} give {} and {}", x, c.seed, v1, v2);
            // another seed: equal only if no trajectory ever moved
            let other = other_seed(c.seed, c.table);
            let horizon = c.horizon / m.typical_rate();
            let run = |seed: u64, it: usize| MonteCarloReward::new(it, 0.0, 0.05, horizon, criteria(), Some(seed)).evaluate_state(p, &rf, &st(&x));
            let (w1, w2) = (run(c.seed, 5), run(other, 5));
            let still = rf.call(&st(&x), None).instantaneous_reward
                * match c.discount {
                    None => horizon,
                    Some(d) => (1.0 - (-d * horizon).exp()) / d,
                };
            if (w1 - still).abs() > 1e-6 * (1.0 + still.abs()) {
                moved = true;
                ensure!(w1.to_bits() != w2.to_bits(), "seeds {} and {} give the same evaluation {} of {:?}", c.seed, other, w1, x);
            }
        }
        Ok(Obs::new(m.joint() > 2).tag(c.max_err > 0.0, "early stopping possible").tag(moved, "seeds compared").tag(c.kind != Kind::Ctbn, "Markov process"))
    })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Learning {
    net: NetSpec,
    data: DataSpec,
    threads: Vec<usize>,
    which: u8,
    max_parents: Option<usize>,
}

fn learners(c: &Learning) -> Check {
    let m = c.net.net();
    let d = dataset(&c.data.expand(&m), m.n());
    let learn_raw = || -> Vec<Vec<usize>> {
        let net = m.build_structure().unwrap();
        let net = match c.which % 4 {
            0 => HillClimbing::new(LogLikelihood::new(1, 1.0), c.max_parents).fit_transform(net, &d),
            1 => HillClimbing::new(BIC::new(1, 1.0), c.max_parents).fit_transform(net, &d),
            2 => CTPC::new(MLE {}, F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &d),
            _ => CTPC::new(BayesianApproach { alpha: 1, tau: 1.0 }, F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &d),
        };
        net.get_node_indices().map(|i| net.get_parent_set(i).into_iter().collect()).collect()
    };
    // The F test fails on rows without transitions (a known finding of C14): an outcome like the
    // others here, as long as it is the same on every pool.
    let learn = || catching(learn_raw);
    let mut reference: Option<Result<Vec<Vec<usize>>, String>> = None;
    for t in &c.threads {
        let got = in_pool(*t, || learn());
        if let Err(e) = &got {
            ensure!(c.which % 4 >= 2 && known_panic(e), "panicked: {}", e);
        }
        match &reference {
            None => reference = Some(got),
            Some(r) => ensure!(r == &got, "learned {:?} on a pool of {} threads, {:?} before", got, t, r),
        }
    }
    let reference = reference.unwrap();
    let (a, b) = in_pool(4, || rayon::join(|| learn(), || learn()));
    ensure!(a == reference && b == reference, "concurrent learning gives {:?} and {:?} instead of {:?}", a, b, reference);
    let known = reference.is_err();
    Ok(Obs::new(reference.map_or(false, |r| r.iter().any(|p| !p.is_empty()))).tag(known, "known panic of the F test").tag(c.which % 4 >= 2, "CTPC"))
}

fn threads() -> BoxedStrategy<Vec<usize>> {
    boxed((1usize..3, 3usize..9).prop_map(|(a, b)| vec![a, b]))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "sampling",
            "datasets and samplers run twice with one seed (0 and 2^64-1 included), with more trajectories, and with another seed; non-trivial: more than 10 sample points",
            25_000,
            || boxed((net_spec(NETS), kind(), seed(), seed(), 0u64..5, 0u64..4, 0.1f64..60.0)
                .prop_map(|(net, kind, seed, other, n, more, events)| Gen { net, kind, seed, other, n, more, events })),
            sampling,
        ),
        sub(
            "random graphs and parameters",
            "graph and parameter generators run twice with one seed, and with another seed, for several rounds; non-trivial: some edge generated",
            15_000,
            || boxed((proptest::collection::vec(card(4), 1..6), 0.0f64..=1.0, seed(), seed(), 1usize..4)
                .prop_map(|(cards, density, seed, other, rounds)| Generators { cards, density, seed, other, rounds })),
            random_networks,
        ),
        sub(
            "reward evaluation",
            "state spaces of up to 24 joint states evaluated on pools of two sizes between 1 and 8 threads and by concurrent callers; non-trivial: more than two joint states",
            2_500,
            || boxed((
                (net_spec(TINY), kind(), seed(), any::<u64>(), 1usize..30),
                (0.5f64..10.0, proptest::option::of(0.05f64..3.0), prop_oneof![Just(0.0), 0.1f64..3.0], threads()),
            ).prop_map(|((net, kind, seed, table, iterations), (horizon, discount, max_err, threads))|
                Rewards { net, kind, seed, table, iterations, horizon, discount, max_err, threads })),
            rewards,
        ),
        sub(
            "structure learning",
            "both learners with four score/estimator choices on pools of two sizes between 1 and 8 threads and by concurrent callers; non-trivial: some edge learned",
            2_500,
            || {
                let data = (any::<u64>(), 1usize..4, 20usize..300).prop_map(|(seed, trajs, len)| DataSpec::Simulated { seed, trajs, len });
                let spec = prop_oneof![2 => rich(4, 24), 1 => (net_spec(TINY), data)];
                boxed((spec, threads(), any::<u8>(), proptest::option::of(0usize..4))
                    .prop_map(|((net, data), threads, which, max_parents)| Learning { net, data, threads, which, max_parents }))
            },
            learners,
        ),
        sub(
            "large sampling",
            "as the sampling check, with 100..3000 short trajectories or up to 120 nodes; non-trivial: more than 10 sample points",
            160,
            || {
                let shape = prop_oneof![
                    2 => (net_spec(NETS), kind(), 100u64..3000, 0.5f64..5.0),
                    1 => (wide_spec((17, 120), 40, 500, 2), Just(Kind::Ctbn), 0u64..40, 1.0f64..200.0),
                ];
                let more = prop_oneof![2 => 1u64..4, 1 => 4u64..1500];
                boxed((shape, seed(), seed(), more).prop_map(|((net, kind, n, events), seed, other, more)| Gen { net, kind, seed, other, n, more, events }))
            },
            sampling,
        ),
        sub(
            "large state spaces",
            "as the reward check, with state spaces of up to 3000 joint states; non-trivial: more than two joint states",
            40,
            || {
                const LARGE: NetCfg = NetCfg { n: (5, 11), max_card: 4, max_edges: 10, max_rows: 60, max_joint: 3000, scale: 0 };
                boxed((
                    (net_spec(LARGE), seed(), any::<u64>(), 1usize..8),
                    (0.1f64..2.0, proptest::option::of(0.05f64..3.0), prop_oneof![Just(0.0), 0.1f64..3.0], threads()),
                ).prop_map(|((net, seed, table, iterations), (horizon, discount, max_err, threads))|
                    Rewards { net, kind: Kind::Ctbn, seed, table, iterations, horizon, discount, max_err, threads }))
            },
            rewards,
        ),
        sub(
            "wide structure learning",
            "as the learning check, with 8..40 nodes; non-trivial: some edge learned",
            50,
            || boxed((wide_spec((8, 40), 4, 12, 0), any::<u64>(), 1usize..4, 300usize..1500, threads(), any::<u8>(), 0usize..3)
                .prop_map(|(net, seed, trajs, len, threads, which, max)|
                    Learning { net, data: DataSpec::Simulated { seed, trajs, len }, threads, which: which % 2, max_parents: Some(max) })),
            learners,
        ),
    ]
}
