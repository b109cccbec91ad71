//! C21: refusal of ill-formed data, faithful storage of well-formed data.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array1, Array2};
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::parameter_learning::{BayesianApproach, MLE};
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use serde::{Deserialize, Serialize};

/// (times, rows, columns, seed)
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Shape {
    times: usize,
    rows: usize,
    width: usize,
    seed: u64,
}

fn arrays(s: &Shape) -> (Array1<f64>, Array2<usize>) {
    let mut r = Rand::new(s.seed);
    let mut t = 0.0;
    let wild = s.seed % 3 == 0;
    let time = Array1::from_shape_fn(s.times, |_| {
        if wild {
            // times are stored as given, whatever they are
            [-1.0, 0.0, 1e300, 1e-300, -0.0, f64::INFINITY][r.below(6)] * r.f()
        } else {
            t += r.f();
            t
        }
    });
    let events = Array2::from_shape_fn((s.rows, s.width), |_| if wild { r.u64() as usize } else { r.below(5) });
    (time, events)
}

fn bits(t: &Array1<f64>) -> Vec<u64> {
    t.iter().map(|x| x.to_bits()).collect()
}

fn trajectory(s: &Shape) -> Check {
    let (t, e) = arrays(s);
    let out = catching(|| Trajectory::new(t.clone(), e.clone()));
    let well = s.times == s.rows;
    ensure!(out.is_ok() == well, "{} times with {} rows: {}", s.times, s.rows, if well { "refused" } else { "accepted" });
    if let Ok(tr) = out {
        ensure!(bits(tr.get_time()) == bits(&t), "times {} instead of {}", tr.get_time(), t);
        ensure!(tr.get_events() == &e && tr.get_events().shape() == e.shape(), "events {} instead of {}", tr.get_events(), e);
        let c = tr.clone();
        ensure!(bits(c.get_time()) == bits(&t) && c.get_events() == &e, "a copy differs");
    }
    Ok(Obs::new(!well || s.rows > 0)
        .tag(!well, "lengths differ")
        .tag(s.times == s.rows + 1 || s.rows == s.times + 1, "lengths differ by one")
        .tag(s.times == s.width && !well, "as many times as variables")
        .tag(s.rows == 0 && well, "empty trajectory")
        .tag(s.width == 0, "no variables"))
}

fn dataset_of(shapes: &Vec<Shape>) -> Check {
    let given: Vec<(Array1<f64>, Array2<usize>)> = shapes.iter().map(|s| arrays(&Shape { times: s.rows, ..s.clone() })).collect();
    let trs: Vec<Trajectory> = given.iter().map(|(t, e)| Trajectory::new(t.clone(), e.clone())).collect();
    let well = shapes.windows(2).all(|w| w[0].width == w[1].width);
    let out = catching(|| Dataset::new(trs));
    ensure!(
        out.is_ok() == well,
        "trajectories with {:?} variables: {}",
        shapes.iter().map(|s| s.width).collect::<Vec<_>>(),
        if well { "refused" } else { "accepted" }
    );
    if let Ok(d) = out {
        let ts = d.get_trajectories();
        ensure!(ts.len() == given.len(), "{} trajectories stored of {}", ts.len(), given.len());
        for (i, (t, e)) in given.iter().enumerate() {
            ensure!(bits(ts[i].get_time()) == bits(t) && ts[i].get_events() == e, "trajectory {} is not the one given", i);
        }
    }
    Ok(Obs::new(shapes.len() > 1)
        .tag(!well, "widths differ")
        .tag(!well && shapes.windows(2).take(shapes.len().saturating_sub(2)).all(|w| w[0].width == w[1].width), "only the last width differs")
        .tag(shapes.is_empty(), "no trajectory")
        .tag(well && shapes.windows(2).any(|w| w[0].rows != w[1].rows), "different lengths"))
}

/// Many trajectories of the same width except for the listed ones.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Many {
    n: usize,
    rows: usize,
    width: usize,
    odd: Vec<(usize, usize)>,
    seed: u64,
}

fn many(c: &Many) -> Check {
    let mut r = Rand::new(c.seed);
    let mut shapes: Vec<Shape> = (0..c.n)
        .map(|_| {
            let rows = r.below(c.rows + 1);
            Shape { times: rows, rows, width: c.width, seed: r.u64() }
        })
        .collect();
    for (at, w) in &c.odd {
        shapes[at % c.n].width = *w;
    }
    dataset_of(&shapes)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Width {
    net: NetSpec,
    width: usize,
    trajs: usize,
    len: usize,
    seed: u64,
    learner: u8,
}

fn learners(c: &Width) -> Check {
    let m = c.net.net();
    let mut r = Rand::new(c.seed);
    let trajs: Vec<Traj> = (0..c.trajs)
        .map(|_| {
            let mut t = 0.0;
            let mut tr = Traj { t: vec![], ev: vec![] };
            for _ in 0..c.len {
                tr.t.push(t);
                tr.ev.push((0..c.width).map(|v| if v < m.n() { r.below(m.cards[v]) } else { r.below(2) }).collect());
                t += 0.1 + r.f();
            }
            tr
        })
        .collect();
    let d = dataset(&trajs, c.width);
    let net = m.build_structure()?;
    let names = ["hill climbing (log-likelihood)", "hill climbing (BIC)", "CTPC (maximum likelihood)", "CTPC (Bayesian)"];
    let which = c.learner as usize % 4;
    let out = catching(|| match which {
        0 => HillClimbing::new(LogLikelihood::new(1, 1.0), Some(2)).fit_transform(net, &d),
        1 => HillClimbing::new(BIC::new(1, 1.0), None).fit_transform(net, &d),
        2 => CTPC::new(MLE {}, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &d),
        _ => CTPC::new(BayesianApproach { alpha: 1, tau: 1.0 }, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &d),
    });
    let well = c.width == m.n();
    // The F test fails on rows without transitions (a known finding of C14): the data were accepted.
    let accepted = match &out {
        Ok(_) => true,
        Err(e) => which >= 2 && known_panic(e),
    };
    ensure!(
        accepted == well,
        "{} with {} variables in the data and {} nodes: {}",
        names[which], c.width, m.n(), match &out { Ok(_) => "accepted".to_string(), Err(e) => format!("refused: {}", e) }
    );
    Ok(Obs::new(!well)
        .tag(c.width < m.n(), "fewer variables than nodes")
        .tag(c.width > m.n(), "more variables than nodes")
        .tag(well, "as many variables as nodes"))
}

fn constructors(c: &(u8, f64, usize)) -> Check {
    let (which, x, alpha) = *c;
    let (name, ok, want) = match which % 4 {
        0 => ("LogLikelihood", catching(|| LogLikelihood::new(alpha, x)).is_ok(), x >= 0.0),
        1 => ("BIC", catching(|| BIC::new(alpha, x)).is_ok(), x >= 0.0),
        2 => ("UniformGraphGenerator", catching(|| UniformGraphGenerator::new(x, Some(1))).is_ok(), (0.0..=1.0).contains(&x)),
        _ => {
            let b = if alpha % 2 == 0 { x..5.0 } else { 1.0..x };
            ("UniformParametersGenerator", catching(|| UniformParametersGenerator::new(b, Some(1))).is_ok(), x >= 0.0)
        }
    };
    ensure!(ok == want, "{} with {}: {}", name, x, if want { "refused" } else { "accepted" });
    Ok(Obs::new(!want).tag(!want, "refused").tag(want, "accepted"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "trajectories",
            "0..12 time stamps with 0..12 rows of 0..6 variables (equal or different lengths; arbitrary values); accepted exactly when the lengths agree, stored bit by bit; non-trivial: lengths differ or the trajectory is not empty",
            60_000,
            || {
                let rows = prop_oneof![1 => (0usize..12, 0usize..12), 2 => (0usize..12).prop_map(|n| (n, n)), 1 => (0usize..12, 1usize..3).prop_map(|(n, k)| (n, n + k)), 1 => (0usize..12, 1usize..3).prop_map(|(n, k)| (n + k, n))];
                boxed((rows, 0usize..7, any::<u64>()).prop_map(|((times, rows), width, seed)| Shape { times, rows, width, seed }))
            },
            trajectory,
        ),
        sub(
            "datasets",
            "0..7 trajectories of 0..8 rows with equal widths or one or more different; accepted exactly when the widths agree, order and content kept; non-trivial: at least two trajectories",
            60_000,
            || {
                let odd = vec((0usize..7, 0usize..8), 0..3);
                boxed((vec((0usize..8, any::<u64>()), 0..8), 1usize..7, odd, any::<bool>()).prop_map(|(rows, width, odd, even)| {
                    let mut s: Vec<Shape> = rows.into_iter().map(|(rows, seed)| Shape { times: rows, rows, width, seed }).collect();
                    if !even {
                        for (at, w) in odd {
                            let n = s.len();
                            if n > 0 {
                                s[at % n].width = w;
                            }
                        }
                    }
                    s
                }))
            },
            dataset_of,
        ),
        sub(
            "learners",
            "both structure learners (log-likelihood, BIC; maximum likelihood, Bayesian) on datasets with fewer, as many or more variables than the network has nodes; non-trivial: widths that differ",
            6_000,
            || {
                const NETS: NetCfg = NetCfg { n: (1, 5), max_card: 3, max_edges: 6, max_rows: 60, max_joint: 300, scale: 0 };
                boxed((net_spec(NETS), -3isize..4, 1usize..4, 1usize..25, any::<u64>(), any::<u8>()).prop_map(|(net, diff, trajs, len, seed, learner)| {
                    let width = (net.n() as isize + diff).max(1) as usize;
                    Width { net, width, trajs, len, seed, learner }
                }))
            },
            learners,
        ),
        sub(
            "constructors",
            "score and generator constructors with pseudo times, densities and interval ends around their limits, down to one unit in the last place; non-trivial: refused values",
            20_000,
            || {
                let x = prop_oneof![
                    3 => -3.0f64..5.0, 1 => Just(0.0), 1 => Just(-0.0), 1 => Just(1.0), 1 => Just(-f64::from_bits(1)),
                    1 => Just(f64::from_bits(1.0f64.to_bits() + 1)), 2 => (-300.0f64..10.0).prop_map(|e| -10f64.powf(e)), 1 => (-300.0f64..10.0).prop_map(|e| 10f64.powf(e)),
                    1 => Just(f64::NEG_INFINITY),
                ];
                boxed((any::<u8>(), x, 0usize..50))
            },
            constructors,
        ),
        sub(
            "large trajectories",
            "as the first check with up to 20000 time stamps or rows and up to 300 variables; non-trivial: as above",
            40,
            || {
                let rows = prop_oneof![
                    2 => (0usize..20_000).prop_map(|n| (n, n)),
                    2 => (0usize..20_000, 1usize..3).prop_map(|(n, k)| (n, n + k)),
                    2 => (0usize..20_000, 1usize..3).prop_map(|(n, k)| (n + k, n)),
                    1 => (0usize..20_000, prop_oneof![Just(256usize), Just(65_536usize)]).prop_map(|(n, k)| (n, n + k)),
                ];
                boxed((rows, prop_oneof![5 => 0usize..5, 1 => 5usize..300], any::<u64>())
                    .prop_map(|((times, rows), width, seed)| Shape { times, rows, width: width.min(4_000_000 / (rows + 1)), seed }))
            },
            trajectory,
        ),
        sub(
            "large datasets",
            "as the datasets check with 100..6000 trajectories of which none, one or a few have another number of variables; non-trivial: at least two trajectories",
            40,
            || {
                let odd = prop_oneof![1 => Just(vec![]), 3 => vec((any::<usize>(), 0usize..8), 1..2), 1 => vec((any::<usize>(), 0usize..8), 1..4)];
                boxed((100usize..6000, 0usize..12, 1usize..7, odd, any::<u64>()).prop_map(|(n, rows, width, odd, seed)| Many { n, rows, width, odd, seed }))
            },
            many,
        ),
    ]
}
