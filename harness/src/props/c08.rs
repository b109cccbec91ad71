//! C08: sufficient statistics.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array2, Array3};
use proptest::prelude::*;
use reCTBN::parameter_learning::{sufficient_statistics, ParameterLearning, MLE};
use reCTBN::tools::Dataset;
use reCTBN::process::ctbn::CtbnNetwork;
use serde::{Deserialize, Serialize};

pub const NETS: NetCfg = NetCfg { n: (1, 6), max_card: 12, max_edges: 8, max_rows: 400, max_joint: 1_000_000, scale: 0 };

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    pub net: NetSpec,
    pub data: DataSpec,
    pub node: u8,
    pub mask: u32,
    pub extra: u64,
}

/// Compares library statistics with the reference (times up to summation order).
pub fn compare(m: &Array3<usize>, t: &Array2<f64>, want: &Stats, what: &str) -> Result<(), String> {
    let (u, k) = (want.m.len(), want.m[0].len());
    ensure!(m.shape() == [u, k, k], "{}: transition counts of shape {:?}, expected {:?}", what, m.shape(), [u, k, k]);
    ensure!(t.shape() == [u, k], "{}: residence times of shape {:?}, expected {:?}", what, t.shape(), [u, k]);
    for a in 0..u {
        for x in 0..k {
            for y in 0..k {
                ensure!(m[[a, x, y]] == want.m[a][x][y], "{}: count of {} -> {} in configuration {} is {}, expected {}", what, x, y, a, m[[a, x, y]], want.m[a][x][y]);
            }
            ensure!(close(t[[a, x]], want.t[a][x], 1e-9, 1e-9), "{}: time in state {} in configuration {} is {}, expected {}", what, x, a, t[[a, x]], want.t[a][x]);
        }
    }
    Ok(())
}

fn check(c: &Case) -> Check {
    let m = c.net.net();
    let node = c.node as usize % m.n();
    let set = subset(&m.cards, node, c.mask, 2000);
    one_node(&m, c.data.expand(&m), node, set, c.extra)
}

fn check_big(c: &Big) -> Check {
    let m = c.net.net();
    let node = c.node as usize % m.n();
    let set = c.parents(&m, node);
    one_node(&m, c.data.expand(&m), node, set, c.extra)
}

fn one_node(m: &Net, trajs: Vec<Traj>, node: usize, set: Vec<usize>, extra: u64) -> Check {
    let n = m.n();
    let net: CtbnNetwork = m.build_structure()?;
    let d = dataset(&trajs, n);
    let call = |d: &Dataset, node: usize, set: &[usize]| sufficient_statistics(&net, d, node, &set.iter().cloned().collect());
    let want = stats(&m.cards, &trajs, node, &set);
    let (lm, lt) = call(&d, node, &set);
    compare(&lm, &lt, &want, "statistics")?;
    ensure!(from_dataset(&d) == trajs, "the dataset changed");

    // the statistics stored by a fit are the same
    let fitted = MLE {}.fit(&net, &d, node, Some(set.iter().cloned().collect()));
    let f = node_params(&fitted);
    ensure!(f.get_transitions().as_ref() == Some(&lm), "a fit stores other transition counts");
    ensure!(f.get_residence_time().as_ref() == Some(&lt), "a fit stores other residence times");

    // metamorphic relations
    let mut r = Rand::new(extra);
    let mut shuffled = trajs.clone();
    for i in (1..shuffled.len()).rev() {
        shuffled.swap(i, r.below(i + 1));
    }
    for tr in shuffled.iter_mut() {
        let shift = (r.below(2000) as f64) / 64.0 - 15.0;
        for t in tr.t.iter_mut() {
            *t += shift;
        }
        // variables outside node and parent set do not matter
        for row in tr.ev.iter_mut() {
            for v in 0..n {
                if v != node && !set.contains(&v) {
                    row[v] = r.below(m.cards[v]);
                }
            }
        }
    }
    let (m2, t2) = call(&dataset(&shuffled, n), node, &set);
    compare(&m2, &t2, &want, "reordered, shifted, other variables changed")?;

    // additivity over trajectories
    if trajs.len() > 1 {
        let cut = 1 + r.below(trajs.len() - 1);
        let (ma, ta) = call(&dataset(&trajs[..cut], n), node, &set);
        let (mb, tb) = call(&dataset(&trajs[cut..], n), node, &set);
        compare(&(ma + mb), &(ta + tb), &want, "sum of two parts")?;
    }

    // merging the states of one parent gives the statistics of the smaller set
    if !set.is_empty() {
        let drop = r.below(set.len());
        let small: Vec<usize> = set.iter().enumerate().filter(|(i, _)| *i != drop).map(|(_, v)| *v).collect();
        let (ms, ts) = call(&d, node, &small);
        let radix: usize = set[..drop].iter().map(|v| m.cards[*v]).product();
        let card = m.cards[set[drop]];
        let k = m.cards[node];
        let mut merged = Stats { m: vec![vec![vec![0; k]; k]; ms.shape()[0]], t: vec![vec![0.0; k]; ms.shape()[0]] };
        for u in 0..lm.shape()[0] {
            let s = u % radix + u / (radix * card) * radix;
            for x in 0..k {
                merged.t[s][x] += lt[[u, x]];
                for y in 0..k {
                    merged.m[s][x][y] += lm[[u, x, y]];
                }
            }
        }
        compare(&ms, &ts, &merged, "smaller parent set")?;
    }
    let moves: usize = lm.iter().sum();
    Ok(Obs::new(moves > 0 && !set.is_empty())
        .tag(set.len() > 1, "two or more parents")
        .tag(trajs.len() > 1, "several trajectories")
        .tag(trajs.is_empty(), "no trajectory")
        .tag(trajs.iter().any(|t| t.ev.windows(2).any(|w| (0..n).filter(|v| w[0][*v] != w[1][*v]).count() > 1)), "simultaneous changes")
        .tag(trajs.iter().any(|t| t.t.len() == 1), "trajectory of one row")
        .tag(m.cards[node] > 4, "cardinality > 4")
        .tag(n > 64, "more than 64 nodes")
        .tag(trajs.len() > 255, "more than 255 trajectories")
        .tag(m.cards[node] > 64, "more than 64 states")
        .tag(want.m.len() > 255, "more than 255 configurations")
        .tag(trajs.iter().any(|t| t.t.len() > 4096), "trajectory of more than 4096 rows"))
}

pub fn subs() -> Vec<Sub> {
    vec![sub(
        "statistics",
        "datasets written step by step (repeated rows, simultaneous changes, any time origin), random walks and simulations, over 1..6 nodes with 2..12 states, for a generated node and parent set; compared with a reference pass and four metamorphic relations; non-trivial: a parent set that is not empty and some transition of the node",
        60_000,
        || boxed((net_spec(NETS), any_data(0), any::<u8>(), any::<u32>(), any::<u64>())
            .prop_map(|(net, data, node, mask, extra)| Case { net, data, node, mask, extra })),
        check,
    ), sub(
        "large",
        "as above with 17..140 nodes, 200..5000 trajectories, trajectories of up to 300000 rows, up to 320 states or up to 100000 parent configurations; non-trivial: as above",
        800,
        || big(false),
        check_big,
    )]
}
