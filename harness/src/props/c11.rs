//! C11: structure scores.
use super::c08::{Case, NETS};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Scored {
    base: Case,
    alpha: usize,
    tau: f64,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LargeScored {
    base: Big,
    alpha: usize,
    tau: f64,
}

fn check(c: &Scored) -> Check {
    let m = c.base.net.net();
    let node = c.base.node as usize % m.n();
    let set = subset(&m.cards, node, c.base.mask, 2000);
    one_node(&m, c.base.data.expand(&m), node, set, c.base.extra, c.alpha, c.tau)
}

fn check_large(c: &LargeScored) -> Check {
    let m = c.base.net.net();
    let node = c.base.node as usize % m.n();
    let set = c.base.parents(&m, node);
    one_node(&m, c.base.data.expand(&m), node, set, c.base.extra, c.alpha, c.tau)
}

fn one_node(m: &Net, trajs: Vec<Traj>, node: usize, set: Vec<usize>, extra: u64, alpha: usize, tau: f64) -> Check {
    let n = m.n();
    let intervals: usize = trajs.iter().map(|t| t.t.len() - 1).sum();
    let bset = set.iter().cloned().collect();
    let net = m.build_structure()?;
    let s = stats(&m.cards, &trajs, node, &set);
    let d = dataset(&trajs, n);
    let (ll, bic) = (LogLikelihood::new(alpha, tau), BIC::new(alpha, tau));
    let (want, mag) = ll_score(&s, alpha, tau);
    let got = ll.call(&net, node, &bset, &d);
    ensure!(
        (got - want).abs() <= 1e-9 * (1.0 + mag),
        "log-likelihood score of node {} with parents {:?}, alpha {}, tau {}: {} instead of {}", node, set, alpha, tau, got, want
    );
    let mut r = Rand::new(extra);
    let mut changed = trajs.clone();
    for i in (1..changed.len()).rev() {
        changed.swap(i, r.below(i + 1));
    }
    for tr in changed.iter_mut() {
        let shift = (r.below(2000) as f64) / 64.0 - 15.0;
        tr.t.iter_mut().for_each(|t| *t += shift);
        for row in tr.ev.iter_mut() {
            for v in 0..n {
                if v != node && !set.contains(&v) {
                    row[v] = r.below(m.cards[v]);
                }
            }
        }
    }
    let d2 = dataset(&changed, n);
    let got2 = ll.call(&net, node, &bset, &d2);
    ensure!((got - got2).abs() <= 1e-8 * (1.0 + mag), "log-likelihood score changes from {} to {} with irrelevant data", got, got2);
    if intervals > 0 {
        let (want, mag) = bic_score(&s, alpha, tau, intervals);
        let got = bic.call(&net, node, &bset, &d);
        ensure!(
            (got - want).abs() <= 1e-9 * (1.0 + mag),
            "BIC score of node {} with parents {:?}, alpha {}, tau {}, {} intervals: {} instead of {}", node, set, alpha, tau, intervals, got, want
        );
        let got2 = bic.call(&net, node, &bset, &d2);
        ensure!((got - got2).abs() <= 1e-8 * (1.0 + mag), "BIC score changes from {} to {} with irrelevant data", got, got2);
    }
    let moves: usize = s.m.iter().flatten().flatten().sum();
    Ok(Obs::new(moves > 0)
        .tag(!set.is_empty(), "with parents")
        .tag(set.len() > 1, "two or more parents")
        .tag(alpha != 1 && tau != 1.0, "alpha and tau both differ from one")
        .tag(s.m.len() > 1 && alpha % s.m.len() != 0, "fractional pseudo counts")
        .tag(m.cards[node] > 2, "more than two states")
        .tag(n > 64, "more than 64 nodes")
        .tag(trajs.len() > 255, "more than 255 trajectories")
        .tag(m.cards[node] > 64, "more than 64 states")
        .tag(s.m.len() > 255, "more than 255 configurations")
        .tag(s.m.iter().flatten().any(|r| r.iter().sum::<usize>() > 1000), "more than 1000 transitions from one state")
        .tag(intervals == 0, "no interval"))
}

pub fn subs() -> Vec<Sub> {
    vec![sub(
        "scores",
        "datasets over 1..6 nodes with 2..12 states, any node and parent set, alpha 1..1e7, tau 1e-9..1e9; both scores compared with an independent evaluation of the closed form and under reordering, time shift and changes of other variables; non-trivial: some transition of the node",
        60_000,
        || {
            let case = (net_spec(NETS), any_data(0), any::<u8>(), any::<u32>(), any::<u64>())
                .prop_map(|(net, data, node, mask, extra)| Case { net, data, node, mask, extra });
            let alpha = prop_oneof![2 => Just(1usize), 3 => 1usize..10, 2 => 1usize..1000, 1 => 1000usize..10_000_000];
            let tau = prop_oneof![1 => Just(1.0), 4 => (-3.0f64..3.0).prop_map(|e| 10f64.powf(e)), 1 => (-9.0f64..9.0).prop_map(|e| 10f64.powf(e))];
            boxed((case, alpha, tau).prop_map(|(base, alpha, tau)| Scored { base, alpha, tau }))
        },
        check,
    ), sub(
        "large",
        "as above with 17..140 nodes, 200..5000 trajectories, trajectories of up to 300000 rows, up to 320 states or up to 100000 parent configurations; non-trivial: as above",
        800,
        || {
            let alpha = prop_oneof![2 => Just(1usize), 3 => 1usize..10, 2 => 1usize..1000, 1 => 1000usize..10_000_000];
            let tau = prop_oneof![1 => Just(1.0), 4 => (-3.0f64..3.0).prop_map(|e| 10f64.powf(e)), 1 => (-9.0f64..9.0).prop_map(|e| 10f64.powf(e))];
            boxed((big(false), alpha, tau).prop_map(|(base, alpha, tau)| LargeScored { base, alpha, tau }))
        },
        check_large,
    )]
}
