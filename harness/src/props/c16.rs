//! C16: random graphs.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::params::Params;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::{RandomGraphGenerator, UniformGraphGenerator};
use serde::{Deserialize, Serialize};

fn blank(n: usize, cards: u64) -> Result<CtbnNetwork, String> {
    let mut net = CtbnNetwork::new();
    for i in 0..n {
        let card = 2 + (cards >> (i % 32) & 1) as usize;
        net.add_node(Params::DiscreteStatesContinousTime(new_node(&format!("n{}", i), card))).map_err(|e| format!("{:?}", e))?;
    }
    net.initialize_adj_matrix();
    Ok(net)
}

/// Edge matrix [parent][child], read from both sides.
fn edges(net: &CtbnNetwork) -> Result<Vec<Vec<bool>>, String> {
    let n = net.get_number_of_nodes();
    let mut e = vec![vec![false; n]; n];
    for c in 0..n {
        for p in net.get_parent_set(c) {
            ensure!(p < n, "node {} has parent {}, there are {} nodes", c, p, n);
            e[p][c] = true;
        }
    }
    for p in 0..n {
        let ch = net.get_children_set(p);
        for c in 0..n {
            ensure!(ch.contains(&c) == e[p][c], "parent and child sets disagree about {} -> {}", p, c);
        }
    }
    Ok(e)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct One {
    n: usize,
    density: f64,
    seed: Option<u64>,
    before: Vec<(u8, u8)>,
    rounds: usize,
}

fn structure(c: &One) -> Check {
    let mut net = blank(c.n, 5)?;
    for (a, b) in &c.before {
        if c.n > 1 {
            let (a, b) = (*a as usize % c.n, *b as usize % c.n);
            if a != b {
                net.add_edge(a, b);
            }
        }
    }
    let mut g = UniformGraphGenerator::new(c.density, c.seed);
    let mut last = 0;
    for round in 0..c.rounds {
        g.generate_graph(&mut net);
        ensure!(net.get_number_of_nodes() == c.n, "{} nodes after generation, {} before", net.get_number_of_nodes(), c.n);
        let e = edges(&net)?;
        let mut count = 0;
        for p in 0..c.n {
            for q in 0..c.n {
                if p == q {
                    ensure!(!e[p][q], "self-loop at node {} (round {})", p, round);
                } else if c.density == 0.0 {
                    ensure!(!e[p][q], "edge {} -> {} at density 0 (round {})", p, q, round);
                } else if c.density == 1.0 {
                    ensure!(e[p][q], "edge {} -> {} missing at density 1 (round {})", p, q, round);
                }
                count += e[p][q] as usize;
            }
        }
        let pairs = (c.n * c.n.saturating_sub(1)) as f64;
        ensure!(
            dev_ok(count as f64 - pairs * c.density, pairs * c.density * (1.0 - c.density)),
            "{} of {} edges at density {}", count, pairs, c.density
        );
        last = count;
    }
    Ok(Obs::new(c.n > 2 && c.rounds > 1)
        .tag(!c.before.is_empty(), "network had edges")
        .tag(c.density == 0.0, "density 0")
        .tag(c.density == 1.0, "density 1")
        .tag(c.n < 2, "fewer than two nodes")
        .tag(c.seed.is_none(), "no seed")
        .tag(last > 100, "more than 100 edges"))
}

fn refusal(d: &f64) -> Check {
    let ok = catching(|| UniformGraphGenerator::new(*d, Some(1)));
    let inside = *d >= 0.0 && *d <= 1.0;
    ensure!(ok.is_ok() == inside, "density {} is {}", d, if inside { "refused" } else { "accepted" });
    Ok(Obs::new(true).tag(!inside, "outside").tag(inside, "inside"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Many {
    n: usize,
    density: f64,
    seed: u64,
    reps: usize,
    /// a new generator (next seed) for every graph instead of one for all
    fresh: bool,
}

fn law(c: &Many) -> Check {
    let (n, d) = (c.n, c.density);
    let mut graphs = vec![];
    let mut g = UniformGraphGenerator::new(d, Some(c.seed));
    let mut net = blank(n, c.seed)?;
    for i in 0..c.reps {
        if c.fresh {
            g = UniformGraphGenerator::new(d, Some(c.seed.wrapping_add(i as u64)));
        }
        g.generate_graph(&mut net);
        let e = edges(&net)?;
        let mut flat = vec![];
        for p in 0..n {
            for q in 0..n {
                if p != q {
                    flat.push(e[p][q]);
                } else {
                    ensure!(!e[p][q], "self-loop at node {}", p);
                }
            }
        }
        graphs.push(flat);
    }
    let pairs = n * (n - 1);
    let label = |i: usize| {
        let (p, r) = (i / (n - 1), i % (n - 1));
        (p, if r >= p { r + 1 } else { r })
    };
    let ok = |count: usize, total: usize, p: f64| dev_ok(count as f64 - total as f64 * p, total as f64 * p * (1.0 - p));
    let mut all = 0;
    for i in 0..pairs {
        let cnt = graphs.iter().filter(|g| g[i]).count();
        all += cnt;
        ensure!(ok(cnt, c.reps, d), "edge {:?} present in {} of {} graphs at density {}", label(i), cnt, c.reps, d);
        for j in 0..i {
            let both = graphs.iter().filter(|g| g[i] && g[j]).count();
            ensure!(ok(both, c.reps, d * d), "edges {:?} and {:?} both present in {} of {} graphs at density {}", label(i), label(j), both, c.reps, d);
        }
        // independence between consecutive graphs
        let twice = graphs.chunks(2).filter(|g| g.len() == 2 && g[0][i] && g[1][i]).count();
        ensure!(ok(twice, c.reps / 2, d * d), "edge {:?} present in both of {} of {} consecutive graphs at density {}", label(i), twice, c.reps / 2, d);
    }
    ensure!(ok(all, pairs * c.reps, d), "{} edges in {} graphs of {} pairs at density {}", all, c.reps, pairs, d);
    // aggregated pairs: reciprocal, same parent, same child
    let index = |p: usize, q: usize| p * (n - 1) + if q > p { q - 1 } else { q };
    let groups: [(&str, Vec<(usize, usize)>); 3] = [
        ("reciprocal edges", (0..n).flat_map(|p| (0..p).map(move |q| (p, q))).map(|(p, q)| (index(p, q), index(q, p))).collect()),
        // disjoint pairs of edges, so that their indicators are independent
        ("edges of the same parent", (0..n).flat_map(|p| (0..(n - 1) / 2).map(move |k| (p * (n - 1) + 2 * k, p * (n - 1) + 2 * k + 1))).collect()),
        (
            "edges of the same child",
            (0..n)
                .flat_map(|q| {
                    let ps: Vec<usize> = (0..n).filter(|p| *p != q).collect();
                    ps.chunks(2).filter(|x| x.len() == 2).map(|x| (x[0], x[1], q)).collect::<Vec<_>>()
                })
                .map(|(a, b, q)| (index(a, q), index(b, q)))
                .collect(),
        ),
    ];
    for (what, list) in groups.iter() {
        let both: usize = graphs.iter().map(|g| list.iter().filter(|(i, j)| g[*i] && g[*j]).count()).sum();
        ensure!(ok(both, list.len() * c.reps, d * d), "{}: both present {} of {} times at density {}", what, both, list.len() * c.reps, d);
    }
    Ok(Obs::new(n > 2 && d > 0.01 && d < 0.99).tag(c.fresh, "one seed per graph").tag(n > 6, "more than six nodes"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct WideMany {
    n: usize,
    density: f64,
    seed: u64,
    reps: usize,
}

/// Many nodes: every edge, every row and column, and edges at every distance in row and column order.
fn wide_law(c: &WideMany) -> Check {
    let (n, d) = (c.n, c.density);
    let mut g = UniformGraphGenerator::new(d, Some(c.seed));
    let mut net = blank(n, c.seed)?;
    let pairs = n * (n - 1);
    let mut each = vec![0usize; pairs];
    let (mut rows, mut cols) = (vec![0usize; n], vec![0usize; n]);
    let lags: Vec<usize> = (1..70).chain([127, 128, 255, 256, 511, 512, 1023, 1024]).chain([n - 1, n, n + 1, 2 * n]).filter(|k| 2 * k < pairs).collect();
    // (both present, number of pairs looked at), in row and in column order
    let mut both = vec![[(0usize, 0usize); 2]; lags.len()];
    let mut recip = 0;
    let mut last: Option<Vec<bool>> = None;
    let (mut kept, mut kept_of) = (0usize, 0usize);
    for _ in 0..c.reps {
        g.generate_graph(&mut net);
        let e = edges(&net)?;
        let mut flat = [Vec::with_capacity(pairs), Vec::with_capacity(pairs)];
        for p in 0..n {
            ensure!(!e[p][p], "self-loop at node {}", p);
            for q in 0..n {
                if p != q {
                    flat[0].push(e[p][q]);
                    flat[1].push(e[q][p]);
                    rows[p] += e[p][q] as usize;
                    cols[q] += e[p][q] as usize;
                    recip += (p < q && e[p][q] && e[q][p]) as usize;
                }
            }
        }
        for (i, x) in flat[0].iter().enumerate() {
            each[i] += *x as usize;
        }
        for (l, k) in lags.iter().enumerate() {
            for o in 0..2 {
                // blocks of k, so that no edge is in two of the pairs
                for i in (0..pairs - k).filter(|i| (i / k) % 2 == 0) {
                    both[l][o].0 += (flat[o][i] && flat[o][i + k]) as usize;
                    both[l][o].1 += 1;
                }
            }
        }
        let [now, _] = flat;
        match last.take() {
            Some(l) => {
                kept += (0..pairs).filter(|i| l[*i] && now[*i]).count();
                kept_of += pairs;
            }
            None => last = Some(now),
        }
    }
    let ok = |count: usize, total: usize, p: f64| dev_ok(count as f64 - total as f64 * p, total as f64 * p * (1.0 - p));
    for (i, x) in each.iter().enumerate() {
        let (p, r) = (i / (n - 1), i % (n - 1));
        ensure!(ok(*x, c.reps, d), "edge {} -> {} present in {} of {} graphs at density {}", p, if r >= p { r + 1 } else { r }, x, c.reps, d);
    }
    for v in 0..n {
        ensure!(ok(rows[v], (n - 1) * c.reps, d), "node {} has {} children in {} graphs over {} nodes at density {}", v, rows[v], c.reps, n, d);
        ensure!(ok(cols[v], (n - 1) * c.reps, d), "node {} has {} parents in {} graphs over {} nodes at density {}", v, cols[v], c.reps, n, d);
    }
    ensure!(ok(rows.iter().sum(), pairs * c.reps, d), "{} edges in {} graphs over {} nodes at density {}", rows.iter().sum::<usize>(), c.reps, n, d);
    ensure!(ok(recip, pairs / 2 * c.reps, d * d), "{} reciprocal edges in {} graphs over {} nodes at density {}", recip, c.reps, n, d);
    ensure!(ok(kept, kept_of, d * d), "{} of {} edges in both of consecutive graphs at density {}", kept, kept_of, d);
    for (l, k) in lags.iter().enumerate() {
        for o in 0..2 {
            let (x, total) = both[l][o];
            ensure!(ok(x, total, d * d), "{} of {} pairs of edges {} apart in {} order both present at density {}", x, total, k, ["row", "column"][o], d);
        }
    }
    Ok(Obs::new(d > 0.01 && d < 0.99).tag(n > 64, "more than 64 nodes").tag(n > 128, "more than 128 nodes"))
}

fn markov(n: &u8) -> Check {
    // a single-node Markov process has no graph to generate: the operation must not alter it
    let mut p = CtmpProcess::new();
    p.add_node(Params::DiscreteStatesContinousTime(new_node("x", 2 + *n as usize % 5))).map_err(|e| format!("{:?}", e))?;
    let mut g = UniformGraphGenerator::new(1.0, Some(*n as u64));
    let _ = catching(|| g.generate_graph(&mut p));
    ensure!(p.get_number_of_nodes() == 1 && p.get_parent_set(0).is_empty() && p.get_children_set(0).is_empty(), "the process gained edges");
    Ok(Obs::new(true))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "structure",
            "0..40 nodes with 0..30 previous edges, densities including 0 and 1 (and 1e-300..), repeated generation: no self-loop, exact at 0 and 1, previous edges replaced, edge count plausible; non-trivial: more than two nodes and repeated generation",
            6_000,
            || {
                let density = prop_oneof![2 => Just(0.0), 2 => Just(1.0), 3 => 0.0f64..1.0, 1 => Just(1e-300), 1 => Just(1.0 - 1e-16)];
                let n = prop_oneof![3 => 0usize..8, 2 => 8usize..41];
                boxed((n, density, proptest::option::weighted(0.8, seed()), proptest::collection::vec((any::<u8>(), any::<u8>()), 0..30), 1usize..4)
                    .prop_map(|(n, density, seed, before, rounds)| One { n, density, seed, before, rounds }))
            },
            structure,
        ),
        sub(
            "law",
            "500..3000 graphs over 2..10 nodes: frequency of every edge and of every pair of edges, of consecutive graphs, and aggregated reciprocal, same-parent and same-child pairs, against the density; non-trivial: more than two nodes, density between 0.01 and 0.99",
            700,
            || {
                let density = prop_oneof![3 => 0.02f64..0.98, 1 => 0.0f64..0.05, 1 => 0.95f64..1.0];
                boxed((2usize..11, density, seed(), 500usize..3000, any::<bool>())
                    .prop_map(|(n, density, seed, reps, fresh)| Many { n, density, seed, reps, fresh }))
            },
            law,
        ),
        sub(
            "densities",
            "densities inside, at and outside the ends of [0, 1], also by one unit in the last place and infinite; non-trivial: all",
            3_000,
            || {
                boxed(prop_oneof![
                    2 => 0.0f64..=1.0,
                    2 => -2.0f64..3.0,
                    1 => Just(0.0), 1 => Just(1.0), 1 => Just(-0.0),
                    1 => Just(f64::from_bits(1.0f64.to_bits() + 1)),
                    1 => Just(-f64::from_bits(1)),
                    1 => Just(1e300), 1 => Just(-1e300),
                    1 => (-300.0f64..0.0).prop_map(|e| -10f64.powf(e)),
                    1 => (-15.0f64..2.0).prop_map(|e| 1.0 + 10f64.powf(e)),
                ])
            },
            refusal,
        ),
        sub(
            "Markov process",
            "the generator applied to a single-node Markov process never gives it edges; non-trivial: all",
            200,
            || boxed(any::<u8>()),
            markov,
        ),
        sub(
            "law (many nodes)",
            "graphs over 12..170 nodes: frequency of every edge, of every node's edges, of reciprocal edges, of edges at distances 1..69 and around powers of two and the number of nodes in row and column order, and of consecutive graphs; non-trivial: density between 0.01 and 0.99",
            60,
            || {
                let density = prop_oneof![3 => 0.02f64..0.98, 1 => 0.0f64..0.05, 1 => 0.95f64..1.0];
                boxed((12usize..171, density, seed()).prop_map(|(n, density, seed)| WideMany { n, density, seed, reps: (200_000 / (n * n)).clamp(12, 400) }))
            },
            wide_law,
        ),
    ]
}
