//! Independent reference implementations used as oracles. Nothing here calls the library except the
//! small builders that turn a model into library objects.

use crate::fw::splitmix;
use ndarray::{Array1, Array2, Array3};
use reCTBN::params::{DiscreteStatesContinousTimeParams, Params, StateType};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::tools::{Dataset, Trajectory};
use std::collections::BTreeSet;

/// The harness's own random numbers: always expanded from a seed that is part of the case.
pub struct Rand(pub u64);

impl Rand {
    pub fn new(seed: u64) -> Rand {
        let mut s = seed ^ 0xA5A5_5A5A_1234_5678;
        splitmix(&mut s);
        Rand(s)
    }
    pub fn u64(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    /// Uniform in (0, 1).
    pub fn f(&mut self) -> f64 {
        ((self.u64() >> 12) as f64 + 0.5) / (1u64 << 52) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn exp(&mut self, rate: f64) -> f64 {
        -self.f().ln() / rate
    }
    pub fn normal(&mut self) -> f64 {
        (-2.0 * self.f().ln()).sqrt() * (2.0 * std::f64::consts::PI * self.f()).cos()
    }
}

/// Mixed-radix number of the states of `vars` (ascending), lowest variable fastest.
pub fn mixed_index(cards: &[usize], vars: &[usize], state: &[usize]) -> usize {
    let mut idx = 0;
    let mut radix = 1;
    for &v in vars {
        idx += state[v] * radix;
        radix *= cards[v];
    }
    idx
}

pub fn decode(cards: &[usize], mut idx: usize) -> Vec<usize> {
    let mut out = Vec::with_capacity(cards.len());
    for &c in cards {
        out.push(idx % c);
        idx /= c;
    }
    out
}

pub fn encode(cards: &[usize], state: &[usize]) -> usize {
    let all: Vec<usize> = (0..cards.len()).collect();
    mixed_index(cards, &all, state)
}

/// A CTBN as plain data: parents are ascending, cims[node][u][x][y].
#[derive(Clone, Debug)]
pub struct Net {
    pub cards: Vec<usize>,
    pub parents: Vec<Vec<usize>>,
    pub cims: Vec<Vec<Vec<Vec<f64>>>>,
}

impl Net {
    pub fn n(&self) -> usize {
        self.cards.len()
    }
    pub fn configs(&self, node: usize) -> usize {
        self.parents[node].iter().map(|p| self.cards[*p]).product()
    }
    pub fn joint(&self) -> usize {
        self.cards.iter().product()
    }
    pub fn u(&self, node: usize, state: &[usize]) -> usize {
        mixed_index(&self.cards, &self.parents[node], state)
    }
    pub fn row(&self, node: usize, state: &[usize]) -> &Vec<f64> {
        &self.cims[node][self.u(node, state)][state[node]]
    }
    pub fn exit(&self, node: usize, state: &[usize]) -> f64 {
        let row = self.row(node, state);
        row.iter().enumerate().filter(|(y, _)| *y != state[node]).map(|(_, q)| *q).sum()
    }
    pub fn max_exit(&self, node: usize) -> f64 {
        let mut m = 0.0f64;
        for u in &self.cims[node] {
            for (x, r) in u.iter().enumerate() {
                m = m.max(-r[x]);
            }
        }
        m
    }
    /// Mean over the rows of the summed exit rates: a typical number of events per unit of time.
    pub fn typical_rate(&self) -> f64 {
        let mut tot = 0.0;
        for v in 0..self.n() {
            let mut s = 0.0;
            let mut c = 0.0;
            for u in &self.cims[v] {
                for (x, r) in u.iter().enumerate() {
                    s += -r[x];
                    c += 1.0;
                }
            }
            tot += s / c;
        }
        tot
    }
    pub fn max_total_rate(&self) -> f64 {
        (0..self.n()).map(|v| self.max_exit(v)).sum()
    }
    pub fn cim_array(&self, node: usize) -> Array3<f64> {
        let k = self.cards[node];
        Array3::from_shape_fn((self.configs(node), k, k), |(u, x, y)| self.cims[node][u][x][y])
    }
    pub fn has_edges(&self) -> bool {
        self.parents.iter().any(|p| !p.is_empty())
    }
    pub fn has_zero_rate(&self) -> bool {
        self.cims.iter().any(|c| {
            c.iter().any(|u| u.iter().enumerate().any(|(x, r)| r.iter().enumerate().any(|(y, q)| x != y && *q == 0.0)))
        })
    }

    pub fn build_structure(&self) -> Result<CtbnNetwork, String> {
        let mut net = CtbnNetwork::new();
        for (i, c) in self.cards.iter().enumerate() {
            let idx = net
                .add_node(Params::DiscreteStatesContinousTime(new_node(&format!("n{}", i), *c)))
                .map_err(|e| format!("adding node {} failed: {:?}", i, e))?;
            if idx != i {
                return Err(format!("node {} was numbered {}", i, idx));
            }
        }
        net.initialize_adj_matrix();
        for (child, ps) in self.parents.iter().enumerate() {
            for p in ps {
                net.add_edge(*p, child);
            }
        }
        Ok(net)
    }

    pub fn build(&self) -> Result<CtbnNetwork, String> {
        let mut net = self.build_structure()?;
        for v in 0..self.n() {
            let cim = self.cim_array(v);
            match net.get_node_mut(v) {
                Params::DiscreteStatesContinousTime(p) => p
                    .set_cim(cim.clone())
                    .map_err(|e| format!("valid CIM of node {} was rejected: {:?}\n{:?}", v, e, cim))?,
            }
        }
        Ok(net)
    }

    /// Dense joint generator, joint states numbered by `encode`.
    pub fn generator(&self) -> Vec<Vec<f64>> {
        let s = self.joint();
        let mut q = vec![vec![0.0; s]; s];
        for i in 0..s {
            let x = decode(&self.cards, i);
            let mut radix = 1;
            for v in 0..self.n() {
                let row = self.row(v, &x);
                for y in 0..self.cards[v] {
                    if y != x[v] {
                        let j = i + y * radix - x[v] * radix;
                        q[i][j] = row[y];
                    }
                }
                radix *= self.cards[v];
            }
            let sum: f64 = q[i].iter().sum();
            q[i][i] = -sum;
        }
        q
    }

    /// Gillespie simulation up to `t_end` or `max_events`, independent of the library's sampler.
    pub fn simulate(&self, rng: &mut Rand, t_end: f64, max_events: usize) -> Traj {
        let mut x: Vec<usize> = self.cards.iter().map(|c| rng.below(*c)).collect();
        let mut t = 0.0;
        let mut tr = Traj { t: vec![0.0], ev: vec![x.clone()] };
        let mut end = t_end;
        for i in 0..=max_events {
            let exits: Vec<f64> = (0..self.n()).map(|v| self.exit(v, &x)).collect();
            let tot: f64 = exits.iter().sum();
            t += rng.exp(tot);
            if t >= t_end {
                break;
            }
            if i == max_events {
                end = t;
                break;
            }
            let mut w = rng.f() * tot;
            let mut v = 0;
            while v + 1 < self.n() && (w >= exits[v] || exits[v] == 0.0) {
                w -= exits[v];
                v += 1;
            }
            let row = self.row(v, &x).clone();
            let mut w = rng.f() * exits[v];
            let mut choice = x[v];
            for (y, q) in row.iter().enumerate() {
                if y != x[v] && *q > 0.0 {
                    choice = y;
                    if w < *q {
                        break;
                    }
                    w -= *q;
                }
            }
            x[v] = choice;
            tr.t.push(t);
            tr.ev.push(x.clone());
        }
        let last = x.clone();
        tr.t.push(end);
        tr.ev.push(last);
        tr
    }
}

pub fn new_node(label: &str, card: usize) -> DiscreteStatesContinousTimeParams {
    let domain: BTreeSet<String> = (0..card).map(|x| format!("s{}", x)).collect();
    DiscreteStatesContinousTimeParams::new(label.to_string(), domain)
}

pub fn node_params(p: &Params) -> &DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}

pub fn ctmp_from(cim: Array3<f64>) -> Result<CtmpProcess, String> {
    let k = cim.shape()[1];
    let mut p = new_node("ctmp", k);
    p.set_cim(cim).map_err(|e| format!("valid CIM rejected for a Markov process: {:?}", e))?;
    let mut c = CtmpProcess::new();
    c.add_node(Params::DiscreteStatesContinousTime(p)).map_err(|e| format!("{:?}", e))?;
    Ok(c)
}

pub fn st(v: &[usize]) -> NetworkProcessState {
    v.iter().map(|x| StateType::Discrete(*x)).collect()
}

pub fn unst(v: &NetworkProcessState) -> Vec<usize> {
    v.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}

/// A trajectory as plain data.
#[derive(Clone, Debug, PartialEq)]
pub struct Traj {
    pub t: Vec<f64>,
    pub ev: Vec<Vec<usize>>,
}

impl Traj {
    pub fn lib(&self, width: usize) -> Trajectory {
        let flat: Vec<usize> = self.ev.iter().flatten().cloned().collect();
        Trajectory::new(
            Array1::from_vec(self.t.clone()),
            Array2::from_shape_vec((self.ev.len(), width), flat).unwrap(),
        )
    }
    pub fn from_lib(t: &Trajectory) -> Traj {
        Traj { t: t.get_time().to_vec(), ev: t.get_events().outer_iter().map(|r| r.to_vec()).collect() }
    }
}

pub fn dataset(trajs: &[Traj], width: usize) -> Dataset {
    Dataset::new(trajs.iter().map(|t| t.lib(width)).collect())
}

pub fn from_dataset(d: &Dataset) -> Vec<Traj> {
    d.get_trajectories().iter().map(Traj::from_lib).collect()
}

/// Counts and times per configuration of `parents` (ascending).
#[derive(Clone, Debug, PartialEq)]
pub struct Stats {
    pub m: Vec<Vec<Vec<usize>>>,
    pub t: Vec<Vec<f64>>,
}

pub fn stats(cards: &[usize], trajs: &[Traj], node: usize, parents: &[usize]) -> Stats {
    let k = cards[node];
    let u: usize = parents.iter().map(|p| cards[*p]).product();
    let mut s = Stats { m: vec![vec![vec![0; k]; k]; u], t: vec![vec![0.0; k]; u] };
    for tr in trajs {
        for i in 1..tr.t.len() {
            let (a, b) = (&tr.ev[i - 1], &tr.ev[i]);
            let u = mixed_index(cards, parents, a);
            s.t[u][a[node]] += tr.t[i] - tr.t[i - 1];
            if a[node] != b[node] {
                s.m[u][a[node]][b[node]] += 1;
            }
        }
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Special functions

/// ln Gamma(x) for x > 0: recurrence to x >= 15, then the Stirling series.
pub fn ln_gamma(x: f64) -> f64 {
    assert!(x > 0.0);
    let mut shift = 0.0;
    let mut y = x;
    while y < 15.0 {
        shift -= y.ln();
        y += 1.0;
    }
    let z = 1.0 / (y * y);
    let series = (1.0 / 12.0
        - z * (1.0 / 360.0 - z * (1.0 / 1260.0 - z * (1.0 / 1680.0 - z * (1.0 / 1188.0 - z * 691.0 / 360360.0)))))
        / y;
    shift + (y - 0.5) * y.ln() - y + 0.5 * (2.0 * std::f64::consts::PI).ln() + series
}

/// Regularised lower incomplete gamma P(a, x).
pub fn gamma_p(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    let pre = (a * x.ln() - x - ln_gamma(a)).exp();
    if x < a + 1.0 {
        let mut term = 1.0 / a;
        let mut sum = term;
        let mut n = a;
        for _ in 0..100000 {
            n += 1.0;
            term *= x / n;
            sum += term;
            if term.abs() < sum.abs() * 1e-17 {
                break;
            }
        }
        (pre * sum).min(1.0)
    } else {
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        1.0 - pre * h
    }
}

pub fn chi2_cdf(x: f64, dof: f64) -> f64 {
    if x.is_infinite() {
        return 1.0;
    }
    gamma_p(dof / 2.0, x / 2.0)
}

fn beta_cf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let (qab, qap, qam) = (a + b, a + 1.0, a - 1.0);
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..200000 {
        let m = m as f64;
        let m2 = 2.0 * m;
        let aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    h
}

/// Regularised incomplete beta I_x(a, b), and its complement (each computed without cancellation).
pub fn beta_inc(a: f64, b: f64, x: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if x >= 1.0 {
        return (1.0, 0.0);
    }
    let ln_pre = ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1.0 - x).ln();
    let pre = ln_pre.exp();
    if x < (a + 1.0) / (a + b + 2.0) {
        let p = pre * beta_cf(a, b, x) / a;
        (p, 1.0 - p)
    } else {
        let q = pre * beta_cf(b, a, 1.0 - x) / b;
        (1.0 - q, q)
    }
}

/// CDF and survival function of the F distribution.
pub fn f_cdf(x: f64, d1: f64, d2: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if x.is_infinite() {
        return (1.0, 0.0);
    }
    // Two forms, so that neither argument suffers cancellation near one.
    let w = d1 * x / (d1 * x + d2);
    if w <= 0.5 {
        beta_inc(d1 / 2.0, d2 / 2.0, w)
    } else {
        let v = d2 / (d1 * x + d2);
        let (p, q) = beta_inc(d2 / 2.0, d1 / 2.0, v);
        (q, p)
    }
}

pub fn normal_cdf(z: f64) -> f64 {
    // via the incomplete gamma function: erf(x) = P(1/2, x^2)
    let p = gamma_p(0.5, z * z / 2.0);
    if z >= 0.0 {
        0.5 + 0.5 * p
    } else {
        // complement without cancellation for large |z|
        let x = z * z / 2.0;
        if x < 1.5 {
            0.5 - 0.5 * p
        } else {
            0.5 * gamma_q_cf(0.5, x)
        }
    }
}

fn gamma_q_cf(a: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let mut b = x + 1.0 - a;
    let mut c = 1.0 / tiny;
    let mut d = 1.0 / b;
    let mut h = d;
    for i in 1..100000 {
        let an = -(i as f64) * (i as f64 - a);
        b += 2.0;
        d = an * d + b;
        if d.abs() < tiny {
            d = tiny;
        }
        c = b + an / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    (a * x.ln() - x - ln_gamma(a)).exp() * h
}

// ---------------------------------------------------------------------------------------------
// Independence tests

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Equal,
    Different,
    /// Too close to the threshold (or rounding-sensitive) for this oracle to decide.
    Borderline,
}

/// F test between two rows-with-counts tables: `r` transition totals, `q` exit rates (positive).
pub fn f_test(alpha: f64, r1: &[f64], q1: &[f64], r2: &[f64], q2: &[f64]) -> Verdict {
    let mut border = false;
    for x in 0..r1.len() {
        if r1[x] == 0.0 || r2[x] == 0.0 {
            continue;
        }
        let s = q2[x] / q1[x];
        let (p, up) = f_cdf(s, r1[x], r2[x]);
        let lim = alpha / 2.0;
        let margin = 1e-10 + 1e-4 * lim;
        if p < lim - margin || up < lim - margin {
            return Verdict::Different;
        }
        // Ratios this far out lose all their digits in the argument w = d1 x / (d1 x + d2) of the
        // incomplete beta function: its library implementation may round w to 0 or 1.
        let w = r1[x] * s / (r1[x] * s + r2[x]);
        if p < lim + margin || up < lim + margin || w < 1e-11 || 1.0 - w < 1e-11 {
            border = true;
        }
    }
    if border {
        Verdict::Borderline
    } else {
        Verdict::Equal
    }
}

/// Replays of known findings judge strictly; the search tolerates exactly their signatures:
/// the F test panicking on a row without transitions, and the chi-squared test answering
/// "different" when a row or a cell has no transitions. See KNOWN_FINDINGS.
pub static STRICT_F: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static STRICT_CHI: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn tolerant(flag: &std::sync::atomic::AtomicBool) -> bool {
    !flag.load(std::sync::atomic::Ordering::SeqCst)
}

/// Is this the text of the known panic of the F test?
pub fn known_panic(text: &str) -> bool {
    tolerant(&STRICT_F) && text.contains("BadParams")
}

/// Can the F test meet a row without transitions (in whatever order it looks at the rows)?
pub fn f_panics(r1: &[f64], r2: &[f64]) -> bool {
    r1.iter().chain(r2).any(|r| *r == 0.0)
}

/// Does the chi-squared test meet 0/0 in some row or cell?
pub fn chi_spoiled(m1: &[Vec<usize>], m2: &[Vec<usize>]) -> bool {
    (0..m1.len()).any(|x| {
        let total = |m: &[usize]| m.iter().enumerate().filter(|(y, _)| *y != x).map(|(_, v)| *v).sum::<usize>();
        total(&m1[x]) == 0 || total(&m2[x]) == 0 || (0..m1.len()).any(|y| y != x && m1[x][y] + m2[x][y] == 0)
    })
}

/// Is this outcome of an F test right, or the known panic where it can occur?
pub fn f_agrees(got: &Result<bool, String>, want: Verdict, panics: bool) -> bool {
    match got {
        Ok(b) => want == Verdict::Borderline || *b == (want == Verdict::Equal),
        Err(e) => panics && known_panic(e),
    }
}

/// Is this outcome of a chi-squared test right, or the known wrong "different" where it can occur?
pub fn chi_agrees(got: bool, want: Verdict, spoiled: bool) -> bool {
    want == Verdict::Borderline || got == (want == Verdict::Equal) || (!got && spoiled && tolerant(&STRICT_CHI))
}

pub fn chi_statistic(m1: &[usize], m2: &[usize], x: usize) -> Option<f64> {
    let r: usize = m1.iter().enumerate().filter(|(y, _)| *y != x).map(|(_, v)| *v).sum();
    let s: usize = m2.iter().enumerate().filter(|(y, _)| *y != x).map(|(_, v)| *v).sum();
    if r == 0 || s == 0 {
        return None;
    }
    let (r, s) = (r as f64, s as f64);
    let mut stat = 0.0;
    for y in 0..m1.len() {
        if y == x || m1[y] + m2[y] == 0 {
            continue;
        }
        let d = (r / s).sqrt() * m2[y] as f64 - (s / r).sqrt() * m1[y] as f64;
        stat += d * d / (m1[y] + m2[y]) as f64;
    }
    Some(stat)
}

pub fn chi_test(alpha: f64, m1: &[Vec<usize>], m2: &[Vec<usize>]) -> Verdict {
    let k = m1.len();
    let mut border = false;
    for x in 0..k {
        if let Some(stat) = chi_statistic(&m1[x], &m2[x], x) {
            let p = chi2_cdf(stat, (k - 1) as f64);
            let up = 1.0 - p;
            let margin = 1e-10 + 1e-4 * alpha;
            if up < alpha - margin {
                return Verdict::Different;
            }
            if up < alpha + margin {
                border = true;
            }
        }
    }
    if border {
        Verdict::Borderline
    } else {
        Verdict::Equal
    }
}

// ---------------------------------------------------------------------------------------------
// Scores

/// (log-likelihood score, size of the summands for the tolerance)
pub fn ll_score(s: &Stats, alpha: usize, tau: f64) -> (f64, f64) {
    let u = s.m.len() as f64;
    let a = alpha as f64 / u;
    let t0 = tau / u;
    let mut sum = 0.0;
    let mut mag = 0.0;
    let mut add = |v: f64| {
        sum += v;
        mag += v.abs();
    };
    for (mu, tu) in s.m.iter().zip(s.t.iter()) {
        for (row, t) in mu.iter().zip(tu.iter()) {
            let m: usize = row.iter().sum();
            let m = m as f64;
            add(ln_gamma(a + m + 1.0));
            add((a + 1.0) * t0.ln());
            add(-ln_gamma(a + 1.0));
            add(-(a + m + 1.0) * (t0 + t).ln());
            add(ln_gamma(a) - ln_gamma(a + m));
            for y in row {
                add(ln_gamma(a + *y as f64) - ln_gamma(a));
            }
        }
    }
    (sum, mag)
}

pub fn bic_score(s: &Stats, alpha: usize, tau: f64, n_intervals: usize) -> (f64, f64) {
    let (ll, mag) = ll_score(s, alpha, tau);
    let k = s.m[0].len();
    let pen = (n_intervals as f64).ln() / 2.0 * (s.m.len() * k * (k - 1)) as f64;
    (ll - pen, mag + pen)
}

// ---------------------------------------------------------------------------------------------
// Linear algebra

pub type Mat = Vec<Vec<f64>>;

pub fn matmul(a: &Mat, b: &Mat) -> Mat {
    let n = a.len();
    let m = b[0].len();
    let mut c = vec![vec![0.0; m]; n];
    for i in 0..n {
        for k in 0..b.len() {
            let v = a[i][k];
            if v != 0.0 {
                for j in 0..m {
                    c[i][j] += v * b[k][j];
                }
            }
        }
    }
    c
}

/// Matrix exponential by scaling and squaring of a Taylor series.
pub fn expm(a: &Mat) -> Mat {
    let n = a.len();
    let norm: f64 = a.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
    let mut s = 0;
    while norm / 2f64.powi(s) > 0.25 {
        s += 1;
    }
    let scale = 2f64.powi(-s);
    let b: Mat = a.iter().map(|r| r.iter().map(|v| v * scale).collect()).collect();
    let mut res: Mat = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    let mut term = res.clone();
    for k in 1..20 {
        term = matmul(&term, &b);
        for r in term.iter_mut() {
            for v in r.iter_mut() {
                *v /= k as f64;
            }
        }
        for i in 0..n {
            for j in 0..n {
                res[i][j] += term[i][j];
            }
        }
    }
    for _ in 0..s {
        res = matmul(&res, &res);
    }
    res
}


/// |a - b| within `rel` of the larger magnitude (plus `abs`).
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Deviation bound used by all statistical checks: `dev` of a sum of bounded-by-one jumps whose
/// predictable variance is `var`. See DESIGN.md for the false-alarm computation.
pub fn dev_ok(dev: f64, var: f64) -> bool {
    dev.abs() <= 9.0 * var.sqrt() + 12.0
}
