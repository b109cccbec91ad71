//! C01: acceptance and rejection of conditional intensity matrices.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use ndarray::{Array2, Array3, ShapeBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use reCTBN::params::{DiscreteStatesContinousTimeParams, ParamsError, ParamsTrait};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Stack {
    k: usize,
    u: usize,
    rates: RateSpec,
    /// relative rounding noise on the diagonal, in units of 1e-13
    noise: i32,
    fortran: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Fault {
    Nan,
    PosInf,
    NegInf,
    /// a negative off-diagonal rate, row sum kept at zero, relative size 10^-e
    NegativeRate { e: i32, keep_sum: bool },
    /// diagonal zero or positive
    ZeroRow,
    PositiveDiagonal { keep_sum: bool },
    /// row sum off by 10^-e relative to the row (absolute below rates of one)
    RowSum { e: i32, negative: bool },
    /// sides (rows, columns) instead of (k, k)
    Shape { rows: usize, cols: usize },
    /// two infinite entries that cancel
    InfPair,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Bad {
    stack: Stack,
    fault: Fault,
    at: (usize, usize, usize),
}

fn stack() -> BoxedStrategy<Stack> {
    boxed(
        (card(12), 1usize..7, rate_spec(12), -20i32..=20, any::<bool>())
            .prop_map(|(k, u, rates, noise, fortran)| Stack { k, u, rates, noise, fortran }),
    )
}

impl Stack {
    fn data(&self) -> Vec<Vec<Vec<f64>>> {
        let mut rng = Rand::new(self.rates.seed);
        let mut c = gen_cim(&self.rates, self.u, self.k, &mut rng);
        for m in c.iter_mut() {
            for (x, row) in m.iter_mut().enumerate() {
                row[x] += row[x] * self.noise as f64 * 1e-13;
            }
        }
        c
    }
    fn array(&self, data: &Vec<Vec<Vec<f64>>>) -> Array3<f64> {
        let f = |(u, x, y): (usize, usize, usize)| data[u][x][y];
        if self.fortran {
            Array3::from_shape_fn((self.u, self.k, self.k).f(), f)
        } else {
            Array3::from_shape_fn((self.u, self.k, self.k), f)
        }
    }
}

fn bits_equal(a: &Array3<f64>, b: &Array3<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits())
}

struct Decorated {
    p: DiscreteStatesContinousTimeParams,
    m: Array3<usize>,
    t: Array2<f64>,
}

fn decorated(k: usize) -> Decorated {
    let mut p = new_node("the node", k);
    let m = Array3::from_shape_fn((2, k, k), |(u, x, y)| 7 * u + 3 * x + y);
    let t = Array2::from_shape_fn((2, k), |(u, x)| 0.25 * u as f64 + x as f64);
    p.set_transitions(m.clone());
    p.set_residence_time(t.clone());
    Decorated { p, m, t }
}

impl Decorated {
    fn rest_untouched(&self, k: usize) -> Result<(), String> {
        ensure!(self.p.get_label() == "the node", "label changed to {}", self.p.get_label());
        ensure!(self.p.get_reserved_space_as_parent() == k, "cardinality changed");
        ensure!(self.p.get_transitions().as_ref() == Some(&self.m), "transitions changed");
        ensure!(self.p.get_residence_time().as_ref() == Some(&self.t), "residence times changed");
        Ok(())
    }
    fn is_rejected(&self, r: Result<(), ParamsError>, what: &str) -> Result<(), String> {
        match r {
            Err(ParamsError::InvalidCIM(_)) => {}
            other => return Err(format!("{}: expected an invalid-CIM error, got {:?}", what, other)),
        }
        ensure!(self.p.get_cim().is_none(), "{}: a CIM remains after the rejection", what);
        match self.p.validate_params() {
            Err(ParamsError::ParametersNotInitialized(_)) => Ok(()),
            other => Err(format!("{}: after the rejection validation gives {:?}", what, other)),
        }
    }
    fn is_accepted(&self, r: Result<(), ParamsError>, cim: &Array3<f64>) -> Result<(), String> {
        ensure!(r.is_ok(), "valid CIM rejected: {:?}\n{:?}", r, cim);
        match self.p.get_cim() {
            None => return Err("no CIM stored after acceptance".into()),
            Some(c) => ensure!(bits_equal(c, cim), "stored CIM differs from the accepted one: {:?} / {:?}", c, cim),
        }
        ensure!(self.p.validate_params().is_ok(), "accepted CIM does not validate");
        Ok(())
    }
}

fn accept(s: &Stack) -> Check {
    let data = s.data();
    let cim = s.array(&data);
    let mut d = decorated(s.k);
    let r = d.p.set_cim(cim.clone());
    d.is_accepted(r, &cim)?;
    d.rest_untouched(s.k)?;
    Ok(Obs::new(s.k > 2 || s.u > 1)
        .tag(s.rates.scale.abs() >= 6, "scale beyond 1e6")
        .tag(matches!(s.rates.kind, RateKind::Zeros(_)), "zero rates")
        .tag(s.k > 4, "cardinality > 4"))
}

fn fault() -> BoxedStrategy<Fault> {
    boxed(prop_oneof![
        1 => Just(Fault::Nan),
        1 => Just(Fault::PosInf),
        1 => Just(Fault::NegInf),
        1 => Just(Fault::InfPair),
        4 => (0i32..10, any::<bool>()).prop_map(|(e, keep_sum)| Fault::NegativeRate { e, keep_sum }),
        1 => Just(Fault::ZeroRow),
        2 => any::<bool>().prop_map(|keep_sum| Fault::PositiveDiagonal { keep_sum }),
        3 => (-1i32..6, any::<bool>()).prop_map(|(e, negative)| Fault::RowSum { e, negative }),
        2 => (1usize..14, 1usize..14).prop_map(|(rows, cols)| Fault::Shape { rows, cols }),
    ])
}

/// The corrupted stack, or None if the fault cannot be expressed on it.
fn corrupt(b: &Bad) -> Option<Array3<f64>> {
    let s = &b.stack;
    let mut d = s.data();
    let (u, x, y) = (b.at.0 % s.u, b.at.1 % s.k, b.at.2 % s.k);
    let off = (x + 1 + y % (s.k - 1)) % s.k; // an off-diagonal column
    let size = d[u][x][x].abs().max(1.0);
    match &b.fault {
        Fault::Nan => d[u][x][y] = f64::NAN,
        Fault::PosInf => d[u][x][y] = f64::INFINITY,
        Fault::NegInf => d[u][x][y] = f64::NEG_INFINITY,
        Fault::InfPair => {
            d[u][x][x] = f64::NEG_INFINITY;
            d[u][x][off] = f64::INFINITY;
        }
        Fault::NegativeRate { e, keep_sum } => {
            let diag = d[u][x][x];
            let v = -diag.abs() * 10f64.powi(-e);
            let old = d[u][x][off];
            d[u][x][off] = v;
            if *keep_sum {
                let third = (0..s.k).find(|c| *c != x && *c != off);
                match third {
                    Some(c) => d[u][x][c] += old - v,
                    None => return None, // two states: keeping the sum would need a non-negative diagonal
                }
            }
        }
        Fault::ZeroRow => {
            for c in 0..s.k {
                d[u][x][c] = 0.0;
            }
        }
        Fault::PositiveDiagonal { keep_sum } => {
            let diag = d[u][x][x];
            d[u][x][x] = -diag;
            if *keep_sum {
                for c in 0..s.k {
                    if c != x {
                        d[u][x][c] = -d[u][x][c];
                    }
                }
            }
        }
        Fault::RowSum { e, negative } => {
            let delta = size * 10f64.powi(-e) * if *negative { -1.0 } else { 1.0 };
            if *negative {
                d[u][x][x] += delta;
            } else {
                d[u][x][off] += delta;
            }
        }
        Fault::Shape { rows, cols } => {
            if *rows == s.k && *cols == s.k {
                return None;
            }
            return Some(Array3::from_shape_fn((s.u, *rows, *cols), |(u, x, y)| {
                let w = *cols as f64 - 1.0;
                let _ = u;
                if x == y {
                    -w.max(1.0)
                } else {
                    1.0
                }
            }));
        }
    }
    Some(s.array(&d))
}

fn reject(b: &Bad) -> Check {
    let cim = match corrupt(b) {
        None => return Ok(Obs::new(false)),
        Some(c) => c,
    };
    let mut d = decorated(b.stack.k);
    let r = d.p.set_cim(cim.clone());
    d.is_rejected(r, &format!("on {:?}", cim))?;
    d.rest_untouched(b.stack.k)?;
    // the same with a valid CIM already in place
    let good = b.stack.array(&b.stack.data());
    let r = d.p.set_cim(good.clone());
    d.is_accepted(r, &good)?;
    let r = d.p.set_cim(cim.clone());
    d.is_rejected(r, &format!("over a valid CIM, on {:?}", cim))?;
    d.rest_untouched(b.stack.k)?;
    // validation alone (after an unchecked assignment) agrees
    let mut p2 = new_node("x", b.stack.k);
    p2.set_cim_unchecked(cim.clone());
    match p2.validate_params() {
        Err(ParamsError::InvalidCIM(_)) => {}
        other => return Err(format!("validation of an unchecked invalid CIM gives {:?}: {:?}", other, cim)),
    }
    let (u, x, _) = (b.at.0 % b.stack.u, b.at.1 % b.stack.k, 0);
    Ok(Obs::new(true)
        .tag(u > 0, "fault in a later slice")
        .tag(x > 0, "fault in a later row")
        .tag(matches!(b.fault, Fault::NegativeRate { .. }), "negative rate")
        .tag(matches!(b.fault, Fault::Nan | Fault::PosInf | Fault::NegInf | Fault::InfPair), "non-finite")
        .tag(matches!(b.fault, Fault::RowSum { .. }), "row sum")
        .tag(matches!(b.fault, Fault::Shape { .. }), "shape")
        .tag(b.stack.rates.scale.abs() >= 6, "scale beyond 1e6"))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Good { u: usize, rates: RateSpec },
    Bad { u: usize, rates: RateSpec, fault: Fault, at: (usize, usize, usize) },
    Stats(u8),
    Reset,
    CloneNode,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct History {
    k: usize,
    ops: Vec<Op>,
}

fn history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        4 => (1usize..4, rate_spec(9)).prop_map(|(u, rates)| Op::Good { u, rates }),
        4 => (1usize..4, rate_spec(9), fault(), (0usize..4, 0usize..12, 0usize..12))
            .prop_map(|(u, rates, fault, at)| Op::Bad { u, rates, fault, at }),
        1 => any::<u8>().prop_map(Op::Stats),
        1 => Just(Op::Reset),
        1 => Just(Op::CloneNode),
    ];
    boxed((card(8), vec(op, 1..15)).prop_map(|(k, ops)| History { k, ops }))
}

fn histories(h: &History) -> Check {
    let mut p = new_node("H", h.k);
    let mut cim: Option<Array3<f64>> = None;
    let mut m: Option<Array3<usize>> = None;
    let mut t: Option<Array2<f64>> = None;
    let (mut goods, mut bads) = (0, 0);
    for (i, op) in h.ops.iter().enumerate() {
        match op {
            Op::Good { u, rates } => {
                let s = Stack { k: h.k, u: *u, rates: rates.clone(), noise: 0, fortran: false };
                let a = s.array(&s.data());
                let r = p.set_cim(a.clone());
                ensure!(r.is_ok(), "step {}: valid CIM rejected: {:?}", i, r);
                cim = Some(a);
                goods += 1;
            }
            Op::Bad { u, rates, fault, at } => {
                let s = Stack { k: h.k, u: *u, rates: rates.clone(), noise: 0, fortran: false };
                if let Some(a) = corrupt(&Bad { stack: s, fault: fault.clone(), at: *at }) {
                    let r = p.set_cim(a.clone());
                    ensure!(matches!(r, Err(ParamsError::InvalidCIM(_))), "step {}: got {:?} for {:?}", i, r, a);
                    cim = None;
                    bads += 1;
                }
            }
            Op::Stats(s) => {
                let a = Array3::from_elem((2, h.k, h.k), *s as usize);
                let b = Array2::from_elem((2, h.k), *s as f64);
                p.set_transitions(a.clone());
                p.set_residence_time(b.clone());
                m = Some(a);
                t = Some(b);
            }
            Op::Reset => {
                p.reset_params();
                cim = None;
                m = None;
                t = None;
            }
            Op::CloneNode => {
                p = p.clone();
            }
        }
        let ok = match (p.get_cim(), &cim) {
            (None, None) => true,
            (Some(a), Some(b)) => bits_equal(a, b),
            _ => false,
        };
        ensure!(ok, "step {}: stored CIM {:?}, expected {:?}", i, p.get_cim(), cim);
        ensure!(p.get_transitions() == &m && p.get_residence_time() == &t, "step {}: statistics changed", i);
        ensure!(p.get_label() == "H" && p.get_reserved_space_as_parent() == h.k, "step {}: identity changed", i);
        match (p.validate_params(), &cim) {
            (Ok(()), Some(_)) => {}
            (Err(ParamsError::ParametersNotInitialized(_)), None) => {}
            (r, c) => return Err(format!("step {}: validation gives {:?} with CIM set = {}", i, r, c.is_some())),
        }
    }
    Ok(Obs::new(goods > 0 && bads > 0))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "accept",
            "valid stacks of matrices (cardinality 2..12, 1..6 slices, rates 1e-12..1e12, zero rates, rounding noise, both memory layouts); non-trivial: more than 2 states or more than one slice",
            150_000,
            stack,
            accept,
        ),
        sub(
            "reject",
            "a valid stack with one fault at a generated position (non-finite, negative rate, diagonal, row sum, shape); non-trivial: the fault is expressible on the stack",
            150_000,
            || boxed((stack(), fault(), (0usize..8, 0usize..12, 0usize..12)).prop_map(|(stack, fault, at)| Bad { stack, fault, at })),
            reject,
        ),
        sub(
            "history",
            "sequences of accepted and rejected assignments, statistics, resets and clones on one node; non-trivial: at least one of each outcome",
            40_000,
            history,
            histories,
        ),
    ]
}
