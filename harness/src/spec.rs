//! Generated constraint systems: raw (serialisable, shrinkable) description,
//! its resolution into a concrete circuit with a satisfying assignment, and the
//! row-by-row reference semantics.
use ark_ff::{FftField, Field, One, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_std::rand::{Rng, RngCore, SeedableRng};
use proptest::prelude::*;
use rand_chacha::ChaChaRng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

use crate::runner::bx;
use crate::Fr;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Ty {
    W,
    I,
    F,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rx {
    C(u8),
    Q(u8, u8, i8),
    Neg(Box<Rx>),
    Add(Box<Rx>, Box<Rx>),
    Sub(Box<Rx>, Box<Rx>),
    Mul(Box<Rx>, Box<Rx>),
    Scale(Box<Rx>, u8),
    /// product (true) or sum of many queries
    Fold(bool, Vec<(u8, u8, i8)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    C(Fr),
    Q(Ty, usize, i32),
    Neg(Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Scale(Box<Ex>, Fr),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GateSpec {
    pub body: Rx,
    pub corr_ty: u8,
    pub corr_rot: i8,
    pub corr_scale: u8,
    pub sel: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LookupSpec {
    pub exprs: Vec<Rx>,
    pub tab_rots: Vec<i8>,
    pub share: bool,
    pub seed: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub log_n: u8,
    pub blind: u8,
    pub drop: Vec<u8>,
    pub w: u8,
    pub ni: u8,
    pub nf: u8,
    pub permuted: u64,
    pub labels: u8,
    pub gates: Vec<GateSpec>,
    pub lookups: Vec<LookupSpec>,
    pub copies: Vec<(u8, u8, u8, u8)>,
    pub deltas: u8,
    pub pool: u8,
    pub seed: u64,
    pub srs_extra: u8,
    pub maxdeg: u8,
}

/// What a family wants from the generated systems.
#[derive(Clone, Copy, Debug)]
pub struct Want {
    pub min_log: u8,
    pub max_log: u8,
    pub copy_pct: u8,
    pub lookup_pct: u8,
    pub drop_pct: u8,
    pub max_w: u8,
    pub max_gates: usize,
    pub maxdeg: u8,
    pub inst: bool,
    /// many columns, gates, lookups, long tuples or high degrees
    pub wide: bool,
}
impl Default for Want {
    fn default() -> Self {
        Want {
            min_log: 1,
            max_log: 5,
            copy_pct: 55,
            lookup_pct: 45,
            drop_pct: 25,
            max_w: 9,
            max_gates: 4,
            maxdeg: 6,
            inst: false,
            wide: false,
        }
    }
}

pub fn rot_strat() -> BoxedStrategy<i8> {
    prop_oneof![
        5 => Just(0i8),
        3 => Just(1i8),
        2 => Just(-1i8),
        2 => -4i8..=4,
        1 => any::<i8>(),
    ]
    .boxed()
}

pub fn rx_strat() -> BoxedStrategy<Rx> {
    let leaf = prop_oneof![
        8 => (prop_oneof![4=>Just(0u8),1=>Just(1u8),2=>Just(2u8)], any::<u8>(), rot_strat()).prop_map(|(t, c, r)| Rx::Q(t, c, r)),
        1 => any::<u8>().prop_map(Rx::C),
        1 => (0u8..6).prop_map(Rx::C),
    ];
    leaf.prop_recursive(4, 14, 2, |x| {
        prop_oneof![
            1 => x.clone().prop_map(|a| Rx::Neg(Box::new(a))),
            3 => (x.clone(), x.clone()).prop_map(|(a, b)| Rx::Add(Box::new(a), Box::new(b))),
            2 => (x.clone(), x.clone()).prop_map(|(a, b)| Rx::Sub(Box::new(a), Box::new(b))),
            5 => (x.clone(), x.clone()).prop_map(|(a, b)| Rx::Mul(Box::new(a), Box::new(b))),
            2 => (x, any::<u8>()).prop_map(|(a, k)| Rx::Scale(Box::new(a), k)),
        ]
    })
    .boxed()
}

fn gate_strat() -> BoxedStrategy<GateSpec> {
    (rx_strat(), 0u8..8, rot_strat(), any::<u8>(), 0u8..5)
        .prop_map(|(body, corr_ty, corr_rot, corr_scale, sel)| GateSpec { body, corr_ty, corr_rot, corr_scale, sel })
        .boxed()
}
fn lookup_strat() -> BoxedStrategy<LookupSpec> {
    (
        proptest::collection::vec(
            prop_oneof![
                2 => (Just(0u8), any::<u8>(), rot_strat()).prop_map(|(t, c, r)| Rx::Q(t, c, r)),
                3 => rx_strat()
            ],
            1..=3,
        ),
        proptest::collection::vec(rot_strat(), 3),
        proptest::bool::weighted(0.15),
        any::<u16>(),
    )
        .prop_map(|(exprs, tab_rots, share, seed)| LookupSpec { exprs, tab_rots, share, seed })
        .boxed()
}

/// rows left out of the vanishing polynomial: mostly few
fn drops() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => proptest::collection::vec(any::<u8>(), 1..4), 1 => proptest::collection::vec(any::<u8>(), 4..24)].boxed()
}
fn fold_strat(mul: bool, len: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Rx> {
    proptest::collection::vec((0u8..3, any::<u8>(), rot_strat()), len).prop_map(move |v| Rx::Fold(mul, v)).boxed()
}
fn wide_gate(max_fold: usize) -> BoxedStrategy<GateSpec> {
    let body = prop_oneof![
        2 => rx_strat(),
        2 => fold_strat(false, 1..=max_fold),
        3 => fold_strat(true, 1..=max_fold),
        1 => (fold_strat(true, 1..=max_fold), fold_strat(true, 1..=max_fold)).prop_map(|(a, b)| Rx::Sub(Box::new(a), Box::new(b))),
    ];
    (body, 0u8..8, rot_strat(), any::<u8>(), 0u8..5)
        .prop_map(|(body, corr_ty, corr_rot, corr_scale, sel)| GateSpec { body, corr_ty, corr_rot, corr_scale, sel })
        .boxed()
}
fn wide_lookup(max_tuple: usize) -> BoxedStrategy<LookupSpec> {
    (
        proptest::collection::vec(
            prop_oneof![
                4 => (prop_oneof![4=>Just(0u8),1=>Just(1u8),1=>Just(2u8)], any::<u8>(), rot_strat()).prop_map(|(t, c, r)| Rx::Q(t, c, r)),
                1 => rx_strat(),
                1 => fold_strat(false, 1..=4)
            ],
            1..=max_tuple,
        ),
        proptest::collection::vec(rot_strat(), 1..=max_tuple),
        proptest::bool::weighted(0.1),
        any::<u16>(),
    )
        .prop_map(|(exprs, tab_rots, share, seed)| LookupSpec { exprs, tab_rots, share, seed })
        .boxed()
}

/// Systems with one dimension (or all, moderately) far beyond the usual:
/// permuted columns, gates, lookups, tuple length, degree, fixed and instance
/// columns.
fn wide_strat(w: Want) -> BoxedStrategy<Spec> {
    let mut modes: Vec<(u32, u8)> = vec![(4, 1), (4, 4), (4, 5), (2, 6), (1, 8), (1, 11)];
    if w.copy_pct > 0 {
        modes.push((6, 0));
        modes.push((1, 7));
        modes.push((1, 12));
    }
    if w.lookup_pct > 0 {
        modes.push((4, 2));
        modes.push((4, 3));
        modes.push((1, 9));
        modes.push((1, 10));
    }
    let copy_pct = w.copy_pct;
    let lookup_pct = w.lookup_pct;
    let inst = w.inst;
    let max_log = w.max_log.min(3);
    let modes: Vec<_> = modes
        .into_iter()
        .map(|(k, m)| {
            // (columns, permuted share, gates, fold length, degree, lookups, tuple, instance/fixed)
            let (cols, gates, fold, deg, looks, tuple, extra) = match m {
                0 => (9..=40u8, 1..=2usize, 3usize, 2..=3u8, 1..=1usize, 2usize, 0..=2u8),
                1 => (1..=9u8, 7..=24, 4, 2..=4, 1..=1, 2, 0..=2),
                2 => (1..=9u8, 1..=2, 4, 2..=4, 3..=14, 3, 0..=2),
                3 => (1..=9u8, 1..=2, 4, 2..=4, 1..=2, 14, 0..=2),
                4 => (1..=6u8, 1..=3, 24, 8..=24, 1..=1, 2, 0..=2),
                5 => (1..=20u8, 2..=5, 20, 2..=5, 1..=2, 4, 6..=14),
                7 => (41..=64, 1..=2, 3, 2..=3, 1..=1, 2, 0..=2),
                8 => (1..=9, 25..=90, 3, 2..=3, 1..=1, 2, 0..=2),
                9 => (1..=9, 1..=2, 4, 2..=4, 15..=24, 2, 0..=2),
                10 => (1..=9, 1..=2, 4, 2..=4, 1..=1, 90, 0..=2),
                11 => (1..=9, 3..=6, 12, 2..=3, 1..=1, 2, 15..=80),
                12 => (65..=90, 1..=2, 3, 2..=3, 1..=1, 2, 0..=2),
                _ => (4..=14u8, 4..=8, 10, 4..=9, 2..=5, 5, 2..=6),
            };
            let copy_p = if m == 0 || m == 7 || m == 12 { 100 } else { copy_pct };
            let look_p = if m == 2 || m == 3 || (9..12).contains(&m) { 100 } else { lookup_pct };
            let copy = (0u8..100).prop_map(move |x| x < copy_p);
            let look = (0u8..100).prop_map(move |x| x < look_p);
            let drop_pct = w.drop_pct;
            let drop = (0u8..100).prop_map(move |x| x < drop_pct);
            let ni = if inst { (*extra.start()).max(1)..=*extra.end() } else { extra.clone() };
            let lg = 2u8..=max_log;
            let st = (
                (lg, any::<u8>(), drop, drops()),
                (cols, ni, extra, (any::<u64>(), 0u8..3), copy, 0u8..9),
                proptest::collection::vec(wide_gate(fold), gates),
                (look, proptest::collection::vec(wide_lookup(tuple), looks)),
                proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 0..24),
                (0u8..3, 0u8..4, any::<u64>(), 0u8..4, deg),
            )
                .prop_map(|(a, b, gates, lk, copies, c)| Spec {
                    log_n: a.0,
                    blind: a.1,
                    drop: if a.2 { a.3 } else { vec![] },
                    w: b.0,
                    ni: b.1,
                    nf: b.2,
                    permuted: if b.4 { if b.3 .1 > 0 { u64::MAX } else { b.3 .0 | (1 << (b.3 .0 % (b.0 as u64).min(64))) } } else { 0 },
                    labels: b.5,
                    gates,
                    lookups: if lk.0 { lk.1 } else { vec![] },
                    copies: if b.4 { copies } else { vec![] },
                    deltas: c.0,
                    pool: c.1,
                    seed: c.2,
                    srs_extra: c.3,
                    maxdeg: c.4,
                });
            (k, st.boxed())
        })
        .collect();
    proptest::strategy::Union::new_weighted(modes).boxed()
}

pub fn spec_strat(w: Want) -> BoxedStrategy<Spec> {
    if w.wide {
        return wide_strat(w);
    }
    let lg: Vec<(u32, u8)> = (w.min_log..=w.max_log)
        .map(|l| (match l { 1 => 1, 2 => 4, 3 => 6, 4 => 3, _ => 1 }, l))
        .collect();
    let lg = proptest::strategy::Union::new_weighted(lg.into_iter().map(|(k, l)| (k, Just(l).boxed())).collect::<Vec<_>>());
    let copy = (0u8..100).prop_map(move |x| x < w.copy_pct);
    let look = (0u8..100).prop_map(move |x| x < w.lookup_pct);
    let drop = (0u8..100).prop_map(move |x| x < w.drop_pct);
    (
        (lg, any::<u8>(), drop, drops()),
        (1..=w.max_w, if w.inst { 1u8..=2 } else { 0u8..=2 }, 0u8..=2, any::<u64>(), copy, 0u8..9),
        proptest::collection::vec(gate_strat(), 1..=w.max_gates),
        (look, proptest::collection::vec(lookup_strat(), 1..=2)),
        proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 0..8),
        (0u8..3, 0u8..4, any::<u64>(), 0u8..4, 2..=w.maxdeg),
    )
        .prop_map(|(a, b, gates, lk, copies, c)| Spec {
            log_n: a.0,
            blind: a.1,
            drop: if a.2 { a.3 } else { vec![] },
            w: b.0,
            ni: b.1,
            nf: b.2,
            permuted: if b.4 { b.3 | (1 << (b.3 % b.0 as u64)) } else { 0 },
            labels: b.5,
            gates,
            lookups: if lk.0 { lk.1 } else { vec![] },
            copies: if b.4 { copies } else { vec![] },
            deltas: c.0,
            pool: c.1,
            seed: c.2,
            srs_extra: c.3,
            maxdeg: c.4,
        })
        .boxed()
}

pub fn cval(k: u8) -> Fr {
    match k {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => Fr::from(2u64),
        4 => Fr::from(5u64),
        5..=24 => Fr::from(k as u64 - 2),
        25..=34 => -Fr::from(k as u64 - 23),
        // powers of two up to above the size of a machine word
        35..=74 => Fr::from(2u64).pow([2 * (k as u64 - 34)]),
        75..=84 => Fr::from(u64::MAX >> (6 * (k as u64 - 75))),
        85..=92 => Fr::from(k as u64 - 83).inverse().unwrap(),
        93 => Fr::multiplicative_generator(),
        94 => Fr::multiplicative_generator().inverse().unwrap(),
        _ => Fr::rand(&mut ChaChaRng::seed_from_u64(k as u64)),
    }
}

impl Ex {
    pub fn q(t: Ty, c: usize, r: i32) -> Ex {
        Ex::Q(t, c, r)
    }
    pub fn b(self) -> Box<Ex> {
        Box::new(self)
    }
    /// structural degree in units of columns
    pub fn deg(&self) -> usize {
        match self {
            Ex::C(_) => 0,
            Ex::Q(..) => 1,
            Ex::Neg(a) | Ex::Scale(a, _) => a.deg(),
            Ex::Add(a, b) | Ex::Sub(a, b) => a.deg().max(b.deg()),
            Ex::Mul(a, b) => a.deg() + b.deg(),
        }
    }
    pub fn eval(&self, f: &impl Fn(Ty, usize, i32) -> Fr) -> Fr {
        match self {
            Ex::C(c) => *c,
            Ex::Q(t, c, r) => f(*t, *c, *r),
            Ex::Neg(a) => -a.eval(f),
            Ex::Scale(a, k) => a.eval(f) * k,
            Ex::Add(a, b) => a.eval(f) + b.eval(f),
            Ex::Sub(a, b) => a.eval(f) - b.eval(f),
            Ex::Mul(a, b) => a.eval(f) * b.eval(f),
        }
    }
    pub fn queries(&self, out: &mut Vec<(Ty, usize, i32)>) {
        match self {
            Ex::C(_) => {}
            Ex::Q(t, c, r) => {
                if !out.contains(&(*t, *c, *r)) {
                    out.push((*t, *c, *r))
                }
            }
            Ex::Neg(a) | Ex::Scale(a, _) => a.queries(out),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                a.queries(out);
                b.queries(out);
            }
        }
    }
    pub fn map_q(&self, f: &impl Fn(Ty, usize, i32) -> (Ty, usize, i32)) -> Ex {
        match self {
            Ex::C(c) => Ex::C(*c),
            Ex::Q(t, c, r) => {
                let (t, c, r) = f(*t, *c, *r);
                Ex::Q(t, c, r)
            }
            Ex::Neg(a) => Ex::Neg(a.map_q(f).b()),
            Ex::Scale(a, k) => Ex::Scale(a.map_q(f).b(), *k),
            Ex::Add(a, b) => Ex::Add(a.map_q(f).b(), b.map_q(f).b()),
            Ex::Sub(a, b) => Ex::Sub(a.map_q(f).b(), b.map_q(f).b()),
            Ex::Mul(a, b) => Ex::Mul(a.map_q(f).b(), b.map_q(f).b()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lk {
    pub exprs: Vec<Ex>,
    pub tabs: Vec<(usize, i32)>,
}

/// A resolved constraint system.
#[derive(Clone, Debug)]
pub struct Circ {
    pub n: usize,
    pub u: usize,
    /// usable rows as given to the permutation argument (same as `u` in a well-formed system)
    pub pu: usize,
    pub missing: BTreeSet<usize>,
    /// the vanishing polynomial is given times this
    pub zh_scale: Fr,
    pub permuted: Vec<bool>,
    pub gates: Vec<Ex>,
    pub lookups: Vec<Lk>,
    /// permutation over (permuted column position, row < u)
    pub sigma: BTreeMap<(usize, usize), (usize, usize)>,
    pub deltas: Vec<Fr>,
    pub lw: Vec<String>,
    pub li: Vec<String>,
    pub lf: Vec<String>,
    pub lt: Vec<String>,
    pub srs_max: usize,
    /// per gate: the column filled in to satisfy it
    pub corr: Vec<(Ty, usize, i32)>,
    /// per gate: selector column
    pub sel: Vec<Option<usize>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Asg {
    pub w: Vec<Vec<Fr>>,
    pub i: Vec<Vec<Fr>>,
    pub f: Vec<Vec<Fr>>,
    pub t: Vec<Vec<Fr>>,
}

pub fn label(style: u8, ty: char, idx: usize) -> String {
    match style {
        0 | 1 => format!("{}{}", ty, idx),
        2 => format!("{}{:03}", ty, 999 - idx),
        3 => format!("{}{}", ty, 8 + idx),
        4 => format!("col{}", idx),
        5 => match idx {
            0 => "quotient_chunk_0".into(),
            1 => "agg_permutation_0".into(),
            2 => "lookup_a_prime_0_poly".into(),
            3 => "q_blind".into(),
            4 => "lookup_0_agg_poly".into(),
            5 => "sigma_0".into(),
            6 => "lookup_s_prime_0_poly".into(),
            _ => format!("quotient_chunk_{}", idx - 6),
        },
        6 => {
            let mut r = ChaChaRng::seed_from_u64(idx as u64 * 31 + ty as u64);
            let len = 1 + (r.next_u32() % 5) as usize;
            let mut s: String = (0..len).map(|_| char::from(33 + (r.next_u32() % 90) as u8)).collect();
            s.push_str(&format!("~{}", idx));
            s
        }
        7 => match idx {
            0 => String::new(),
            k => "é".repeat(k),
        },
        _ => format!("{}", 100 * (idx % 3) + idx),
    }
}

pub fn rng(seed: u64) -> ChaChaRng {
    ChaChaRng::seed_from_u64(seed)
}
pub fn pool_val(pool: u8, r: &mut ChaChaRng) -> Fr {
    match pool {
        0 => Fr::rand(r),
        1 => Fr::from(r.gen_range(0u64..4)),
        2 => {
            if r.gen_range(0..4) == 0 {
                Fr::rand(r)
            } else {
                Fr::zero()
            }
        }
        _ => match r.gen_range(0..4) {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::from(r.gen_range(1u64..3)),
            _ => Fr::rand(r),
        },
    }
}

pub fn omega(n: usize) -> Fr {
    GeneralEvaluationDomain::<Fr>::new(n).unwrap().element(1)
}
pub fn md(r: i32, n: usize) -> usize {
    r.rem_euclid(n as i32) as usize
}

struct Res<'a> {
    n: usize,
    cols: [usize; 3],
    canon: BTreeMap<(Ty, usize, usize), i32>,
    maxdeg: usize,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> Res<'a> {
    fn rot(&mut self, t: Ty, c: usize, r: i8) -> i32 {
        let n = self.n as i32;
        // |r| < n, sign kept; on large domains far rotations are spread out
        let r = if n > 128 && (r as i32).abs() > 16 { r as i32 * (n / 128) + r as i32 % 3 } else { r as i32 } % n;
        let m = md(r, self.n);
        *self.canon.entry((t, c, m)).or_insert(r)
    }
    fn q(&mut self, t: u8, c: u8, r: i8) -> Ex {
        let ty = match t % 3 {
            1 if self.cols[1] > 0 => Ty::I,
            2 if self.cols[2] > 0 => Ty::F,
            _ => Ty::W,
        };
        let c = c as usize % self.cols[ty as usize];
        let r = self.rot(ty, c, r);
        Ex::Q(ty, c, r)
    }
    fn ex(&mut self, x: &Rx, left: usize) -> Ex {
        match x {
            Rx::C(k) => Ex::C(cval(*k)),
            Rx::Q(t, c, r) => {
                if left == 0 {
                    Ex::C(cval(*c))
                } else {
                    self.q(*t, *c, *r)
                }
            }
            Rx::Neg(a) => Ex::Neg(self.ex(a, left).b()),
            Rx::Scale(a, k) => Ex::Scale(self.ex(a, left).b(), cval(*k)),
            Rx::Add(a, b) => Ex::Add(self.ex(a, left).b(), self.ex(b, left).b()),
            Rx::Sub(a, b) => Ex::Sub(self.ex(a, left).b(), self.ex(b, left).b()),
            Rx::Fold(mul, v) => {
                let mut acc: Option<Ex> = None;
                for (k, (t, c, r)) in v.iter().enumerate() {
                    if left == 0 || (*mul && k >= left) {
                        break;
                    }
                    let q = self.q(*t, *c, *r);
                    acc = Some(match acc {
                        None => q,
                        Some(x) if *mul => Ex::Mul(x.b(), q.b()),
                        Some(x) => Ex::Add(x.b(), q.b()),
                    });
                }
                acc.unwrap_or(Ex::C(cval(1)))
            }
            Rx::Mul(a, b) => {
                let x = self.ex(a, left);
                let d = x.deg();
                let y = self.ex(b, left.saturating_sub(d));
                Ex::Mul(x.b(), y.b())
            }
        }
    }
}

impl Spec {
    pub fn build(&self) -> (Circ, Asg) {
        let n = 1usize << self.log_n.clamp(1, 13);
        let has_lookups = !self.lookups.is_empty();
        let w0 = (self.w as usize).clamp(1, 64);
        let mut permuted: Vec<bool> = (0..w0).map(|i| self.permuted >> (i % 64) & 1 == 1).collect();
        let has_copy = permuted.iter().any(|x| *x);
        let t = self.blind as usize % (if self.blind >= 224 { n - 1 } else { n / 2 });
        let u = n - 1 - t;
        let mut missing = BTreeSet::new();
        for d in &self.drop {
            let row = if has_lookups || has_copy {
                if t == 0 {
                    continue;
                }
                u + 1 + *d as usize % t
            } else {
                *d as usize % n
            };
            if missing.len() < n / 2 {
                missing.insert(row);
            }
        }
        let mut vr = rng(self.seed);
        let pool = self.pool;
        let mut w: Vec<Vec<Fr>> = (0..w0).map(|_| (0..n).map(|_| pool_val(pool, &mut vr)).collect()).collect();
        let mut ic: Vec<Vec<Fr>> = (0..self.ni).map(|_| (0..n).map(|_| pool_val(pool, &mut vr)).collect()).collect();
        let mut fc: Vec<Vec<Fr>> = (0..self.nf).map(|_| (0..n).map(|_| pool_val(pool, &mut vr)).collect()).collect();

        // copies over permuted base columns
        let pcols: Vec<usize> = (0..w0).filter(|i| permuted[*i]).collect();
        let mut class: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut classes: Vec<Vec<(usize, usize)>> = vec![];
        if has_copy {
            for &(a, b, c, d) in &self.copies {
                let x = (pcols[a as usize % pcols.len()], b as usize % u);
                let y = (pcols[c as usize % pcols.len()], d as usize % u);
                if x == y {
                    continue;
                }
                let get = |p: (usize, usize), class: &mut BTreeMap<_, _>, classes: &mut Vec<Vec<_>>| -> usize {
                    *class.entry(p).or_insert_with(|| {
                        classes.push(vec![p]);
                        classes.len() - 1
                    })
                };
                let cx = get(x, &mut class, &mut classes);
                let cy = get(y, &mut class, &mut classes);
                if cx != cy {
                    let moved = std::mem::take(&mut classes[cy]);
                    for p in &moved {
                        class.insert(*p, cx);
                    }
                    classes[cx].extend(moved);
                }
            }
            for cl in &classes {
                for p in cl.iter().skip(1) {
                    w[p.0][p.1] = w[cl[0].0][cl[0].1];
                }
            }
        }

        // gates
        let mut res = Res {
            n,
            cols: [w0, ic.len(), fc.len()],
            canon: BTreeMap::new(),
            maxdeg: (self.maxdeg as usize).clamp(2, 32),
            _p: Default::default(),
        };
        let mut gates = vec![];
        let mut corr = vec![];
        let mut sels = vec![];
        let ngates = self.gates.len();
        for (gi, g) in self.gates.iter().enumerate() {
            res.cols = [w.len(), ic.len(), fc.len()];
            let maxdeg = res.maxdeg;
            let mut body = res.ex(&g.body, maxdeg - 1);
            let cty = match g.corr_ty {
                0..=3 => Ty::W,
                4 | 5 => Ty::F,
                _ => Ty::I,
            };
            let scale = {
                let s = cval(g.corr_scale);
                if s.is_zero() {
                    Fr::one()
                } else {
                    s
                }
            };
            let sel = g.sel >= 3;
            // the whole system needs a constraint of degree at least two
            // (three over two rows)
            let least = if n == 2 { 3 } else { 2 };
            let need2 = gi + 1 == ngates && gates.iter().all(|x: &Ex| x.deg() < least) && body.deg() + usize::from(sel) < least;
            if need2 && n == 2 {
                let q = res.q(0, g.corr_scale, g.corr_rot);
                let q2 = res.q(0, g.sel, 0);
                let q3 = res.q(2, g.sel, 1);
                body = Ex::Add(body.b(), Ex::Mul(Ex::Mul(q.b(), q2.b()).b(), q3.b()).b());
            } else if need2 {
                let q = res.q(0, g.corr_scale, g.corr_rot);
                let q2 = res.q(0, g.sel, 0);
                body = Ex::Add(body.b(), Ex::Mul(q.b(), q2.b()).b());
            }
            let selcol: Option<usize> = if sel {
                let col: Vec<Fr> = (0..n)
                    .map(|_| {
                        if g.sel == 3 {
                            Fr::from(vr.gen_range(0u64..2))
                        } else {
                            Fr::rand(&mut vr)
                        }
                    })
                    .collect();
                fc.push(col);
                Some(fc.len() - 1)
            } else {
                None
            };
            // evaluate body and fill the correction column
            let idx = match cty {
                Ty::W => w.len(),
                Ty::I => ic.len(),
                Ty::F => fc.len(),
            };
            res.cols = [usize::MAX; 3];
            let rot = res.rot(cty, idx, g.corr_rot);
            let vals: Vec<Fr> = {
                let look = |ty: Ty, c: usize, r: i32, row: usize| -> Fr {
                    let k = md(row as i32 + r, n);
                    match ty {
                        Ty::W => w[c][k],
                        Ty::I => ic[c][k],
                        Ty::F => fc[c][k],
                    }
                };
                (0..n).map(|row| body.eval(&|t, c, r| look(t, c, r, row))).collect()
            };
            let mut col = vec![Fr::zero(); n];
            let sinv = scale.inverse().unwrap();
            for row in 0..n {
                let inactive = missing.contains(&row) || selcol.map_or(false, |s| fc[s][row].is_zero());
                col[md(row as i32 + rot, n)] = if inactive { pool_val(0, &mut vr) } else { vals[row] * sinv };
            }
            match cty {
                Ty::W => {
                    w.push(col);
                    permuted.push(false)
                }
                Ty::I => ic.push(col),
                Ty::F => fc.push(col),
            }
            let mut e = Ex::Sub(body.b(), Ex::Scale(Ex::Q(cty, idx, rot).b(), scale).b());
            if let Some(s) = selcol {
                let r = res.rot(Ty::F, s, 0);
                let q = Ex::Q(Ty::F, s, r);
                e = if g.corr_scale & 1 == 1 { Ex::Mul(q.b(), e.b()) } else { Ex::Mul(e.b(), q.b()) };
            }
            gates.push(e);
            corr.push((cty, idx, rot));
            sels.push(selcol);
        }

        // lookups
        let mut tc: Vec<Vec<Fr>> = vec![];
        let mut lookups: Vec<Lk> = vec![];
        for l in &self.lookups {
            if l.share && !lookups.is_empty() {
                let p = lookups.last().unwrap().clone();
                let exprs = p.exprs.iter().map(|e| Ex::Neg(Ex::Neg(e.clone().b()).b())).collect();
                lookups.push(Lk { exprs, tabs: p.tabs });
                continue;
            }
            res.cols = [w.len(), ic.len(), fc.len()];
            let exprs: Vec<Ex> = l.exprs.iter().take(96).map(|x| res.ex(x, 3)).collect();
            let rows: Vec<Vec<Fr>> = (0..n)
                .map(|row| {
                    exprs
                        .iter()
                        .map(|e| {
                            e.eval(&|t, c, r| {
                                let k = md(row as i32 + r, n);
                                match t {
                                    Ty::W => w[c][k],
                                    Ty::I => ic[c][k],
                                    Ty::F => fc[c][k],
                                }
                            })
                        })
                        .collect()
                })
                .collect();
            let mut distinct: Vec<Vec<Fr>> = vec![];
            for r in rows.iter().take(u) {
                if !distinct.contains(r) {
                    distinct.push(r.clone());
                }
            }
            let mut lr = rng(self.seed ^ (l.seed as u64) << 20);
            let k = exprs.len();
            // fill up to u rows with duplicates or unrelated tuples, in random order
            let mut tab = distinct.clone();
            while tab.len() < u {
                match lr.gen_range(0..3) {
                    0 => tab.push(distinct[lr.gen_range(0..distinct.len())].clone()),
                    1 => tab.push((0..k).map(|_| pool_val(pool, &mut lr)).collect()),
                    _ => tab.push(vec![Fr::zero(); k]),
                }
            }
            for i in (1..tab.len()).rev() {
                let j = lr.gen_range(0..=i);
                tab.swap(i, j);
            }
            let mut tabs = vec![];
            for j in 0..k {
                let rot = l.tab_rots[j % l.tab_rots.len()] as i32 % n as i32;
                let mut col: Vec<Fr> = (0..n).map(|_| pool_val(pool, &mut lr)).collect();
                for (row, tp) in tab.iter().enumerate() {
                    col[md(row as i32 + rot, n)] = tp[j];
                }
                tc.push(col);
                tabs.push((tc.len() - 1, rot));
            }
            lookups.push(Lk { exprs, tabs });
        }

        // shuffle the witness columns
        let nw = w.len();
        let mut order: Vec<usize> = (0..nw).collect();
        let mut orr = rng(self.seed ^ 0x5555);
        for i in (1..nw).rev() {
            let j = orr.gen_range(0..=i);
            order.swap(i, j);
        }
        // order[new] = old
        let mut pos = vec![0; nw];
        for (new, old) in order.iter().enumerate() {
            pos[*old] = new;
        }
        let mv = |t: Ty, c: usize, r: i32| if t == Ty::W { (t, pos[c], r) } else { (t, c, r) };
        let gates: Vec<Ex> = gates.iter().map(|g| g.map_q(&mv)).collect();
        let lookups: Vec<Lk> = lookups
            .iter()
            .map(|l| Lk { exprs: l.exprs.iter().map(|e| e.map_q(&mv)).collect(), tabs: l.tabs.clone() })
            .collect();
        let corr = corr.into_iter().map(|(t, c, r)| mv(t, c, r)).collect();
        let wn: Vec<Vec<Fr>> = order.iter().map(|o| w[*o].clone()).collect();
        let pn: Vec<bool> = order.iter().map(|o| permuted[*o]).collect();
        let mut ppos = vec![usize::MAX; nw];
        let mut k = 0;
        for (i, p) in pn.iter().enumerate() {
            if *p {
                ppos[i] = k;
                k += 1;
            }
        }
        let mut sigma = BTreeMap::new();
        for i in 0..k {
            for r in 0..u {
                sigma.insert((i, r), (i, r));
            }
        }
        for cl in &classes {
            let m = cl.len();
            for (i, p) in cl.iter().enumerate() {
                let q = cl[(i + 1) % m];
                sigma.insert((ppos[pos[p.0]], p.1), (ppos[pos[q.0]], q.1));
            }
        }
        let deltas = deltas(self.deltas, k, self.seed);
        let circ = Circ {
            n,
            u,
            pu: u,
            missing,
            zh_scale: match (self.seed ^ (self.seed >> 32)) % 24 {
                0 => -Fr::one(),
                1 => Fr::from(2u64),
                2 => Fr::rand(&mut rng(self.seed ^ 0x2501)),
                _ => Fr::one(),
            },
            permuted: pn,
            gates,
            lookups,
            sigma,
            deltas,
            lw: (0..nw).map(|i| label(self.labels, 'w', i)).collect(),
            li: (0..ic.len()).map(|i| label(self.labels, 'i', i)).collect(),
            lf: (0..fc.len()).map(|i| label(self.labels, 'f', i)).collect(),
            lt: (0..tc.len()).map(|i| label(self.labels, 't', i)).collect(),
            srs_max: n - 1 + self.srs_extra as usize,
            corr,
            sel: sels,
        };
        (circ, Asg { w: wn, i: ic, f: fc, t: tc })
    }
}

pub fn deltas(style: u8, k: usize, seed: u64) -> Vec<Fr> {
    let g = Fr::multiplicative_generator();
    match style {
        0 => {
            let mut d = Fr::one();
            (0..k)
                .map(|_| {
                    let x = d;
                    d *= g;
                    x
                })
                .collect()
        }
        1 => {
            let mut r = rng(seed ^ 0xde17a);
            (0..k).map(|_| Fr::rand(&mut r)).collect()
        }
        _ => {
            let mut d = g;
            (0..k)
                .map(|_| {
                    let x = d;
                    d *= g;
                    x
                })
                .collect()
        }
    }
}

impl Circ {
    pub fn required(&self) -> Vec<usize> {
        (0..self.n).filter(|r| !self.missing.contains(r)).collect()
    }
    pub fn domain(&self) -> GeneralEvaluationDomain<Fr> {
        GeneralEvaluationDomain::new(self.n).unwrap()
    }
    pub fn zh(&self) -> DensePolynomial<Fr> {
        &zh_poly(self.n, &self.missing) * self.zh_scale
    }
    pub fn num_perm(&self) -> usize {
        self.permuted.iter().filter(|x| **x).count()
    }
    pub fn perm_cols(&self) -> Vec<usize> {
        (0..self.permuted.len()).filter(|i| self.permuted[*i]).collect()
    }
    pub fn sigma_evals(&self) -> Vec<Vec<Fr>> {
        let els: Vec<Fr> = self.domain().elements().collect();
        let k = self.num_perm();
        (0..k)
            .map(|j| {
                (0..self.n)
                    .map(|r| match self.sigma.get(&(j, r)) {
                        Some((a, b)) => self.deltas[*a] * els[*b],
                        None => self.deltas[j] * els[r],
                    })
                    .collect()
            })
            .collect()
    }
    pub fn q_blind(&self) -> Vec<Fr> {
        (0..self.n).map(|r| if r > self.u { Fr::one() } else { Fr::zero() }).collect()
    }
    pub fn eval_row(&self, e: &Ex, a: &Asg, row: usize) -> Fr {
        e.eval(&|t, c, r| {
            let k = md(row as i32 + r, self.n);
            match t {
                Ty::W => a.w[c][k],
                Ty::I => a.i[c][k],
                Ty::F => a.f[c][k],
            }
        })
    }
    /// (gate, row) pairs violated on rows where the gates are enforced
    pub fn gate_violations(&self, a: &Asg) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for (gi, g) in self.gates.iter().enumerate() {
            for row in self.required() {
                if !self.eval_row(g, a, row).is_zero() {
                    out.push((gi, row));
                }
            }
        }
        out
    }
    pub fn copies_ok(&self, a: &Asg) -> bool {
        let pc = self.perm_cols();
        self.sigma.iter().all(|(x, y)| a.w[pc[x.0]][x.1] == a.w[pc[y.0]][y.1])
    }
    pub fn table_row(&self, l: &Lk, a: &Asg, row: usize) -> Vec<Fr> {
        l.tabs.iter().map(|(c, r)| a.t[*c][md(row as i32 + r, self.n)]).collect()
    }
    pub fn tuple(&self, l: &Lk, a: &Asg, row: usize) -> Vec<Fr> {
        l.exprs.iter().map(|e| self.eval_row(e, a, row)).collect()
    }
    pub fn lookup_violations(&self, a: &Asg) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for (li, l) in self.lookups.iter().enumerate() {
            let tab: Vec<Vec<Fr>> = (0..self.u).map(|r| self.table_row(l, a, r)).collect();
            for row in 0..self.u {
                if !tab.contains(&self.tuple(l, a, row)) {
                    out.push((li, row));
                }
            }
        }
        out
    }
    pub fn satisfied(&self, a: &Asg) -> bool {
        self.gate_violations(a).is_empty() && self.copies_ok(a) && self.lookup_violations(a).is_empty()
    }
}

impl Circ {
    /// Makes every gate hold again on the required rows by refilling the
    /// columns the generator reserved for it.
    pub fn refill(&self, a: &mut Asg) {
        for (g, e) in self.gates.iter().enumerate() {
            let (t, c, r) = self.corr[g];
            for row in self.required() {
                let k = md(row as i32 + r, self.n);
                let set = |a: &mut Asg, v: Fr| match t {
                    Ty::W => a.w[c][k] = v,
                    Ty::I => a.i[c][k] = v,
                    Ty::F => a.f[c][k] = v,
                };
                if self.eval_row(e, a, row).is_zero() {
                    continue;
                }
                set(a, Fr::zero());
                let v0 = self.eval_row(e, a, row);
                set(a, Fr::one());
                let v1 = self.eval_row(e, a, row);
                if let Some(d) = (v0 - v1).inverse() {
                    set(a, v0 * d);
                }
            }
        }
    }
    /// Fills the usable rows of every table with the tuples looked up.
    pub fn retable(&self, a: &mut Asg) {
        for l in &self.lookups {
            let mut d: Vec<Vec<Fr>> = vec![];
            for row in 0..self.u {
                let t = self.tuple(l, a, row);
                if !d.contains(&t) {
                    d.push(t);
                }
            }
            for row in 0..self.u {
                let t = &d[row % d.len()];
                self.set_table_row(l, a, row, t);
            }
        }
    }
    pub fn set_table_row(&self, l: &Lk, a: &mut Asg, row: usize, t: &[Fr]) {
        for ((c, r), v) in l.tabs.iter().zip(t) {
            a.t[*c][md(row as i32 + r, self.n)] = *v;
        }
    }
}

pub fn zh_poly(n: usize, missing: &BTreeSet<usize>) -> DensePolynomial<Fr> {
    let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    let els: Vec<Fr> = d.elements().collect();
    if n > 256 {
        // x^n - 1, divided by (x - w) for each missing row
        let mut q = vec![Fr::zero(); n + 1];
        q[0] = -Fr::one();
        q[n] = Fr::one();
        for m in missing {
            let mut carry = Fr::zero();
            for k in (0..q.len()).rev() {
                let x = q[k] + carry * els[*m];
                q[k] = carry;
                carry = x;
            }
            assert!(carry.is_zero(), "harness: zh_poly");
            q.pop();
        }
        return DensePolynomial::from_coefficients_vec(q);
    }
    let mut p = DensePolynomial::from_coefficients_vec(vec![Fr::one()]);
    for r in 0..n {
        if !missing.contains(&r) {
            p = p.naive_mul(&DensePolynomial::from_coefficients_vec(vec![-els[r], Fr::one()]));
        }
    }
    p
}

pub fn interp(n: usize, evals: &[Fr]) -> DensePolynomial<Fr> {
    let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    DensePolynomial::from_coefficients_vec(d.ifft(evals))
}

pub fn spec_json_strat(w: Want) -> BoxedStrategy<Spec> {
    bx(spec_strat(w))
}
