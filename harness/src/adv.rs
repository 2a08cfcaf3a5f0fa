//! Reference statement of the verifier's identity, and a prover written from it
//! that may depart from the honest algorithm.
use ark_ff::{FftField, Field, One, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PCRandomness, PolynomialCommitment};
use std::collections::BTreeMap;
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::multiproof::Proof as MProof;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::piop::PIOPforPolyIdentity;
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::verif_hooks::TPProof;

use crate::recfs::{self, RecFs};
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Poly};
use crate::Fr;

#[derive(Clone, Copy, Debug)]
pub struct Ch {
    pub theta: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub alpha: Fr,
    pub xi: Fr,
    pub x1: Fr,
    pub x2: Fr,
    pub x3: Fr,
    pub x4: Fr,
}
impl Ch {
    pub fn rand(seed: u64) -> Ch {
        let mut r = rng(seed ^ 0xc4a11);
        let v: Vec<Fr> = (0..9).map(|_| Fr::rand(&mut r)).collect();
        Ch::from(&v)
    }
    pub fn from(v: &[Fr]) -> Ch {
        Ch { theta: v[0], beta: v[1], gamma: v[2], alpha: v[3], xi: v[4], x1: v[5], x2: v[6], x3: v[7], x4: v[8] }
    }
    pub fn queue(&self) -> Vec<Fr> {
        vec![self.theta, self.beta, self.gamma, self.alpha, self.xi, self.x1, self.x2, self.x3, self.x4]
    }
}

/// The groups of claimed evaluations of a proof.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Part {
    W,
    F,
    T,
    Lk,
    Lz,
    Q,
    S,
    Z,
    B,
}
pub const PARTS: [Part; 9] = [Part::W, Part::F, Part::T, Part::Lk, Part::Lz, Part::Q, Part::S, Part::Z, Part::B];
pub type Slot = (Part, usize);

pub fn part<'a, PC: Pcs>(p: &'a TPProof<Fr, PC>, s: Part) -> &'a [Fr] {
    match s {
        Part::W => &p.witness_evals,
        Part::F => &p.fixed_oracle_evals,
        Part::T => &p.table_oracle_evals,
        Part::Lk => &p.lookup_evals,
        Part::Lz => &p.lookup_z_evals,
        Part::Q => &p.quotient_chunks_evals,
        Part::S => &p.permutation_oracle_evals,
        Part::Z => &p.z_evals,
        Part::B => std::slice::from_ref(&p.q_blind_eval),
    }
}
pub fn part_mut<'a, PC: Pcs>(p: &'a mut TPProof<Fr, PC>, s: Part) -> &'a mut [Fr] {
    match s {
        Part::W => &mut p.witness_evals,
        Part::F => &mut p.fixed_oracle_evals,
        Part::T => &mut p.table_oracle_evals,
        Part::Lk => &mut p.lookup_evals,
        Part::Lz => &mut p.lookup_z_evals,
        Part::Q => &mut p.quotient_chunks_evals,
        Part::S => &mut p.permutation_oracle_evals,
        Part::Z => &mut p.z_evals,
        Part::B => std::slice::from_mut(&mut p.q_blind_eval),
    }
}
pub fn slots<PC: Pcs>(p: &TPProof<Fr, PC>) -> Vec<Slot> {
    PARTS.iter().flat_map(|s| (0..part(p, *s).len()).map(move |i| (*s, i))).collect()
}

/// Where each evaluation of a proof belongs.
#[derive(Clone, Debug)]
pub struct Lay {
    pub n: usize,
    pub w: BTreeMap<(usize, usize), usize>,
    pub f: BTreeMap<(usize, usize), usize>,
    pub t: BTreeMap<(usize, usize), usize>,
    pub z: BTreeMap<(usize, usize), usize>,
    pub nz: usize,
    /// permuted columns per chunk
    pub m: usize,
    pub chunks: usize,
    pub zrots: Vec<Vec<Rotation>>,
}

fn slot_map(
    c: &Circ,
    xi: Fr,
    labels: &[String],
    qs: &ark_poly_commit::QuerySet<Fr>,
) -> BTreeMap<(usize, usize), usize> {
    let els: Vec<Fr> = c.domain().elements().collect();
    qs.iter()
        .enumerate()
        .map(|(k, (l, (_, pt)))| {
            let col = labels.iter().position(|x| x == l).unwrap();
            let r = (0..c.n).find(|r| els[*r] * xi == *pt).unwrap();
            ((col, r), k)
        })
        .collect()
}

pub fn layout<PC: Pcs>(c: &Circ, v: &VSide<PC>, xi: Fr) -> Lay {
    let els: Vec<Fr> = c.domain().elements().collect();
    let mut w = v.w.clone();
    for (o, p) in w.iter_mut().zip(&c.permuted) {
        if *p {
            o.register_rotation(Rotation::curr());
        }
    }
    let q = |o: &[WitnessVerifierOracle<Fr, PC>]| PIOPforPolyIdentity::<Fr, PC>::get_query_set(o, "xi", xi, &els);
    let wm = slot_map(c, xi, &c.lw, &q(&w));
    let fm = slot_map(c, xi, &c.lf, &PIOPforPolyIdentity::<Fr, PC>::get_query_set(&v.pre.fixed_oracles, "xi", xi, &els));
    let tm = slot_map(c, xi, &c.lt, &PIOPforPolyIdentity::<Fr, PC>::get_query_set(&v.pre.table_oracles, "xi", xi, &els));
    let idx = &v.vk.index_info;
    let k = c.num_perm();
    let (mut nz, mut m) = (0, 1);
    if k > 0 {
        nz = idx.permutation_argument.number_of_z_polys(k);
        while m < k && idx.permutation_argument.number_of_z_polys(m + 1) == 1 {
            m += 1;
        }
    }
    let mut zrots = vec![];
    let mut zs = vec![];
    let mut labels = vec![];
    for i in 0..nz {
        let mut r = vec![Rotation::curr(), Rotation::next()];
        if i + 1 < nz {
            r.push(Rotation::new(c.u, Sign::Plus));
        }
        let mut o = WitnessVerifierOracle::<Fr, PC>::new(format!("agg_permutation_{}", i), false);
        for x in &r {
            o.register_rotation(*x);
        }
        labels.push(format!("agg_permutation_{}", i));
        zs.push(o);
        zrots.push(r);
    }
    let zm = slot_map(c, xi, &labels, &q(&zs));
    Lay { n: c.n, w: wm, f: fm, t: tm, z: zm, nz, m, chunks: idx.extended_coset_domain.size() / c.n, zrots }
}

/// Values a constraint needs at one point.
pub trait Acc {
    fn q(&self, t: Ty, c: usize, r: i32) -> Fr;
    fn tab(&self, c: usize, r: i32) -> Fr;
    fn sig(&self, j: usize) -> Fr;
    fn qb(&self) -> Fr;
    /// k: 0 here, 1 next row, 2 row u further
    fn z(&self, i: usize, k: u8) -> Fr;
    fn ap(&self, l: usize, prev: bool) -> Fr;
    fn sp(&self, l: usize) -> Fr;
    fn lz(&self, l: usize, next: bool) -> Fr;
    fn x(&self) -> Fr;
    fn l0(&self) -> Fr;
    fn lu(&self) -> Fr;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tag {
    Gate(usize),
    PStart,
    PStep(usize),
    PStitch(usize),
    PEnd,
    LStart(usize),
    LStep(usize),
    LEnd(usize),
    LFirst(usize),
    LAdj(usize),
}
#[derive(Clone, Copy, Debug)]
pub struct Term {
    pub tag: Tag,
    pub exp: usize,
    pub val: Fr,
}

/// All constraints at one point, with the power of alpha that separates them.
pub fn terms(c: &Circ, lay: &Lay, ch: &Ch, a: &impl Acc) -> Vec<Term> {
    let mut out = vec![];
    let one = Fr::one();
    for (g, e) in c.gates.iter().enumerate() {
        out.push(Term { tag: Tag::Gate(g), exp: g, val: e.eval(&|t, col, r| a.q(t, col, r)) });
    }
    let k = c.gates.len();
    let zk = one - a.lu() - a.qb();
    let nz = lay.nz;
    if nz > 0 {
        let pc = c.perm_cols();
        out.push(Term { tag: Tag::PStart, exp: k, val: a.l0() * (one - a.z(0, 0)) });
        for i in 0..nz {
            let (mut l, mut r) = (a.z(i, 1), a.z(i, 0));
            for j in i * lay.m..((i + 1) * lay.m).min(pc.len()) {
                let w = a.q(Ty::W, pc[j], 0);
                l *= w + ch.beta * a.sig(j) + ch.gamma;
                r *= w + ch.beta * c.deltas[j] * a.x() + ch.gamma;
            }
            out.push(Term { tag: Tag::PStep(i), exp: k + 1 + i, val: zk * (l - r) });
        }
        for i in 0..nz - 1 {
            out.push(Term { tag: Tag::PStitch(i), exp: k + 1 + nz + i, val: a.l0() * (a.z(i + 1, 0) - a.z(i, 2)) });
        }
        let z = a.z(nz - 1, 0);
        out.push(Term { tag: Tag::PEnd, exp: k + 2 * nz, val: a.lu() * (z * z - z) });
    }
    let mut e = k + 2 * nz;
    for (i, l) in c.lookups.iter().enumerate() {
        let mut pw = one;
        let (mut av, mut sv) = (Fr::zero(), Fr::zero());
        for (x, (tc, r)) in l.exprs.iter().zip(&l.tabs) {
            av += pw * x.eval(&|t, col, r| a.q(t, col, r));
            sv += pw * a.tab(*tc, *r);
            pw *= ch.theta;
        }
        let (ap, app, sp) = (a.ap(i, false), a.ap(i, true), a.sp(i));
        let (z, zn) = (a.lz(i, false), a.lz(i, true));
        let mut push = |tag, val| {
            out.push(Term { tag, exp: e, val });
            e += 1;
        };
        push(Tag::LStart(i), a.l0() * (one - z));
        push(Tag::LStep(i), zk * (zn * (ap + ch.beta) * (sp + ch.gamma) - z * (av + ch.beta) * (sv + ch.gamma)));
        push(Tag::LEnd(i), a.lu() * (z * z - z));
        push(Tag::LFirst(i), a.l0() * (ap - sp));
        push(Tag::LAdj(i), zk * (ap - sp) * (ap - app));
    }
    out
}
pub fn combine(ts: &[Term], alpha: Fr) -> Fr {
    ts.iter().map(|t| alpha.pow([t.exp as u64]) * t.val).sum()
}

pub fn lagrange(n: usize, i: usize, x: Fr) -> Fr {
    let w = omega(n).pow([i as u64]);
    w * (x.pow([n as u64]) - Fr::one()) * (Fr::from(n as u64) * (x - w)).inverse().unwrap()
}

/// Reads the values from the claimed evaluations of a proof.
pub struct ProofAcc<'a, PC: Pcs> {
    pub c: &'a Circ,
    pub lay: &'a Lay,
    pub p: &'a TPProof<Fr, PC>,
    /// instance polynomials (coefficients)
    pub inst: &'a [Vec<Fr>],
    pub xi: Fr,
    pub l0: Fr,
    pub lu: Fr,
}
impl<'a, PC: Pcs> ProofAcc<'a, PC> {
    pub fn new(c: &'a Circ, lay: &'a Lay, p: &'a TPProof<Fr, PC>, inst: &'a [Vec<Fr>], xi: Fr) -> Self {
        ProofAcc { c, lay, p, inst, xi, l0: lagrange(c.n, 0, xi), lu: lagrange(c.n, c.pu, xi) }
    }
}
impl<'a, PC: Pcs> Acc for ProofAcc<'a, PC> {
    fn q(&self, t: Ty, c: usize, r: i32) -> Fr {
        let k = md(r, self.lay.n);
        match t {
            Ty::W => self.p.witness_evals[self.lay.w[&(c, k)]],
            Ty::F => self.p.fixed_oracle_evals[self.lay.f[&(c, k)]],
            Ty::I => ev(&self.inst[c], self.xi * omega(self.lay.n).pow([k as u64])),
        }
    }
    fn tab(&self, c: usize, r: i32) -> Fr {
        self.p.table_oracle_evals[self.lay.t[&(c, md(r, self.lay.n))]]
    }
    fn sig(&self, j: usize) -> Fr {
        self.p.permutation_oracle_evals[j]
    }
    fn qb(&self) -> Fr {
        self.p.q_blind_eval
    }
    fn z(&self, i: usize, k: u8) -> Fr {
        let r = match k {
            0 => 0,
            1 => 1,
            _ => self.c.u,
        };
        self.p.z_evals[self.lay.z[&(i, r)]]
    }
    fn ap(&self, l: usize, prev: bool) -> Fr {
        self.p.lookup_evals[3 * l + usize::from(prev)]
    }
    fn sp(&self, l: usize) -> Fr {
        self.p.lookup_evals[3 * l + 2]
    }
    fn lz(&self, l: usize, next: bool) -> Fr {
        self.p.lookup_z_evals[2 * l + usize::from(next)]
    }
    fn x(&self) -> Fr {
        self.xi
    }
    fn l0(&self) -> Fr {
        self.l0
    }
    fn lu(&self) -> Fr {
        self.lu
    }
}

/// t(xi) * z_H(xi) as claimed
pub fn t_sum<PC: Pcs>(n: usize, p: &TPProof<Fr, PC>, xi: Fr) -> Fr {
    let xn = xi.pow([n as u64]);
    let mut pw = Fr::one();
    let mut s = Fr::zero();
    for t in &p.quotient_chunks_evals {
        s += pw * t;
        pw *= xn;
    }
    s
}
pub fn inst_polys(c: &Circ, a: &Asg) -> Vec<Vec<Fr>> {
    a.i.iter().map(|v| interp(c.n, v).coeffs).collect()
}

/// Makes the identity hold by choosing a constant in place of the vanishing
/// polynomial: no message of the transcript changes.
pub fn fake_zh<PC: Pcs>(c: &Circ, lay: &Lay, p: &TPProof<Fr, PC>, inst: &[Vec<Fr>], ch: &Ch) -> Option<Poly> {
    let acc = ProofAcc::new(c, lay, p, inst, ch.xi);
    let a = combine(&terms(c, lay, ch, &acc), ch.alpha);
    let t = t_sum(c.n, p, ch.xi);
    if t.is_zero() || a.is_zero() {
        return None;
    }
    Some(DensePolynomial::from_coefficients_vec(vec![a * t.inverse().unwrap()]))
}

// ---------------------------------------------------------------- tables

/// Values of every column on n rows, or on a larger coset.
#[derive(Clone)]
pub struct Tab {
    pub len: usize,
    pub step: usize,
    pub w: Vec<Vec<Fr>>,
    pub i: Vec<Vec<Fr>>,
    pub f: Vec<Vec<Fr>>,
    pub t: Vec<Vec<Fr>>,
    pub sig: Vec<Vec<Fr>>,
    pub z: Vec<Vec<Fr>>,
    pub ap: Vec<Vec<Fr>>,
    pub sp: Vec<Vec<Fr>>,
    pub lz: Vec<Vec<Fr>>,
    pub qb: Vec<Fr>,
    pub l0: Vec<Fr>,
    pub lu: Vec<Fr>,
    pub x: Vec<Fr>,
}
impl Tab {
    pub fn rows(c: &Circ, a: &Asg, aux: &Aux) -> Tab {
        let n = c.n;
        let unit = |k: usize| (0..n).map(|r| if r == k { Fr::one() } else { Fr::zero() }).collect::<Vec<_>>();
        Tab {
            len: n,
            step: 1,
            w: a.w.clone(),
            i: a.i.clone(),
            f: a.f.clone(),
            t: a.t.clone(),
            sig: c.sigma_evals(),
            z: aux.z.clone(),
            ap: aux.ap.clone(),
            sp: aux.sp.clone(),
            lz: aux.lz.clone(),
            qb: c.q_blind(),
            l0: unit(0),
            lu: unit(c.pu),
            x: c.domain().elements().collect(),
        }
    }
    pub fn coset(&self, m: usize) -> Tab {
        let n = self.len;
        let d = GeneralEvaluationDomain::<Fr>::new(m).unwrap();
        let up = |v: &Vec<Fr>| d.coset_fft(&interp(n, v).coeffs);
        let ups = |v: &Vec<Vec<Fr>>| v.iter().map(up).collect::<Vec<_>>();
        let g = Fr::multiplicative_generator();
        Tab {
            len: m,
            step: m / n,
            w: ups(&self.w),
            i: ups(&self.i),
            f: ups(&self.f),
            t: ups(&self.t),
            sig: ups(&self.sig),
            z: ups(&self.z),
            ap: ups(&self.ap),
            sp: ups(&self.sp),
            lz: ups(&self.lz),
            qb: up(&self.qb),
            l0: up(&self.l0),
            lu: up(&self.lu),
            x: d.elements().map(|e| e * g).collect(),
        }
    }
}
pub struct TabAcc<'a> {
    pub t: &'a Tab,
    pub k: usize,
    pub u: usize,
}
impl<'a> TabAcc<'a> {
    fn at(&self, v: &[Fr], r: i32) -> Fr {
        let len = self.t.len as i64;
        v[((self.k as i64 + r as i64 * self.t.step as i64).rem_euclid(len)) as usize]
    }
}
impl<'a> Acc for TabAcc<'a> {
    fn q(&self, t: Ty, c: usize, r: i32) -> Fr {
        match t {
            Ty::W => self.at(&self.t.w[c], r),
            Ty::I => self.at(&self.t.i[c], r),
            Ty::F => self.at(&self.t.f[c], r),
        }
    }
    fn tab(&self, c: usize, r: i32) -> Fr {
        self.at(&self.t.t[c], r)
    }
    fn sig(&self, j: usize) -> Fr {
        self.t.sig[j][self.k]
    }
    fn qb(&self) -> Fr {
        self.t.qb[self.k]
    }
    fn z(&self, i: usize, k: u8) -> Fr {
        self.at(
            &self.t.z[i],
            match k {
                0 => 0,
                1 => 1,
                _ => self.u as i32,
            },
        )
    }
    fn ap(&self, l: usize, prev: bool) -> Fr {
        self.at(&self.t.ap[l], if prev { -1 } else { 0 })
    }
    fn sp(&self, l: usize) -> Fr {
        self.at(&self.t.sp[l], 0)
    }
    fn lz(&self, l: usize, next: bool) -> Fr {
        self.at(&self.t.lz[l], i32::from(next))
    }
    fn x(&self) -> Fr {
        self.t.x[self.k]
    }
    fn l0(&self) -> Fr {
        self.t.l0[self.k]
    }
    fn lu(&self) -> Fr {
        self.t.lu[self.k]
    }
}

// ---------------------------------------------------------------- aux columns

/// Which part of the argument absorbs a false statement.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Brk {
    Start,
    /// start at zero: the whole product is zero
    StartZero,
    Step(usize, usize),
    /// step to zero
    StepZero(usize, usize),
    Stitch(usize),
    StitchZero(usize),
    End,
    First,
    Adj(usize),
}

#[derive(Clone, Default, Debug)]
pub struct Aux {
    pub z: Vec<Vec<Fr>>,
    pub ap: Vec<Vec<Fr>>,
    pub sp: Vec<Vec<Fr>>,
    pub lz: Vec<Vec<Fr>>,
}

/// Aggregation columns of the permutation argument.
pub fn perm_aux(c: &Circ, a: &Asg, lay: &Lay, ch: &Ch, brk: Brk, seed: u64) -> Vec<Vec<Fr>> {
    let mut r = rng(seed ^ 0x9e11);
    let pc = c.perm_cols();
    let sig = c.sigma_evals();
    let els: Vec<Fr> = c.domain().elements().collect();
    let step = |i: usize, row: usize| -> Fr {
        let (mut num, mut den) = (Fr::one(), Fr::one());
        for j in i * lay.m..((i + 1) * lay.m).min(pc.len()) {
            let w = a.w[pc[j]][row];
            num *= w + ch.beta * c.deltas[j] * els[row] + ch.gamma;
            den *= w + ch.beta * sig[j][row] + ch.gamma;
        }
        num * den.inverse().unwrap()
    };
    let total: Fr = (0..lay.nz).map(|i| (0..c.u).map(|row| step(i, row)).product::<Fr>()).product();
    let fix = total.inverse().unwrap();
    let mut cur = match brk {
        Brk::Start => fix,
        Brk::StartZero => Fr::zero(),
        _ => Fr::one(),
    };
    let mut out = vec![];
    for i in 0..lay.nz {
        if i > 0 && brk == Brk::Stitch(i - 1) {
            cur *= fix;
        }
        if i > 0 && brk == Brk::StitchZero(i - 1) {
            cur = Fr::zero();
        }
        let mut z: Vec<Fr> = (0..c.n).map(|_| Fr::rand(&mut r)).collect();
        for row in 0..c.u {
            z[row] = cur;
            cur *= step(i, row);
            if brk == Brk::Step(i, row) {
                cur *= fix;
            }
            if brk == Brk::StepZero(i, row) {
                cur = Fr::zero();
            }
        }
        z[c.u] = cur;
        out.push(z);
    }
    out
}

pub fn compress(c: &Circ, a: &Asg, li: usize, theta: Fr) -> (Vec<Fr>, Vec<Fr>) {
    let l = &c.lookups[li];
    let f = |v: Vec<Fr>| {
        let mut pw = Fr::one();
        let mut s = Fr::zero();
        for x in v {
            s += pw * x;
            pw *= theta;
        }
        s
    };
    (0..c.n).map(|row| (f(c.tuple(l, a, row)), f(c.table_row(l, a, row)))).unzip()
}

/// (a', s', z) of one lookup. `None` when the requested break is impossible.
pub fn lookup_aux(c: &Circ, a: &Asg, li: usize, ch: &Ch, brk: Brk, seed: u64) -> Option<(Vec<Fr>, Vec<Fr>, Vec<Fr>)> {
    let mut r = rng(seed ^ 0x100c);
    let (av, sv) = compress(c, a, li, ch.theta);
    let u = c.u;
    let s_set = &sv[..u];
    // group the looked-up values
    let mut groups: Vec<(Fr, usize)> = vec![];
    for x in &av[..u] {
        match groups.iter_mut().find(|g| g.0 == *x) {
            Some(g) => g.1 += 1,
            None => groups.push((*x, 1)),
        }
    }
    let bad: Vec<Fr> = groups.iter().filter(|g| !s_set.contains(&g.0)).map(|g| g.0).collect();
    match brk {
        Brk::First => {
            if bad.len() != 1 {
                return None;
            }
            let k = groups.iter().position(|g| g.0 == bad[0]).unwrap();
            let g = groups.remove(k);
            groups.insert(0, g);
        }
        Brk::Adj(p) => {
            if bad.len() != 1 || groups.len() < 2 {
                return None;
            }
            let k = groups.iter().position(|g| g.0 == bad[0]).unwrap();
            let g = groups.remove(k);
            let at = 1 + p % groups.len();
            groups.insert(at, g);
        }
        _ => {
            // claim only values that are in the table
            let good = groups.iter().find(|g| s_set.contains(&g.0)).map(|g| g.0).unwrap_or(s_set[0]);
            let mut ng: Vec<(Fr, usize)> = vec![];
            for g in groups {
                let v = if bad.contains(&g.0) { good } else { g.0 };
                match ng.iter_mut().find(|x| x.0 == v) {
                    Some(x) => x.1 += g.1,
                    None => ng.push((v, g.1)),
                }
            }
            groups = ng;
        }
    }
    let mut ap: Vec<Fr> = (0..c.n).map(|_| Fr::rand(&mut r)).collect();
    let mut sp: Vec<Fr> = (0..c.n).map(|_| Fr::rand(&mut r)).collect();
    let mut left: Vec<Fr> = s_set.to_vec();
    let mut pend = vec![];
    let mut row = 0;
    for (v, k) in &groups {
        for j in 0..*k {
            ap[row] = *v;
            if j == 0 {
                if let Some(p) = left.iter().position(|x| x == v) {
                    sp[row] = left.remove(p);
                } else {
                    pend.push(row);
                }
            } else {
                pend.push(row);
            }
            row += 1;
        }
    }
    for p in pend {
        sp[p] = left.pop().unwrap();
    }
    if brk == Brk::First {
        // the row before the first one is not constrained
        ap[c.n - 1] = ap[0];
    }
    let step = |row: usize| {
        (av[row] + ch.beta) * (sv[row] + ch.gamma) * ((ap[row] + ch.beta) * (sp[row] + ch.gamma)).inverse().unwrap()
    };
    let total: Fr = (0..u).map(step).product();
    let fix = total.inverse().unwrap();
    let mut cur = match brk {
        Brk::Start => fix,
        Brk::StartZero => Fr::zero(),
        _ => Fr::one(),
    };
    let mut z: Vec<Fr> = (0..c.n).map(|_| Fr::rand(&mut r)).collect();
    for row in 0..u {
        z[row] = cur;
        cur *= step(row);
        if brk == Brk::Step(0, row) {
            cur *= fix;
        }
        if brk == Brk::StepZero(0, row) {
            cur = Fr::zero();
        }
    }
    z[u] = cur;
    Some((ap, sp, z))
}

/// Tags violated on some row on which the vanishing polynomial is zero.
pub fn broken(c: &Circ, a: &Asg, lay: &Lay, ch: &Ch, aux: &Aux) -> BTreeMap<Tag, Vec<usize>> {
    let t = Tab::rows(c, a, aux);
    let mut out: BTreeMap<Tag, Vec<usize>> = BTreeMap::new();
    for k in c.required() {
        for x in terms(c, lay, ch, &TabAcc { t: &t, k, u: c.u }) {
            if !x.val.is_zero() {
                out.entry(x.tag).or_default().push(k);
            }
        }
    }
    out
}

// ---------------------------------------------------------------- prover

pub fn max_units(c: &Circ, lay: &Lay) -> usize {
    let mut d = c.gates.iter().map(|g| g.deg()).max().unwrap_or(1);
    if lay.nz > 0 {
        d = d.max(lay.m + 2);
    }
    for l in &c.lookups {
        d = d.max(3 + l.exprs.iter().map(|e| e.deg()).max().unwrap().max(1));
    }
    d.max(2)
}

/// Quotient pieces; `exps` gives the exponent each term is entered with, or
/// leaves it out. A remainder is dropped.
pub fn quotient(c: &Circ, lay: &Lay, ch: &Ch, rows: &Tab, zh: &Poly, exps: &dyn Fn(&Term) -> Option<usize>) -> Vec<Vec<Fr>> {
    let n = c.n;
    let m = (max_units(c, lay) * (n - 1) + 1).next_power_of_two().max(2 * n);
    let big = rows.coset(m);
    let num: Vec<Fr> = (0..m)
        .map(|k| {
            let ts: Vec<Term> = terms(c, lay, ch, &TabAcc { t: &big, k, u: c.u })
                .into_iter()
                .filter_map(|t| exps(&t).map(|e| Term { exp: e, ..t }))
                .collect();
            combine(&ts, ch.alpha)
        })
        .collect();
    let d = GeneralEvaluationDomain::<Fr>::new(m).unwrap();
    let mut num = d.coset_ifft(&num);
    // long division, remainder dropped
    let dz = zh.degree();
    let lead = zh.coeffs[dz].inverse().unwrap();
    let mut q = vec![Fr::zero(); m.saturating_sub(dz)];
    for k in (0..q.len()).rev() {
        let co = num[k + dz] * lead;
        q[k] = co;
        if !co.is_zero() {
            for (j, z) in zh.coeffs.iter().enumerate() {
                let s = co * z;
                num[k + j] -= s;
            }
        }
    }
    q.resize(lay.chunks * n, Fr::zero());
    q.chunks(n).map(|x| x.to_vec()).collect()
}

fn dpoly(v: Vec<Fr>) -> Poly {
    DensePolynomial::from_coefficients_vec(v)
}
pub fn commit_plain<PC: Pcs>(ck: &PC::CommitterKey, ps: &[Vec<Fr>]) -> Result<Vec<PC::Commitment>, String> {
    let l: Vec<LabeledPolynomial<Fr, Poly>> =
        ps.iter().enumerate().map(|(i, p)| LabeledPolynomial::new(format!("p{}", i), dpoly(p.clone()), None, None)).collect();
    let (cs, _) = PC::commit(ck, &l, None).map_err(|e| format!("harness commit: {:?}", e))?;
    Ok(cs.iter().map(|c| c.commitment().clone()).collect())
}

/// A proof over the given columns. Challenges are those of `ch`, whatever the
/// transcript says (the verifier must be run with the same queue).
pub fn ref_prove<PC: Pcs>(
    c: &Circ,
    a: &Asg,
    aux: &Aux,
    ck: &PC::CommitterKey,
    v: &VSide<PC>,
    lay: &Lay,
    ch: &Ch,
    exps: &dyn Fn(&Term) -> Option<usize>,
    seed: u64,
) -> Result<TPProof<Fr, PC>, String> {
    let n = c.n;
    let rows = Tab::rows(c, a, aux);
    let pol = |v: &Vec<Vec<Fr>>| v.iter().map(|x| interp(n, x).coeffs).collect::<Vec<_>>();
    let (w, f, t, sig, z, ap, sp, lz) =
        (pol(&rows.w), pol(&rows.f), pol(&rows.t), pol(&rows.sig), pol(&rows.z), pol(&rows.ap), pol(&rows.sp), pol(&rows.lz));
    let qb = interp(n, &rows.qb).coeffs;
    let q = quotient(c, lay, ch, &rows, &v.zh, exps);
    let pt = |r: usize| ch.xi * omega(n).pow([r as u64]);
    let fill = |m: &BTreeMap<(usize, usize), usize>, ps: &[Vec<Fr>]| {
        let mut out = vec![Fr::zero(); m.len()];
        for ((col, r), k) in m {
            out[*k] = ev(&ps[*col], pt(*r));
        }
        out
    };
    let nl = c.lookups.len();
    let mut lk = vec![];
    let mut lke = vec![];
    let mut lze = vec![];
    for i in 0..nl {
        lk.push(ap[i].clone());
        lk.push(sp[i].clone());
        lke.extend([ev(&ap[i], ch.xi), ev(&ap[i], pt(n - 1)), ev(&sp[i], ch.xi)]);
        lze.extend([ev(&lz[i], ch.xi), ev(&lz[i], pt(1))]);
    }
    // batched opening of the true polynomials
    let mut orc: Vec<WitnessProverOracle<Fr>> = vec![];
    let mut add = |p: &Vec<Fr>, rots: Vec<Rotation>| {
        let evals = domain(n).fft(p);
        let mut o = WitnessProverOracle::new(format!("o{}", orc.len()), dpoly(p.clone()), &evals, false);
        for r in rots {
            o.register_rotation(r);
        }
        orc.push(o);
    };
    for (k, p) in w.iter().enumerate() {
        let mut rs: Vec<Rotation> = v.w[k].get_queried_rotations().iter().cloned().collect();
        if c.permuted[k] {
            rs.push(Rotation::curr());
        }
        add(p, rs);
    }
    for i in 0..nl {
        add(&ap[i], vec![Rotation::curr(), Rotation::prev()]);
        add(&sp[i], vec![Rotation::curr()]);
    }
    for i in 0..nl {
        add(&lz[i], vec![Rotation::curr(), Rotation::next()]);
    }
    for p in &q {
        add(p, vec![Rotation::curr()]);
    }
    for (i, p) in z.iter().enumerate() {
        add(p, lay.zrots[i].clone());
    }
    for (k, p) in f.iter().enumerate() {
        add(p, v.pre.fixed_oracles[k].get_queried_rotations().iter().cloned().collect());
    }
    for (k, p) in t.iter().enumerate() {
        add(p, v.pre.table_oracles[k].get_queried_rotations().iter().cloned().collect());
    }
    for p in &sig {
        add(p, vec![Rotation::curr()]);
    }
    add(&qb, vec![Rotation::curr()]);
    let refs: Vec<&dyn Instantiable<Fr>> = orc.iter().map(|o| o as &dyn Instantiable<Fr>).collect();
    let rands: Vec<PC::Randomness> = orc.iter().map(|_| PC::Randomness::empty()).collect();
    recfs::set_queue(Some(vec![ch.x1, ch.x2, ch.x3, ch.x4]));
    let mut fs = RecFs::initialize(&b"queue".to_vec());
    let mp: MProof<Fr, PC> = Multiopen::<Fr, PC, RecFs>::prove(ck, &refs, &rands, ch.xi, n, &mut fs, &mut rng(seed ^ 5))
        .map_err(|e| format!("multiopen: {:?}", e))?;
    recfs::set_queue(None);
    Ok(TPProof {
        witness_commitments: commit_plain::<PC>(ck, &w)?,
        witness_evals: fill(&lay.w, &w),
        fixed_oracle_evals: fill(&lay.f, &f),
        table_oracle_evals: fill(&lay.t, &t),
        permutation_oracle_evals: sig.iter().map(|p| ev(p, ch.xi)).collect(),
        q_blind_eval: ev(&qb, ch.xi),
        lookup_commitments: commit_plain::<PC>(ck, &lk)?,
        lookup_z_commitments: commit_plain::<PC>(ck, &lz)?,
        lookup_evals: lke,
        lookup_z_evals: lze,
        z_commitments: commit_plain::<PC>(ck, &z)?,
        z_evals: fill(&lay.z, &z),
        quotient_chunk_commitments: commit_plain::<PC>(ck, &q)?,
        quotient_chunks_evals: q.iter().map(|p| ev(p, ch.xi)).collect(),
        multiopen_proof: mp,
    })
}

/// Runs the verifier with the challenges of `ch`.
pub fn verify_queued<PC: Pcs>(v: &mut VSide<PC>, p: TPProof<Fr, PC>, ch: &Ch) -> Result<(), String> {
    recfs::set_queue(Some(ch.queue()));
    let r = crate::runner::guard(|| v.verify::<RecFs>(p));
    recfs::set_queue(None);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

// ---------------------------------------------------------------- identity probe

/// Compares the verifier's identity with the reference one on random claimed
/// evaluations, with a commitment scheme that accepts every opening.
/// Returns Err when the verifier's identity is not the reference one up to the
/// naming of harmless separating exponents.
pub fn probe(c: &Circ, a: &Asg, seed: u64, rounds: usize) -> Result<u64, String> {
    type P1 = crate::tpc::Tpc<1>;
    let sys = Sys::<P1>::new(c, a)?;
    let honest = sys.prove::<RecFs>(seed ^ 3)?;
    let inst = inst_polys(c, a);
    let mut work = 0;
    for round in 0..rounds {
        let mut r = rng(seed ^ 0x9999 ^ (round as u64) << 40);
        let mut ch = Ch::rand(seed ^ (round as u64 + 1) * 7919);
        let all_ones = round % 3 == 1;
        if all_ones {
            ch.alpha = Fr::one();
        }
        let v0 = sys.vside();
        let lay = layout(c, &v0, ch.xi);
        let mut p = cp(&honest);
        for (s, i) in slots(&p) {
            part_mut(&mut p, s)[i] = if round % 3 == 2 { pool_val(3, &mut r) } else { Fr::rand(&mut r) };
        }
        let zx = ev(&c.zh().coeffs, ch.xi);
        let lhs = {
            let acc = ProofAcc::new(c, &lay, &p, &inst, ch.xi);
            terms(c, &lay, &ch, &acc)
        };
        let want = |sh: &dyn Fn(&Term) -> usize| {
            lhs.iter().map(|t| ch.alpha.pow([sh(t) as u64]) * t.val).sum::<Fr>()
        };
        let try_with = |total: Fr, p: &TPProof<Fr, P1>| {
            let mut p = cp(p);
            p.quotient_chunks_evals[0] = Fr::zero();
            let rest = t_sum(c.n, &p, ch.xi);
            p.quotient_chunks_evals[0] = total * zx.inverse().unwrap() - rest;
            verify_queued(&mut sys.vside(), p, &ch)
        };
        work += 1;
        let got = try_with(want(&|t| t.exp), &p);
        if got.is_err() {
            if all_ones {
                return Err(format!(
                    "verifier's identity is not the sum of the constraints (claimed evaluations satisfying the reference identity at alpha = 1 refused: {})",
                    got.unwrap_err()
                ));
            }
            // other assignments of separating powers that keep the constraints apart
            let k = c.gates.len();
            let mut ok = false;
            for g0 in 0..2usize {
                for p0 in 0..2usize {
                    for l0 in 0..3usize {
                        let sh = |t: &Term| match t.tag {
                            Tag::Gate(g) => g + g0,
                            Tag::PStart | Tag::PStep(_) | Tag::PStitch(_) | Tag::PEnd => t.exp + g0 + p0,
                            _ => t.exp + g0 + p0 + l0,
                        };
                        if try_with(want(&sh), &p).is_ok() {
                            ok = true;
                        }
                    }
                }
            }
            let _ = k;
            if !ok {
                return Err(format!(
                    "verifier's identity separates the constraints differently: claimed evaluations satisfying the reference identity refused ({})",
                    got.unwrap_err()
                ));
            }
        }
        // and it is enforced
        let off = {
            let mut q = r.clone();
            Fr::rand(&mut q)
        };
        if got.is_ok() && try_with(want(&|t| t.exp) + off, &p).is_ok() {
            return Err("claimed evaluations that do not satisfy the identity were accepted".into());
        }
    }
    Ok(work)
}
