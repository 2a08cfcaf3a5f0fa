//! Transparent homomorphic commitment scheme: a commitment *is* the coefficient
//! vector of the polynomial together with the coefficients of its blinding
//! polynomial. `MODE == 0` checks openings exactly, `MODE == 1` accepts every
//! opening (used to look at the algebraic identity of the verifier alone).
use ark_ff::{ToBytes, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use ark_std::io::{Read, Result as IoResult, Write};
use ark_std::rand::RngCore;
use std::cell::RefCell;
use zero_over_k::commitment::HomomorphicCommitment;

use crate::Fr;
pub type Poly = DensePolynomial<Fr>;

#[derive(Clone, Debug)]
pub struct CommitEv {
    pub label: String,
    pub poly: Vec<Fr>,
    pub rand: Vec<Fr>,
    pub hiding: Option<usize>,
    pub com: TCom,
}

#[derive(Clone, Debug)]
pub struct OpenEv {
    pub polys: Vec<Vec<Fr>>,
    pub rands: Vec<Vec<Fr>>,
    pub point: Fr,
}

#[derive(Clone, Debug)]
pub struct CheckEv {
    pub coms: Vec<TCom>,
    pub point: Fr,
    pub values: Vec<Fr>,
    pub ok: bool,
}

#[derive(Default)]
pub struct Log {
    pub on: bool,
    pub commits: Vec<CommitEv>,
    pub opens: Vec<OpenEv>,
    pub checks: Vec<CheckEv>,
}

thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
}

pub fn log_start() {
    LOG.with(|l| {
        *l.borrow_mut() = Log { on: true, ..Log::default() };
    })
}
pub fn log_take() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Fault injection: calls to the scheme are counted; the chosen one (or every
/// one from it on) fails, or, for a check, says no.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    At(usize),
    From(usize),
    SayNo,
}
thread_local! {
    static FAULT: std::cell::Cell<(Fault, usize)> = std::cell::Cell::new((Fault::None, 0));
}
/// Starts counting calls anew, with the given fault.
pub fn fault(f: Fault) {
    FAULT.with(|x| x.set((f, 0)))
}
/// The number of calls since `fault`.
pub fn calls() -> usize {
    FAULT.with(|x| x.get().1)
}
fn tick() -> Result<(), TErr> {
    FAULT.with(|x| {
        let (f, n) = x.get();
        x.set((f, n + 1));
        match f {
            Fault::At(k) if k == n => Err(TErr::Injected(n)),
            Fault::From(k) if k <= n => Err(TErr::Injected(n)),
            _ => Ok(()),
        }
    })
}

#[derive(Debug)]
pub enum TErr {
    Injected(usize),
    Pc(ark_poly_commit::Error),
    TooLarge,
    NoRng,
}
impl core::fmt::Display for TErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl ark_std::error::Error for TErr {}
impl From<ark_poly_commit::Error> for TErr {
    fn from(e: ark_poly_commit::Error) -> Self {
        TErr::Pc(e)
    }
}

#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct TParams {
    pub max: u64,
}
impl PCUniversalParams for TParams {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
}
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct TKey {
    pub max: u64,
    pub supported: u64,
}
impl PCCommitterKey for TKey {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.supported as usize
    }
}
impl PCVerifierKey for TKey {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.supported as usize
    }
}
#[derive(Clone, Debug)]
pub struct TPrepared;
impl PCPreparedVerifierKey<TKey> for TPrepared {
    fn prepare(_: &TKey) -> Self {
        TPrepared
    }
}
impl PCPreparedCommitment<TCom> for TPrepared {
    fn prepare(_: &TCom) -> Self {
        TPrepared
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, CanonicalSerialize, CanonicalDeserialize)]
pub struct TCom {
    pub c: Vec<Fr>,
    pub r: Vec<Fr>,
}
pub fn trim_vec(mut v: Vec<Fr>) -> Vec<Fr> {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    v
}
impl TCom {
    pub fn new(c: Vec<Fr>, r: Vec<Fr>) -> Self {
        TCom { c: trim_vec(c), r: trim_vec(r) }
    }
    pub fn of(p: &Poly) -> Self {
        Self::new(p.coeffs.clone(), vec![])
    }
}
impl ToBytes for TCom {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        (self.c.len() as u64).write(&mut w)?;
        for x in &self.c {
            x.write(&mut w)?;
        }
        (self.r.len() as u64).write(&mut w)?;
        for x in &self.r {
            x.write(&mut w)?;
        }
        Ok(())
    }
}
impl PCCommitment for TCom {
    fn empty() -> Self {
        TCom::default()
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        crate::BYTES * (self.c.len() + self.r.len())
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct TRand(pub Vec<Fr>);
impl PCRandomness for TRand {
    fn empty() -> Self {
        TRand(vec![])
    }
    fn rand<R: RngCore>(q: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        TRand((0..q + 1).map(|_| Fr::rand(rng)).collect())
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct TProof {
    pub rv: Fr,
}
impl ToBytes for TProof {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.rv.write(w)
    }
}
impl PCProof for TProof {
    fn size_in_bytes(&self) -> usize {
        crate::BYTES
    }
}

pub struct Tpc<const MODE: u8>;

pub fn ev(c: &[Fr], x: Fr) -> Fr {
    let mut acc = Fr::zero();
    for a in c.iter().rev() {
        acc = acc * x + a;
    }
    acc
}
pub fn vadd(a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    let mut out = vec![Fr::zero(); a.len().max(b.len())];
    for (o, x) in out.iter_mut().zip(a) {
        *o += x;
    }
    for (o, x) in out.iter_mut().zip(b) {
        *o += x;
    }
    trim_vec(out)
}
pub fn vscale(a: &[Fr], s: Fr) -> Vec<Fr> {
    trim_vec(a.iter().map(|x| *x * s).collect())
}

impl<const MODE: u8> PolynomialCommitment<Fr, Poly> for Tpc<MODE> {
    type UniversalParams = TParams;
    type CommitterKey = TKey;
    type VerifierKey = TKey;
    type PreparedVerifierKey = TPrepared;
    type Commitment = TCom;
    type PreparedCommitment = TPrepared;
    type Randomness = TRand;
    type Proof = TProof;
    type BatchProof = Vec<TProof>;
    type Error = TErr;

    fn setup<R: RngCore>(max_degree: usize, _: Option<usize>, _: &mut R) -> Result<TParams, TErr> {
        tick()?;
        Ok(TParams { max: max_degree as u64 })
    }

    fn trim(pp: &TParams, supported_degree: usize, _: usize, _: Option<&[usize]>) -> Result<(TKey, TKey), TErr> {
        tick()?;
        if supported_degree as u64 > pp.max {
            return Err(TErr::TooLarge);
        }
        let k = TKey { max: pp.max, supported: supported_degree as u64 };
        Ok((k.clone(), k))
    }

    fn commit<'a>(
        ck: &TKey,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<Fr, Poly>>,
        mut rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<TCom>>, Vec<TRand>), TErr>
    where
        Poly: 'a,
    {
        tick()?;
        let mut cs = vec![];
        let mut rs = vec![];
        for p in polys {
            if p.polynomial().degree() as u64 > ck.supported {
                return Err(TErr::TooLarge);
            }
            let r = match p.hiding_bound() {
                None => vec![],
                Some(h) => match rng.as_mut() {
                    None => return Err(TErr::NoRng),
                    Some(rng) => (0..h + 1).map(|_| Fr::rand(rng)).collect(),
                },
            };
            let c = TCom::new(p.polynomial().coeffs().to_vec(), r.clone());
            LOG.with(|l| {
                let mut l = l.borrow_mut();
                if l.on {
                    l.commits.push(CommitEv {
                        label: p.label().clone(),
                        poly: c.c.clone(),
                        rand: r.clone(),
                        hiding: p.hiding_bound(),
                        com: c.clone(),
                    });
                }
            });
            cs.push(LabeledCommitment::new(p.label().clone(), c, None));
            rs.push(TRand(r));
        }
        Ok((cs, rs))
    }

    fn open_individual_opening_challenges<'a>(
        ck: &TKey,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<Fr, Poly>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<TCom>>,
        point: &'a Fr,
        ch: &dyn Fn(u64) -> Fr,
        rands: impl IntoIterator<Item = &'a TRand>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<TProof, TErr>
    where
        Poly: 'a,
        TRand: 'a,
        TCom: 'a,
    {
        tick()?;
        let mut rv = Fr::zero();
        let mut evn = OpenEv { polys: vec![], rands: vec![], point: *point };
        for (i, (p, r)) in polys.into_iter().zip(rands).enumerate() {
            if p.polynomial().degree() as u64 > ck.supported {
                return Err(TErr::TooLarge);
            }
            rv += ch(i as u64) * ev(&r.0, *point);
            evn.polys.push(trim_vec(p.polynomial().coeffs().to_vec()));
            evn.rands.push(r.0.clone());
        }
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.on {
                l.opens.push(evn);
            }
        });
        Ok(TProof { rv })
    }

    fn check_individual_opening_challenges<'a>(
        _: &TKey,
        comms: impl IntoIterator<Item = &'a LabeledCommitment<TCom>>,
        point: &'a Fr,
        values: impl IntoIterator<Item = Fr>,
        proof: &TProof,
        ch: &dyn Fn(u64) -> Fr,
        _: Option<&mut dyn RngCore>,
    ) -> Result<bool, TErr>
    where
        TCom: 'a,
    {
        tick()?;
        let coms: Vec<TCom> = comms.into_iter().map(|c| c.commitment().clone()).collect();
        let values: Vec<Fr> = values.into_iter().collect();
        let mut ok = coms.len() == values.len();
        let mut rv = Fr::zero();
        for (i, (c, v)) in coms.iter().zip(values.iter()).enumerate() {
            ok &= ev(&c.c, *point) == *v;
            rv += ch(i as u64) * ev(&c.r, *point);
        }
        ok &= rv == proof.rv;
        if MODE == 1 {
            ok = true;
        }
        if FAULT.with(|x| x.get().0) == Fault::SayNo {
            ok = false;
        }
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.on {
                l.checks.push(CheckEv { coms, point: *point, values, ok });
            }
        });
        Ok(ok)
    }
}

impl<const MODE: u8> HomomorphicCommitment<Fr> for Tpc<MODE> {
    fn msm(commitments: &[TCom], scalars: &[Fr]) -> TCom {
        let mut acc = TCom::default();
        for (c, s) in commitments.iter().zip(scalars) {
            acc = Self::add(&acc, &Self::scale_com(c, *s));
        }
        acc
    }
    fn neg_com(c: &TCom) -> TCom {
        Self::scale_com(c, -Fr::from(1u64))
    }
    fn scale_com(c: &TCom, s: Fr) -> TCom {
        TCom { c: vscale(&c.c, s), r: vscale(&c.r, s) }
    }
    fn add(a: &TCom, b: &TCom) -> TCom {
        TCom { c: vadd(&a.c, &b.c), r: vadd(&a.r, &b.r) }
    }
    fn zero_comm() -> TCom {
        TCom::default()
    }
    fn is_zero(c: &TCom) -> bool {
        c.c.is_empty() && c.r.is_empty()
    }
    fn eq_cm(a: &TCom, b: &TCom) -> bool {
        a == b
    }
    fn scale_rand(r: &TRand, s: Fr) -> TRand {
        TRand(vscale(&r.0, s))
    }
    fn add_rands(a: &TRand, b: &TRand) -> TRand {
        TRand(vadd(&a.0, &b.0))
    }
    fn add_assign_rand(a: &mut TRand, b: &TRand) {
        a.0 = vadd(&a.0, &b.0)
    }
}
