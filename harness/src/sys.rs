//! Builds prover and verifier objects of the library from a resolved circuit.
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_poly_commit::{LabeledCommitment, PolynomialCommitment};
use ark_serialize::CanonicalSerialize;
use std::sync::Mutex;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::error::Error;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::Instantiable;
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::verif_hooks::{TPProof, TurboPlonk};
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

use crate::runner::guard;
use crate::spec::*;
use crate::tpc::{Poly, Tpc};
use crate::Fr;

#[cfg(not(feature = "alt"))]
pub type Kzg = zero_over_k::commitment::KZG10<ark_bls12_381::Bls12_381>;
/// no curve has the second field as its scalar field
#[cfg(feature = "alt")]
pub type Kzg = Tpc<0>;

/// A commitment scheme the harness knows how to set up.
pub trait Pcs: HomomorphicCommitment<Fr> + 'static {
    const NAME: &'static str;
    fn srs(max: usize) -> UniversalSRS<Fr, Self>;
}
impl<const M: u8> Pcs for Tpc<M> {
    const NAME: &'static str = "tpc";
    fn srs(max: usize) -> UniversalSRS<Fr, Self> {
        Self::setup(max, None, &mut rng(0)).unwrap()
    }
}
#[cfg(not(feature = "alt"))]
static KZG_SRS: Mutex<Vec<(usize, UniversalSRS<Fr, Kzg>)>> = Mutex::new(vec![]);
#[cfg(not(feature = "alt"))]
impl Pcs for Kzg {
    const NAME: &'static str = "kzg";
    fn srs(max: usize) -> UniversalSRS<Fr, Self> {
        let mut g = KZG_SRS.lock().unwrap();
        if let Some((_, s)) = g.iter().find(|(m, _)| *m == max) {
            return s.clone();
        }
        let s = Self::setup(max, None, &mut rng(77)).unwrap();
        g.push((max, s.clone()));
        s
    }
}

pub fn rot(r: i32) -> Rotation {
    if r == 0 {
        Rotation::curr()
    } else if r > 0 {
        Rotation::new(r as usize, Sign::Plus)
    } else {
        Rotation::new((-r) as usize, Sign::Minus)
    }
}
pub fn oty(t: Ty) -> OracleType {
    match t {
        Ty::W => OracleType::Witness,
        Ty::I => OracleType::Instance,
        Ty::F => OracleType::Fixed,
    }
}
pub fn vq(t: Ty, c: usize, r: i32) -> VirtualQuery {
    VirtualQuery::new(c, rot(r), oty(t))
}
pub fn vex(e: &Ex) -> VirtualExpression<Fr> {
    match e {
        Ex::C(c) => VirtualExpression::Constant(*c),
        Ex::Q(t, c, r) => vq(*t, *c, *r).into(),
        Ex::Neg(a) => -vex(a),
        Ex::Scale(a, k) => vex(a) * *k,
        Ex::Add(a, b) => vex(a) + vex(b),
        Ex::Sub(a, b) => vex(a) - vex(b),
        Ex::Mul(a, b) => vex(a) * vex(b),
    }
}
pub fn gvo(e: &Ex) -> GenericVO<Fr> {
    let mut q = vec![];
    e.queries(&mut q);
    GenericVO::init((vex(e), q.into_iter().map(|(t, c, r)| vq(t, c, r)).collect()))
}
pub fn glvo(l: &Lk) -> GenericLookupVO<Fr> {
    let mut q = vec![];
    for e in &l.exprs {
        e.queries(&mut q);
    }
    GenericLookupVO::init((
        l.exprs.iter().map(vex).collect(),
        q.into_iter().map(|(t, c, r)| vq(t, c, r)).collect(),
        l.tabs.iter().map(|(c, r)| vq(Ty::F, *c, *r)).collect(),
    ))
}

thread_local! {
    static ARENA: std::cell::RefCell<Vec<*mut dyn LookupVirtualOracle<Fr>>> = std::cell::RefCell::new(vec![]);
}
/// Keeps a lookup alive until the end of the current case.
pub fn arena<T: LookupVirtualOracle<Fr> + 'static>(g: T) -> &'static dyn LookupVirtualOracle<Fr> {
    let p = Box::into_raw(Box::new(g));
    ARENA.with(|a| a.borrow_mut().push(p as *mut dyn LookupVirtualOracle<Fr>));
    unsafe { &*p }
}
/// Called by the runner once nothing of a case is alive any more.
pub fn arena_clear() {
    let v = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
    for p in v {
        unsafe { drop(Box::from_raw(p)) };
    }
}

pub struct PSide {
    pub w: Vec<WitnessProverOracle<Fr>>,
    pub i: Vec<InstanceProverOracle<Fr>>,
    pub f: Vec<FixedProverOracle<Fr>>,
    pub t: Vec<FixedProverOracle<Fr>>,
    pub sig: Vec<FixedProverOracle<Fr>>,
    pub qb: FixedProverOracle<Fr>,
    pub gates: Vec<GenericVO<Fr>>,
    pub lookups: Vec<&'static dyn LookupVirtualOracle<Fr>>,
}

pub fn wpo(l: &str, v: &[Fr], p: bool) -> WitnessProverOracle<Fr> {
    WitnessProverOracle::new(l, interp(v.len(), v), v, p)
}
pub fn ipo(l: &str, v: &[Fr]) -> InstanceProverOracle<Fr> {
    InstanceProverOracle::new(l, interp(v.len(), v), v)
}
pub fn fpo(l: &str, v: &[Fr]) -> FixedProverOracle<Fr> {
    FixedProverOracle::new(l, interp(v.len(), v), v)
}

pub fn pside(c: &Circ, a: &Asg) -> PSide {
    let mut w: Vec<_> = c.lw.iter().zip(&a.w).zip(&c.permuted).map(|((l, v), p)| wpo(l, v, *p)).collect();
    let mut i: Vec<_> = c.li.iter().zip(&a.i).map(|(l, v)| ipo(l, v)).collect();
    let mut f: Vec<_> = c.lf.iter().zip(&a.f).map(|(l, v)| fpo(l, v)).collect();
    let mut t: Vec<_> = c.lt.iter().zip(&a.t).map(|(l, v)| fpo(l, v)).collect();
    let sig: Vec<_> = c.sigma_evals().iter().enumerate().map(|(j, v)| fpo(&format!("sigma_{}", j), v)).collect();
    let qb = fpo("q_blind", &c.q_blind());
    let mut gates: Vec<_> = c.gates.iter().map(gvo).collect();
    for g in gates.iter_mut() {
        g.configure(&mut w, &mut i, &mut f);
    }
    let mut lookups: Vec<&'static dyn LookupVirtualOracle<Fr>> = vec![];
    for l in &c.lookups {
        let mut g = glvo(l);
        g.configure(&mut w, &mut i, &mut f, &mut t).unwrap();
        lookups.push(arena(g));
    }
    PSide { w, i, f, t, sig, qb, gates, lookups }
}

pub struct Coms<PC: Pcs> {
    pub f: Vec<PC::Commitment>,
    pub t: Vec<PC::Commitment>,
    pub sig: Vec<PC::Commitment>,
    pub qb: PC::Commitment,
}
impl<PC: Pcs> Clone for Coms<PC> {
    fn clone(&self) -> Self {
        Coms { f: self.f.clone(), t: self.t.clone(), sig: self.sig.clone(), qb: self.qb.clone() }
    }
}

pub struct Sys<PC: Pcs> {
    pub c: Circ,
    pub a: Asg,
    pub ck: PC::CommitterKey,
    pub pvk: PC::VerifierKey,
    pub ps: PSide,
    pub pk: ProverKey<'static, Fr, PC>,
    pub pp: ProverPreprocessedInput<Fr, PC>,
    pub coms: Coms<PC>,
}

pub fn commit_fixed<PC: Pcs>(ck: &PC::CommitterKey, o: &[FixedProverOracle<Fr>]) -> Result<Vec<PC::Commitment>, String> {
    let l: Vec<_> = o.iter().map(|x| x.to_labeled()).collect();
    let (cs, _) = PC::commit(ck, &l, None).map_err(|e| format!("fixed commit: {:?}", e))?;
    Ok(cs.iter().map(|c: &LabeledCommitment<PC::Commitment>| c.commitment().clone()).collect())
}

pub fn dynv(g: &[GenericVO<Fr>]) -> Vec<&dyn VirtualOracle<Fr>> {
    g.iter().map(|x| x as &dyn VirtualOracle<Fr>).collect()
}

pub fn perm_info(c: &Circ) -> PermutationInfo<Fr> {
    PermutationInfo { u: c.pu, deltas: c.deltas.clone() }
}

pub fn keys<PC: Pcs>(max: usize) -> Result<(PC::CommitterKey, PC::VerifierKey), String> {
    let srs = PC::srs(max);
    TurboPlonk::<Fr, PC, crate::recfs::RecFs>::prepare_keys(&srs).map_err(|e| format!("prepare_keys: {:?}", e))
}

impl<PC: Pcs> Sys<PC> {
    pub fn srs_deg(c: &Circ) -> usize {
        if PC::NAME == "kzg" {
            c.n + 2
        } else {
            c.srs_max
        }
    }
    pub fn new(c: &Circ, a: &Asg) -> Result<Self, String> {
        let (ck, pvk) = keys::<PC>(Self::srs_deg(c))?;
        Self::with_keys(c, a, ck, pvk)
    }
    pub fn with_keys(c: &Circ, a: &Asg, ck: PC::CommitterKey, pvk: PC::VerifierKey) -> Result<Self, String> {
        let ps = pside(c, a);
        let vk = Indexer::<Fr, PC>::index(
            &pvk,
            &dynv(&ps.gates),
            ps.lookups.clone(),
            &ps.w,
            &ps.i,
            &ps.f,
            c.domain(),
            &c.zh(),
            perm_info(c),
            c.u,
        )
        .map_err(|e| format!("index: {:?}", e))?;
        let pk = ProverKey::from_ck_and_vk(&ck, &vk);
        let pp = ProverPreprocessedInput::new(&ps.f, &ps.sig, &ps.t, &ps.qb, &vk.index_info);
        let coms = Coms {
            f: commit_fixed::<PC>(&ck, &ps.f)?,
            t: commit_fixed::<PC>(&ck, &ps.t)?,
            sig: commit_fixed::<PC>(&ck, &ps.sig)?,
            qb: commit_fixed::<PC>(&ck, std::slice::from_ref(&ps.qb))?.remove(0),
        };
        Ok(Sys { c: c.clone(), a: a.clone(), ck, pvk, ps, pk, pp, coms })
    }
    pub fn prove_raw<FS: FiatShamirRng>(&self, seed: u64) -> Result<TPProof<Fr, PC>, Error<PC::Error>> {
        let mut w = self.ps.w.clone();
        let mut i = self.ps.i.clone();
        TurboPlonk::<Fr, PC, FS>::prove(&self.pk, &self.pp, &mut w, &mut i, &dynv(&self.ps.gates), self.c.n, &mut rng(seed))
    }
    /// Err = error or panic
    pub fn prove<FS: FiatShamirRng>(&self, seed: u64) -> Result<TPProof<Fr, PC>, String> {
        match guard(|| self.prove_raw::<FS>(seed)) {
            Ok(Ok(p)) => Ok(p),
            Ok(Err(e)) => Err(format!("prove error {:?}", e)),
            Err(p) => Err(format!("prove panicked: {}", p)),
        }
    }
    pub fn vside(&self) -> VSide<PC> {
        VSide::new(&self.c, &self.a.i, &self.coms, &self.pvk)
    }
    pub fn verify<FS: FiatShamirRng>(&self, p: TPProof<Fr, PC>) -> Result<(), String> {
        let mut v = self.vside();
        match guard(|| v.verify::<FS>(p)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("verify error {:?}", e)),
            Err(p) => Err(format!("verify panicked: {}", p)),
        }
    }
}

/// Verifier-side objects, made fresh from the statement.
pub struct VSide<PC: Pcs> {
    pub w: Vec<WitnessVerifierOracle<Fr, PC>>,
    pub i: Vec<InstanceVerifierOracle<Fr>>,
    pub pre: VerifierPreprocessedInput<Fr, PC>,
    pub gates: Vec<GenericVO<Fr>>,
    pub vk: VerifierKey<'static, Fr, PC>,
    pub n: usize,
    pub zh: Poly,
}

impl<PC: Pcs> VSide<PC> {
    pub fn new(c: &Circ, inst: &[Vec<Fr>], coms: &Coms<PC>, pvk: &PC::VerifierKey) -> Self {
        Self::try_new(c, inst, coms, pvk).expect("verifier side index")
    }
    pub fn try_new(c: &Circ, inst: &[Vec<Fr>], coms: &Coms<PC>, pvk: &PC::VerifierKey) -> Result<Self, String> {
        let mut w: Vec<_> = c.lw.iter().zip(&c.permuted).map(|(l, p)| WitnessVerifierOracle::new(l.clone(), *p)).collect();
        let mut i: Vec<_> = c.li.iter().zip(inst).map(|(l, v)| InstanceVerifierOracle::new(l.clone(), interp(c.n, v))).collect();
        let mut f: Vec<FixedVerifierOracle<Fr, PC>> =
            c.lf.iter().zip(&coms.f).map(|(l, x)| FixedVerifierOracle::new(l.clone(), Some(x.clone()))).collect();
        let mut t: Vec<FixedVerifierOracle<Fr, PC>> =
            c.lt.iter().zip(&coms.t).map(|(l, x)| FixedVerifierOracle::new(l.clone(), Some(x.clone()))).collect();
        let sig: Vec<FixedVerifierOracle<Fr, PC>> = coms
            .sig
            .iter()
            .enumerate()
            .map(|(j, x)| FixedVerifierOracle::new(format!("sigma_{}", j), Some(x.clone())))
            .collect();
        let qb = FixedVerifierOracle::new("q_blind", Some(coms.qb.clone()));
        let mut gates: Vec<_> = c.gates.iter().map(gvo).collect();
        for g in gates.iter_mut() {
            g.configure(&mut w, &mut i, &mut f);
        }
        let mut lookups: Vec<&'static dyn LookupVirtualOracle<Fr>> = vec![];
        for l in &c.lookups {
            let mut g = glvo(l);
            g.configure(&mut w, &mut i, &mut f, &mut t).map_err(|e| format!("configure: {:?}", e))?;
            lookups.push(arena(g));
        }
        let vk = Indexer::<Fr, PC>::index(
            pvk,
            &dynv(&gates),
            lookups,
            &w,
            &i,
            &f,
            c.domain(),
            &c.zh(),
            perm_info(c),
            c.u,
        )
        .map_err(|e| format!("index: {:?}", e))?;
        Ok(VSide { w, i, pre: VerifierPreprocessedInput::new(f, t, sig, qb), gates, vk, n: c.n, zh: c.zh() })
    }
    pub fn verify<FS: FiatShamirRng>(&mut self, p: TPProof<Fr, PC>) -> Result<(), Error<PC::Error>> {
        let d: Vec<&dyn VirtualOracle<Fr>> = self.gates.iter().map(|x| x as &dyn VirtualOracle<Fr>).collect();
        TurboPlonk::<Fr, PC, FS>::verify(&self.vk, &mut self.pre, p, &mut self.w, &mut self.i, &d, self.n, &self.zh)
    }
}

pub fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize(&mut b).unwrap();
    b
}
pub fn domain(n: usize) -> GeneralEvaluationDomain<Fr> {
    GeneralEvaluationDomain::new(n).unwrap()
}

/// A copy of a proof (`Clone` of the proof type asks the scheme to be `Clone`).
pub fn cp<PC: Pcs>(p: &TPProof<Fr, PC>) -> TPProof<Fr, PC> {
    let m = &p.multiopen_proof;
    TPProof {
        witness_commitments: p.witness_commitments.clone(),
        witness_evals: p.witness_evals.clone(),
        fixed_oracle_evals: p.fixed_oracle_evals.clone(),
        table_oracle_evals: p.table_oracle_evals.clone(),
        permutation_oracle_evals: p.permutation_oracle_evals.clone(),
        q_blind_eval: p.q_blind_eval,
        lookup_commitments: p.lookup_commitments.clone(),
        lookup_z_commitments: p.lookup_z_commitments.clone(),
        lookup_evals: p.lookup_evals.clone(),
        lookup_z_evals: p.lookup_z_evals.clone(),
        z_commitments: p.z_commitments.clone(),
        z_evals: p.z_evals.clone(),
        quotient_chunk_commitments: p.quotient_chunk_commitments.clone(),
        quotient_chunks_evals: p.quotient_chunks_evals.clone(),
        multiopen_proof: zero_over_k::multiproof::Proof {
            q_evals: m.q_evals.clone(),
            f_commit: m.f_commit.clone(),
            opening_proof: m.opening_proof.clone(),
        },
    }
}
