use super::c01::classify;
use crate::recfs::{RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::UniformRand;
use ark_poly::EvaluationDomain;
use ark_std::rand::Rng;
use proptest::prelude::*;
use rand_chacha::ChaChaRng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use zero_over_k::error::Error;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::FixedVerifierOracle;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::WitnessVerifierOracle;
use zero_over_k::verif_hooks::{MockProver, TPProof, TurboPlonk};
use zero_over_k::vo::error::Error as VOError;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    kinds: Vec<u8>,
    seed: u64,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), proptest::collection::vec(any::<u8>(), 1..5), any::<u64>()).prop_map(|(s, kinds, seed)| Case { s, kinds, seed }).boxed()
}

/// A lookup whose table queries are replaced (None: not configured).
struct Tables {
    inner: &'static dyn LookupVirtualOracle<Fr>,
    tabs: Option<Vec<OracleQuery>>,
}
impl LookupVirtualOracle<Fr> for Tables {
    fn get_expressions(&self) -> Result<&[Expression<Fr>], VOError> {
        self.inner.get_expressions()
    }
    fn get_table_queries(&self) -> Result<&[OracleQuery], VOError> {
        self.tabs.as_ref().map(|x| x.as_slice()).ok_or(VOError::UninitializedLookupTableQuery)
    }
}

fn res<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>) -> Result<(), String> {
    match r {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(format!("PANIC {}", p)),
    }
}
/// The outcome must be an error naming one of `want`.
fn expect(what: &str, r: Result<(), String>, want: &[&str]) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("{}: accepted", what)),
        Err(e) if e.starts_with("PANIC") => Err(format!("{}: {}", what, e)),
        Err(e) if want.iter().any(|w| w.split(' ').all(|p| e.contains(p) || e.contains(format!("{:?}", p).trim_matches('"')))) => Ok(()),
        Err(e) => Err(format!("{}: reported as {} instead of {:?}", what, e.chars().take(150).collect::<String>(), want)),
    }
}

fn index<PC: Pcs>(c: &Circ, pvk: &PC::VerifierKey, ps: &PSide, gates: &[&dyn VirtualOracle<Fr>], lookups: Vec<&'static dyn LookupVirtualOracle<Fr>>) -> Result<(), String> {
    res(guard(|| {
        Indexer::<Fr, PC>::index(pvk, gates, lookups, &ps.w, &ps.i, &ps.f, c.domain(), &c.zh(), perm_info(c), c.u)
    }))
}
fn vindex<PC: Pcs>(c: &Circ, pvk: &PC::VerifierKey, v: &VSide<PC>, gates: &[&dyn VirtualOracle<Fr>], lookups: Vec<&'static dyn LookupVirtualOracle<Fr>>) -> Result<(), String> {
    res(guard(|| {
        Indexer::<Fr, PC>::index(pvk, gates, lookups, &v.w, &v.i, &v.pre.fixed_oracles, c.domain(), &c.zh(), perm_info(c), c.u)
    }))
}
fn prove<PC: Pcs>(sys: &Sys<PC>, gates: &[&dyn VirtualOracle<Fr>]) -> Result<(), String> {
    let (mut w, mut i) = (sys.ps.w.clone(), sys.ps.i.clone());
    res(guard(|| TurboPlonk::<Fr, PC, RealFs>::prove(&sys.pk, &sys.pp, &mut w, &mut i, gates, sys.c.n, &mut rng(5))))
}
fn mock<PC: Pcs>(sys: &Sys<PC>, gates: &[&dyn VirtualOracle<Fr>]) -> Result<(), String> {
    let (mut w, mut i) = (sys.ps.w.clone(), sys.ps.i.clone());
    res(guard(|| MockProver::<Fr, PC, RealFs>::prove(&sys.pk, &sys.pp, &mut w, &mut i, gates, sys.c.n, &mut rng(5))))
}
fn verify<PC: Pcs>(v: &mut VSide<PC>, p: TPProof<Fr, PC>, gates: &[&dyn VirtualOracle<Fr>]) -> Result<(), String> {
    let n = v.n;
    res(guard(|| TurboPlonk::<Fr, PC, RealFs>::verify(&v.vk, &mut v.pre, p, &mut v.w, &mut v.i, gates, n, &v.zh)))
}
fn swapped<'a>(g: &'a [GenericVO<Fr>], at: usize, by: &'a GenericVO<Fr>) -> Vec<&'a dyn VirtualOracle<Fr>> {
    let mut d = dynv(g);
    d[at] = by;
    d
}

/// A copy of the system in which column (ty, col) carries another name.
fn renamed(c: &Circ, t: Ty, col: usize, name: &str) -> Circ {
    let mut d = c.clone();
    match t {
        Ty::W => d.lw[col] = name.into(),
        Ty::I => d.li[col] = name.into(),
        Ty::F => d.lf[col] = name.into(),
    }
    d
}
fn missing_name(t: Ty) -> &'static str {
    match t {
        Ty::W => "MissingWitnessOracle",
        Ty::I => "MissingInstanceOracle",
        Ty::F => "MissingFixedOracle",
    }
}
fn cols(e: &Ex) -> Vec<(Ty, usize)> {
    let mut q = vec![];
    e.queries(&mut q);
    let s: BTreeSet<(Ty, usize)> = q.iter().map(|x| (x.0, x.1)).collect();
    s.into_iter().collect()
}
/// columns the value of the formula really depends on: leaving out something
/// multiplied by zero is not an error
fn deps(e: &Ex) -> Vec<(Ty, usize)> {
    let v = |t: Ty, c: usize, r: i32, bump: u64| Fr::rand(&mut rng(((t as u64) << 40) ^ ((c as u64) << 20) ^ ((r + 1000) as u64) ^ bump));
    let base = e.eval(&|t, c, r| v(t, c, r, 0));
    cols(e).into_iter().filter(|x| e.eval(&|t, c, r| v(t, c, r, if (t, c) == *x { 1 << 50 } else { 0 })) != base).collect()
}

struct Env<'a, PC: Pcs> {
    c: &'a Circ,
    a: &'a Asg,
    sys: Sys<PC>,
    proof: TPProof<Fr, PC>,
    r: ChaChaRng,
}

const KINDS: u8 = 13;
fn one<PC: Pcs>(e: &mut Env<PC>, kind: u8, st: &mut Stat) -> Result<bool, String> {
    let c = e.c;
    let (ng, nl) = (c.gates.len(), c.lookups.len());
    let base_l = e.sys.pk.vk.index_info.lookups.clone();
    let mut v = e.sys.vside();
    let v_l = v.vk.index_info.lookups.clone();
    match kind % KINDS {
        // gate never configured
        0 => {
            let g = e.r.gen_range(0..ng);
            let bare = gvo(&c.gates[g]);
            let w = ["UninitializedExpr"];
            expect("unconfigured gate at indexing (prover)", index::<PC>(c, &e.sys.pvk, &e.sys.ps, &swapped(&e.sys.ps.gates, g, &bare), base_l), &w)?;
            expect("unconfigured gate at indexing (verifier)", vindex(c, &e.sys.pvk, &v, &swapped(&v.gates, g, &bare), v_l), &w)?;
            expect("unconfigured gate at proving", prove(&e.sys, &swapped(&e.sys.ps.gates, g, &bare)), &w)?;
            if mock(&e.sys, &swapped(&e.sys.ps.gates, g, &bare)).is_ok() {
                return Err(concat!("unconfigured gate at mock proving", ": succeeds").into());
            }
            let gates = std::mem::take(&mut v.gates);
            expect("unconfigured gate at verification", verify(&mut v, cp(&e.proof), &swapped(&gates, g, &bare)), &w)?;
            st.hit("unconfigured gate");
        }
        // lookup never configured / table part missing
        1 | 2 if nl > 0 => {
            let l = e.r.gen_range(0..nl);
            let w = ["UninitializedLookup"];
            let bad: (&'static dyn LookupVirtualOracle<Fr>, &'static dyn LookupVirtualOracle<Fr>) = if kind % KINDS == 1 {
                let x = arena(glvo(&c.lookups[l]));
                let mut ls = base_l.clone();
                ls[l] = x;
                expect("unconfigured lookup at indexing (prover)", index::<PC>(c, &e.sys.pvk, &e.sys.ps, &dynv(&e.sys.ps.gates), ls), &w)?;
                let mut ls = v_l.clone();
                ls[l] = x;
                expect("unconfigured lookup at indexing (verifier)", vindex(c, &e.sys.pvk, &v, &dynv(&v.gates), ls), &w)?;
                st.hit("unconfigured lookup");
                (x, x)
            } else {
                st.hit("lookup without table queries");
                (arena(Tables { inner: base_l[l], tabs: None }), arena(Tables { inner: v_l[l], tabs: None }))
            };
            e.sys.pk.vk.index_info.lookups[l] = bad.0;
            let r = prove(&e.sys, &dynv(&e.sys.ps.gates));
            e.sys.pk.vk.index_info.lookups = base_l;
            expect("unconfigured lookup at proving", r, &w)?;
            v.vk.index_info.lookups[l] = bad.1;
            let gates = std::mem::take(&mut v.gates);
            expect("unconfigured lookup at verification", verify(&mut v, cp(&e.proof), &dynv(&gates)), &w)?;
        }
        // table queries of other types, or of a table that does not exist
        3 if nl > 0 => {
            let l = e.r.gen_range(0..nl);
            let (ptabs, vtabs) = (base_l[l].get_table_queries().unwrap().to_vec(), v_l[l].get_table_queries().unwrap().to_vec());
            let k = e.r.gen_range(0..ptabs.len());
            let sub = e.r.gen_range(0..3);
            let edit = |mut q: Vec<OracleQuery>| {
                let rot = q[k].rotation;
                let label = q[k].label.clone();
                q[k] = match sub {
                    0 => OracleQuery { label: c.lw[0].clone(), rotation: rot, oracle_type: OracleType::Witness },
                    1 => OracleQuery { label, rotation: rot, oracle_type: OracleType::Instance },
                    _ => OracleQuery { label: "no such table".into(), rotation: rot, oracle_type: OracleType::Fixed },
                };
                q
            };
            let w: &[&str] = match sub {
                0 => &["WitnessTableNotAllowed"],
                1 => &["InstanceTableNotAllowed"],
                _ => &["MissingFixedOracle", "MissingLookupTableOracle"],
            };
            e.sys.pk.vk.index_info.lookups[l] = arena(Tables { inner: base_l[l], tabs: Some(edit(ptabs)) });
            let r = prove(&e.sys, &dynv(&e.sys.ps.gates));
            e.sys.pk.vk.index_info.lookups = base_l;
            expect("bad table query at proving", r, w)?;
            v.vk.index_info.lookups[l] = arena(Tables { inner: v_l[l], tabs: Some(edit(vtabs)) });
            let gates = std::mem::take(&mut v.gates);
            expect("bad table query at verification", verify(&mut v, cp(&e.proof), &dynv(&gates)), w)?;
            st.hit(["witness table query", "instance table query", "missing table"][sub]);
        }
        // the same at configuration
        4 if nl > 0 => {
            let l = &c.lookups[e.r.gen_range(0..nl)];
            let t = if e.r.gen() { Ty::W } else { Ty::I };
            let mut tabs: Vec<_> = l.tabs.iter().map(|(x, r)| vq(Ty::F, *x, *r)).collect();
            let k = e.r.gen_range(0..tabs.len());
            tabs[k] = vq(t, e.r.gen_range(0..5), e.r.gen_range(-1..2));
            let mut g = GenericLookupVO::<Fr>::init((l.exprs.iter().map(vex).collect(), vec![], tabs));
            let mut ps = pside(c, e.a);
            let w: &[&str] = if t == Ty::W { &["WitnessTableNotAllowed"] } else { &["InstanceTableNotAllowed"] };
            let r = res(guard(|| g.configure(&mut ps.w, &mut ps.i, &mut ps.f, &mut ps.t)));
            expect("bad table query at configuration", r, w)?;
            let g = arena(g);
            let mut ls = base_l;
            ls.push(g);
            expect("lookup whose configuration failed, at indexing", index::<PC>(c, &e.sys.pvk, &e.sys.ps, &dynv(&e.sys.ps.gates), ls), &["UninitializedLookup"])?;
            st.hit("table query type at configuration");
        }
        // gate naming a column nobody has
        5 | 6 => {
            let g = e.r.gen_range(0..ng);
            let cs = deps(&c.gates[g]);
            if cs.is_empty() {
                return Ok(false);
            }
            let (t, col) = cs[e.r.gen_range(0..cs.len())];
            let ghost = renamed(c, t, col, "ghost column");
            let pg = &pside(&ghost, e.a).gates[g];
            let name = format!("{} ghost", missing_name(t));
            let w = [name.as_str()];
            expect("gate names a missing column at indexing (prover)", index::<PC>(c, &e.sys.pvk, &e.sys.ps, &swapped(&e.sys.ps.gates, g, pg), base_l), &w)?;
            expect("gate names a missing column at indexing (verifier)", vindex(c, &e.sys.pvk, &v, &swapped(&v.gates, g, pg), v_l), &w)?;
            expect("gate names a missing column at proving", prove(&e.sys, &swapped(&e.sys.ps.gates, g, pg)), &w)?;
            if mock(&e.sys, &swapped(&e.sys.ps.gates, g, pg)).is_ok() {
                return Err(concat!("gate names a missing column at mock proving", ": succeeds").into());
            }
            let gates = std::mem::take(&mut v.gates);
            expect("gate names a missing column at verification", verify(&mut v, cp(&e.proof), &swapped(&gates, g, pg)), &w)?;
            st.hit(&format!("gate: {}", missing_name(t)));
        }
        // lookup naming a column nobody has
        7 | 8 if nl > 0 => {
            let l = e.r.gen_range(0..nl);
            let mut cs: Vec<(Ty, usize)> = c.lookups[l].exprs.iter().flat_map(deps).collect();
            cs.dedup();
            if cs.is_empty() {
                return Ok(false);
            }
            let (t, col) = cs[e.r.gen_range(0..cs.len())];
            let ghost = renamed(c, t, col, "ghost column");
            let bad = pside(&ghost, e.a).lookups[l];
            let name = format!("{} ghost", missing_name(t));
            let w = [name.as_str()];
            e.sys.pk.vk.index_info.lookups[l] = bad;
            let r = prove(&e.sys, &dynv(&e.sys.ps.gates));
            e.sys.pk.vk.index_info.lookups = base_l;
            expect("lookup names a missing column at proving", r, &w)?;
            v.vk.index_info.lookups[l] = bad;
            let gates = std::mem::take(&mut v.gates);
            expect("lookup names a missing column at verification", verify(&mut v, cp(&e.proof), &dynv(&gates)), &w)?;
            st.hit(&format!("lookup: {}", missing_name(t)));
        }
        // preprocessed column whose extended evaluations were not prepared
        9 => {
            let mut used: Vec<(u8, usize)> = vec![];
            let mut exprs: Vec<&Ex> = c.gates.iter().collect();
            exprs.extend(c.lookups.iter().flat_map(|l| l.exprs.iter()));
            for x in exprs {
                used.extend(cols(x).into_iter().filter(|x| x.0 == Ty::F).map(|x| (0, x.1)));
            }
            used.extend(c.lookups.iter().flat_map(|l| l.tabs.iter()).map(|t| (1, t.0)));
            used.extend((0..c.num_perm()).map(|j| (2, j)));
            if nl > 0 || c.num_perm() > 0 {
                used.push((3, 0));
            }
            used.sort();
            used.dedup();
            if used.is_empty() {
                return Ok(false);
            }
            let (g, x) = used[e.r.gen_range(0..used.len())];
            let pp = &mut e.sys.pp;
            let raw = match g {
                0 => fpo(&c.lf[x], &e.a.f[x]),
                1 => fpo(&c.lt[x], &e.a.t[x]),
                2 => fpo(&format!("sigma_{}", x), &c.sigma_evals()[x]),
                _ => fpo("q_blind", &c.q_blind()),
            };
            let slot = match g {
                0 => &mut pp.fixed_oracles[x],
                1 => &mut pp.table_oracles[x],
                2 => &mut pp.permutation_oracles[x],
                _ => &mut pp.q_blind,
            };
            let label = slot.get_label();
            let saved = std::mem::replace(slot, raw);
            let r = prove(&e.sys, &dynv(&e.sys.ps.gates));
            let pp = &mut e.sys.pp;
            match g {
                0 => pp.fixed_oracles[x] = saved,
                1 => pp.table_oracles[x] = saved,
                2 => pp.permutation_oracles[x] = saved,
                _ => pp.q_blind = saved,
            }
            let name = format!("MissingCosetFixedEval {}", label);
            expect("column without extended evaluations at proving", r, &[name.as_str(), "MissingExtendedEvals"])?;
            st.hit(["unprepared fixed", "unprepared table", "unprepared sigma", "unprepared q_blind"][g as usize]);
        }
        // preprocessed column without a commitment on the verifier's side
        10 => {
            let mut all: Vec<(u8, usize)> = (0..v.pre.fixed_oracles.len()).map(|x| (0, x)).collect();
            all.extend((0..v.pre.table_oracles.len()).map(|x| (1, x)));
            all.extend((0..v.pre.permutation_oracles.len()).map(|x| (2, x)));
            all.push((3, 0));
            let (g, x) = all[e.r.gen_range(0..all.len())];
            let slot = match g {
                0 => &mut v.pre.fixed_oracles[x],
                1 => &mut v.pre.table_oracles[x],
                2 => &mut v.pre.permutation_oracles[x],
                _ => &mut v.pre.q_blind,
            };
            let label = slot.get_label();
            let mut bare = FixedVerifierOracle::new(label.clone(), None);
            let rots: Vec<Rotation> = slot.get_queried_rotations().iter().cloned().collect();
            for r in rots {
                bare.register_rotation(r);
            }
            *slot = bare;
            let gates = std::mem::take(&mut v.gates);
            let name = format!("MissingFixedCommitment {}", label);
            expect("column without commitment at verification", verify(&mut v, cp(&e.proof), &dynv(&gates)), &[name.as_str()])?;
            st.hit("missing commitment");
        }
        // a column the constraints use is not handed over
        11 => {
            let mut used: Vec<(Ty, usize)> = c.gates.iter().flat_map(cols).collect();
            for l in &c.lookups {
                used.extend(l.exprs.iter().flat_map(cols));
            }
            used.retain(|(t, x)| *t != Ty::W || !c.permuted[*x]);
            if used.is_empty() {
                return Ok(false);
            }
            let (t, x) = used[e.r.gen_range(0..used.len())];
            let (mut w, mut i) = (e.sys.ps.w.clone(), e.sys.ps.i.clone());
            let mut gone = None;
            let label = match t {
                Ty::W => w.remove(x).get_label(),
                Ty::I => i.remove(x).get_label(),
                Ty::F => {
                    let o = e.sys.pp.fixed_oracles.remove(x);
                    let l = o.get_label();
                    gone = Some(o);
                    l
                }
            };
            let gates = dynv(&e.sys.ps.gates);
            let r = res(guard(|| TurboPlonk::<Fr, PC, RealFs>::prove(&e.sys.pk, &e.sys.pp, &mut w, &mut i, &gates, c.n, &mut rng(5))));
            // indexing without it
            let mut f = e.sys.ps.f.clone();
            if t == Ty::F {
                f.remove(x);
            }
            let in_gate = c.gates.iter().any(|g| cols(g).contains(&(t, x)));
            let ri = res(guard(|| Indexer::<Fr, PC>::index(&e.sys.pvk, &gates, base_l.clone(), &w, &i, &f, c.domain(), &c.zh(), perm_info(c), c.u)));
            if let Some(o) = gone {
                e.sys.pp.fixed_oracles.insert(x, o);
            }
            let name = format!("{} {}", missing_name(t), label);
            expect("column not given to the prover", r, &[name.as_str()])?;
            if in_gate {
                expect("column not given to the indexer (prover)", ri, &[name.as_str()])?;
            }
            match t {
                Ty::W => drop(v.w.remove(x)),
                Ty::I => drop(v.i.remove(x)),
                Ty::F => drop(v.pre.fixed_oracles.remove(x)),
            }
            let gates = std::mem::take(&mut v.gates);
            if in_gate {
                expect("column not given to the indexer (verifier)", vindex(c, &e.sys.pvk, &v, &dynv(&gates), v_l), &[name.as_str()])?;
            }
            expect("column not given to the verifier", verify(&mut v, cp(&e.proof), &dynv(&gates)), &[name.as_str(), "WrongNumberOf"])?;
            st.hit(&format!("absent column: {}", missing_name(t)));
        }
        // constraints of too low a degree
        12 => {
            let mut d = c.clone();
            let keep = e.r.gen_range(0..3);
            for (k, g) in d.gates.iter_mut().enumerate() {
                if keep == 2 && k == 0 {
                    continue;
                }
                *g = match e.r.gen_range(0..5) {
                    0 => Ex::C(Fr::rand(&mut e.r)),
                    1 => Ex::q(Ty::W, 0, 1),
                    2 => Ex::Add(Ex::q(Ty::W, 0, -1).b(), Ex::C(Fr::rand(&mut e.r)).b()),
                    3 => Ex::Neg(Ex::Sub(Ex::q(Ty::W, 0, 0).b(), Ex::q(Ty::W, 0, 1).b()).b()),
                    _ => Ex::Scale(Ex::q(Ty::W, 0, 0).b(), Fr::rand(&mut e.r)),
                };
            }
            if keep == 1 {
                d.gates.clear();
            }
            let deg = d.gates.iter().map(|g| g.deg()).max().unwrap_or(0) * (c.n - 1);
            let z = c.n - c.missing.len();
            let small = deg < z || (deg - z + 1).next_power_of_two() < c.n;
            let ps = pside(&d, e.a);
            let r = index::<PC>(&d, &e.sys.pvk, &ps, &dynv(&ps.gates), ps.lookups.clone());
            if small {
                expect("constraints of too low a degree", r, &["QuotientTooSmall"])?;
                st.hit(if deg < z { "quotient negative" } else { "quotient below domain" });
                let rv = VSide::<PC>::try_new(&d, &e.a.i, &e.sys.coms, &e.sys.pvk);
                expect("constraints of too low a degree (verifier)", rv.map(|_| ()), &["QuotientTooSmall"])?;
            } else {
                r.map_err(|x| format!("sufficient degree refused: {}", x))?;
                st.hit("degree suffices");
            }
        }
        _ => return Ok(false),
    }
    Ok(true)
}

fn run<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let proof = sys.prove::<RealFs>(k.seed)?;
    let mut e = Env { c: &c, a: &a, sys, proof, r: rng(k.seed) };
    let mut any = false;
    for kind in &k.kinds {
        any |= one(&mut e, *kind, st)?;
    }
    // nothing of this damaged the shared objects: the ordinary run still works
    let p = e.sys.prove::<RealFs>(k.seed)?;
    if ser(&p) != ser(&e.proof) {
        return Err("harness: restored objects prove differently".into());
    }
    e.sys.verify::<RealFs>(p)?;
    if any {
        st.nt();
        classify(&c, st);
    }
    Ok(())
}

/// Universal parameters of every size below and around the one needed.
fn too_large<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let big = Sys::<PC>::new(&c, &a)?;
    let mut r = rng(k.seed);
    let max = if r.gen_range(0..4) == 0 { r.gen_range(0..c.n + 4) } else { r.gen_range(1..c.n) };
    // setup itself
    let ks = guard(|| -> Result<(PC::CommitterKey, PC::VerifierKey), Error<PC::Error>> {
        let srs = TurboPlonk::<Fr, PC, RecFs>::universal_setup(max, &mut rng(3))?;
        TurboPlonk::<Fr, PC, RecFs>::prepare_keys(&srs)
    });
    let (ck, pvk) = match ks {
        Err(p) => return Err(format!("setup for degree {} panicked: {}", max, p)),
        Ok(Err(e)) => {
            st.hit("setup refused");
            let e = format!("{:?}", e);
            if max > 0 || !e.contains("PolynomialCommitmentError") {
                return Err(format!("setup for degree {}: {}", max, e));
            }
            return Ok(());
        }
        Ok(Ok(x)) => x,
    };
    st.nt();
    let mut small = Sys::<PC> { pvk, ck, ..big };
    small.pk.committer_key = small.ck.clone();
    // degree actually needed by the first messages
    let need = a.w.iter().map(|v| crate::tpc::trim_vec(domain(c.n).ifft(v)).len().saturating_sub(1)).max().unwrap_or(0);
    let res = guard(|| small.prove_raw::<RealFs>(k.seed));
    match res {
        Err(p) => Err(format!("proving with parameters for degree {} (need {}) panicked: {}", max, need, p)),
        Ok(Err(e)) => {
            let e = format!("{:?}", e);
            st.hit(if need > max { "witness too large" } else { "later message too large" });
            if !(e.contains("PolynomialCommitmentError") || e.contains("PCError") || e.contains("IndexTooLarge")) {
                return Err(format!("parameters for degree {}, need {}: reported as {}", max, need, e));
            }
            if max >= c.n + 1 {
                return Err(format!("parameters for degree {} refused for a domain of {}: {}", max, c.n, e));
            }
            Ok(())
        }
        Ok(Ok(p)) => {
            if need > max {
                return Err(format!("parameters for degree {} accepted although a column has degree {}", max, need));
            }
            st.hit("fits");
            // commitments of the preprocessed columns fit the larger parameters only: skip verification under KZG
            if PC::NAME != "kzg" {
                small.verify::<RealFs>(p)?;
            }
            Ok(())
        }
    }
}

/// Queries of oracles that were never prepared.
fn bare(seed: &u64, st: &mut Stat) -> Result<(), String> {
    let mut r = rng(*seed);
    let n = 1usize << r.gen_range(1..6);
    let v: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut r)).collect();
    let label = format!("c{}", r.gen_range(0..1000));
    let ext = n << r.gen_range(0..3);
    let row = r.gen_range(0..ext);
    let rt = rot(r.gen_range(-3..4));
    let want_row = |p: &ark_poly::univariate::DensePolynomial<Fr>, x: usize| domain(ext).coset_fft(p)[x];
    macro_rules! side {
        ($o:expr, $err:expr) => {{
            let mut o = $o;
            let name = format!("{} {}", $err, label);
            expect("coset query of an unprepared oracle", res(guard(|| o.query_in_coset(row, rt))), &[name.as_str()])?;
            expect("coset evaluations of an unprepared oracle", res(guard(|| o.get_extended_coset_evals().map(|_| ()))), &[name.as_str()])?;
            o.compute_extended_evals(&domain(ext));
            let got = guard(|| o.query_in_coset(row, rot(0)))?.map_err(|e| format!("prepared oracle: {:?}", e))?;
            if got != want_row(o.polynomial(), row) {
                return Err("prepared oracle: wrong value".into());
            }
        }};
    }
    side!(wpo(&label, &v, r.gen()), "MissingCosetWitnessEval");
    side!(ipo(&label, &v), "MissingCosetInstanceEval");
    side!(fpo(&label, &v), "MissingCosetFixedEval");
    let ch = Fr::rand(&mut r);
    let w = WitnessVerifierOracle::<Fr, Tpc<0>>::new(label.clone(), false);
    let f = FixedVerifierOracle::<Fr, Tpc<0>>::new(label.clone(), None);
    let name = format!("MissingConcreteEval {}", label);
    expect("verifier oracle without evaluation", res(guard(|| w.query(&ch))), &[name.as_str()])?;
    expect("verifier oracle without evaluation", res(guard(|| f.query(&ch))), &[name.as_str()])?;
    expect("verifier oracle without commitment", res(guard(|| w.get_commitment().map(|_| ()))), &[&format!("MissingWitnessCommitment {}", label)])?;
    expect("verifier oracle without commitment", res(guard(|| f.get_commitment().map(|_| ()))), &[&format!("MissingFixedCommitment {}", label)])?;
    st.nt();
    st.hit(&format!("ext={}n", ext / n));
    Ok(())
}

/// a gate that reads one column at two rotations meaning the same row (r and r - n)
fn same_row(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (base, a) = k.s.build();
    let mut r = rng(k.seed);
    let mut c = base.clone();
    let mut cols: Vec<(Ty, usize)> = (0..a.w.len()).map(|x| (Ty::W, x)).collect();
    cols.extend((0..a.i.len()).map(|x| (Ty::I, x)));
    cols.extend((0..a.f.len()).map(|x| (Ty::F, x)));
    let (t, x) = cols[r.gen_range(0..cols.len())];
    let f = r.gen_range(1..c.n) as i32;
    let diff = Ex::Sub(Box::new(Ex::Q(t, x, f)), Box::new(Ex::Q(t, x, f - c.n as i32)));
    c.gates.push(Ex::Mul(Box::new(diff), Box::new(Ex::Q(Ty::W, 0, 0))));
    c.corr.push((t, x, 0));
    c.sel.push(None);
    st.nt();
    st.hit(match t {
        Ty::W => "witness",
        Ty::I => "instance",
        Ty::F => "fixed",
    });
    let sys = Sys::<Tpc<0>>::new(&c, &a)?;
    match guard(|| sys.prove_raw::<RealFs>(k.seed)) {
        Err(p) => return Err(format!("proving panicked: {}", p)),
        Ok(Err(e)) => {
            let e = format!("{:?}", e);
            if t == Ty::I {
                return Err(format!("public inputs are not opened, yet proving answers {}", e));
            }
            if !e.contains("RepeatedRotation") {
                return Err(format!("the same row named twice is reported as {}", e));
            }
            st.hit("refused");
        }
        Ok(Ok(p)) => {
            st.hit("proved");
            sys.verify::<RealFs>(p).map_err(|e| format!("honest proof refused: {}", e))?;
        }
    }
    // a proof for the system without that gate says nothing about this one
    if t != Ty::I {
        let p = Sys::<Tpc<0>>::with_keys(&base, &a, sys.ck.clone(), sys.pvk.clone())?.prove::<RealFs>(k.seed)?;
        match sys.verify::<RealFs>(p) {
            Ok(()) => return Err("a proof for another system is accepted".into()),
            Err(e) if e.contains("panicked") => return Err(e),
            Err(_) => (),
        }
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C21",
        rule: "a case is a generated valid system plus one to four single misconfigurations at generated positions (misconfigured), a size of the universal parameters (too_large), or unprepared oracles (bare); non-trivial when at least one misconfiguration applied",
        assumptions: vec!["column positions handed to configure lie inside the given lists (gate configuration has no error to return)"],
        fams: vec![
            fam("misconfigured", 6000, 150000, || strat(Want { lookup_pct: 70, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("misconfigured_wide", 900, 8000, || strat(Want { wide: true, lookup_pct: 70, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("misconfigured_large", 40, 800, || strat(Want { min_log: 7, max_log: 10, max_w: 4, max_gates: 2, maxdeg: 4, lookup_pct: 70, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("misconfigured_kzg", 48, 1000, || strat(Want { max_log: 3, max_w: 4, lookup_pct: 70, ..Want::default() }), |k: &Case, st| run::<Kzg>(k, st)),
            fam("too_large", 2500, 50000, || strat(Want::default()), |k: &Case, st| too_large::<Tpc<0>>(k, st)),
            fam("too_large_kzg", 120, 3000, || strat(Want { max_log: 4, max_w: 5, ..Want::default() }), |k: &Case, st| too_large::<Kzg>(k, st)),
            fam("same_row", 1500, 40000, || strat(Want { max_log: 4, ..Want::default() }), |k: &Case, st| same_row(k, st)),
            fam("bare", 1500, 30000, || bx(any::<u64>()), |s: &u64, st| bare(s, st)),
        ],
        known: vec![],
    }
}
