use crate::adv::*;
use crate::recfs::{self, RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{self, TCom, Tpc};
use crate::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::verif_hooks::TPProof;

/// Commitments of a proof by position.
pub fn coms_mut<PC: Pcs>(p: &mut TPProof<Fr, PC>) -> Vec<(&'static str, &mut PC::Commitment)> {
    let mut v: Vec<(&'static str, &mut PC::Commitment)> = vec![];
    v.extend(p.witness_commitments.iter_mut().map(|x| ("witness", x)));
    v.extend(p.lookup_commitments.iter_mut().map(|x| ("lookup", x)));
    v.extend(p.z_commitments.iter_mut().map(|x| ("z", x)));
    v.extend(p.lookup_z_commitments.iter_mut().map(|x| ("lookup-z", x)));
    v.extend(p.quotient_chunk_commitments.iter_mut().map(|x| ("quotient", x)));
    v.push(("f", &mut p.multiopen_proof.f_commit));
    v
}
/// Field elements of a proof by position.
pub fn els_mut<PC: Pcs>(p: &mut TPProof<Fr, PC>) -> Vec<(&'static str, &mut Fr)> {
    let mut v: Vec<(&'static str, &mut Fr)> = vec![];
    v.extend(p.witness_evals.iter_mut().map(|x| ("w", x)));
    v.extend(p.fixed_oracle_evals.iter_mut().map(|x| ("fixed", x)));
    v.extend(p.table_oracle_evals.iter_mut().map(|x| ("table", x)));
    v.extend(p.permutation_oracle_evals.iter_mut().map(|x| ("sigma", x)));
    v.push(("q_blind", &mut p.q_blind_eval));
    v.extend(p.lookup_evals.iter_mut().map(|x| ("lookup", x)));
    v.extend(p.lookup_z_evals.iter_mut().map(|x| ("lookup-z", x)));
    v.extend(p.z_evals.iter_mut().map(|x| ("z", x)));
    v.extend(p.quotient_chunks_evals.iter_mut().map(|x| ("quotient", x)));
    v.extend(p.multiopen_proof.q_evals.iter_mut().map(|x| ("q_eval", x)));
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    seed: u64,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), any::<u64>()).prop_map(|(s, seed)| Case { s, seed }).boxed()
}

fn mutate<PC: Pcs>(k: &Case, per: usize, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let (p, p2) = match (sys.prove::<RealFs>(k.s.seed), sys.prove::<RealFs>(k.s.seed ^ 77)) {
        (Ok(p), Ok(q)) => (p, q),
        _ => {
            st.hit("not-proved");
            return Ok(());
        }
    };
    if sys.verify::<RealFs>(cp(&p)).is_err() {
        st.hit("not-accepted");
        return Ok(());
    }
    super::c01::classify(&c, st);
    st.nt();
    let orig = ser(&p);
    let mut r = rng(k.seed);
    let nc = coms_mut(&mut cp(&p)).len();
    let ne = els_mut(&mut cp(&p)).len();
    // every position, with one random kind of change each (or a sample of them)
    let mut todo: Vec<(u8, usize)> = (0..nc).map(|i| (0, i)).chain((0..ne).map(|i| (1, i))).chain([(2, 0), (2, 1)]).collect();
    while todo.len() > per {
        let i = r.gen_range(0..todo.len());
        todo.swap_remove(i);
    }
    for (t, i) in todo {
        let mut q = cp(&p);
        let mut other = cp(&p2);
        let what;
        match t {
            0 => {
                let kind = r.gen_range(0..5);
                let j = r.gen_range(0..nc);
                let ocom = coms_mut(&mut other)[i].1.clone();
                let jcom = coms_mut(&mut q)[j].1.clone();
                let mut v = coms_mut(&mut q);
                let name = v[i].0;
                let icom = v[i].1.clone();
                what = match kind {
                    0 => {
                        *v[i].1 = ocom;
                        format!("{} commitment (position {}) taken from another proof", name, i)
                    }
                    1 => {
                        *v[i].1 = jcom;
                        *v[j].1 = icom;
                        format!("commitments {} and {} swapped", i, j)
                    }
                    2 => {
                        *v[i].1 = commit_plain::<PC>(&sys.ck, &[vec![]])?.remove(0);
                        format!("{} commitment (position {}) replaced by the zero commitment", name, i)
                    }
                    3 => {
                        *v[i].1 = PC::add(&icom, &commit_plain::<PC>(&sys.ck, &[vec![Fr::one()]])?.remove(0));
                        format!("{} commitment (position {}) plus the commitment to one", name, i)
                    }
                    _ => {
                        *v[i].1 = PC::scale_com(&icom, -Fr::one());
                        format!("{} commitment (position {}) negated", name, i)
                    }
                };
                st.hit(&format!("commitment-{}", name));
            }
            1 => {
                let kind = r.gen_range(0..6);
                let j = r.gen_range(0..ne);
                let o = *els_mut(&mut other)[i].1;
                let jv = *els_mut(&mut q)[j].1;
                let mut v = els_mut(&mut q);
                let name = v[i].0;
                let iv = *v[i].1;
                what = match kind {
                    0 => {
                        *v[i].1 = o;
                        format!("{} value (position {}) taken from another proof", name, i)
                    }
                    1 => {
                        *v[i].1 = jv;
                        *v[j].1 = iv;
                        format!("values {} and {} swapped", i, j)
                    }
                    2 => {
                        *v[i].1 = Fr::zero();
                        format!("{} value (position {}) replaced by zero", name, i)
                    }
                    3 => {
                        *v[i].1 = iv + Fr::one();
                        format!("{} value (position {}) plus one", name, i)
                    }
                    4 => {
                        *v[i].1 = -iv;
                        format!("{} value (position {}) negated", name, i)
                    }
                    _ => {
                        *v[i].1 = Fr::rand(&mut r);
                        format!("{} value (position {}) replaced", name, i)
                    }
                };
                st.hit(&format!("value-{}", name));
            }
            _ if i == 0 => {
                q.multiopen_proof.opening_proof = other.multiopen_proof.opening_proof;
                what = "opening proof taken from another proof".to_string();
                st.hit("opening");
            }
            _ => {
                q.multiopen_proof = other.multiopen_proof;
                what = "batched opening taken from another proof".to_string();
                st.hit("opening");
            }
        }
        if ser(&q) == orig {
            st.hit("unchanged");
            continue;
        }
        st.work += 1;
        match guard(|| sys.vside().verify::<RealFs>(q)) {
            Ok(Ok(())) => return Err(format!("changed proof accepted: {}", what)),
            Ok(Err(_)) => (),
            Err(_) => st.hit("verifier-panicked"),
        }
    }
    Ok(())
}

/// Rank of a matrix over the field.
pub fn rank(mut m: Vec<Vec<Fr>>) -> usize {
    let rows = m.len();
    let cols = m.first().map_or(0, |x| x.len());
    let mut rk = 0;
    for c in 0..cols {
        let p = match (rk..rows).find(|r| !m[*r][c].is_zero()) {
            Some(p) => p,
            None => continue,
        };
        m.swap(rk, p);
        let inv = m[rk][c].inverse().unwrap();
        for r in rk + 1..rows {
            let f = m[r][c] * inv;
            if !f.is_zero() {
                for k in c..cols {
                    let d = m[rk][k] * f;
                    m[r][k] -= d;
                }
            }
        }
        rk += 1;
    }
    rk
}
/// A nonzero vector the rows are all orthogonal to, if there is one.
pub fn kernel(rows: &[Vec<Fr>]) -> Option<Vec<Fr>> {
    let cols = rows.first().map_or(0, |x| x.len());
    let mut m = rows.to_vec();
    let mut piv = vec![];
    let mut rk = 0;
    for c in 0..cols {
        match (rk..m.len()).find(|r| !m[*r][c].is_zero()) {
            None => continue,
            Some(p) => {
                m.swap(rk, p);
                let inv = m[rk][c].inverse().unwrap();
                for k in 0..cols {
                    m[rk][k] *= inv;
                }
                for r in 0..m.len() {
                    if r != rk && !m[r][c].is_zero() {
                        let f = m[r][c];
                        for k in 0..cols {
                            let d = m[rk][k] * f;
                            m[r][k] -= d;
                        }
                    }
                }
                piv.push(c);
                rk += 1;
            }
        }
    }
    let free = (0..cols).find(|c| !piv.contains(c))?;
    let mut v = vec![Fr::zero(); cols];
    v[free] = Fr::one();
    for (r, c) in piv.iter().enumerate() {
        v[*c] = -m[r][free];
    }
    Some(v)
}

type P1 = Tpc<1>;
/// Values compared by the opening scheme when `p` is verified with `ch`.
fn observed(c: &Circ, lay: &Lay, sys: &Sys<P1>, inst: &[Vec<Fr>], p: TPProof<Fr, P1>, ch: &Ch, coms: Option<&Coms<P1>>) -> Result<(Vec<Fr>, Vec<TCom>), String> {
    let mut v = match coms {
        None => sys.vside(),
        Some(x) => VSide::new(c, &sys.a.i, x, &sys.pvk),
    };
    v.zh = fake_zh(c, lay, &p, inst, ch).ok_or("skip")?;
    tpc::log_start();
    let r = verify_queued(&mut v, p, ch);
    let l = tpc::log_take();
    if l.checks.is_empty() {
        return Err(match r {
            Ok(()) => "accepted without checking any opening".into(),
            Err(_) => "skip".to_string(),
        });
    }
    Ok((l.checks.iter().flat_map(|x| x.values.clone()).collect(), l.checks.iter().flat_map(|x| x.coms.clone()).collect()))
}

/// No combination of wrong evaluations stays invisible over several draws of
/// the challenges that follow them.
fn eval_rank(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<P1>::new(&c, &a)?;
    let honest = match sys.prove::<RecFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let inst = inst_polys(&c, &a);
    let ch0 = Ch::rand(s.seed);
    let lay = layout(&c, &sys.vside(), ch0.xi);
    let mut r = rng(s.seed ^ 6);
    let mut base = cp(&honest);
    for (pt, i) in slots(&base) {
        part_mut(&mut base, pt)[i] = Fr::rand(&mut r);
    }
    let sl = slots(&base);
    if sl.len() > 34 {
        st.hit("large-skipped");
        return Ok(());
    }
    let mut mat: Vec<Vec<Fr>> = vec![];
    for d in 0..sl.len() + 1 {
        let t = Ch::rand(s.seed ^ (d as u64 + 1) << 8);
        let ch = Ch { x1: t.x1, x2: t.x2, x3: t.x3, x4: t.x4, ..ch0 };
        let run = |p: TPProof<Fr, P1>| observed(&c, &lay, &sys, &inst, p, &ch, None);
        let v0 = match run(cp(&base)) {
            Ok(v) => v.0,
            Err(e) if e == "skip" => {
                st.hit("not-reached");
                return Ok(());
            }
            Err(e) => return Err(e),
        };
        let mut cols: Vec<Vec<Fr>> = vec![];
        for (pt, i) in &sl {
            let mut p = cp(&base);
            part_mut(&mut p, *pt)[*i] += Fr::one();
            let v = match run(p) {
                Ok(v) => v.0,
                Err(e) if e == "skip" => return Ok(()),
                Err(e) => return Err(e),
            };
            st.work += 1;
            if v.len() != v0.len() {
                return Err("number of openings depends on an evaluation".into());
            }
            cols.push(v.iter().zip(&v0).map(|(x, y)| *x - y).collect());
        }
        for k in 0..v0.len() {
            mat.push(cols.iter().map(|x| x[k]).collect());
        }
        if mat.len() > sl.len() + 2 {
            break;
        }
    }
    st.nt();
    super::c01::classify(&c, st);
    if let Some(v) = kernel(&mat) {
        let w: Vec<String> = sl.iter().zip(&v).filter(|x| !x.1.is_zero()).map(|((p, i), x)| format!("{:?}[{}] by {}", p, i, short(*x))).collect();
        return Err(format!("claimed evaluations can be changed together without the opening check noticing, for every later challenge: {}", w.join(", ")));
    }
    Ok(())
}
fn short(x: Fr) -> String {
    if x == -Fr::one() {
        "-1".into()
    } else {
        format!("{:?}", x).chars().take(24).collect()
    }
}

/// Same for the intermediate evaluations (only the last challenge follows) and
/// for the commitments.
fn com_rank(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<P1>::new(&c, &a)?;
    let honest = match sys.prove::<RecFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let inst = inst_polys(&c, &a);
    let ch0 = Ch::rand(s.seed);
    let vs = sys.vside();
    let lay = layout(&c, &vs, ch0.xi);
    let nq = honest.multiopen_proof.q_evals.len();
    // q evaluations
    let mut mat = vec![];
    for d in 0..nq + 1 {
        let ch = Ch { x4: Ch::rand(s.seed ^ (d as u64 + 1) << 9).x4, ..ch0 };
        let run = |p: TPProof<Fr, P1>| observed(&c, &lay, &sys, &inst, p, &ch, None);
        let v0 = match run(cp(&honest)) {
            Ok(v) => v.0,
            Err(e) if e == "skip" => return Ok(()),
            Err(e) => return Err(e),
        };
        let mut cols = vec![];
        for q in 0..nq {
            let mut p = cp(&honest);
            p.multiopen_proof.q_evals[q] += Fr::one();
            let v = match run(p) {
                Ok(v) => v.0,
                Err(e) if e == "skip" => return Ok(()),
                Err(e) => return Err(e),
            };
            st.work += 1;
            cols.push(v.iter().zip(&v0).map(|(x, y)| *x - y).collect::<Vec<Fr>>());
        }
        for k in 0..v0.len() {
            mat.push(cols.iter().map(|x| x[k]).collect::<Vec<Fr>>());
        }
    }
    if rank(mat) < nq {
        return Err("intermediate evaluations of the batched opening can be changed together without the final check noticing".into());
    }
    // commitments, each marked by a coordinate of its own in the randomness
    let mut names = vec![];
    let mut idx = 0;
    let mut p = cp(&honest);
    let queried: Vec<bool> = vs.w.iter().zip(&c.permuted).map(|(o, p)| *p || !o.get_queried_rotations().is_empty()).collect();
    let mut wi = 0;
    for (name, x) in coms_mut(&mut p) {
        let q = name != "witness" || {
            wi += 1;
            queried[wi - 1]
        };
        x.r = vec![];
        if q {
            let mut v = vec![Fr::zero(); idx + 1];
            v[idx] = Fr::one();
            x.r = v;
            names.push(name.to_string());
            idx += 1;
        }
    }
    let mut coms = sys.coms.clone();
    {
        let used_t: Vec<usize> = c.lookups.iter().flat_map(|l| l.tabs.iter().map(|t| t.0)).collect();
        let mut mark = |x: &mut TCom, name: String| {
            let mut v = vec![Fr::zero(); idx + 1];
            v[idx] = Fr::one();
            x.r = v;
            names.push(name);
            idx += 1;
        };
        for (k, x) in coms.f.iter_mut().enumerate() {
            if !vs.pre.fixed_oracles[k].get_queried_rotations().is_empty() {
                mark(x, format!("fixed column {}", k));
            }
        }
        for (k, x) in coms.t.iter_mut().enumerate() {
            if used_t.contains(&k) {
                mark(x, format!("table column {}", k));
            }
        }
        for (k, x) in coms.sig.iter_mut().enumerate() {
            mark(x, format!("permutation column {}", k));
        }
        mark(&mut coms.qb, "blinding selector".into());
    }
    let mut mat = vec![];
    for d in 0..idx + 1 {
        let t = Ch::rand(s.seed ^ (d as u64 + 1) << 10);
        let ch = Ch { x1: t.x1, x2: t.x2, x3: t.x3, x4: t.x4, ..ch0 };
        let (_, cs) = match observed(&c, &lay, &sys, &inst, cp(&p), &ch, Some(&coms)) {
            Ok(v) => v,
            Err(e) if e == "skip" => {
                st.hit("not-reached");
                return Ok(());
            }
            Err(e) => return Err(e),
        };
        st.work += 1;
        for x in cs {
            let mut v = x.r.clone();
            v.resize(idx, Fr::zero());
            mat.push(v);
        }
    }
    st.nt();
    if let Some(v) = kernel(&mat) {
        let w: Vec<String> = names.iter().zip(&v).filter(|x| !x.1.is_zero()).map(|x| x.0.clone()).collect();
        return Err(format!("commitments can be changed together without the final check noticing: {}", w.join(", ")));
    }
    Ok(())
}

pub fn check() -> Check {
    let small = Want { max_log: 3, max_w: 4, max_gates: 3, maxdeg: 4, copy_pct: 50, lookup_pct: 40, ..Want::default() };
    Check {
        id: "C06",
        rule: "mutations: an accepted proof with one random change at every position (values, commitments, opening), each change that alters the proof's bytes must be rejected; counts when the base proof is accepted. eval_rank: for random claimed evaluations at fixed earlier challenges, the linear map from changes of the evaluations to what the opening scheme compares, over as many draws of the later challenges as there are evaluations, must be injective; com_rank: same for intermediate evaluations and for commitments",
        assumptions: vec!["binding commitments", "every eval enters the comparison linearly (it does for fixed challenges)"],
        fams: vec![
            fam("mutations", 1000, 40000, || strat(Want { copy_pct: 50, lookup_pct: 35, ..Want::default() }), |k: &Case, st| mutate::<Tpc<0>>(k, 80, st)),
            fam("mutations_wide", 250, 4000, || strat(Want { copy_pct: 50, lookup_pct: 35, wide: true, ..Want::default() }), |k: &Case, st| mutate::<Tpc<0>>(k, 80, st)),
            fam("mutations_large", 24, 800, || strat(Want { copy_pct: 50, lookup_pct: 35, min_log: 7, max_log: 10, max_w: 5, max_gates: 3, maxdeg: 4, ..Want::default() }), |k: &Case, st| mutate::<Tpc<0>>(k, 40, st)),
            fam("eval_rank", 70, 3000, move || spec_strat(small), |s: &Spec, st| eval_rank(s, st)),
            fam("com_rank", 500, 20000, move || spec_strat(Want { max_log: 4, max_w: 7, ..small }), |s: &Spec, st| com_rank(s, st)),
            fam("com_rank_wide", 40, 1500, move || spec_strat(Want { wide: true, ..small }), |s: &Spec, st| com_rank(s, st)),
            fam("mutations_kzg", 20, 1000, || strat(Want { copy_pct: 50, lookup_pct: 40, max_log: 3, max_w: 4, ..Want::default() }), |k: &Case, st| mutate::<Kzg>(k, 25, st)),
        ],
        known: vec![],
    }
}
