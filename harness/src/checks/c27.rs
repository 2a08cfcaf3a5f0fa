//! The shape of a proof is a function of the system, and the summaries a proof
//! gives of itself report it.
use super::c01::classify;
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::UniformRand;
use ark_poly::EvaluationDomain;
use ark_serialize::CanonicalSerialize;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use zero_over_k::verif_hooks::TPProof;
use zero_over_k::Proof as _;

/// lengths in the order in which `info` lists them
fn lens<PC: Pcs>(p: &TPProof<Fr, PC>) -> [usize; 14] {
    [
        p.witness_commitments.len(),
        p.witness_evals.len(),
        p.fixed_oracle_evals.len(),
        p.table_oracle_evals.len(),
        p.permutation_oracle_evals.len(),
        p.lookup_commitments.len(),
        p.lookup_evals.len(),
        p.lookup_z_commitments.len(),
        p.lookup_z_evals.len(),
        p.quotient_chunk_commitments.len(),
        p.quotient_chunks_evals.len(),
        p.z_commitments.len(),
        p.z_evals.len(),
        p.multiopen_proof.q_evals.len(),
    ]
}
const NAMES: [&str; 14] = [
    "witness commitments", "witness evals", "fixed evals", "table evals", "permutation evals", "lookup commitments", "lookup evals", "lookup aggregation commitments",
    "lookup aggregation evals", "quotient commitments", "quotient evals", "aggregation commitments", "aggregation evals", "q evals",
];
fn ints(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn summaries<PC: Pcs>(p: &TPProof<Fr, PC>) -> Result<(), String> {
    let l = lens(p);
    let mut want: Vec<usize> = l[..5].to_vec();
    want.push(1); // blinding selector
    want.extend(&l[5..]);
    want.extend([1, 1]); // batched-opening polynomial and proof
    let got = guard(|| p.info())?;
    if ints(&got) != want {
        return Err(format!("info reports {:?}, the proof has {:?}", ints(&got), want));
    }
    let coms = l[0] + l[5] + l[7] + l[9] + l[11] + 1;
    let els = l[1] + l[2] + l[3] + l[4] + l[6] + l[8] + l[10] + l[12] + l[13] + 1;
    let got = guard(|| p.cumulative_info())?;
    if ints(&got) != [coms, els, 1] {
        return Err(format!("cumulative_info reports {:?}, the proof has {} commitments, {} field elements and 1 opening", ints(&got), coms, els));
    }
    Ok(())
}

/// what an honest proof must consist of, from the description of the system
fn predicted(c: &Circ, zc: usize, pieces: usize) -> [usize; 13] {
    let mut w = BTreeSet::new();
    let mut f = BTreeSet::new();
    let mut t = BTreeSet::new();
    let mut qs = vec![];
    for g in &c.gates {
        g.queries(&mut qs);
    }
    for l in &c.lookups {
        for e in &l.exprs {
            e.queries(&mut qs);
        }
        for (x, r) in &l.tabs {
            t.insert((*x, md(*r, c.n)));
        }
    }
    for (ty, col, r) in qs {
        match ty {
            Ty::W => w.insert((col, md(r, c.n))),
            Ty::F => f.insert((col, md(r, c.n))),
            Ty::I => true,
        };
    }
    for i in c.perm_cols() {
        w.insert((i, 0));
    }
    let k = c.lookups.len();
    // every aggregation column at the challenge and one row on, all but the last also `u` rows on
    let far: BTreeSet<usize> = [0, 1 % c.n, c.u % c.n].into();
    let near: BTreeSet<usize> = [0, 1 % c.n].into();
    let ze = if zc == 0 { 0 } else { (zc - 1) * far.len() + near.len() };
    [c.permuted.len(), w.len(), f.len(), t.len(), c.num_perm(), 2 * k, 3 * k, k, 2 * k, pieces, pieces, zc, ze]
}

fn shape<PC: Pcs>(s: &Spec, sizes: bool, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    classify(&c, st);
    st.nt();
    let (ck, pvk) = keys::<PC>(Sys::<PC>::srs_deg(&c))?;
    let sys = Sys::<PC>::with_keys(&c, &a, ck.clone(), pvk.clone())?;
    let p = sys.prove::<RealFs>(s.seed)?;
    summaries(&p)?;
    let l = lens(&p);
    let idx = &sys.pk.vk.index_info;
    let zc = idx.permutation_argument.number_of_z_polys(c.num_perm());
    let want = predicted(&c, zc, idx.extended_coset_domain.size() / c.n);
    for k in 0..13 {
        if l[k] != want[k] {
            return Err(format!("{}: {} in the proof, the system calls for {}", NAMES[k], l[k], want[k]));
        }
    }
    // other randomness, other witnesses and public inputs: the same shape
    let mut others: Vec<(&str, Asg)> = vec![("other randomness", a.clone())];
    let fill = |v: &Vec<Vec<Fr>>, f: &mut dyn FnMut() -> Fr| v.iter().map(|x| x.iter().map(|_| f()).collect()).collect::<Vec<Vec<Fr>>>();
    if c.lookups.is_empty() {
        // a prover need not refuse a gate violation, but when it answers the shape is the same
        others.push(("zero witness", Asg { w: fill(&a.w, &mut || Fr::from(0u64)), i: fill(&a.i, &mut || Fr::from(0u64)), ..a.clone() }));
        if c.num_perm() == 0 {
            let mut r = rng(s.seed ^ 7);
            others.push(("other witness", Asg { w: fill(&a.w, &mut || Fr::rand(&mut r)), ..a.clone() }));
            others.push(("constant witness", Asg { w: fill(&a.w, &mut || Fr::from(9u64)), i: fill(&a.i, &mut || Fr::from(9u64)), ..a.clone() }));
        }
    }
    let size = |p: &TPProof<Fr, PC>| (p.serialized_size(), p.uncompressed_size());
    for (k, (what, b)) in others.into_iter().enumerate() {
        let honest = c.satisfied(&b);
        let sys = Sys::<PC>::with_keys(&c, &b, ck.clone(), pvk.clone())?;
        let q = match guard(|| sys.prove::<RealFs>(s.seed ^ (k as u64 + 2))).and_then(|x| x) {
            Ok(q) => q,
            Err(e) if honest => return Err(format!("{}: {}", what, e)),
            Err(_) => {
                st.hit("refused");
                continue;
            }
        };
        st.hit(what);
        if honest && k > 0 {
            st.hit("another satisfying witness");
        }
        summaries(&q)?;
        let m = lens(&q);
        for i in 0..14 {
            if m[i] != l[i] {
                return Err(format!("{}: {} {} instead of {}", what, NAMES[i], m[i], l[i]));
            }
        }
        if sizes && size(&q) != size(&p) {
            return Err(format!("{}: serialized sizes {:?} instead of {:?}", what, size(&q), size(&p)));
        }
    }
    if sizes {
        // 13 lists with an 8-byte length, one in the batched opening
        let one = ser(&p.multiopen_proof.f_commit).len();
        let coms = l[0] + l[5] + l[7] + l[9] + l[11] + 1;
        let els = l[1] + l[2] + l[3] + l[4] + l[6] + l[8] + l[10] + l[12] + l[13] + 1;
        let want = 14 * 8 + coms * one + els * crate::BYTES + ser(&p.multiopen_proof.opening_proof).len();
        if ser(&p).len() != want {
            return Err(format!("{} bytes, its parts need {}", ser(&p).len(), want));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    spec: Spec,
    lens: Vec<u16>,
}
/// summaries of a proof with lists of any length
fn any_proof(k: &Any, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.spec.build();
    let sys = Sys::<Tpc<0>>::new(&c, &a)?;
    let mut p = sys.prove::<RealFs>(1)?;
    st.nt();
    let e = Fr::from(5u64);
    let w = p.multiopen_proof.f_commit.clone();
    let l: Vec<usize> = k.lens.iter().map(|x| *x as usize).collect();
    p.witness_commitments.resize(l[0], w.clone());
    p.witness_evals.resize(l[1], e);
    p.fixed_oracle_evals.resize(l[2], e);
    p.table_oracle_evals.resize(l[3], e);
    p.permutation_oracle_evals.resize(l[4], e);
    p.lookup_commitments.resize(l[5], w.clone());
    p.lookup_evals.resize(l[6], e);
    p.lookup_z_commitments.resize(l[7], w.clone());
    p.lookup_z_evals.resize(l[8], e);
    p.quotient_chunk_commitments.resize(l[9], w.clone());
    p.quotient_chunks_evals.resize(l[10], e);
    p.z_commitments.resize(l[11], w);
    p.z_evals.resize(l[12], e);
    p.multiopen_proof.q_evals.resize(l[13], e);
    summaries(&p)
}

pub fn check() -> Check {
    Check {
        id: "C27",
        rule: "a case is a generated system proved with several witnesses and randomness (or a proof with lists of generated lengths); every case is non-trivial: the number of every kind of commitment and evaluation is compared with a prediction from the description, between witnesses, and with both summaries",
        assumptions: vec!["summaries are read as the sequence of integers they contain"],
        fams: vec![
            fam("shape", 5000, 150000, || spec_strat(Want { lookup_pct: 30, copy_pct: 45, ..Want::default() }), |s: &Spec, st| shape::<Tpc<0>>(s, false, st)),
            fam("shape_wide", 500, 12000, || spec_strat(Want { wide: true, lookup_pct: 30, ..Want::default() }), |s: &Spec, st| shape::<Tpc<0>>(s, false, st)),
            fam("shape_large", 24, 600, || spec_strat(Want { min_log: 7, max_log: 10, max_w: 4, max_gates: 2, maxdeg: 4, ..Want::default() }), |s: &Spec, st| shape::<Tpc<0>>(s, false, st)),
            fam("any", 3000, 60000, || {
                bx((spec_strat(Want { max_log: 2, max_w: 3, max_gates: 1, ..Want::default() }), proptest::collection::vec(prop_oneof![3 => 0u16..12, 1 => 0u16..700], 14)).prop_map(|(spec, lens)| Any { spec, lens }))
            }, |k: &Any, st| any_proof(k, st)),
            fam("shape_kzg", 40, 1500, || spec_strat(Want { max_log: 4, max_w: 5, lookup_pct: 30, ..Want::default() }), |s: &Spec, st| shape::<Kzg>(s, true, st)),
        ],
        known: vec![],
    }
}
