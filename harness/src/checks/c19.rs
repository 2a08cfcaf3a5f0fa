use super::c01::classify;
use crate::adv::Ch;
use crate::recfs::{self, RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{TCom, Tpc};
use crate::Fr;
use ark_ff::{BigInteger, PrimeField, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, UVPolynomial};
use std::collections::HashSet;
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::verif_hooks::TPProof;

type P = TPProof<Fr, Tpc<0>>;

/// Every commitment of a proof with a name.
fn named<PC: Pcs>(p: &TPProof<Fr, PC>) -> Vec<(String, PC::Commitment)> {
    let mut v = vec![];
    let mut add = |n: &str, cs: &[PC::Commitment]| {
        for (i, c) in cs.iter().enumerate() {
            v.push((format!("{} {}", n, i), c.clone()));
        }
    };
    add("witness", &p.witness_commitments);
    add("lookup", &p.lookup_commitments);
    add("lookup z", &p.lookup_z_commitments);
    add("permutation z", &p.z_commitments);
    add("quotient", &p.quotient_chunk_commitments);
    add("f", std::slice::from_ref(&p.multiopen_proof.f_commit));
    v
}

/// Values meant to be random: all distinct, no small values, and no constant
/// step or ratio pattern between neighbours.
fn looks_random(v: &[(String, Fr)]) -> Result<(), String> {
    let mut seen = std::collections::HashMap::new();
    for (n, x) in v {
        if x.is_zero() {
            return Err(format!("{} is zero", n));
        }
        let small = if crate::WORDS == 1 { 18 } else { 190 };
        if x.into_repr().num_bits() <= small || (-*x).into_repr().num_bits() <= small {
            return Err(format!("{} = {} is not drawn from the whole field", n, x));
        }
        if let Some(o) = seen.insert(*x, n) {
            return Err(format!("{} and {} are equal", o, n));
        }
    }
    let mut steps = HashSet::new();
    let mut ratios = HashSet::new();
    for w in v.windows(2) {
        if !steps.insert(w[1].1 - w[0].1) {
            return Err(format!("repeated step at {} -> {}", w[0].0, w[1].0));
        }
        if !ratios.insert(w[1].1 / w[0].1) {
            return Err(format!("repeated ratio at {} -> {}", w[0].0, w[1].0));
        }
    }
    Ok(())
}

fn rows(n: usize, c: &TCom) -> Result<Vec<Fr>, String> {
    if c.c.len() > n {
        return Err(format!("polynomial with {} coefficients in a domain of {}", c.c.len(), n));
    }
    Ok(domain(n).fft(&DensePolynomial::from_coefficients_slice(&c.c).coeffs))
}

/// Randomness of every commitment, then the blinding rows of prover-made columns.
fn material(c: &Circ, p: &P) -> Result<(Vec<(String, Fr)>, Vec<(String, Fr)>), String> {
    let mut rs = vec![];
    for (n, com) in named(p) {
        if com.r.len() < 2 {
            return Err(format!("commitment {} carries {} blinding coefficients", n, com.r.len()));
        }
        for (j, x) in com.r.iter().enumerate() {
            rs.push((format!("randomness {} of {}", j, n), *x));
        }
    }
    let mut bs = vec![];
    let mut add = |n: String, com: &TCom, from: usize| -> Result<(), String> {
        for (i, x) in rows(c.n, com)?.into_iter().enumerate().skip(from) {
            bs.push((format!("row {} of {}", i, n), x));
        }
        Ok(())
    };
    for (i, com) in p.z_commitments.iter().enumerate() {
        add(format!("permutation z {}", i), com, c.pu + 1)?;
    }
    for (i, com) in p.lookup_commitments.iter().enumerate() {
        add(format!("permuted lookup column {}", i), com, c.u)?;
    }
    for (i, com) in p.lookup_z_commitments.iter().enumerate() {
        add(format!("lookup z {}", i), com, c.u + 1)?;
    }
    Ok((rs, bs))
}

fn prove(s: &Sys<Tpc<0>>, seed: u64, ch: &Ch) -> Result<P, String> {
    recfs::set_queue(Some(ch.queue()));
    let p = s.prove::<RecFs>(seed);
    recfs::set_queue(None);
    p
}

fn blinding(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    classify(&c, st);
    st.nt();
    let sys = Sys::<Tpc<0>>::new(&c, &a)?;
    let ch = Ch::rand(s.seed);
    let (s1, s2) = (s.seed ^ 0x11, s.seed ^ 0x2200);
    // the same challenges in both proofs: everything that differs comes from the prover's randomness
    let p1 = prove(&sys, s1, &ch)?;
    let p2 = prove(&sys, s2, &ch)?;
    let p3 = prove(&sys, s1, &ch)?;
    if ser(&p1) != ser(&p3) {
        return Err("equal randomness gave different proofs".into());
    }
    let (r1, b1) = material(&c, &p1)?;
    let (r2, b2) = material(&c, &p2)?;
    if !b1.is_empty() {
        st.hit("blinding-rows");
    }
    if b1.len() > 8 {
        st.hit("blinding-rows>8");
    }
    let all: Vec<_> = r1.iter().chain(b1.iter()).cloned().collect();
    looks_random(&all)?;
    if r1.len() != r2.len() || b1.len() != b2.len() {
        return Err("proofs of one statement have different shapes".into());
    }
    let other: HashSet<Fr> = r2.iter().chain(b2.iter()).map(|x| x.1).collect();
    for (n, x) in &all {
        if other.contains(x) {
            return Err(format!("{} is the same with other randomness", n));
        }
        if a.w.iter().chain(&a.i).chain(&a.f).chain(&a.t).any(|col| col.contains(x)) || ch.queue().contains(x) {
            return Err(format!("{} is not fresh: it is a table value or a challenge", n));
        }
    }
    // differences between the two runs must not follow a pattern either
    let diff: Vec<_> = r1.iter().zip(&r2).chain(b1.iter().zip(&b2)).map(|(x, y)| (format!("difference in {}", x.0), x.1 - y.1)).collect();
    looks_random(&diff)?;
    share_nothing(&p1, &p2)?;
    // the proofs stand under the ordinary transcript (opened randomness consistent)
    for seed in [s1, s2] {
        let p = sys.prove::<RecFs>(seed)?;
        sys.verify::<RecFs>(p)?;
    }
    // opening the randomness of the final combination depends on the fresh one
    if p1.multiopen_proof.opening_proof == p2.multiopen_proof.opening_proof {
        return Err("opening proofs equal although the randomness differs".into());
    }
    Ok(())
}

fn share_nothing<PC: Pcs>(p1: &TPProof<Fr, PC>, p2: &TPProof<Fr, PC>) -> Result<(), String> {
    let n1 = named(p1);
    let n2 = named(p2);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for (n, x) in n1.iter().chain(n2.iter()) {
        if !seen.insert(ser(x)) {
            return Err(format!("commitment {} occurs twice over two proofs", n));
        }
    }
    Ok(())
}

fn pair<PC: Pcs, FS: FiatShamirRng>(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    classify(&c, st);
    st.nt();
    let sys = Sys::<PC>::new(&c, &a)?;
    let q = |seed| -> Result<TPProof<Fr, PC>, String> { sys.prove::<FS>(seed) };
    let p1 = q(s.seed ^ 0x31)?;
    let p2 = q(s.seed ^ 0x3200)?;
    let p3 = q(s.seed ^ 0x31)?;
    if ser(&p1) != ser(&p3) {
        return Err("equal randomness gave different proofs".into());
    }
    share_nothing(&p1, &p2)?;
    sys.verify::<FS>(p1)?;
    sys.verify::<FS>(p2)?;
    Ok(())
}

/// Two statements whose witness columns agree (or vanish) must not show it.
fn repeated_columns(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (mut c, mut a) = s.build();
    // no constraints besides a copy-free trivial gate: all witness columns equal
    c.gates = vec![Ex::Scale(Ex::Mul(Ex::q(Ty::W, 0, 0).b(), Ex::q(Ty::W, 0, 0).b()).b(), Fr::zero())];
    c.lookups.clear();
    c.sigma.clear();
    c.permuted.iter_mut().for_each(|x| *x = false);
    if c.missing.len() > 1 {
        st.hit("reduced-zh");
    }
    let col = if s.seed % 3 == 0 { vec![Fr::zero(); c.n] } else { a.w[0].clone() };
    for w in a.w.iter_mut() {
        *w = col.clone();
    }
    if a.w.len() > 1 {
        st.nt();
        st.hit(&format!("columns={}", a.w.len()));
    }
    let sys = Sys::<Kzg>::new(&c, &a)?;
    let p1 = sys.prove::<RealFs>(s.seed)?;
    let p2 = sys.prove::<RealFs>(s.seed + 1)?;
    share_nothing(&p1, &p2)
}

pub fn check() -> Check {
    Check {
        id: "C19",
        rule: "a case is a generated constraint system with a satisfying assignment, proved under two randomness seeds with the same challenges (blinding), the real transcript (pair, pair_kzg) or with all witness columns equal (repeated_columns; non-trivial when there are at least two columns)",
        assumptions: vec!["two independent field elements of 255 bits do not coincide, lie below 2^190 or repeat a step or ratio by chance"],
        fams: vec![
            fam("blinding", 6000, 150000, || spec_strat(Want { copy_pct: 75, lookup_pct: 60, ..Want::default() }), |s: &Spec, st| blinding(s, st)),
            fam("blinding_wide", 400, 10000, || spec_strat(Want { wide: true, copy_pct: 75, lookup_pct: 60, ..Want::default() }), |s: &Spec, st| blinding(s, st)),
            fam("blinding_large", 60, 1500, || spec_strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 2, maxdeg: 4, copy_pct: 75, lookup_pct: 60, ..Want::default() }), |s: &Spec, st| blinding(s, st)),
            fam("pair", 3000, 80000, || spec_strat(Want::default()), |s: &Spec, st| pair::<Tpc<0>, RecFs>(s, st)),
            fam("pair_wide", 200, 5000, || spec_strat(Want { wide: true, ..Want::default() }), |s: &Spec, st| pair::<Tpc<0>, RecFs>(s, st)),
            fam("pair_kzg", 80, 2500, || spec_strat(Want { max_log: 4, max_w: 5, ..Want::default() }), |s: &Spec, st| pair::<Kzg, RealFs>(s, st)),
            fam("repeated_columns", 80, 2000, || spec_strat(Want { min_log: 2, max_log: 4, copy_pct: 0, lookup_pct: 0, ..Want::default() }), |s: &Spec, st| repeated_columns(s, st)),
        ],
        known: vec![],
    }
}
