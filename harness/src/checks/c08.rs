use super::c06::{coms_mut, els_mut};
use crate::adv::*;
use crate::recfs::{self, RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{TCom, TProof, Tpc};
use crate::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::Rng;
use proptest::prelude::*;
use rand_chacha::ChaChaRng;
use serde::{Deserialize, Serialize};
use zero_over_k::verif_hooks::TPProof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    ops: Vec<(u8, u8, u8, u64)>,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), proptest::collection::vec((0u8..16, 0u8..8, any::<u8>(), any::<u64>()), 1..6)).prop_map(|(s, ops)| Case { s, ops }).boxed()
}

fn resize<T: Clone>(v: &mut Vec<T>, kind: u8, amt: u8, fresh: impl Fn() -> T) {
    match kind {
        0 => {
            v.pop();
        }
        1 => v.push(fresh()),
        2 => v.clear(),
        3 => {
            if let Some(x) = v.first().cloned() {
                v.push(x)
            }
        }
        4 => {
            if !v.is_empty() {
                v.remove(amt as usize % v.len());
            }
        }
        5 => {
            let n = amt as usize % 9;
            while v.len() > n {
                v.pop();
            }
            while v.len() < n {
                v.push(fresh());
            }
        }
        6 => {
            for _ in 0..(amt as usize % 40) {
                v.push(fresh());
            }
        }
        _ => {
            if v.len() > 1 {
                let n = v.len();
                v.swap(0, amt as usize % n);
            }
        }
    }
}

/// One structural change of a proof.
fn change<PC: Pcs>(p: &mut TPProof<Fr, PC>, what: u8, kind: u8, amt: u8, com: &dyn Fn() -> PC::Commitment, r: &mut ChaChaRng) -> String {
    let el = {
        let x = pool_val(3, r);
        move || x
    };
    let n = match what {
        0 => {
            resize(&mut p.witness_commitments, kind, amt, com);
            "witness_commitments"
        }
        1 => {
            resize(&mut p.witness_evals, kind, amt, el);
            "witness_evals"
        }
        2 => {
            resize(&mut p.fixed_oracle_evals, kind, amt, el);
            "fixed_oracle_evals"
        }
        3 => {
            resize(&mut p.table_oracle_evals, kind, amt, el);
            "table_oracle_evals"
        }
        4 => {
            resize(&mut p.permutation_oracle_evals, kind, amt, el);
            "permutation_oracle_evals"
        }
        5 => {
            resize(&mut p.lookup_commitments, kind, amt, com);
            "lookup_commitments"
        }
        6 => {
            resize(&mut p.lookup_z_commitments, kind, amt, com);
            "lookup_z_commitments"
        }
        7 => {
            resize(&mut p.lookup_evals, kind, amt, el);
            "lookup_evals"
        }
        8 => {
            resize(&mut p.lookup_z_evals, kind, amt, el);
            "lookup_z_evals"
        }
        9 => {
            resize(&mut p.z_commitments, kind, amt, com);
            "z_commitments"
        }
        10 => {
            resize(&mut p.z_evals, kind, amt, el);
            "z_evals"
        }
        11 => {
            resize(&mut p.quotient_chunk_commitments, kind, amt, com);
            "quotient_chunk_commitments"
        }
        12 => {
            resize(&mut p.quotient_chunks_evals, kind, amt, el);
            "quotient_chunks_evals"
        }
        13 => {
            resize(&mut p.multiopen_proof.q_evals, kind, amt, el);
            "q_evals"
        }
        14 => {
            let mut v = els_mut(p);
            let k = amt as usize % v.len();
            *v[k].1 = match kind {
                0 => Fr::zero(),
                1 => Fr::one(),
                2 => -Fr::one(),
                _ => Fr::rand(r),
            };
            "value"
        }
        _ => {
            let c = com();
            let mut v = coms_mut(p);
            let k = amt as usize % v.len();
            *v[k].1 = c;
            "commitment"
        }
    };
    format!("{}:{}", n, kind)
}
fn shape<PC: Pcs>(p: &TPProof<Fr, PC>) -> Vec<usize> {
    vec![
        p.witness_commitments.len(),
        p.witness_evals.len(),
        p.fixed_oracle_evals.len(),
        p.table_oracle_evals.len(),
        p.permutation_oracle_evals.len(),
        p.lookup_commitments.len(),
        p.lookup_z_commitments.len(),
        p.lookup_evals.len(),
        p.lookup_z_evals.len(),
        p.z_commitments.len(),
        p.z_evals.len(),
        p.quotient_chunk_commitments.len(),
        p.quotient_chunks_evals.len(),
        p.multiopen_proof.q_evals.len(),
    ]
}
const FIELDS: [&str; 14] = [
    "witness_commitments",
    "witness_evals",
    "fixed_oracle_evals",
    "table_oracle_evals",
    "permutation_oracle_evals",
    "lookup_commitments",
    "lookup_z_commitments",
    "lookup_evals",
    "lookup_z_evals",
    "z_commitments",
    "z_evals",
    "quotient_chunk_commitments",
    "quotient_chunks_evals",
    "q_evals",
];

/// Verifies, also with the algebraic identity made to hold so that the batched
/// opening is reached.
fn feed<PC: Pcs>(c: &Circ, a: &Asg, sys: &Sys<PC>, p: &TPProof<Fr, PC>, honest: &[usize], what: &str, st: &mut Stat) -> Result<(), String> {
    let sh = shape(p);
    let diff: Vec<&str> = (0..14).filter(|i| sh[*i] != honest[*i]).map(|i| FIELDS[i]).collect();
    let mut once = |v: &mut VSide<PC>, st: &mut Stat| -> Result<Option<Vec<Fr>>, String> {
        recfs::clear();
        st.work += 1;
        let r = guard(|| v.verify::<RecFs>(cp(p)));
        let ch = recfs::challenges(&recfs::take());
        match r {
            Err(e) => Err(format!("verifier panicked on a changed proof ({}): {}", what, e)),
            Ok(Ok(())) if !diff.is_empty() => Err(format!("accepted a proof with a wrong number of {:?} ({})", diff, what)),
            Ok(Ok(())) => {
                st.hit("accepted-shape-kept");
                Ok(None)
            }
            Ok(Err(e)) => {
                let e = format!("{:?}", e);
                st.hit(&format!("err-{}", e.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
                Ok(Some(ch))
            }
        }
    };
    let ch = match once(&mut sys.vside(), st)? {
        Some(c) if c.len() >= 5 => c,
        _ => return Ok(()),
    };
    let mut full = ch;
    full.resize(9, Fr::zero());
    let ch = Ch::from(&full);
    let zh = guard(|| {
        let lay = layout(c, &sys.vside(), ch.xi);
        fake_zh(c, &lay, p, &inst_polys(c, a), &ch)
    });
    if let Ok(Some(z)) = zh {
        let mut v = sys.vside();
        v.zh = z;
        st.hit("deep");
        once(&mut v, st)?;
    }
    Ok(())
}

fn run<PC: Pcs>(k: &Case, com: impl Fn(&mut ChaChaRng, &Sys<PC>) -> PC::Commitment, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let p = match sys.prove::<RealFs>(k.s.seed) {
        Ok(p) => p,
        Err(_) => {
            st.hit("not-proved");
            return Ok(());
        }
    };
    st.nt();
    super::c01::classify(&c, st);
    let honest = shape(&p);
    // each change alone, then all together
    let mut all = cp(&p);
    let mut names = vec![];
    for (w, kind, amt, seed) in &k.ops {
        let mut r = rng(*seed);
        let x = com(&mut r, &sys);
        let f = || x.clone();
        let mut q = cp(&p);
        let nm = change::<PC>(&mut q, *w, *kind, *amt, &f, &mut r.clone());
        feed(&c, &a, &sys, &q, &honest, &nm, st)?;
        change::<PC>(&mut all, *w, *kind, *amt, &f, &mut r);
        names.push(nm);
    }
    if k.ops.len() > 1 {
        feed(&c, &a, &sys, &all, &honest, &names.join(" "), st)?;
    }
    Ok(())
}
fn tcom(r: &mut ChaChaRng) -> TCom {
    let n = r.gen_range(0..6);
    TCom::new((0..n).map(|_| pool_val(3, r)).collect(), if n % 2 == 0 { vec![] } else { vec![Fr::rand(r)] })
}
fn kcom(r: &mut ChaChaRng, s: &Sys<Kzg>) -> <Kzg as ark_poly_commit::PolynomialCommitment<Fr, crate::tpc::Poly>>::Commitment {
    let v: Vec<Fr> = match r.gen_range(0..3) {
        0 => vec![],
        1 => vec![Fr::one()],
        _ => vec![Fr::rand(r), Fr::rand(r)],
    };
    commit_plain::<Kzg>(&s.ck, &[v]).unwrap().remove(0)
}

/// Proofs made of nothing but random parts, of random or of the right shape,
/// against a scheme that accepts every opening.
fn from_scratch(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<Tpc<1>>::new(&c, &a)?;
    let p = match sys.prove::<RealFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    st.nt();
    let honest = shape(&p);
    let mut r = rng(s.seed ^ 0x5c7a7c);
    for round in 0..4 {
        let lens: Vec<usize> = if round % 2 == 0 {
            honest.clone()
        } else {
            honest.iter().map(|x| if r.gen_range(0..6) > 0 { *x } else { r.gen_range(0..x + 3) }).collect()
        };
        let pool = r.gen_range(0..4);
        let mut fe = |r: &mut ChaChaRng, n: usize| (0..n).map(|_| pool_val(pool, r)).collect::<Vec<Fr>>();
        let mut fc = |r: &mut ChaChaRng, n: usize| (0..n).map(|_| tcom(r)).collect::<Vec<TCom>>();
        let q: TPProof<Fr, Tpc<1>> = TPProof {
            witness_commitments: fc(&mut r, lens[0]),
            witness_evals: fe(&mut r, lens[1]),
            fixed_oracle_evals: fe(&mut r, lens[2]),
            table_oracle_evals: fe(&mut r, lens[3]),
            permutation_oracle_evals: fe(&mut r, lens[4]),
            q_blind_eval: Fr::rand(&mut r),
            lookup_commitments: fc(&mut r, lens[5]),
            lookup_z_commitments: fc(&mut r, lens[6]),
            lookup_evals: fe(&mut r, lens[7]),
            lookup_z_evals: fe(&mut r, lens[8]),
            z_commitments: fc(&mut r, lens[9]),
            z_evals: fe(&mut r, lens[10]),
            quotient_chunk_commitments: fc(&mut r, lens[11]),
            quotient_chunks_evals: fe(&mut r, lens[12]),
            multiopen_proof: zero_over_k::multiproof::Proof {
                q_evals: fe(&mut r, lens[13]),
                f_commit: tcom(&mut r),
                opening_proof: TProof { rv: Fr::rand(&mut r) },
            },
        };
        feed(&c, &a, &sys, &q, &honest, "random proof", st)?;
    }
    Ok(())
}

/// Evaluations of one column chosen so that partial sums inside the verifier's
/// interpolation of them lose their leading term.
fn cancelling(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<Tpc<1>>::new(&c, &a)?;
    let p = match sys.prove::<RealFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let ch = Ch::rand(s.seed);
    let lay = layout(&c, &sys.vside(), ch.xi);
    let pt = |r: usize| ch.xi * omega(c.n).pow([r as u64]);
    let mut r = rng(s.seed ^ 0xcace1);
    // (part, slots with their rotation) per column with several rotations
    let mut cols: Vec<(Part, Vec<(usize, usize)>)> = vec![];
    for (part, m) in [(Part::W, &lay.w), (Part::F, &lay.f), (Part::T, &lay.t), (Part::Z, &lay.z)] {
        let ids: std::collections::BTreeSet<usize> = m.keys().map(|k| k.0).collect();
        for id in ids {
            let v: Vec<(usize, usize)> = m.iter().filter(|x| x.0 .0 == id).map(|x| (x.0 .1, *x.1)).collect();
            if v.len() > 1 {
                cols.push((part, v));
            }
        }
    }
    if cols.is_empty() {
        return Ok(());
    }
    st.nt();
    for x in &cols {
        if x.1.len() > 2 {
            st.hit("three-or-more-points");
        }
    }
    for round in 0..3 {
        let mut q = cp(&p);
        if round > 0 {
            // nothing else contributes to the combined evaluations
            for (part, i) in slots(&q) {
                part_mut(&mut q, part)[i] = Fr::zero();
            }
            part_mut(&mut q, Part::Q)[0] = Fr::one();
        }
        for (pr, v) in &cols {
            let mut v = v.clone();
            let k = v.len();
            for i in 0..k {
                v.swap(i, r.gen_range(i..k));
            }
            if round == 1 {
                // the order in which points are kept by the verifier
                v.sort_by_key(|x| pt(x.0));
            }
            // leading coefficient of the interpolation: sum of e_i / prod (x_i - x_j)
            let w = |i: usize| (0..k).filter(|j| *j != i).map(|j| pt(v[i].0) - pt(v[j].0)).fold(Fr::one(), |a, b| a * b).inverse().unwrap();
            let upto = if k == 2 { 2 } else { r.gen_range(2..k + 1) };
            let mut sum = Fr::zero();
            for i in 0..upto - 1 {
                let e = Fr::rand(&mut r);
                part_mut(&mut q, *pr)[v[i].1] = e;
                sum += e * w(i);
            }
            part_mut(&mut q, *pr)[v[upto - 1].1] = -sum * w(upto - 1).inverse().unwrap();
            for x in v.iter().skip(upto) {
                part_mut(&mut q, *pr)[x.1] = Fr::rand(&mut r);
            }
        }
        st.work += 1;
        let mut v = sys.vside();
        if let Some(z) = fake_zh(&c, &lay, &q, &inst_polys(&c, &a), &ch) {
            v.zh = z;
            st.hit("deep");
        }
        if let Err(e) = verify_queued(&mut v, q, &ch) {
            if e.starts_with("panic") {
                return Err(format!("verifier panicked on chosen evaluations: {}", e));
            }
        }
    }
    Ok(())
}

/// Evaluations chosen, knowing the challenges, to be the values at which some
/// factor of the identity or some difference vanishes: each alone, then several.
fn aimed(s: &Spec, cap: usize, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<Tpc<1>>::new(&c, &a)?;
    let p = match sys.prove::<RealFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    st.nt();
    super::c01::classify(&c, st);
    let ch = Ch::rand(s.seed);
    let lay = layout(&c, &sys.vside(), ch.xi);
    let inst = inst_polys(&c, &a);
    let mut r = rng(s.seed ^ 0xa1d);
    let pc = c.perm_cols();
    let lu = lagrange(c.n, c.pu, ch.xi);
    let l0 = lagrange(c.n, 0, ch.xi);
    let one = Fr::one();
    let common = vec![
        Fr::zero(),
        one,
        -one,
        ch.xi,
        -ch.beta,
        -ch.gamma,
        -ch.theta,
        -ch.alpha,
        -ch.beta - ch.gamma,
        -ch.beta * ch.gamma,
        ch.alpha.inverse().unwrap(),
        ch.theta.inverse().unwrap(),
        ch.xi.pow([c.n as u64]),
        l0,
        lu,
        one - lu,
        one - l0,
        -lu,
    ];
    // (slot, values of its own)
    let mut aims: Vec<(Slot, Vec<Fr>)> = vec![];
    let sl = slots(&p);
    for x in &sl {
        let mut v = common.clone();
        let cur = part(&p, x.0)[x.1];
        // values making this evaluation agree with another one of the proof
        for _ in 0..3 {
            let y = sl[r.gen_range(0..sl.len())];
            let e = part(&p, y.0)[y.1];
            v.push(e);
            v.push(-e);
        }
        v.push(-cur);
        match x.0 {
            Part::W => {
                for (k, j) in pc.iter().enumerate() {
                    if lay.w.get(&(*j, 0)) == Some(&x.1) {
                        v.push(-ch.beta * c.deltas[k] * ch.xi - ch.gamma);
                        if let Some(e) = p.permutation_oracle_evals.get(k) {
                            v.push(-ch.beta * e - ch.gamma);
                        }
                    }
                }
            }
            Part::S => {
                if let Some(j) = pc.get(x.1) {
                    if let Some(i) = lay.w.get(&(*j, 0)) {
                        v.push(-(p.witness_evals[*i] + ch.gamma) * ch.beta.inverse().unwrap());
                    }
                }
            }
            Part::T => {
                // the compressed table is -gamma, or the compressed row of the witness
                for l in &c.lookups {
                    let comp = |p: &TPProof<Fr, Tpc<1>>, tab: bool| -> Fr {
                        let acc = ProofAcc::new(&c, &lay, p, &inst, ch.xi);
                        let (mut x, mut pw) = (Fr::zero(), one);
                        for (e, t) in l.exprs.iter().zip(&l.tabs) {
                            x += pw * if tab { acc.tab(t.0, t.1) } else { e.eval(&|t, col, r| acc.q(t, col, r)) };
                            pw *= ch.theta;
                        }
                        x
                    };
                    let mut q = cp(&p);
                    part_mut(&mut q, Part::T)[x.1] = Fr::zero();
                    let at0 = comp(&q, true);
                    part_mut(&mut q, Part::T)[x.1] = one;
                    let d = comp(&q, true) - at0;
                    if let Some(i) = d.inverse() {
                        v.push((-ch.gamma - at0) * i);
                        v.push((comp(&p, false) - at0) * i);
                        v.push(-at0 * i);
                    }
                }
            }
            _ => (),
        }
        aims.push((*x, v));
    }
    let mut flat: Vec<(Slot, Fr)> = aims.iter().flat_map(|(s, v)| v.iter().map(move |x| (*s, *x))).collect();
    let k = flat.len();
    for i in 0..k.min(cap) {
        let j = r.gen_range(i..k);
        flat.swap(i, j);
    }
    flat.truncate(cap);
    let mut once = |q: TPProof<Fr, Tpc<1>>, deep: bool, what: String| -> Result<(), String> {
        st.work += 1;
        let mut v = sys.vside();
        if deep {
            match fake_zh(&c, &lay, &q, &inst, &ch) {
                Some(z) => {
                    st.hit("deep");
                    v.zh = z
                }
                None => return Ok(()),
            }
        }
        match verify_queued(&mut v, q, &ch) {
            Err(e) if e.starts_with("panic") => Err(format!("verifier panicked with {}: {}", what, e)),
            _ => Ok(()),
        }
    };
    for (i, (s, x)) in flat.iter().enumerate() {
        let mut q = cp(&p);
        part_mut(&mut q, s.0)[s.1] = *x;
        once(q, i % 4 == 0, format!("{:?} set to {}", s, x))?;
    }
    for i in 0..8 {
        let mut q = cp(&p);
        let mut names = vec![];
        for _ in 0..r.gen_range(2..5) {
            let (s, x) = flat[r.gen_range(0..flat.len())];
            part_mut(&mut q, s.0)[s.1] = x;
            names.push(s);
        }
        once(q, i % 2 == 0, format!("{:?} set together", names))?;
    }
    // every evaluation the same
    for x in [Fr::zero(), one, -ch.beta, -ch.gamma] {
        let mut q = cp(&p);
        for s in &sl {
            part_mut(&mut q, s.0)[s.1] = x;
        }
        once(q, x.is_zero(), format!("every evaluation {}", x))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    s: Spec,
    edits: Vec<(u8, u16, u8)>,
    mode: u8,
}
fn bytes_strat(w: Want) -> BoxedStrategy<Bytes> {
    (spec_strat(w), proptest::collection::vec((0u8..6, any::<u16>(), any::<u8>()), 1..5), 0u8..3).prop_map(|(s, edits, mode)| Bytes { s, edits, mode }).boxed()
}
pub fn edit(b: &mut Vec<u8>, edits: &[(u8, u16, u8)]) {
    for (k, at, v) in edits {
        if b.is_empty() {
            return;
        }
        let i = *at as usize % b.len();
        match k {
            0 => b[i] ^= 1 << (v % 8),
            1 => b[i] = *v,
            2 => b.truncate(i),
            3 => b.insert(i, *v),
            4 => {
                // copy of another stretch of the bytes
                let j = (*v as usize * crate::BYTES) % b.len();
                for d in 0..crate::BYTES {
                    if i + d < b.len() && j + d < b.len() {
                        b[i + d] = b[j + d];
                    }
                }
            }
            _ => {
                for d in 0..48 {
                    if i / 48 * 48 + d < b.len() {
                        b[i / 48 * 48 + d] = if d == 47 { 0x40 } else { 0 };
                    }
                }
            }
        }
    }
}
fn bytes<PC: Pcs>(k: &Bytes, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let p = match sys.prove::<RealFs>(k.s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let honest = shape(&p);
    let mut b = vec![];
    match k.mode {
        0 => p.serialize(&mut b).unwrap(),
        1 => p.serialize_uncompressed(&mut b).unwrap(),
        _ => p.serialize_unchecked(&mut b).unwrap(),
    }
    edit(&mut b, &k.edits);
    let d = guard(|| match k.mode {
        0 => TPProof::<Fr, PC>::deserialize(&b[..]),
        1 => TPProof::<Fr, PC>::deserialize_uncompressed(&b[..]),
        _ => TPProof::<Fr, PC>::deserialize_unchecked(&b[..]),
    });
    match d {
        Err(e) => Err(format!("decoding panicked: {}", e)),
        Ok(Err(_)) => {
            st.hit("not-decoded");
            Ok(())
        }
        Ok(Ok(q)) => {
            st.nt();
            feed(&c, &a, &sys, &q, &honest, "edited bytes", st)
        }
    }
}

pub fn check() -> Check {
    let w = Want { copy_pct: 50, lookup_pct: 40, ..Want::default() };
    let kw = Want { copy_pct: 50, lookup_pct: 40, max_log: 3, max_w: 4, ..Want::default() };
    Check {
        id: "C08",
        rule: "resized: accepted proofs with 1-5 vectors resized, emptied, extended, reordered or values replaced, alone and together, verified as they are and with the identity made to hold so that the batched opening is reached (with an exact scheme, one accepting every opening, and KZG); random: proofs of random parts; cancelling: evaluations chosen so that leading terms cancel in the verifier's interpolation; aimed: evaluations chosen, knowing the challenges, so that factors of the identity or differences vanish; bytes: edited proof bytes that still decode. A panic, or acceptance of a proof whose vector lengths differ from the honest ones, is a violation; a case counts when at least one changed proof was verified",
        assumptions: vec!["the evaluation challenge is not a root of unity and x3 is not an opening point (negligible probability)"],
        fams: vec![
            fam("resized", 2500, 40000, move || strat(w), |k: &Case, st| run::<Tpc<0>>(k, |r, _| tcom(r), st)),
            fam("resized_lax", 4000, 60000, move || strat(w), |k: &Case, st| run::<Tpc<1>>(k, |r, _| tcom(r), st)),
            fam("resized_wide", 200, 5000, move || strat(Want { wide: true, ..w }), |k: &Case, st| run::<Tpc<0>>(k, |r, _| tcom(r), st)),
            fam("resized_large", 40, 800, move || strat(Want { min_log: 7, max_log: 10, max_w: 4, max_gates: 2, maxdeg: 4, ..w }), |k: &Case, st| run::<Tpc<0>>(k, |r, _| tcom(r), st)),
            fam("resized_lax_wide", 200, 5000, move || strat(Want { wide: true, ..w }), |k: &Case, st| run::<Tpc<1>>(k, |r, _| tcom(r), st)),
            fam("random", 2500, 40000, move || spec_strat(w), |s: &Spec, st| from_scratch(s, st)),
            fam("cancelling", 2500, 40000, move || spec_strat(w), |s: &Spec, st| cancelling(s, st)),
            fam("aimed", 500, 10000, move || spec_strat(w), |s: &Spec, st| aimed(s, 60, st)),
            fam("aimed_wide", 20, 600, move || spec_strat(Want { wide: true, ..w }), |s: &Spec, st| aimed(s, 40, st)),
            fam("bytes", 4000, 50000, move || bytes_strat(w), |k: &Bytes, st| bytes::<Tpc<0>>(k, st)),
            fam("resized_kzg", 40, 1500, move || strat(kw), |k: &Case, st| run::<Kzg>(k, kcom, st)),
            fam("bytes_kzg", 100, 5000, move || bytes_strat(kw), |k: &Bytes, st| bytes::<Kzg>(k, st)),
        ],
        known: vec![],
    }
}
