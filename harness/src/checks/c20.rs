use super::c01::classify;
use super::c06::{coms_mut, els_mut};
use crate::recfs::RecFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::{One, UniformRand};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::data_structures::{ProverKey, ProverPreprocessedInput};
use zero_over_k::error::Error;
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::witness::WitnessProverOracle;
use zero_over_k::verif_hooks::{MockProver, TPProof, TurboPlonk};
use zero_over_k::PIL;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// statement, randomness
    Prove(u8, u8),
    /// statement with a damaged witness, randomness
    ProveBroken(u8, u8),
    /// statement, randomness
    Mock(u8, u8),
    /// claimed statement, proof of the pool, change (0 = none), seed of the change
    Verify(u8, u8, u8, u16),
    /// configure the gates again on the verifier's oracles
    Reconfigure,
    /// go on with clones of some of the shared objects
    Clones(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    alt: u64,
    ops: Vec<Op>,
}
fn strat(w: Want, max: usize) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        3 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Op::Prove(a, b % 4)),
        1 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Op::ProveBroken(a, b)),
        1 => (0u8..3, any::<u8>()).prop_map(|(a, b)| Op::Mock(a, b)),
        4 => (0u8..3, 0u8..4).prop_map(|(a, b)| Op::Verify(a, b, 0, 0)),
        5 => (0u8..3, 0u8..4, 1u8..9, any::<u16>()).prop_map(|(a, b, c, d)| Op::Verify(a, b, c, d)),
        1 => Just(Op::Reconfigure),
        1 => any::<u8>().prop_map(Op::Clones),
    ];
    (spec_strat(w), any::<u64>(), proptest::collection::vec(op, 2..max)).prop_map(|(s, alt, ops)| Case { s, alt, ops }).boxed()
}

/// Another satisfying assignment over the same preprocessed columns.
fn variant(c: &Circ, a: &Asg, seed: u64) -> Option<Asg> {
    let mut r = rng(seed);
    for _ in 0..12 {
        let mut b = a.clone();
        for _ in 0..r.gen_range(1..4) {
            let (cols, k) = if !b.i.is_empty() && r.gen() { (&mut b.i, 0) } else { (&mut b.w, 1) };
            let _ = k;
            if cols.is_empty() {
                continue;
            }
            let x = r.gen_range(0..cols.len());
            let y = r.gen_range(0..c.n);
            cols[x][y] += Fr::rand(&mut r);
        }
        c.refill(&mut b);
        if b.f == a.f && b.t == a.t && b != *a && c.satisfied(&b) {
            return Some(b);
        }
    }
    None
}

#[derive(PartialEq, Debug)]
enum Out {
    Done(Vec<u8>),
    Fails(String),
    Panics,
}
fn short(o: &Out) -> String {
    match o {
        Out::Done(b) => format!("Ok(#{:x})", hash_str(&format!("{:?}", b))),
        Out::Fails(e) => e.chars().take(120).collect(),
        Out::Panics => "panic".into(),
    }
}
fn out<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>, f: impl Fn(&T) -> Vec<u8>) -> (Out, Option<T>) {
    match r {
        Ok(Ok(x)) => (Out::Done(f(&x)), Some(x)),
        Ok(Err(e)) => (Out::Fails(format!("{:?}", e)), None),
        Err(_) => (Out::Panics, None),
    }
}
fn tweak<PC: Pcs>(p: &mut TPProof<Fr, PC>, other: &TPProof<Fr, PC>, kind: u8, seed: u16) -> &'static str {
    let s = seed as usize;
    let mut r = rng(seed as u64);
    match kind {
        1 | 2 => {
            let mut v = els_mut(p);
            let n = v.len();
            *v[s % n].1 += Fr::one();
            "one value + 1"
        }
        3 => {
            let mut v = els_mut(p);
            for (_, x) in v.iter_mut() {
                **x = Fr::rand(&mut r);
            }
            "all values random"
        }
        4 => {
            let mut o = cp(other);
            let from: Vec<PC::Commitment> = coms_mut(&mut o).into_iter().map(|x| x.1.clone()).collect();
            let mut v = coms_mut(p);
            let n = v.len();
            *v[s % n].1 = from[(s / 7) % from.len()].clone();
            "one commitment replaced"
        }
        5 => {
            p.witness_evals.pop();
            "witness evaluation dropped"
        }
        6 => {
            p.quotient_chunks_evals.push(Fr::one());
            "quotient evaluation added"
        }
        7 => {
            p.multiopen_proof.q_evals.pop();
            "q evaluation dropped"
        }
        _ => {
            p.multiopen_proof.opening_proof = other.multiopen_proof.opening_proof.clone();
            let a = els_mut(p).len();
            let mut v = els_mut(p);
            *v[a - 1].1 += Fr::one();
            "last q evaluation + 1, opening proof of another proof"
        }
    }
}

struct Stm {
    a: Asg,
    broken: Asg,
    w: Vec<WitnessProverOracle<Fr>>,
    i: Vec<InstanceProverOracle<Fr>>,
    bw: Vec<WitnessProverOracle<Fr>>,
    bi: Vec<InstanceProverOracle<Fr>>,
}

fn history<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, a0) = k.s.build();
    let mut asgs = vec![a0.clone()];
    for x in 0..2 {
        if let Some(b) = variant(&c, &a0, k.alt ^ x) {
            asgs.push(b);
        }
    }
    let mut sh = Sys::<PC>::new(&c, &a0)?;
    let mut vs = sh.vside();
    let mut stms = vec![];
    let mut vi: Vec<Vec<InstanceVerifierOracle<Fr>>> = vec![];
    for a in &asgs {
        let mut broken = a.clone();
        let mut r = rng(k.alt ^ 77);
        let x = r.gen_range(0..broken.w.len());
        let y = r.gen_range(0..c.n);
        broken.w[x][y] += Fr::one();
        let p = pside(&c, a);
        let b = pside(&c, &broken);
        stms.push(Stm { a: a.clone(), broken, w: p.w, i: p.i, bw: b.w, bi: b.i });
        vi.push(VSide::new(&c, &a.i, &sh.coms, &sh.pvk).i);
    }
    // the pool of proofs: made fresh
    let mut pool: Vec<(usize, TPProof<Fr, PC>)> = vec![];
    for (j, a) in asgs.iter().enumerate() {
        let p = Sys::<PC>::new(&c, a)?.prove::<RecFs>(k.alt ^ (j as u64) << 8)?;
        pool.push((j, p));
    }
    let (mut acc, mut rej) = (0, 0);
    let mut prv = 0;
    for (at, op) in k.ops.iter().enumerate() {
        let ctx = |what: &str, got: &Out, want: &Out| Err(format!("step {} ({:?}): {} on shared objects gives {}, on fresh ones {}", at, op, what, short(got), short(want)));
        match op {
            Op::Prove(s, seed) => {
                let j = *s as usize % stms.len();
                let m = &mut stms[j];
                let seed = k.alt ^ *seed as u64;
                let (got, p) = out(
                    guard(|| TurboPlonk::<Fr, PC, RecFs>::prove(&sh.pk, &sh.pp, &mut m.w, &mut m.i, &dynv(&sh.ps.gates), c.n, &mut rng(seed))),
                    |p| ser(p),
                );
                let fresh = Sys::<PC>::new(&c, &m.a)?;
                let (want, _) = out(guard(|| fresh.prove_raw::<RecFs>(seed)), |p| ser(p));
                if got != want {
                    return ctx("proving", &got, &want);
                }
                prv += 1;
                if let Some(p) = p {
                    if pool.len() < 8 {
                        pool.push((j, p));
                    } else {
                        pool[at % 8] = (j, p);
                    }
                }
            }
            Op::ProveBroken(s, seed) => {
                let j = *s as usize % stms.len();
                let m = &mut stms[j];
                let seed = k.alt ^ *seed as u64;
                let (got, p) = out(
                    guard(|| TurboPlonk::<Fr, PC, RecFs>::prove(&sh.pk, &sh.pp, &mut m.bw, &mut m.bi, &dynv(&sh.ps.gates), c.n, &mut rng(seed))),
                    |p| ser(p),
                );
                let fresh = Sys::<PC>::new(&c, &m.broken)?;
                let (want, _) = out(guard(|| fresh.prove_raw::<RecFs>(seed)), |p| ser(p));
                if got != want {
                    return ctx("proving a damaged witness", &got, &want);
                }
                st.hit(if p.is_some() { "broken-proved" } else { "broken-refused" });
                if let Some(p) = p {
                    pool.push((j, p));
                }
            }
            Op::Mock(s, sel) => {
                let j = *s as usize % stms.len();
                let m = &mut stms[j];
                let brk = sel % 2 == 1;
                let (mw, mi) = if brk { (&mut m.bw, &mut m.bi) } else { (&mut m.w, &mut m.i) };
                let (got, _) = out(
                    guard(|| MockProver::<Fr, PC, RecFs>::prove(&sh.pk, &sh.pp, mw, mi, &dynv(&sh.ps.gates), c.n, &mut rng(1)).map(|_| ())),
                    |_| vec![],
                );
                let fresh = Sys::<PC>::new(&c, if brk { &m.broken } else { &m.a })?;
                let (mut fw, mut fi) = (fresh.ps.w.clone(), fresh.ps.i.clone());
                let (want, _) = out(
                    guard(|| MockProver::<Fr, PC, RecFs>::prove(&fresh.pk, &fresh.pp, &mut fw, &mut fi, &dynv(&fresh.ps.gates), c.n, &mut rng(1)).map(|_| ())),
                    |_| vec![],
                );
                if got != want {
                    return ctx("mock proving", &got, &want);
                }
                st.hit("mock");
            }
            Op::Verify(s, which, kind, seed) => {
                let j = *s as usize % stms.len();
                // the same few proofs come back again and again
                let x = *which as usize % pool.len();
                let mut p = cp(&pool[x].1);
                if *kind > 0 {
                    let o = cp(&pool[*seed as usize % pool.len()].1);
                    st.hit(tweak(&mut p, &o, *kind, *seed));
                } else {
                    st.hit(if pool[x].0 == j { "own proof" } else { "proof of another statement" });
                }
                let verdict = |r: Result<Result<(), Error<PC::Error>>, String>| out(r, |_| vec![]).0;
                let q = cp(&p);
                std::mem::swap(&mut vs.i, &mut vi[j]);
                let got = verdict(guard(|| vs.verify::<RecFs>(p)));
                std::mem::swap(&mut vs.i, &mut vi[j]);
                let mut f = VSide::new(&c, &stms[j].a.i, &sh.coms, &sh.pvk);
                let want = verdict(guard(|| f.verify::<RecFs>(q)));
                match want {
                    Out::Done(_) => acc += 1,
                    _ => rej += 1,
                }
                if got != want {
                    return ctx("verifying", &got, &want);
                }
            }
            Op::Clones(what) => {
                if what & 1 != 0 {
                    vs.w = vs.w.clone();
                    vs.pre = vs.pre.clone();
                }
                if what & 2 != 0 {
                    vs.vk = vs.vk.clone();
                }
                if what & 4 != 0 {
                    sh.pk = ProverKey::from_ck_and_vk(&sh.ck, &sh.pk.vk.clone());
                }
                if what & 8 != 0 {
                    sh.pp = ProverPreprocessedInput {
                        fixed_oracles: sh.pp.fixed_oracles.clone(),
                        permutation_oracles: sh.pp.permutation_oracles.clone(),
                        table_oracles: sh.pp.table_oracles.clone(),
                        q_blind: sh.pp.q_blind.clone(),
                        empty_rands_for_fixed: sh.pp.empty_rands_for_fixed.clone(),
                    };
                }
                if what & 16 != 0 {
                    for m in stms.iter_mut() {
                        m.w = m.w.clone();
                        m.i = m.i.clone();
                    }
                }
                if what & 32 != 0 {
                    // the verifier uses the key inside the prover's
                    vs.vk = sh.pk.vk.clone();
                }
                st.hit("clones");
            }
            Op::Reconfigure => {
                let VSide { w, pre, gates, .. } = &mut vs;
                for j in 0..vi.len() {
                    for g in gates.iter_mut() {
                        g.configure(w, &mut vi[j], &mut pre.fixed_oracles);
                    }
                }
                st.hit("reconfigured");
            }
        }
    }
    if acc + rej + prv >= 2 {
        st.nt();
        classify(&c, st);
        if acc > 0 && rej > 0 {
            st.hit("accepts-and-rejects");
        }
        st.hit(&format!("statements={}", asgs.len()));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    s: Spec,
    pick: u64,
    /// (system, verify, change)
    ops: Vec<(bool, bool, u8)>,
}
fn two_strat(w: Want) -> BoxedStrategy<Two> {
    (spec_strat(w), any::<u64>(), proptest::collection::vec((any::<bool>(), any::<bool>(), prop_oneof![Just(0u8), 0u8..9]), 2..9)).prop_map(|(s, pick, ops)| Two { s, pick, ops }).boxed()
}

/// The same column objects serve two systems of different degrees (and so of
/// different extended domains), each with its own keys and preprocessed data.
fn two_systems<PC: Pcs>(k: &Two, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let mut d = c.clone();
    let mut r = rng(k.pick);
    let some = r.gen_range(0..d.gates.len().max(1));
    for (i, g) in d.gates.iter_mut().enumerate() {
        if i == some || r.gen_range(0..3) == 0 {
            // vanishes on the same rows; together the gates ask the same questions
            let o = c.gates[r.gen_range(0..i + 1)].clone();
            *g = Ex::Mul(Box::new(g.clone()), Box::new(o));
        }
    }
    let cs = [c.clone(), d];
    let sys = [Sys::<PC>::new(&cs[0], &a)?, Sys::<PC>::new(&cs[1], &a)?];
    let (e0, e1) = (sys[0].pk.vk.index_info.extended_coset_domain, sys[1].pk.vk.index_info.extended_coset_domain);
    st.hit(if e0 == e1 { "same-extended-domain" } else { "different-extended-domains" });
    let mut w = sys[0].ps.w.clone();
    let mut i = sys[0].ps.i.clone();
    let mut vs = [sys[0].vside(), sys[1].vside()];
    let mut pool = vec![];
    for s in 0..2 {
        pool.push(Sys::<PC>::new(&cs[s], &a)?.prove::<RecFs>(k.pick ^ s as u64)?);
    }
    let mut at = 0; // whose column objects the verifiers share
    for (n, (which, verify, change)) in k.ops.iter().enumerate() {
        let s = *which as usize;
        if *verify {
            let mut p = cp(&pool[if *change == 8 { 1 - s } else { s }]);
            if *change > 0 && *change < 8 {
                let o = cp(&pool[1 - s]);
                tweak(&mut p, &o, *change, (k.pick >> n) as u16);
            }
            if at != s {
                let (x, y) = vs.split_at_mut(1);
                std::mem::swap(&mut x[0].w, &mut y[0].w);
                std::mem::swap(&mut x[0].i, &mut y[0].i);
                at = s;
                st.hit("columns-change-verifier");
            }
            let (got, _) = out(guard(|| vs[s].verify::<RecFs>(cp(&p))), |_| vec![]);
            let mut f = sys[s].vside();
            let (want, _) = out(guard(|| f.verify::<RecFs>(cp(&p))), |_| vec![]);
            st.hit(if let Out::Done(_) = want { "accepts" } else { "rejects" });
            if got != want {
                return Err(format!("step {}: verifying for system {} with shared columns gives {}, with fresh ones {}", n, s, short(&got), short(&want)));
            }
        } else {
            let seed = k.pick ^ *change as u64;
            let (got, p) = out(guard(|| TurboPlonk::<Fr, PC, RecFs>::prove(&sys[s].pk, &sys[s].pp, &mut w, &mut i, &dynv(&sys[s].ps.gates), c.n, &mut rng(seed))), |p| ser(p));
            let fresh = Sys::<PC>::new(&cs[s], &a)?;
            let (want, _) = out(guard(|| fresh.prove_raw::<RecFs>(seed)), |p| ser(p));
            if got != want {
                return Err(format!("step {}: proving for system {} with shared columns gives {}, with fresh ones {}", n, s, short(&got), short(&want)));
            }
            if let Some(p) = p {
                pool[s] = p;
            }
        }
    }
    let systems: std::collections::BTreeSet<bool> = k.ops.iter().map(|x| x.0).collect();
    if systems.len() == 2 {
        st.nt();
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C20",
        rule: "a case is a generated constraint system with up to three satisfying assignments over the same preprocessed columns and a sequence of prove / mock-prove / verify / reconfigure steps on shared objects, or two systems of different degrees over the same column objects; non-trivial when at least two proofs or verifications took place",
        assumptions: vec!["the reference is the same code run on objects made from scratch for each step"],
        fams: vec![
            fam("history", 4500, 60000, || strat(Want { max_log: 4, max_w: 6, ..Want::default() }, 14), |k: &Case, st| history::<Tpc<0>>(k, st)),
            fam("history_wide", 500, 4000, || strat(Want { wide: true, ..Want::default() }, 8), |k: &Case, st| history::<Tpc<0>>(k, st)),
            fam("history_large", 24, 600, || strat(Want { min_log: 7, max_log: 10, max_w: 4, max_gates: 2, maxdeg: 4, ..Want::default() }, 8), |k: &Case, st| history::<Tpc<0>>(k, st)),
            fam("two_systems", 1200, 30000, || two_strat(Want { max_log: 4, max_w: 5, ..Want::default() }), |k: &Two, st| two_systems::<Tpc<0>>(k, st)),
            fam("two_systems_wide", 60, 1500, || two_strat(Want { wide: true, ..Want::default() }), |k: &Two, st| two_systems::<Tpc<0>>(k, st)),
            fam("history_kzg", 48, 1500, || strat(Want { max_log: 3, max_w: 4, max_gates: 2, ..Want::default() }, 8), |k: &Case, st| history::<Kzg>(k, st)),
        ],
        known: vec![],
    }
}
