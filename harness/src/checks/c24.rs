//! The commitment scheme fails: every operation that used it fails with it.
use super::c06::els_mut;
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{self, Fault, Tpc};
use crate::Fr;
use ark_ff::UniformRand;
use ark_std::rand::Rng;
use zero_over_k::verif_hooks::{MockProver, TPProof, TurboPlonk};
use zero_over_k::PIL as _;

type T = Tpc<0>;
type L = Tpc<1>;

fn injected(e: &str) -> bool {
    e.contains("Injected(")
}

/// The call must answer with the injected failure.
fn must_fail<X, E: std::fmt::Debug>(r: Result<Result<X, E>, String>, what: &str, st: &mut Stat) -> Result<(), String> {
    st.work += 1;
    match r {
        Err(p) => Err(format!("{} panicked: {}", what, p)),
        Ok(Ok(_)) => Err(format!("{} succeeded", what)),
        Ok(Err(e)) => {
            let e = format!("{:?}", e);
            st.hit(&format!("err-{}", e.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
            if injected(&e) {
                Ok(())
            } else {
                Err(format!("{} answered {} and not with the failure of the scheme", what, e))
            }
        }
    }
}

fn run(s: &Spec, st: &mut Stat) -> Result<(), String> {
    tpc::fault(Fault::None);
    let r = go(s, st);
    tpc::fault(Fault::None);
    r
}
fn go(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let mut r = rng(s.seed ^ 0xfa17);
    // setup and key preparation, of the prover and of the mock prover
    tpc::fault(Fault::At(0));
    must_fail(guard(|| TurboPlonk::<Fr, T, RealFs>::universal_setup(c.n, &mut r)), "setup with a failing scheme", st)?;
    tpc::fault(Fault::At(0));
    must_fail(guard(|| MockProver::<Fr, T, RealFs>::universal_setup(c.n, &mut r)), "mock setup with a failing scheme", st)?;
    tpc::fault(Fault::None);
    let srs = <T as Pcs>::srs(c.srs_max);
    tpc::fault(Fault::At(0));
    must_fail(guard(|| TurboPlonk::<Fr, T, RealFs>::prepare_keys(&srs)), "key preparation with a failing scheme", st)?;
    tpc::fault(Fault::At(0));
    must_fail(guard(|| MockProver::<Fr, T, RealFs>::prepare_keys(&srs)), "mock key preparation with a failing scheme", st)?;
    tpc::fault(Fault::None);

    let sys = Sys::<T>::new(&c, &a)?;
    tpc::fault(Fault::None);
    let p = match sys.prove::<RealFs>(s.seed) {
        Ok(p) => p,
        Err(_) => {
            st.hit("not-proved");
            return Ok(());
        }
    };
    let n = tpc::calls();
    if n < 3 {
        return Err(format!("proving used the commitment scheme {} times", n));
    }
    st.nt();
    super::c01::classify(&c, st);
    st.hit(&format!("calls={}", n));
    let honest = ser(&p);
    // each call of the prover fails, on objects that are used again
    let mut w = sys.ps.w.clone();
    let mut i = sys.ps.i.clone();
    let gates = dynv(&sys.ps.gates);
    let mut prove = |seed: u64| guard(|| TurboPlonk::<Fr, T, RealFs>::prove(&sys.pk, &sys.pp, &mut w, &mut i, &gates, c.n, &mut rng(seed)));
    for k in 0..n {
        for f in [Fault::At(k), Fault::From(k)] {
            if f == Fault::From(k) && r.gen_range(0..3) > 0 {
                continue;
            }
            tpc::fault(f);
            let x = prove(s.seed ^ k as u64);
            let used = tpc::calls();
            tpc::fault(Fault::None);
            must_fail(x, &format!("proving with call {} of {} failing ({:?})", k, n, f), st)?;
            if used != k + 1 {
                st.hit("went-on-after-failure");
            }
        }
        if k % 3 == (s.seed % 3) as usize || k + 1 == n {
            match prove(s.seed) {
                Ok(Ok(q)) if ser(&q) == honest => (),
                Ok(Ok(_)) => return Err(format!("after a failure of call {} the proof made is not the one a fresh prover makes", k)),
                Ok(Err(e)) => return Err(format!("after a failure of call {} proving gives {:?}", k, e)),
                Err(e) => return Err(format!("after a failure of call {} proving panics: {}", k, e)),
            }
            st.hit("recovered");
        }
    }
    // the verifier
    let mut v = sys.vside();
    tpc::fault(Fault::None);
    guard(|| v.verify::<RealFs>(cp(&p))).map_err(|e| format!("verify panicked: {}", e))?.map_err(|e| format!("honest proof refused: {:?}", e))?;
    let m = tpc::calls();
    if m == 0 {
        return Err("accepted without asking the commitment scheme".into());
    }
    for k in 0..m {
        tpc::fault(Fault::At(k));
        must_fail(guard(|| v.verify::<RealFs>(cp(&p))), "verification with a failing scheme", st)?;
    }
    tpc::fault(Fault::SayNo);
    match guard(|| v.verify::<RealFs>(cp(&p))) {
        Err(e) => return Err(format!("verify panicked: {}", e)),
        Ok(Ok(())) => return Err("accepted although the opening check said no".into()),
        Ok(Err(_)) => (),
    }
    tpc::fault(Fault::None);
    if let Err(e) = v.verify::<RealFs>(cp(&p)) {
        return Err(format!("after failures of the scheme the honest proof is refused: {:?}", e));
    }
    Ok(())
}

/// Acceptance needs the identity and a check that says yes: wrong claims with a
/// scheme that says yes to everything, no to everything, or fails.
fn table(s: &Spec, st: &mut Stat) -> Result<(), String> {
    tpc::fault(Fault::None);
    let r = table_go(s, st);
    tpc::fault(Fault::None);
    r
}
fn table_go(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<L>::new(&c, &a)?;
    tpc::fault(Fault::None);
    let p = match sys.prove::<RealFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    st.nt();
    let mut r = rng(s.seed ^ 0x7ab1e);
    let mut bad: TPProof<Fr, L> = cp(&p);
    let k = bad.quotient_chunks_evals.len();
    bad.quotient_chunks_evals[r.gen_range(0..k)] += Fr::rand(&mut r);
    let mut messy: TPProof<Fr, L> = cp(&p);
    for (_, x) in els_mut(&mut messy) {
        *x = Fr::rand(&mut r);
    }
    let mut v = sys.vside();
    for (q, identity, name) in [(&p, true, "an honest proof"), (&bad, false, "a wrong quotient"), (&messy, false, "random evaluations")] {
        for f in [Fault::None, Fault::SayNo, Fault::At(0), Fault::From(0)] {
            tpc::fault(f);
            let x = guard(|| v.verify::<RealFs>(cp(q)));
            tpc::fault(Fault::None);
            st.work += 1;
            let want = identity && f == Fault::None;
            match x {
                Err(e) => return Err(format!("verify panicked on {} with {:?}: {}", name, f, e)),
                Ok(r) if r.is_ok() != want => return Err(format!("{} with {:?} gives {:?}", name, f, r)),
                Ok(Err(e)) if identity && f != Fault::SayNo && !injected(&format!("{:?}", e)) => {
                    return Err(format!("{} with {:?} answers {:?} and not the failure of the scheme", name, f, e))
                }
                _ => (),
            }
        }
    }
    Ok(())
}

pub fn check() -> Check {
    let w = Want { copy_pct: 50, lookup_pct: 40, ..Want::default() };
    Check {
        id: "C24",
        rule: "failing: for a generated satisfied system, every call to the commitment scheme made by setup, key preparation (prover and mock prover), proving and verification fails in turn (alone, or with every later call); the operation must answer with that failure, and the same objects must afterwards make the proof a fresh prover makes and accept it; table: honest and wrong proofs with a check that says yes, says no, or fails. A case counts when an honest proof was made and its calls were failed one by one",
        assumptions: vec!["the scheme fails by returning an error (a panic inside the scheme is its own)"],
        fams: vec![
            fam("failing", 1200, 30000, move || spec_strat(w), |s: &Spec, st| run(s, st)),
            fam("failing_wide", 60, 1500, move || spec_strat(Want { wide: true, ..w }), |s: &Spec, st| run(s, st)),
            fam("failing_large", 16, 400, move || spec_strat(Want { min_log: 7, max_log: 9, max_w: 4, max_gates: 2, maxdeg: 4, ..w }), |s: &Spec, st| run(s, st)),
            fam("table", 2500, 60000, move || spec_strat(w), |s: &Spec, st| table(s, st)),
        ],
        known: vec![],
    }
}
