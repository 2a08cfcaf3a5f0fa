use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc, TCom};
use crate::Fr;
use ark_ff::{FftField, Field, UniformRand};
use ark_poly::EvaluationDomain;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::piop::error::Error as PErr;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    log_n: u8,
    log_ext: u8,
    kind: u8,
    pool: u8,
    rots: Vec<(u8, bool)>,
    point: u8,
    label: String,
    plabel: String,
    seed: u64,
}
fn strat(logs: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    (
        logs,
        0u8..=3,
        0u8..3,
        0u8..4,
        proptest::collection::vec((prop_oneof![Just(0u8), Just(1u8), 0u8..8, any::<u8>()], any::<bool>()), 1..6),
        any::<u8>(),
        "[a-z0-9_]{0,6}",
        "[a-z0-9_]{0,4}",
        any::<u64>(),
    )
        .prop_map(|(log_n, log_ext, kind, pool, rots, point, label, plabel, seed)| Case { log_n, log_ext, kind, pool, rots, point, label, plabel, seed })
        .boxed()
}

/// A rotation below n; on large domains beyond a byte too.
fn reach(k: u8, n: usize) -> usize {
    let k = k as usize;
    if n > 256 && k > 32 {
        (k * (n / 256) + k % 3) % n
    } else {
        k % n
    }
}

fn prover_side<O: Instantiable<Fr> + Clone>(c: &Case, mut o: O, evals: &[Fr], missing: impl Fn(&PErr) -> bool, st: &mut Stat) -> Result<(), String> {
    let n = evals.len();
    let d = domain(n);
    let ext = domain(n << c.log_ext);
    let om = omega(n);
    let poly = interp(n, evals);
    let omegas: Vec<Fr> = d.elements().collect();
    let x = cval(c.point);
    if o.get_label() != c.label {
        return Err("label changed".into());
    }
    if o.get_degree(n) != n - 1 {
        return Err("degree of a column is not domain size - 1".into());
    }
    if o.query(&x).map_err(|e| format!("{:?}", e))? != ev(&poly.coeffs, x) {
        return Err("query at a point is not the polynomial's value".into());
    }
    if o.evals() != evals || o.polynomial() != &poly {
        return Err("evals or polynomial changed".into());
    }
    match guard(|| o.query_in_coset(0, rot(0))) {
        Ok(Err(e)) if missing(&e) => {}
        Ok(Err(e)) => return Err(format!("wrong error for unprepared coset evals: {:?}", e)),
        Ok(Ok(_)) => return Err("coset value without prepared evals".into()),
        Err(p) => return Err(format!("unprepared coset query panicked: {}", p)),
    }
    if o.get_extended_coset_evals().is_ok() {
        return Err("coset evals without preparation".into());
    }
    o.compute_extended_evals(&ext);
    let g = Fr::multiplicative_generator();
    let mut labels: BTreeMap<String, Fr> = BTreeMap::new();
    let lag = d.evaluate_all_lagrange_coefficients(x);
    if o.query_in_evals_form(&lag) != ev(&poly.coeffs, x) {
        return Err("query in evaluation form differs from the polynomial".into());
    }
    let r0 = omegas.len();
    assert_eq!(r0, n);
    for (k, plus) in &c.rots {
        let k = reach(*k, n);
        let r = Rotation::new(k, if *plus { Sign::Plus } else { Sign::Minus });
        let shift = om.pow([if *plus { k as u64 } else { (n - k) as u64 }]);
        st.hit(if k == 0 { "rot0" } else if *plus { "rot+" } else { "rot-" });
        for i in 0..n {
            st.work += 1;
            if o.query_at_omega_in_original_domain(i, r) != ev(&poly.coeffs, om.pow([i as u64]) * shift) {
                return Err(format!("original-domain query at {} with {:?}", i, r));
            }
        }
        let gen = ext.element(1);
        let mut pt = g;
        let copy = o.clone();
        for i in 0..ext.size() {
            st.work += 1;
            let got = guard(|| copy.query_in_coset(i, r)).map_err(|e| format!("coset query at {} with {:?} panicked: {}", i, r, e))?;
            if got.map_err(|e| format!("{:?}", e))? != ev(&poly.coeffs, pt * shift) {
                return Err(format!("coset query at {} with {:?}", i, r));
            }
            pt *= gen;
        }
        if r.compute_evaluation_point(x, &omegas) != x * shift {
            return Err(format!("evaluation point of {:?}", r));
        }
        let (l, p) = r.get_point_info(&c.plabel, x, &omegas);
        if p != x * shift {
            return Err(format!("point info of {:?}", r));
        }
        if let Some(q) = labels.insert(l.clone(), p) {
            if q != p {
                return Err(format!("one point label {:?} for two points", l));
            }
        }
        o.register_rotation(r);
    }
    let want: BTreeSet<Rotation> = c
        .rots
        .iter()
        .map(|(k, p)| Rotation::new(reach(*k, n), if *p { Sign::Plus } else { Sign::Minus }))
        .collect();
    if o.get_queried_rotations() != &want {
        return Err("registered rotations are not the ones asked for".into());
    }
    Ok(())
}

fn query_set<O: QuerySetProvider<Fr> + Clone>(c: &Case, mut o: O, n: usize) -> Result<(), String> {
    let bare = o.clone();
    let om = omega(n);
    let omegas: Vec<Fr> = domain(n).elements().collect();
    let x = cval(c.point);
    let mut points = BTreeSet::new();
    for (k, plus) in &c.rots {
        let k = reach(*k, n);
        o.register_rotation(Rotation::new(k, if *plus { Sign::Plus } else { Sign::Minus }));
        points.insert(x * om.pow([if *plus { k as u64 } else { (n - k) as u64 }]));
    }
    let qs = o.get_query_set(&c.plabel, x, &omegas);
    if !bare.get_queried_rotations().is_empty() {
        return Err("registering a rotation changed a copy made before".into());
    }
    let again = o.clone();
    if again.get_query_set(&c.plabel, x, &omegas) != qs {
        return Err("a copy has another query set".into());
    }
    let got: BTreeSet<Fr> = qs.iter().map(|(_, (_, p))| *p).collect();
    if got != points {
        return Err("query set does not contain exactly the rotated points".into());
    }
    if qs.iter().any(|(l, _)| l != &c.label) {
        return Err("query set names another oracle".into());
    }
    let mut by_label: BTreeMap<&String, Fr> = BTreeMap::new();
    for (_, (pl, p)) in &qs {
        if let Some(q) = by_label.insert(pl, *p) {
            if q != *p {
                return Err("one point label for two points in a query set".into());
            }
        }
    }
    Ok(())
}

fn verifier_side<O: CommittedOracle<Fr, Tpc<0>> + Clone>(c: &Case, o: &mut O, put: impl Fn(&mut O, Fr, Fr), no_commitment: impl Fn(&PErr) -> bool) -> Result<(), String> {
    let mut r = rng(c.seed ^ 5);
    match o.get_commitment() {
        Err(e) if no_commitment(&e) => {}
        Err(e) => return Err(format!("wrong error for a missing commitment: {:?}", e)),
        Ok(_) => return Err("commitment out of nowhere".into()),
    }
    let com = TCom::new(vec![Fr::rand(&mut r)], vec![]);
    let mut first = o.clone();
    o.register_commitment(com.clone());
    if first.get_commitment().is_ok() {
        return Err("registering on a copy changed the original".into());
    }
    if o.clone().get_commitment().map(|x| x.clone()).ok() != Some(com.clone()) {
        return Err("a copy lost the registered commitment".into());
    }
    first.register_commitment(com.clone());
    if o.get_commitment().map(|x| x.clone()).ok() != Some(com) {
        return Err("registered commitment is not returned".into());
    }
    let mut reg: BTreeMap<Fr, Fr> = BTreeMap::new();
    let om = omega(1 << c.log_n);
    let x = cval(c.point);
    for (k, _) in &c.rots {
        let p = x * om.pow([*k as u64]);
        let v = Fr::rand(&mut r);
        put(o, p, v);
        reg.insert(p, v);
    }
    let copy = o.clone();
    if copy.get_label() != o.get_label() || copy.get_queried_rotations() != o.get_queried_rotations() {
        return Err("a copy has another label or other rotations".into());
    }
    for (p, v) in &reg {
        if o.query(p).map_err(|e| format!("{:?}", e))? != *v {
            return Err("registered value is not returned".into());
        }
        if copy.query(p).ok() != Some(*v) {
            return Err("a copy lost a registered value".into());
        }
        if first.query(p).is_ok() {
            return Err("registering a value on an oracle changed a copy made before".into());
        }
    }
    for k in 0..(1u64 << c.log_n) {
        let p = x * om.pow([k]) ;
        if !reg.contains_key(&p) {
            match o.query(&p) {
                Err(PErr::MissingConcreteEval(l)) if l == c.label => {}
                Err(e) => return Err(format!("wrong error for an unregistered point: {:?}", e)),
                Ok(_) => return Err("verifier oracle answers an unregistered point".into()),
            }
        }
    }
    match o.query(&(x + Fr::from(17u64))) {
        Err(_) => {}
        Ok(_) if reg.contains_key(&(x + Fr::from(17u64))) => {}
        Ok(_) => return Err("verifier oracle answers an unregistered point".into()),
    }
    Ok(())
}

fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let n = 1usize << c.log_n;
    let mut r = rng(c.seed);
    let evals: Vec<Fr> = (0..n).map(|_| pool_val(c.pool, &mut r)).collect();
    st.nt();
    match c.kind {
        0 => {
            st.hit("witness");
            prover_side(c, wpo(&c.label, &evals, false), &evals, |e| matches!(e, PErr::MissingCosetWitnessEval(l) if *l == c.label), st)?;
            query_set(c, wpo(&c.label, &evals, true), n)?;
            query_set(c, WitnessVerifierOracle::<Fr, Tpc<0>>::new(c.label.clone(), true), n)?;
            let mut v = WitnessVerifierOracle::<Fr, Tpc<0>>::new(c.label.clone(), c.point & 1 == 1);
            if v.should_include_in_copy() != (c.point & 1 == 1) || wpo("x", &evals, true).should_include_in_copy() != true {
                return Err("copy flag".into());
            }
            verifier_side(c, &mut v, |o, p, x| o.register_eval_at_challenge(p, x), |e| matches!(e, PErr::MissingWitnessCommitment(l) if *l == c.label))
        }
        1 => {
            st.hit("instance");
            prover_side(c, ipo(&c.label, &evals), &evals, |e| matches!(e, PErr::MissingCosetInstanceEval(l) if *l == c.label), st)?;
            let v = InstanceVerifierOracle::new(c.label.clone(), interp(n, &evals));
            let x = cval(c.point);
            if v.query(&x).map_err(|e| format!("{:?}", e))? != ev(&interp(n, &evals).coeffs, x) {
                return Err("verifier's instance value is not the polynomial's".into());
            }
            Ok(())
        }
        _ => {
            st.hit("fixed");
            prover_side(c, fpo(&c.label, &evals), &evals, |e| matches!(e, PErr::MissingCosetFixedEval(l) if *l == c.label), st)?;
            query_set(c, fpo(&c.label, &evals), n)?;
            query_set(c, FixedVerifierOracle::<Fr, Tpc<0>>::new(c.label.clone(), None), n)?;
            let ext = domain(n << c.log_ext);
            let a = FixedProverOracle::from_evals_and_domains(c.label.clone(), &evals, &domain(n), &ext);
            let mut b = fpo(&c.label, &evals);
            b.compute_extended_evals(&ext);
            if a.evals() != b.evals() || a.polynomial() != b.polynomial() || a.get_extended_coset_evals().ok() != b.get_extended_coset_evals().ok() || a.get_label() != c.label {
                return Err("the two constructors of fixed columns disagree".into());
            }
            let mut v = FixedVerifierOracle::<Fr, Tpc<0>>::new(c.label.clone(), None);
            verifier_side(c, &mut v, |o, p, x| o.register_eval_at_challenge(p, x), |e| matches!(e, PErr::MissingFixedCommitment(l) if *l == c.label))
        }
    }
}
pub fn check() -> Check {
    Check {
        id: "C12",
        rule: "a case is one column (witness, instance or fixed, domain 1..64, extension factor 1..8) and a list of rotations of both signs; every case is non-trivial: every rotation is compared at every position of the domain and of the extended coset with direct polynomial evaluation; inner executions count these comparisons",
        assumptions: vec!["rotation degrees are below the domain size"],
        fams: vec![
            fam("columns", 40000, 1500000, || strat(0..=6), |c: &Case, st| run(c, st)),
            fam("large", 60, 1500, || strat(7..=11), |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
