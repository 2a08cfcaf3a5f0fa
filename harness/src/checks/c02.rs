use super::c18::apply_changes;
use crate::adv::*;
use crate::recfs::{RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::{UniformRand, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// How a dishonest prover enters the constraints into the quotient.
pub const STYLES: usize = 3;
/// All proofs a prover of this kind builds over the given columns are run;
/// Err as soon as one is accepted.
pub fn attack<PC: Pcs>(
    c: &Circ,
    a: &Asg,
    aux: &Aux,
    ch: &Ch,
    lay: &Lay,
    sys: &Sys<PC>,
    omit: &BTreeSet<Tag>,
    what: &str,
    st: &mut Stat,
) -> Result<(), String> {
    let base = sys.vside();
    for style in 0..STYLES {
        let exps = |t: &Term| -> Option<usize> {
            match style {
                0 => Some(t.exp),
                _ if omit.contains(&t.tag) => None,
                1 => Some(t.exp),
                // later powers move up when a constraint is left out
                _ => Some(t.exp - omit.iter().filter(|o| exp_of(c, lay, ch, o).map_or(false, |e| e < t.exp)).count()),
            }
        };
        if style == 2 && omit.is_empty() {
            continue;
        }
        let p = ref_prove::<PC>(c, a, aux, &sys.ck, &base, lay, ch, &exps, 11)?;
        st.work += 1;
        if verify_queued(&mut sys.vside(), p, ch).is_ok() {
            return Err(format!("accepted: {} (prover style {})", what, style));
        }
    }
    Ok(())
}
fn exp_of(c: &Circ, lay: &Lay, _: &Ch, t: &Tag) -> Option<usize> {
    let k = c.gates.len();
    Some(match t {
        Tag::Gate(g) => *g,
        Tag::PStart => k,
        Tag::PStep(i) => k + 1 + i,
        Tag::PStitch(i) => k + 1 + lay.nz + i,
        Tag::PEnd => k + 2 * lay.nz,
        Tag::LStart(i) => k + 2 * lay.nz + 5 * i,
        Tag::LStep(i) => k + 2 * lay.nz + 5 * i + 1,
        Tag::LEnd(i) => k + 2 * lay.nz + 5 * i + 2,
        Tag::LFirst(i) => k + 2 * lay.nz + 5 * i + 3,
        Tag::LAdj(i) => k + 2 * lay.nz + 5 * i + 4,
    })
}

/// Aggregation columns that keep as many constraints as they can.
pub fn plain_aux(c: &Circ, a: &Asg, lay: &Lay, ch: &Ch, seed: u64) -> Aux {
    let mut x = Aux::default();
    if lay.nz > 0 {
        x.z = perm_aux(c, a, lay, ch, Brk::End, seed);
    }
    for l in 0..c.lookups.len() {
        let (ap, sp, z) = lookup_aux(c, a, l, ch, Brk::End, seed ^ l as u64).unwrap();
        x.ap.push(ap);
        x.sp.push(sp);
        x.lz.push(z);
    }
    x
}

/// The harness prover must be able to convince on true statements, otherwise
/// its failures on false ones say nothing.
pub fn control<PC: Pcs>(c: &Circ, a: &Asg, ch: &Ch, lay: &Lay, sys: &Sys<PC>, st: &mut Stat) -> Result<bool, String> {
    let aux = plain_aux(c, a, lay, ch, 4);
    let p = ref_prove::<PC>(c, a, &aux, &sys.ck, &sys.vside(), lay, ch, &|t| Some(t.exp), 12)?;
    let r = verify_queued(&mut sys.vside(), p, ch);
    if r.is_ok() {
        st.hit("control-accepted");
    } else {
        st.hit("control-refused");
    }
    Ok(r.is_ok())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    changes: Vec<(u8, u8, u8, u8)>,
    ctl: bool,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), proptest::collection::vec((0u8..5, any::<u8>(), any::<u8>(), any::<u8>()), 1..3), proptest::bool::weighted(0.1))
        .prop_map(|(s, changes, ctl)| Case { s, changes, ctl })
        .boxed()
}
fn false_witness<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, a0) = k.s.build();
    let ch = Ch::rand(k.s.seed);
    if k.ctl {
        let sys = Sys::<PC>::new(&c, &a0)?;
        let lay = layout(&c, &sys.vside(), ch.xi);
        control(&c, &a0, &ch, &lay, &sys, st)?;
    }
    let mut a = a0;
    apply_changes(&mut a, c.n, &k.changes);
    let bad = c.gate_violations(&a);
    if bad.is_empty() {
        st.hit("still-satisfied");
        return Ok(());
    }
    st.nt();
    st.hit(&format!("violations={}", bad.len().min(4)));
    if bad.iter().any(|b| b.1 == 0 || b.1 == c.n - 1) {
        st.hit("boundary-row");
    }
    if bad.len() == 1 {
        st.hit("one-gate-one-row");
    }
    let sys = Sys::<PC>::new(&c, &a)?;
    st.work += 1;
    match sys.prove::<RealFs>(k.s.seed ^ 1) {
        Ok(p) => {
            if sys.verify::<RealFs>(p).is_ok() {
                return Err(format!("library proof over an assignment violating (gate, row) {:?} accepted", bad));
            }
        }
        Err(_) => st.hit("library-prover-refused"),
    }
    let lay = layout(&c, &sys.vside(), ch.xi);
    let aux = plain_aux(&c, &a, &lay, &ch, k.s.seed);
    let omit: BTreeSet<Tag> = broken(&c, &a, &lay, &ch, &aux).keys().cloned().collect();
    if !omit.iter().any(|t| matches!(t, Tag::Gate(_))) {
        return Err("harness: reference constraints do not show the violation".into());
    }
    attack(&c, &a, &aux, &ch, &lay, &sys, &omit, &format!("gates violated at {:?}", bad), st)
}

/// Two gates violated on one row by opposite values.
fn cancel(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, mut a) = s.build();
    if c.gates.len() < 2 {
        return Ok(());
    }
    let mut r = rng(s.seed ^ 0xca);
    use ark_std::rand::Rng;
    let g1 = r.gen_range(0..c.gates.len() - 1);
    let g2 = if r.gen_range(0..3) == 0 { r.gen_range(g1 + 1..c.gates.len()) } else { g1 + 1 };
    let req = c.required();
    let row = req[r.gen_range(0..req.len())];
    let bump = |a: &mut Asg, g: usize, d: Fr| {
        let (t, col, rot) = c.corr[g];
        let k = md(row as i32 + rot, c.n);
        match t {
            Ty::W => a.w[col][k] += d,
            Ty::I => a.i[col][k] += d,
            Ty::F => a.f[col][k] += d,
        }
    };
    bump(&mut a, g1, Fr::rand(&mut r));
    let v1 = c.eval_row(&c.gates[g1], &a, row);
    let v2 = c.eval_row(&c.gates[g2], &a, row);
    let mut b = a.clone();
    bump(&mut b, g2, Fr::from(1u64));
    use ark_ff::Field;
    let slope = c.eval_row(&c.gates[g2], &b, row) - v2;
    let inv = match slope.inverse() {
        Some(x) => x,
        None => return Ok(()),
    };
    let ratio = match r.gen_range(0..3) {
        0 => -Fr::from(1u64),
        _ => -Fr::from(1u64),
    };
    bump(&mut a, g2, (ratio * v1 - v2) * inv);
    let sum: Fr = c.eval_row(&c.gates[g1], &a, row) + c.eval_row(&c.gates[g2], &a, row);
    let bad = c.gate_violations(&a);
    if !bad.iter().any(|b| *b == (g1, row)) || !sum.is_zero() {
        return Ok(());
    }
    st.nt();
    if bad.len() == 2 {
        st.hit("exact-cancellation");
    }
    let sys = Sys::<Tpc<0>>::new(&c, &a)?;
    if let Ok(p) = sys.prove::<RealFs>(s.seed) {
        if sys.verify::<RealFs>(p).is_ok() {
            return Err(format!("opposite violations of gates {} and {} on row {} accepted", g1, g2, row));
        }
    }
    // quotient of the sum in which both gates carry the same power
    let ch = Ch::rand(s.seed);
    let lay = layout(&c, &sys.vside(), ch.xi);
    let aux = plain_aux(&c, &a, &lay, &ch, s.seed);
    for e in [g1, g2] {
        let p = ref_prove::<Tpc<0>>(
            &c,
            &a,
            &aux,
            &sys.ck,
            &sys.vside(),
            &lay,
            &ch,
            &|t| Some(if t.tag == Tag::Gate(g1) || t.tag == Tag::Gate(g2) { e } else { t.exp }),
            7,
        )?;
        st.work += 1;
        if verify_queued(&mut sys.vside(), p, &ch).is_ok() {
            return Err(format!("opposite violations of gates {} and {} on row {} accepted", g1, g2, row));
        }
    }
    Ok(())
}

pub fn identity(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    super::c01::classify(&c, st);
    st.nt();
    st.work += probe(&c, &a, s.seed, 3)?;
    Ok(())
}

pub fn check() -> Check {
    let _ = |_: RecFs| ();
    let w = Want { copy_pct: 15, lookup_pct: 12, ..Want::default() };
    Check {
        id: "C02",
        rule: "identity: a case is a generated system on which the verifier's algebraic identity is evaluated at random claimed evaluations (three rounds) and compared with the reference constraints; every case counts. false_witness: counts when the changed cells violate a gate on a required row (library prover, and a dishonest prover dropping the remainder, leaving the broken constraints out, or renumbering). cancel: counts when two gates are violated by opposite values on one row",
        assumptions: vec!["binding commitments and unpredictable challenges (their use is C06, C07, C10)"],
        fams: vec![
            fam("identity", 4000, 120000, || spec_strat(Want { copy_pct: 30, lookup_pct: 25, max_gates: 6, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("false_witness", 2500, 80000, move || strat(w), |k: &Case, st| false_witness::<Tpc<0>>(k, st)),
            fam("cancel", 1500, 50000, || spec_strat(Want { copy_pct: 10, lookup_pct: 0, max_gates: 6, ..Want::default() }), |s: &Spec, st| cancel(s, st)),
            fam("identity_wide", 500, 15000, || spec_strat(Want { wide: true, copy_pct: 30, lookup_pct: 25, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("identity_large", 60, 2000, || spec_strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 3, maxdeg: 4, copy_pct: 30, lookup_pct: 25, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("false_witness_wide", 300, 10000, move || strat(Want { wide: true, ..w }), |k: &Case, st| false_witness::<Tpc<0>>(k, st)),
            fam("cancel_wide", 200, 6000, || spec_strat(Want { wide: true, copy_pct: 10, lookup_pct: 0, ..Want::default() }), |s: &Spec, st| cancel(s, st)),
            fam("false_witness_large", 60, 2000, move || strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 2, maxdeg: 4, ..w }), |k: &Case, st| false_witness::<Tpc<0>>(k, st)),
            fam("false_witness_kzg", 40, 1500, || strat(Want { copy_pct: 15, lookup_pct: 15, max_log: 3, max_w: 4, ..Want::default() }), |k: &Case, st| false_witness::<Kzg>(k, st)),
        ],
        known: vec![],
    }
}
