use super::c02::{attack, control, identity, plain_aux};
use crate::adv::*;
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::UniformRand;
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    pick: u16,
    kind: u8,
    tab: u8,
    at: u16,
    ctl: bool,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), any::<u16>(), 0u8..9, 0u8..4, any::<u16>(), proptest::bool::weighted(0.1))
        .prop_map(|(s, pick, kind, tab, at, ctl)| Case { s, pick, kind, tab, at, ctl })
        .boxed()
}

/// Removes one looked-up tuple from the usable rows of its table.
fn remove_tuple(c: &Circ, a: &mut Asg, li: usize, pick: u16, tab: u8, seed: u64, st: &mut Stat) {
    let l = &c.lookups[li];
    let mut r = rng(seed ^ 0x7ab);
    let row = match pick % 4 {
        0 => 0,
        1 => c.u - 1,
        _ => pick as usize / 4 % c.u,
    };
    let t = c.tuple(l, a, row);
    let others: Vec<Vec<Fr>> = (0..c.u).map(|x| c.tuple(l, a, x)).filter(|x| *x != t).collect();
    for k in 0..c.u {
        if c.table_row(l, a, k) == t {
            let mut v = if others.is_empty() || r.gen_range(0..3) == 0 {
                t.iter().map(|_| Fr::rand(&mut r)).collect::<Vec<_>>()
            } else {
                others[r.gen_range(0..others.len())].clone()
            };
            if tab == 1 && t.len() > 1 {
                // each component is somewhere in the table, the tuple is not
                let j = r.gen_range(0..t.len());
                let keep = t[j];
                v = t.iter().map(|_| Fr::rand(&mut r)).collect();
                v[j] = keep;
                st.hit("mixed-columns");
            }
            c.set_table_row(l, a, k, &v);
        }
    }
    if tab == 2 && c.n - 1 > c.u {
        // the tuple stays on a row that is not usable
        let k = r.gen_range(c.u..c.n);
        c.set_table_row(l, a, k, &t);
        st.hit("present-on-unusable-row");
    }
}

fn run<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, mut a) = k.s.build();
    if c.lookups.is_empty() {
        return Ok(());
    }
    let ch = Ch::rand(k.s.seed);
    if k.ctl {
        let sys = Sys::<PC>::new(&c, &a)?;
        let lay = layout(&c, &sys.vside(), ch.xi);
        control(&c, &a, &ch, &lay, &sys, st)?;
    }
    let li = k.pick as usize / 1024 % c.lookups.len();
    remove_tuple(&c, &mut a, li, k.pick, k.tab, k.s.seed, st);
    let bad = c.lookup_violations(&a);
    if !bad.iter().any(|b| b.0 == li) {
        st.hit("still-satisfied");
        return Ok(());
    }
    st.nt();
    let sys = Sys::<PC>::new(&c, &a)?;
    match sys.prove::<RealFs>(k.s.seed ^ 1) {
        Ok(p) => {
            if sys.verify::<RealFs>(p).is_ok() {
                return Err(format!("library proof accepted although the tuples at (lookup, row) {:?} are not in the table", bad));
            }
        }
        Err(_) => st.hit("library-prover-refused"),
    }
    let lay = layout(&c, &sys.vside(), ch.xi);
    let row = match k.at % 4 {
        0 => 0,
        1 => c.u - 1,
        _ => k.at as usize / 4 % c.u,
    };
    let brk = match k.kind {
        0 => Brk::Start,
        1 => Brk::StartZero,
        2 | 3 => Brk::Step(0, row),
        4 => Brk::StepZero(0, row),
        5 => Brk::First,
        6 | 7 => Brk::Adj(k.at as usize / 4),
        _ => Brk::End,
    };
    let mut aux = plain_aux(&c, &a, &lay, &ch, k.s.seed);
    for l in 0..c.lookups.len() {
        if bad.iter().any(|b| b.0 == l) {
            if let Some((ap, sp, z)) = lookup_aux(&c, &a, l, &ch, brk, k.s.seed) {
                aux.ap[l] = ap;
                aux.sp[l] = sp;
                aux.lz[l] = z;
            }
        }
    }
    let b = broken(&c, &a, &lay, &ch, &aux);
    if b.is_empty() {
        return Err("harness: reference constraints do not show the missing tuple".into());
    }
    if b.len() == 1 {
        st.hit(&format!("only-{}", format!("{:?}", b.keys().next().unwrap()).split('(').next().unwrap()));
    }
    let omit: BTreeSet<Tag> = b.keys().cloned().collect();
    attack(&c, &a, &aux, &ch, &lay, &sys, &omit, &format!("tuples at (lookup, row) {:?} not in the table, argument broken at {:?}", bad, b), st)
}

/// With `PermutationInfo::empty()` the end row of the lookup aggregation is row
/// 0, so the product is never checked and false lookups can be proved.
fn demo() -> Option<String> {
    for seed in 0..40u64 {
        let mut runner = proptest::test_runner::TestRunner::new_with_rng(
            Default::default(),
            proptest::test_runner::TestRng::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &[seed as u8; 32]),
        );
        use proptest::strategy::ValueTree;
        let s = spec_strat(Want { copy_pct: 0, lookup_pct: 100, drop_pct: 0, max_log: 3, min_log: 3, ..Want::default() })
            .new_tree(&mut runner)
            .unwrap()
            .current();
        let (mut c, mut a) = s.build();
        let mut st = Stat::default();
        remove_tuple(&c, &mut a, 0, 8, 0, 1, &mut st);
        let bad = c.lookup_violations(&a);
        if bad.is_empty() || c.u < 3 {
            continue;
        }
        c.pu = 0;
        let ch = Ch::rand(seed);
        let r = guard(|| -> Result<bool, String> {
            let sys = Sys::<Tpc<0>>::new(&c, &a)?;
            let lay = layout(&c, &sys.vside(), ch.xi);
            let mut aux = Aux::default();
            for l in 0..c.lookups.len() {
                let (mut ap, sp, mut z) = lookup_aux(&c, &a, l, &ch, Brk::StepZero(0, 0), 3).unwrap();
                // nothing is checked at row 0, and zero satisfies every later step
                for k in 1..c.n {
                    z[k] = Fr::from(0u64);
                }
                ap[c.u] = ap[c.u - 1];
                aux.ap.push(ap);
                aux.sp.push(sp);
                aux.lz.push(z);
            }
            let p = ref_prove::<Tpc<0>>(&c, &a, &aux, &sys.ck, &sys.vside(), &lay, &ch, &|t| Some(t.exp), 1)?;
            Ok(verify_queued(&mut sys.vside(), p, &ch).is_ok())
        });
        crate::sys::arena_clear();
        if let Ok(Ok(true)) = r {
            return Some(format!(
                "a lookup of tuples outside the table is accepted when the keys are made with PermutationInfo::empty() (u = 0): the lookup aggregation's end is then checked at row 0 only (seed {}, rows {:?})",
                seed, bad
            ));
        }
    }
    None
}

pub fn check() -> Check {
    let w = Want { copy_pct: 12, lookup_pct: 100, ..Want::default() };
    Check {
        id: "C04",
        rule: "identity: generated systems with lookups, the verifier's identity compared with the reference lookup relation at random claimed evaluations; all count. adversary: counts when a looked-up tuple was removed from the usable table rows (replaced, column-mixed, or left on an unusable row only); the library prover and a dishonest prover that breaks one chosen part of the argument, with the broken constraint kept, left out, or renumbered",
        assumptions: vec!["the permutation info's row count equals the usable rows (the other case is the recorded finding)", "binding commitments and unpredictable challenges (C06, C07, C10)"],
        fams: vec![
            fam("identity", 3000, 100000, || spec_strat(Want { copy_pct: 25, lookup_pct: 100, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("adversary", 3000, 100000, move || strat(w), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("identity_wide", 500, 15000, || spec_strat(Want { wide: true, copy_pct: 25, lookup_pct: 100, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("identity_large", 60, 2000, || spec_strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 3, maxdeg: 4, copy_pct: 25, lookup_pct: 100, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("adversary_wide", 500, 15000, move || strat(Want { wide: true, ..w }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("adversary_large", 60, 2000, move || strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 2, maxdeg: 4, ..w }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("adversary_kzg", 40, 1500, || strat(Want { copy_pct: 5, lookup_pct: 100, max_log: 3, max_w: 4, max_gates: 2, ..Want::default() }), |k: &Case, st| run::<Kzg>(k, st)),
        ],
        known: vec![Known { id: "empty-permutation-info", demo }],
    }
}
