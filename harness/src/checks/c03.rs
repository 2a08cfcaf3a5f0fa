use super::c02::{attack, control, identity};
use crate::adv::*;
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::UniformRand;
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    cell: u16,
    val: u8,
    kind: u8,
    at: u16,
    ctl: bool,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), any::<u16>(), any::<u8>(), 0u8..9, any::<u16>(), proptest::bool::weighted(0.1))
        .prop_map(|(mut s, cell, val, kind, at, ctl)| {
            if s.copies.is_empty() {
                s.copies.push((0, 0, 1, 1));
            }
            Case { s, cell, val, kind, at, ctl }
        })
        .boxed()
}

fn run<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, mut a) = k.s.build();
    let ch = Ch::rand(k.s.seed);
    if k.ctl {
        let sys = Sys::<PC>::new(&c, &a)?;
        let lay = layout(&c, &sys.vside(), ch.xi);
        control(&c, &a, &ch, &lay, &sys, st)?;
    }
    // a cell with a partner
    let cells: Vec<_> = c.sigma.iter().filter(|(x, y)| x != y).map(|(x, _)| *x).collect();
    if cells.is_empty() {
        st.hit("no-copies");
        return Ok(());
    }
    let cell = match k.cell % 4 {
        0 => *cells.iter().max_by_key(|x| x.1).unwrap(),
        1 => *cells.iter().max_by_key(|x| x.0).unwrap(),
        _ => cells[k.cell as usize / 4 % cells.len()],
    };
    let col = c.perm_cols()[cell.0];
    let mut r = rng(k.s.seed ^ k.val as u64);
    a.w[col][cell.1] = match k.val % 4 {
        0 => a.w[col][cell.1] + Fr::from(1u64),
        // value of another cell: the multiset of values may stay the same
        1 => a.w[c.perm_cols()[r.gen_range(0..c.num_perm())]][r.gen_range(0..c.n)],
        _ => Fr::rand(&mut r),
    };
    if k.val % 4 == 2 {
        // exchange two cells
        let o = cells[r.gen_range(0..cells.len())];
        let oc = c.perm_cols()[o.0];
        let t = a.w[oc][o.1];
        a.w[oc][o.1] = a.w[col][cell.1];
        a.w[col][cell.1] = t;
    }
    c.refill(&mut a);
    c.retable(&mut a);
    if c.copies_ok(&a) {
        st.hit("still-satisfied");
        return Ok(());
    }
    st.nt();
    if cell.1 == c.u - 1 {
        st.hit("last-usable-row");
    }
    let sys = Sys::<PC>::new(&c, &a)?;
    let lay = layout(&c, &sys.vside(), ch.xi);
    st.hit(&format!("chunks={}", lay.nz.min(4)));
    match sys.prove::<RealFs>(k.s.seed ^ 1) {
        Ok(p) => {
            if sys.verify::<RealFs>(p).is_ok() {
                return Err(format!("library proof accepted although cell {:?} differs from its copies", cell));
            }
        }
        Err(_) => st.hit("library-prover-refused"),
    }
    let i = k.at as usize % lay.nz;
    let row = match k.at / 64 % 4 {
        0 => 0,
        1 => c.u - 1,
        2 => cell.1,
        _ => k.at as usize / 256 % c.u,
    };
    let brk = match k.kind {
        0 => Brk::Start,
        1 => Brk::StartZero,
        2 | 3 => Brk::Step(i, row),
        4 => Brk::StepZero(i, row),
        5 | 6 if lay.nz > 1 => Brk::Stitch(k.at as usize % (lay.nz - 1)),
        7 if lay.nz > 1 => Brk::StitchZero(k.at as usize % (lay.nz - 1)),
        _ => Brk::End,
    };
    let mut aux = super::c02::plain_aux(&c, &a, &lay, &ch, k.s.seed);
    aux.z = perm_aux(&c, &a, &lay, &ch, brk, k.s.seed);
    let b = broken(&c, &a, &lay, &ch, &aux);
    if b.is_empty() {
        return Err("harness: reference constraints do not show the violated copy".into());
    }
    if b.len() == 1 {
        let tag = b.keys().next().unwrap();
        st.hit(&format!("only-{}", format!("{:?}", tag).split('(').next().unwrap()));
    }
    let omit: BTreeSet<Tag> = b.keys().cloned().collect();
    attack(&c, &a, &aux, &ch, &lay, &sys, &omit, &format!("copy of cell {:?} violated, argument broken at {:?}", cell, b), st)
}

pub fn check() -> Check {
    let w = Want { copy_pct: 100, lookup_pct: 8, ..Want::default() };
    Check {
        id: "C03",
        rule: "identity: generated systems with copy constraints, the verifier's identity compared with the reference permutation relation at random claimed evaluations; all count. adversary: counts when two cells of one cycle differ; the library prover and a dishonest prover that breaks one chosen part (start, one step, hand-over, end, or through zero) and keeps the others, with the broken constraint kept, left out, or renumbered",
        assumptions: vec!["the permutation info's row count equals the usable rows", "binding commitments and unpredictable challenges (C06, C07, C10)"],
        fams: vec![
            fam("identity", 3000, 100000, || spec_strat(Want { copy_pct: 100, lookup_pct: 15, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("adversary", 3000, 100000, move || strat(w), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("identity_wide", 500, 15000, || spec_strat(Want { wide: true, copy_pct: 100, lookup_pct: 15, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("identity_large", 60, 2000, || spec_strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 3, maxdeg: 4, copy_pct: 100, lookup_pct: 15, ..Want::default() }), |s: &Spec, st| identity(s, st)),
            fam("adversary_wide", 500, 15000, move || strat(Want { wide: true, ..w }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("adversary_large", 60, 2000, move || strat(Want { min_log: 7, max_log: 11, max_w: 5, max_gates: 2, maxdeg: 4, ..w }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("adversary_kzg", 40, 1500, || strat(Want { copy_pct: 100, lookup_pct: 5, max_log: 3, max_w: 4, max_gates: 2, ..Want::default() }), |k: &Case, st| run::<Kzg>(k, st)),
        ],
        known: vec![],
    }
}
