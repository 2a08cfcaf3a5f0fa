use crate::runner::*;
use crate::Fr;
use crate::spec::cval;
use ark_ff::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use zero_over_k::lookup::permute::permute_for_lookup;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    table: Vec<u8>,
    a: Vec<u16>,
    outsider: Option<(u16, u8)>,
}
fn val(x: u8) -> Fr {
    match x {
        0..=200 => Fr::from(x as u64 / 3),
        201..=205 => -Fr::from(x as u64 - 200),
        _ => cval(x),
    }
}
fn strat(max: usize) -> BoxedStrategy<Case> {
    let pool = prop_oneof![
        3 => (1u8..6).prop_map(|k| (0..k).map(|i| i * 50).collect::<Vec<u8>>()),
        2 => Just((0u8..=255).collect::<Vec<u8>>()),
        1 => Just(vec![0u8, 0, 3, 201, 255]),
        2 => (3u8..=255, 1u8..6).prop_map(|(f, k)| (0..k).map(|i| f.saturating_add(3 * i)).collect::<Vec<u8>>()),
    ];
    (1..=max, pool, any::<u8>())
        .prop_flat_map(|(n, pool, mode)| {
            let k = pool.len();
            let t = proptest::collection::vec((0..k).prop_map(move |i| pool[i]), n);
            // few distinct inputs, or all distinct, or anything
            let a: BoxedStrategy<Vec<u16>> = match mode % 4 {
                0 => (any::<u16>(), any::<u16>()).prop_flat_map(move |(x, y)| proptest::collection::vec(prop_oneof![Just(x), Just(y)], n)).boxed(),
                1 => Just((0..n).map(|i| ((i * 65536) / n) as u16 + 1).collect::<Vec<u16>>()).prop_shuffle().boxed(),
                _ => proptest::collection::vec(any::<u16>(), n).boxed(),
            };
            (t, a, proptest::option::weighted(0.3, (any::<u16>(), prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => prop_oneof![Just(3u8), Just(201u8), Just(255u8)]])))
        })
        .prop_map(|(table, a, outsider)| Case { table, a, outsider })
        .boxed()
}
fn counts(v: &[Fr]) -> BTreeMap<Fr, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}
fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let n = c.table.len().min(c.a.len());
    if n == 0 {
        return Ok(());
    }
    let s: Vec<Fr> = c.table[..n].iter().map(|x| val(*x)).collect();
    let mut a: Vec<Fr> = c.a[..n].iter().map(|i| s[*i as usize * n / 65536]).collect();
    let mut outside = false;
    if let Some((p, v)) = c.outsider {
        let i = p as usize * n / 65536;
        let mut x = val(v);
        while s.contains(&x) {
            x += Fr::from(1u64);
        }
        a[i] = x;
        outside = true;
    }
    st.nt();
    let r = guard(|| permute_for_lookup(&a, &s));
    if outside {
        st.hit(if counts(&a).contains_key(&Fr::zero()) && !s.contains(&Fr::zero()) { "zero-outside" } else { "outsider" });
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err("a value outside the table got an arrangement".into()),
        };
    }
    let (ap, sp) = r.map_err(|e| format!("valid input refused: {}", e))?;
    if counts(&a).len() > 1 {
        st.hit("several-distinct");
    }
    if counts(&a).len() < n {
        st.hit("repeats");
    }
    if counts(&s).len() < n {
        st.hit("table-repeats");
    }
    if a.iter().any(|x| x.is_zero()) {
        st.hit("zero");
    }
    if counts(&ap) != counts(&a) || ap.len() != n {
        return Err("A' is not a rearrangement of A".into());
    }
    if counts(&sp) != counts(&s) || sp.len() != n {
        return Err("S' is not a rearrangement of S".into());
    }
    if ap[0] != sp[0] {
        return Err("first entries differ".into());
    }
    for i in 1..n {
        if ap[i] != sp[i] && ap[i] != ap[i - 1] {
            return Err(format!("entry {} matches neither its table entry nor its predecessor", i));
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C14",
        rule: "a case is a table list and an input list over it (optionally with one value outside the table); every case of length at least one is non-trivial: the arrangement is validated entry by entry, or the refusal is required",
        assumptions: vec![],
        fams: vec![
            fam("small", 400000, 20000000, || strat(7), |c: &Case, st| run(c, st)),
            fam("huge", 2500, 80000, || strat(4000), |c: &Case, st| run(c, st)),
            fam("large", 30000, 1500000, || strat(300), |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
