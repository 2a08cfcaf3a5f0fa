use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::*;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::{Delta, DeltaXorAnd};
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::{PlonkArith4, PrecompiledPlonkArith};
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    gate: u8,
    log_n: u8,
    pool: u8,
    extra: u8,
    /// per row: 0 satisfied by solving, 1 off by a small amount, 2 anything
    rows: Vec<u8>,
    seed: u64,
}
fn strat(gates: std::ops::Range<u8>, logs: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    let rows = 1usize << *logs.end();
    (gates, logs, 0u8..4, prop_oneof![9 => 0u8..3, 1 => 3u8..20], proptest::collection::vec(0u8..3, rows), any::<u64>())
        .prop_map(|(gate, log_n, pool, extra, rows, seed)| Case { gate, log_n, pool, extra, rows, seed })
        .boxed()
}
struct Cols {
    n: usize,
    w: Vec<Vec<Fr>>,
    i: Vec<Vec<Fr>>,
    f: Vec<Vec<Fr>>,
    t: Vec<Vec<Fr>>,
}
fn lab(p: char, k: usize) -> String {
    format!("{}_{}", p, k)
}
fn value(e: &Expression<Fr>, c: &Cols, row: usize) -> Fr {
    let at = |v: &Vec<Vec<Fr>>, p: char, l: &str, r: Rotation| -> Fr {
        let k = (0..v.len()).find(|k| lab(p, *k) == l).expect("column");
        // the row a rotation means, through a column of row numbers
        let rows: Vec<Fr> = (0..c.n as u64).map(Fr::from).collect();
        let o = fpo("rows", &rows);
        let at = o.query_at_omega_in_original_domain(row, r);
        let idx = rows.iter().position(|x| *x == at).unwrap();
        v[k][idx]
    };
    e.evaluate(
        &|x| x,
        &|q| match q.oracle_type {
            OracleType::Witness => at(&c.w, 'w', &q.label, q.rotation),
            OracleType::Instance => at(&c.i, 'i', &q.label, q.rotation),
            OracleType::Fixed => at(&c.f, 'f', &q.label, q.rotation),
        },
        &|a: Fr| -a,
        &|a, b| a + b,
        &|a, b| a * b,
        &|a, k| a * k,
    )
}
const NEED: [(usize, usize, usize); 6] = [(3, 1, 5), (4, 1, 6), (2, 1, 0), (5, 0, 4), (1, 0, 1), (4, 0, 1)];

fn gate_run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let g = c.gate as usize % 6;
    let n = 1usize << c.log_n.clamp(1, 10);
    let mut r = rng(c.seed);
    let (nw, ni, nf) = NEED[g];
    let ex = c.extra as usize;
    let mut col = |k: usize| -> Vec<Vec<Fr>> { (0..k).map(|_| (0..n).map(|_| pool_val(c.pool, &mut r)).collect()).collect() };
    let mut k = Cols { n, w: col(nw + ex), i: col(ni + ex), f: col(nf + ex), t: vec![] };
    let mut r = rng(c.seed ^ 77);
    let sm = |x: u64| Fr::from(x);
    // choose values: satisfied, nearly satisfied or arbitrary
    for row in 0..n {
        let mode = c.rows.get(row).copied().unwrap_or(2);
        if mode == 2 && g != 5 {
            continue;
        }
        let off = if mode == 1 { sm(r.gen_range(1..5)) * if r.gen() { Fr::one() } else { -Fr::one() } } else { Fr::zero() };
        match g {
            0 => k.i[0][row] = off - (k.f[0][row] * k.w[0][row] * k.w[1][row] + k.f[1][row] * k.w[0][row] + k.f[2][row] * k.w[1][row] + k.f[3][row] * k.w[2][row] + k.f[4][row]),
            1 => {
                k.i[0][row] = off
                    - (k.f[0][row] * k.w[0][row] * k.w[1][row]
                        + k.f[1][row] * k.w[0][row]
                        + k.f[2][row] * k.w[1][row]
                        + k.f[3][row] * k.w[3][row]
                        + k.f[4][row] * k.w[2][row]
                        + k.f[5][row])
            }
            2 => k.i[0][row] = k.w[0][row] * k.w[1][row] + off,
            3 => k.w[4][row] = (0..4).map(|j| k.f[j][row] * k.w[j][row].pow([5u64])).sum::<Fr>() + off,
            4 => {
                // next row from this one; steps 0..=3 satisfied, others near
                let step = if mode == 0 { sm(r.gen_range(0..4)) } else { [sm(4), -sm(1), sm(5), sm(16)][r.gen_range(0..4)] };
                let v = k.w[0][row] * sm(4) + step;
                k.w[0][(row + 1) % n] = v;
                k.f[0][row] = [Fr::zero(), Fr::zero(), Fr::one(), Fr::rand(&mut r)][r.gen_range(0..4)];
            }
            _ => {
                let (a, b) = (r.gen_range(0u64..4), r.gen_range(0u64..4));
                let and = r.gen::<bool>();
                k.w[0][row] = sm(a);
                k.w[1][row] = sm(b);
                k.w[2][row] = sm(a * b);
                k.f[0][row] = if and { Fr::one() } else { -Fr::one() };
                let d = if and { a & b } else { a ^ b };
                k.w[3][row] = match mode {
                    0 => sm(d),
                    1 => sm(d) + off,
                    _ => [sm(a & b), sm(a ^ b), sm(a | b), sm(r.gen_range(0..16)), Fr::rand(&mut r)][r.gen_range(0..5)],
                };
            }
        }
    }
    let (vx, vqs) = match g {
        0 => <PrecompiledPlonkArith as PrecompiledVO<Fr>>::get_expr_and_queries(),
        1 => <PlonkArith4 as PrecompiledVO<Fr>>::get_expr_and_queries(),
        2 => <PrecompiledMul as PrecompiledVO<Fr>>::get_expr_and_queries(),
        3 => <PrecompiledRescue as PrecompiledVO<Fr>>::get_expr_and_queries(),
        4 => <Delta as PrecompiledVO<Fr>>::get_expr_and_queries(),
        _ => <DeltaXorAnd as PrecompiledVO<Fr>>::get_expr_and_queries(),
    };
    let mut vo = GenericVO::<Fr>::init((vx, vqs));
    let mut w: Vec<_> = k.w.iter().enumerate().map(|(j, v)| wpo(&lab('w', j), v, false)).collect();
    let mut i: Vec<_> = k.i.iter().enumerate().map(|(j, v)| ipo(&lab('i', j), v)).collect();
    let mut f: Vec<_> = k.f.iter().enumerate().map(|(j, v)| fpo(&lab('f', j), v)).collect();
    vo.configure(&mut w, &mut i, &mut f);
    let e = vo.get_expression().map_err(|e| format!("{:?}", e))?;
    // wires, selectors and rotations read
    let used = std::cell::RefCell::new(BTreeSet::new());
    e.evaluate(
        &|_| (),
        &|q| {
            used.borrow_mut().insert((q.label.clone(), q.rotation));
        },
        &|_| (),
        &|_, _| (),
        &|_, _| (),
        &|_, _| (),
    );
    let mut want: BTreeSet<(String, Rotation)> = BTreeSet::new();
    for j in 0..nw {
        want.insert((lab('w', j), Rotation::curr()));
    }
    if g == 4 {
        want.insert((lab('w', 0), Rotation::next()));
    }
    for j in 0..ni {
        want.insert((lab('i', j), Rotation::curr()));
    }
    for j in 0..nf {
        want.insert((lab('f', j), Rotation::curr()));
    }
    if *used.borrow() != want {
        return Err(format!("gate {} reads {:?} instead of {:?}", g, used.borrow(), want));
    }
    let mut reg: BTreeMap<String, BTreeSet<Rotation>> = BTreeMap::new();
    for o in &w {
        reg.insert(o.get_label(), o.get_queried_rotations().clone());
    }
    for o in &i {
        reg.insert(o.get_label(), o.get_queried_rotations().clone());
    }
    for o in &f {
        reg.insert(o.get_label(), o.get_queried_rotations().clone());
    }
    let regs: BTreeSet<(String, Rotation)> = reg.iter().flat_map(|(l, s)| s.iter().map(move |r| (l.clone(), *r))).collect();
    if regs != want {
        return Err(format!("gate {} registers {:?} instead of {:?}", g, regs, want));
    }
    let mut held = 0;
    for row in 0..n {
        st.work += 1;
        let (w, i, f) = (|j: usize| k.w[j][row], |j: usize| k.i[j][row], |j: usize| k.f[j][row]);
        let holds = match g {
            0 => f(0) * w(0) * w(1) + f(1) * w(0) + f(2) * w(1) + f(3) * w(2) + f(4) + i(0) == Fr::zero(),
            1 => f(0) * w(0) * w(1) + f(1) * w(0) + f(2) * w(1) + f(4) * w(2) + f(3) * w(3) + f(5) + i(0) == Fr::zero(),
            2 => w(0) * w(1) == i(0),
            3 => f(0) * w(0).pow([5u64]) + f(1) * w(1).pow([5u64]) + f(2) * w(2).pow([5u64]) + f(3) * w(3).pow([5u64]) == w(4),
            4 => {
                let d = k.w[0][(row + 1) % n] - sm(4) * w(0);
                f(0).is_one() || (0..4).any(|s| d == sm(s))
            }
            _ => {
                let idx = |x: Fr| (0..4u64).find(|s| sm(*s) == x).unwrap();
                let (a, b) = (idx(w(0)), idx(w(1)));
                w(3) == sm(if f(0).is_one() { a & b } else { a ^ b })
            }
        };
        held += usize::from(holds);
        let v = value(e, &k, row);
        if v.is_zero() != holds {
            return Err(format!(
                "gate {} on row {}: documented relation {} but the gate is {}",
                g,
                row,
                if holds { "holds" } else { "does not hold" },
                if v.is_zero() { "zero" } else { "non-zero" }
            ));
        }
    }
    st.hit(["arith3", "arith4", "mul", "rescue", "delta", "xorand"][g]);
    if held > 0 {
        st.hit("some-rows-hold");
    }
    if held < n {
        st.hit("some-rows-violated");
    }
    st.nt();
    Ok(())
}

fn lookup_run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let three = c.gate % 2 == 1;
    let m = if three { 3 } else { 1 };
    let n = 1usize << c.log_n.clamp(1, 10);
    let ex = c.extra as usize;
    let mut r = rng(c.seed);
    let mut col = |k: usize| -> Vec<Vec<Fr>> { (0..k).map(|_| (0..n).map(|_| pool_val(c.pool, &mut r)).collect()).collect() };
    let mut k = Cols { n, w: col(m + ex), i: vec![], f: col(m + ex), t: col(m + ex) };
    let mut r = rng(c.seed ^ 77);
    for row in 0..n {
        match c.rows.get(row).copied().unwrap_or(0) {
            0 => {
                let t = r.gen_range(0..n);
                for j in 0..m {
                    k.w[j][row] = k.t[j][t];
                }
            }
            1 => {
                // components of different table rows
                for j in 0..m {
                    k.w[j][row] = k.t[(j + r.gen_range(0..2)) % m][r.gen_range(0..n)];
                }
            }
            _ => {}
        }
    }
    let cfg = if three {
        <PrecompiledSimple3ArithLookup<Fr> as PrecompiledLookupVO<Fr>>::get_expressions_and_queries()
    } else {
        <PrecompiledSimple1ArithLookup<Fr> as PrecompiledLookupVO<Fr>>::get_expressions_and_queries()
    };
    let mut l = GenericLookupVO::<Fr>::init(cfg);
    let mut w: Vec<_> = k.w.iter().enumerate().map(|(j, v)| wpo(&lab('w', j), v, false)).collect();
    let mut i: Vec<zero_over_k::oracles::instance::InstanceProverOracle<Fr>> = vec![];
    let mut f: Vec<_> = k.f.iter().enumerate().map(|(j, v)| fpo(&lab('f', j), v)).collect();
    let mut t: Vec<_> = k.t.iter().enumerate().map(|(j, v)| fpo(&lab('t', j), v)).collect();
    l.configure(&mut w, &mut i, &mut f, &mut t).map_err(|e| format!("{:?}", e))?;
    let es = l.get_expressions().map_err(|e| format!("{:?}", e))?;
    let tq = l.get_table_queries().map_err(|e| format!("{:?}", e))?;
    if es.len() != m || tq.len() != m {
        return Err("number of looked-up columns".into());
    }
    let table: Vec<Vec<Fr>> = (0..n)
        .map(|row| {
            tq.iter()
                .map(|q| {
                    let j = (0..k.t.len()).find(|j| lab('t', *j) == q.label).expect("table column");
                    t[j].query_at_omega_in_original_domain(row, q.rotation)
                })
                .collect()
        })
        .collect();
    for j in 0..m {
        for (name, o) in [("witness", w[j].get_queried_rotations()), ("table", t[j].get_queried_rotations())] {
            if *o != BTreeSet::from([Rotation::curr()]) {
                return Err(format!("{} column {} registers {:?}", name, j, o));
            }
        }
    }
    for row in 0..n {
        st.work += 1;
        let tuple: Vec<Fr> = es.iter().map(|e| value(e, &k, row)).collect();
        let accepted = table.contains(&tuple);
        let want = (0..n).any(|tr| (0..m).all(|j| k.t[j][tr] == k.w[j][row]));
        if accepted != want {
            return Err(format!("row {}: lookup accepts: {}, tuple is in the table: {}", row, accepted, want));
        }
    }
    st.hit(if three { "lookup3" } else { "lookup1" });
    st.nt();
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C17",
        rule: "a case is one shipped gate or lookup configured over generated columns (possibly more than it needs), rows being solved for, nearly satisfied or arbitrary; every case is non-trivial: each row's verdict is compared with the documented relation computed independently; inner executions count rows",
        assumptions: vec!["the column order of selectors and wires is the one of the gate's definition"],
        fams: vec![
            fam("gates", 30000, 900000, || strat(0..6, 1..=4), |c: &Case, st| gate_run(c, st)),
            fam("gates_large", 120, 3000, || strat(0..6, 6..=9), |c: &Case, st| gate_run(c, st)),
            fam("lookups_large", 60, 1500, || strat(0..2, 6..=8), |c: &Case, st| lookup_run(c, st)),
            fam("lookups", 20000, 500000, || strat(0..2, 1..=4), |c: &Case, st| lookup_run(c, st)),
        ],
        known: vec![],
    }
}
