use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use ark_ff::{UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::oracles::witness::WitnessVerifierOracle;
use zero_over_k::oracles::fixed::FixedVerifierOracle;
use zero_over_k::oracles::instance::InstanceVerifierOracle;
use zero_over_k::piop::error::Error as PErr;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ex: Rx,
    more: Vec<Rx>,
    cols: (u8, u8, u8),
    labels: u8,
    same_label: bool,
    extra: Vec<(u8, u8, i8)>,
    tabs: Vec<(u8, i8)>,
    missing: u8,
    direct: bool,
    verifier: bool,
    seed: u64,
}
fn strat() -> BoxedStrategy<Case> {
    (
        (rx_strat(), proptest::collection::vec(rx_strat(), 0..3)),
        (1u8..4, 1u8..3, 1u8..3),
        (0u8..9, any::<bool>()),
        proptest::collection::vec((0u8..3, any::<u8>(), rot_strat()), 0..4),
        proptest::collection::vec((any::<u8>(), rot_strat()), 3),
        any::<u8>(),
        any::<bool>(),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|((ex, more), cols, (labels, same_label), extra, tabs, missing, direct, verifier, seed)| Case {
            ex,
            more,
            cols,
            labels,
            same_label,
            extra,
            tabs,
            missing,
            direct,
            verifier,
            seed,
        })
        .boxed()
}
/// many columns, long sums and products, deep nesting, long tuples
fn wide_strat() -> BoxedStrategy<Case> {
    let deep = (rx_strat(), proptest::collection::vec((0u8..7, any::<u8>(), any::<u8>(), rot_strat()), 1..50)).prop_map(|(x, v)| {
        v.into_iter().fold(x, |x, (op, k, c, r)| {
            let q = Box::new(if k % 5 == 0 { Rx::C(k) } else { Rx::Q(k % 3, c, r) });
            let x = Box::new(x);
            match op {
                0 => Rx::Neg(x),
                1 => Rx::Scale(x, k),
                2 => Rx::Add(x, q),
                3 => Rx::Sub(x, q),
                4 => Rx::Sub(q, x),
                5 => Rx::Mul(x, q),
                _ => Rx::Add(q, x),
            }
        })
    });
    let fold = (any::<bool>(), proptest::collection::vec((0u8..3, any::<u8>(), rot_strat()), 5..40)).prop_map(|(m, v)| Rx::Fold(m, v));
    let both = (fold.clone(), deep.clone(), 0u8..3).prop_map(|(a, b, op)| match op {
        0 => Rx::Add(Box::new(a), Box::new(b)),
        1 => Rx::Sub(Box::new(b), Box::new(a)),
        _ => Rx::Mul(Box::new(a), Box::new(b)),
    });
    let ex = prop_oneof![1 => rx_strat(), 2 => fold, 2 => deep, 1 => both].boxed();
    (
        (ex, proptest::collection::vec(rx_strat(), 0..14)),
        (1u8..40, 1u8..20, 1u8..30),
        (0u8..9, any::<bool>()),
        proptest::collection::vec((0u8..3, any::<u8>(), rot_strat()), 0..30),
        proptest::collection::vec((any::<u8>(), rot_strat()), 15),
        any::<u8>(),
        any::<bool>(),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|((ex, more), cols, (labels, same_label), extra, tabs, missing, direct, verifier, seed)| Case {
            ex,
            more,
            cols,
            labels,
            same_label,
            extra,
            tabs,
            missing,
            direct: direct && seed % 2 == 0,
            verifier,
            seed,
        })
        .boxed()
}
fn rx_ex(x: &Rx, cols: [usize; 3]) -> Ex {
    match x {
        Rx::C(k) => Ex::C(cval(*k)),
        Rx::Q(t, c, r) => {
            let ty = match t % 3 {
                0 => Ty::W,
                1 => Ty::I,
                _ => Ty::F,
            };
            Ex::Q(ty, *c as usize % cols[ty as usize], *r as i32)
        }
        Rx::Neg(a) => Ex::Neg(rx_ex(a, cols).b()),
        Rx::Fold(mul, v) => {
            let mut acc: Option<Ex> = None;
            for (t, c, r) in v {
                let q = rx_ex(&Rx::Q(*t, *c, *r), cols);
                acc = Some(match acc {
                    None => q,
                    Some(x) if *mul => Ex::Mul(x.b(), q.b()),
                    Some(x) => Ex::Add(x.b(), q.b()),
                });
            }
            acc.unwrap_or(Ex::C(cval(1)))
        }
        Rx::Scale(a, k) => Ex::Scale(rx_ex(a, cols).b(), cval(*k)),
        Rx::Add(a, b) => Ex::Add(rx_ex(a, cols).b(), rx_ex(b, cols).b()),
        Rx::Sub(a, b) => Ex::Sub(rx_ex(a, cols).b(), rx_ex(b, cols).b()),
        Rx::Mul(a, b) => Ex::Mul(rx_ex(a, cols).b(), rx_ex(b, cols).b()),
    }
}
type Key = (u8, String, Rotation);
fn tyn(t: &OracleType) -> u8 {
    match t {
        OracleType::Witness => 0,
        OracleType::Instance => 1,
        OracleType::Fixed => 2,
    }
}
fn key(q: &OracleQuery) -> Key {
    (tyn(&q.oracle_type), q.label.clone(), q.rotation)
}
fn kval(k: &Key, seed: u64) -> Fr {
    let h = hash_str(&format!("{:?}{}", k, seed));
    Fr::rand(&mut rng(h))
}
fn kdeg(k: &Key, seed: u64) -> usize {
    (hash_str(&format!("{:?}{}d", k, seed)) % 5) as usize
}
fn kpoly(k: &Key, seed: u64) -> DensePolynomial<Fr> {
    let d = kdeg(k, seed);
    let mut r = rng(hash_str(&format!("{:?}{}p", k, seed)));
    DensePolynomial::from_coefficients_vec((0..=d).map(|_| Fr::rand(&mut r)).collect())
}
/// an Expression built with its own operators
fn oex(e: &Ex, lab: &dyn Fn(Ty, usize) -> String) -> Expression<Fr> {
    match e {
        Ex::C(c) => Expression::Constant(*c),
        Ex::Q(t, c, r) => OracleQuery { label: lab(*t, *c), rotation: rot(*r), oracle_type: oty(*t) }.into(),
        Ex::Neg(a) => -oex(a, lab),
        Ex::Scale(a, k) => oex(a, lab) * *k,
        Ex::Add(a, b) => oex(a, lab) + oex(b, lab),
        Ex::Sub(a, b) => oex(a, lab) - oex(b, lab),
        Ex::Mul(a, b) => oex(a, lab) * oex(b, lab),
    }
}
fn refdeg(e: &Ex, f: &dyn Fn(Ty, usize, i32) -> usize) -> usize {
    match e {
        Ex::C(_) => 0,
        Ex::Q(t, c, r) => f(*t, *c, *r),
        Ex::Neg(a) | Ex::Scale(a, _) => refdeg(a, f),
        Ex::Add(a, b) | Ex::Sub(a, b) => refdeg(a, f).max(refdeg(b, f)),
        Ex::Mul(a, b) => refdeg(a, f) + refdeg(b, f),
    }
}

fn meaning(c: &Case, e: &Ex, x: &Expression<Fr>, lab: &dyn Fn(Ty, usize) -> String) -> Result<(), String> {
    let s = c.seed;
    let k = |t: Ty, col: usize, r: i32| -> Key { (t as u8, lab(t, col), rot(r)) };
    let want = e.eval(&|t, col, r| kval(&k(t, col, r), s));
    // field
    let got = x.evaluate(&|c| c, &|q: &OracleQuery| kval(&key(q), s), &|a: Fr| -a, &|a, b| a + b, &|a, b| a * b, &|a, f| a * f);
    if got != want {
        return Err("value in the field differs from the formula".into());
    }
    // queries visited
    let seen = RefCell::new(BTreeSet::new());
    x.evaluate(
        &|_| (),
        &|q: &OracleQuery| {
            seen.borrow_mut().insert(key(q));
        },
        &|_| (),
        &|_, _| (),
        &|_, _| (),
        &|_, _| (),
    );
    let mut qs = vec![];
    e.queries(&mut qs);
    let wantq: BTreeSet<Key> = qs.iter().map(|(t, c, r)| k(*t, *c, *r)).collect();
    // (a query that is provably multiplied by zero may be left out)
    if !seen.borrow().is_subset(&wantq) {
        return Err("the concrete expression reads other queries than the formula".into());
    }
    // failing lookups propagate
    let seen = seen.into_inner();
    let bad: Option<&Key> = if seen.is_empty() { None } else { seen.iter().nth(c.missing as usize % (seen.len() + 1)) };
    let got: Result<Fr, u8> = x.evaluate(
        &|c| Ok(c),
        &|q: &OracleQuery| if Some(&key(q)) == bad { Err(1) } else { Ok(kval(&key(q), s)) },
        &|a: Result<Fr, u8>| a.map(|a| -a),
        &|a, b| a.and_then(|a| b.map(|b| a + b)),
        &|a, b| a.and_then(|a| b.map(|b| a * b)),
        &|a, f| a.map(|a| a * f),
    );
    if got != (if bad.is_some() { Err(1) } else { Ok(want) }) {
        return Err("value in the fallible interpretation differs".into());
    }
    // polynomials and degrees
    let p = x.evaluate(
        &|c| DensePolynomial::from_coefficients_vec(vec![c]),
        &|q: &OracleQuery| kpoly(&key(q), s),
        &|a: DensePolynomial<Fr>| DensePolynomial::from_coefficients_vec(a.coeffs.iter().map(|c| -*c).collect()),
        &|a, b| &a + &b,
        &|a, b| a.naive_mul(&b),
        &|a, f| DensePolynomial::from_coefficients_vec(a.coeffs.iter().map(|c| *c * f).collect()),
    );
    let at = Fr::rand(&mut rng(s ^ 3));
    if ev(&p.coeffs, at) != e.eval(&|t, col, r| ev(&kpoly(&k(t, col, r), s).coeffs, at)) {
        return Err("value in the polynomial interpretation differs".into());
    }
    let d = x.degree(&|q| Ok(kdeg(&key(q), s))).map_err(|e| format!("{:?}", e))?;
    if p.degree() > d {
        return Err(format!("computed degree {} below the real degree {}", d, p.degree()));
    }
    if d != refdeg(e, &|t, col, r| kdeg(&k(t, col, r), s)) {
        return Err(format!("computed degree {} is not the degree of the product structure", d));
    }
    let r = x.degree(&|q| if Some(&key(q)) == bad { Err(PErr::MissingWitnessOracle("m".into())) } else { Ok(1) });
    match (bad.is_some(), r) {
        (true, Err(PErr::MissingWitnessOracle(l))) if l == "m" => {}
        (false, Ok(_)) => {}
        _ => return Err("degree of an expression with a missing column".into()),
    }
    Ok(())
}

fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let cols = [c.cols.0 as usize, c.cols.1 as usize, c.cols.2 as usize];
    let ntab = if c.tabs.len() > 3 { 15 } else { 4usize };
    let e = rx_ex(&c.ex, cols);
    let labstyle = c.labels;
    let same = c.same_label;
    let lab = move |t: Ty, col: usize| -> String {
        let ch = match t {
            _ if same => 'x',
            Ty::W => 'w',
            Ty::I => 'i',
            Ty::F => 'f',
        };
        label(labstyle, ch, col)
    };
    st.nt();
    st.hit(&format!("deg={}", e.deg().min(8)));
    if c.direct {
        return meaning(c, &e, &oex(&e, &lab), &lab);
    }
    // declared queries: the ones used plus unrelated ones
    let mut decl = vec![];
    e.queries(&mut decl);
    for (t, col, r) in &c.extra {
        let ty = [Ty::W, Ty::I, Ty::F][*t as usize % 3];
        decl.push((ty, *col as usize % cols[ty as usize], *r as i32));
    }
    let n = 4;
    let z = vec![Fr::zero(); n];
    let mut regs: BTreeMap<(u8, usize), BTreeSet<Rotation>> = BTreeMap::new();
    for (t, col, r) in &decl {
        regs.entry((*t as u8, *col)).or_default().insert(rot(*r));
    }
    let vqs: Vec<_> = decl.iter().map(|(t, col, r)| vq(*t, *col, *r)).collect();
    let mut g = GenericVO::<Fr>::init((vex(&e), vqs.clone()));
    if g.get_expression().is_ok() {
        return Err("unconfigured gate has an expression".into());
    }
    let exs: Vec<Ex> = std::iter::once(&c.ex).chain(c.more.iter()).map(|x| rx_ex(x, cols)).collect();
    let tabs: Vec<(usize, i32)> = (0..exs.len()).map(|i| (c.tabs[i % c.tabs.len()].0 as usize % ntab, c.tabs[i % c.tabs.len()].1 as i32)).collect();
    let vexs: Vec<VirtualExpression<Fr>> = exs.iter().map(vex).collect();
    let mut l = GenericLookupVO::<Fr>::init((vexs, vqs, tabs.iter().map(|(i, r)| vq(Ty::F, *i, *r)).collect()));
    if l.get_expressions().is_ok() || l.get_table_queries().is_ok() {
        return Err("unconfigured lookup has expressions".into());
    }
    let reg = |v: Vec<BTreeSet<Rotation>>, t: Ty| -> Result<(), String> {
        for (i, s) in v.iter().enumerate() {
            let w = regs.get(&(t as u8, i)).cloned().unwrap_or_default();
            if *s != w {
                return Err(format!("column {} of type {:?}: registered {:?}, declared {:?}", i, t, s, w));
            }
        }
        Ok(())
    };
    macro_rules! both {
        ($w:expr, $i:expr, $f:expr, $t:expr) => {{
            let (mut w, mut i, mut f) = ($w, $i, $f);
            g.configure(&mut w, &mut i, &mut f);
            reg(w.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::W)?;
            reg(i.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::I)?;
            reg(f.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::F)?;
            let (mut w, mut i, mut f, mut t) = ($w, $i, $f, $t);
            l.configure(&mut w, &mut i, &mut f, &mut t).map_err(|e| format!("configure: {:?}", e))?;
            reg(w.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::W)?;
            reg(i.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::I)?;
            reg(f.iter().map(|o| o.get_queried_rotations().clone()).collect(), Ty::F)?;
            for (j, o) in t.iter().enumerate() {
                let want: BTreeSet<Rotation> = tabs.iter().filter(|x| x.0 == j).map(|x| rot(x.1)).collect();
                if *o.get_queried_rotations() != want {
                    return Err(format!("table {}: registered rotations", j));
                }
            }
        }};
    }
    let lt = |j: usize| label(labstyle, 't', j);
    if c.verifier {
        st.hit("verifier-columns");
        both!(
            (0..cols[0]).map(|i| WitnessVerifierOracle::<Fr, Tpc<0>>::new(lab(Ty::W, i), false)).collect::<Vec<_>>(),
            (0..cols[1]).map(|i| InstanceVerifierOracle::new(lab(Ty::I, i), interp(n, &z))).collect::<Vec<_>>(),
            (0..cols[2]).map(|i| FixedVerifierOracle::<Fr, Tpc<0>>::new(lab(Ty::F, i), None)).collect::<Vec<_>>(),
            (0..ntab).map(|i| FixedVerifierOracle::<Fr, Tpc<0>>::new(lt(i), None)).collect::<Vec<_>>()
        );
    } else {
        st.hit("prover-columns");
        both!(
            (0..cols[0]).map(|i| wpo(&lab(Ty::W, i), &z, false)).collect::<Vec<_>>(),
            (0..cols[1]).map(|i| ipo(&lab(Ty::I, i), &z)).collect::<Vec<_>>(),
            (0..cols[2]).map(|i| fpo(&lab(Ty::F, i), &z)).collect::<Vec<_>>(),
            (0..ntab).map(|i| fpo(&lt(i), &z)).collect::<Vec<_>>()
        );
    }
    meaning(c, &e, g.get_expression().map_err(|e| format!("{:?}", e))?, &lab)?;
    let le = l.get_expressions().map_err(|e| format!("{:?}", e))?;
    if le.len() != exs.len() {
        return Err("number of lookup expressions".into());
    }
    for (a, b) in exs.iter().zip(le) {
        meaning(c, a, b, &lab)?;
    }
    let tq = l.get_table_queries().map_err(|e| format!("{:?}", e))?;
    if tq.len() != tabs.len() {
        return Err("number of table queries".into());
    }
    for (q, (i, r)) in tq.iter().zip(&tabs) {
        if q.label != lt(*i) || q.rotation != rot(*r) || tyn(&q.oracle_type) != 2 {
            return Err("table query is not the declared one".into());
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C13",
        rule: "a case is an expression tree over columns of all types with rotations, declared queries and columns to resolve against (prover or verifier objects, distinct or shared labels); every case is non-trivial: evaluated in the field, fallible, polynomial and query-collecting interpretations and for two degree assignments",
        assumptions: vec![],
        fams: vec![
            fam("expressions", 500000, 12000000, strat, |c: &Case, st| run(c, st)),
            fam("wide", 20000, 500000, wide_strat, |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
