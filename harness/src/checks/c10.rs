use super::c06::kernel;
use crate::recfs::{self, RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{self, ev, Tpc};
use crate::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::LabeledPolynomial;
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::multiproof::poly::{construct_lagrange_basis, construct_vanishing};
use zero_over_k::multiproof::Proof as MProof;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Col {
    rots: Vec<i8>,
    deg: u8,
    pool: u8,
    hide: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    log_n: u8,
    cols: Vec<Col>,
    share: u8,
    wrong: u8,
    seed: u64,
}
fn strat(max_log: u8, max_cols: usize) -> BoxedStrategy<Case> {
    let rot = prop_oneof![5 => Just(0i8), 3 => Just(1i8), 2 => Just(-1i8), 3 => -7i8..8];
    let col = (proptest::collection::vec(rot, 0..4), any::<u8>(), 0u8..4, any::<bool>()).prop_map(|(rots, deg, pool, hide)| Col { rots, deg, pool, hide });
    (1u8..=max_log, proptest::collection::vec(col, 1..max_cols), any::<u8>(), 0u8..8, any::<u64>())
        .prop_map(|(log_n, cols, share, wrong, seed)| Case { log_n, cols, share, wrong, seed })
        .boxed()
}

/// Many polynomials in few rotation sets, many sets, or many points per set.
fn strat_wide(only_few: bool) -> BoxedStrategy<Case> {
    let few = prop_oneof![2 => Just(vec![0i8]), 1 => Just(vec![0i8, 1]), 1 => Just(vec![-1i8])].boxed();
    let many = proptest::collection::vec(-15i8..16, 0..4).boxed();
    let long = proptest::collection::vec(-15i8..16, 0..16).boxed();
    let mk = |rots: BoxedStrategy<Vec<i8>>, lo: usize, hi: usize, log: std::ops::RangeInclusive<u8>| {
        let col = (rots, any::<u8>(), 0u8..4, any::<bool>()).prop_map(|(rots, deg, pool, hide)| Col { rots, deg, pool, hide });
        (log, proptest::collection::vec(col, lo..hi), prop_oneof![Just(0u8), any::<u8>()], 0u8..8, any::<u64>())
            .prop_map(|(log_n, cols, share, wrong, seed)| Case { log_n, cols, share, wrong, seed })
            .boxed()
    };
    if only_few {
        return mk(few, 8, 40, 1..=2);
    }
    prop_oneof![
        2 => mk(few, 8, 90, 1..=4),
        2 => mk(many, 8, 40, 2..=5),
        1 => mk(long, 1, 8, 3..=5),
    ]
    .boxed()
}

struct World {
    n: usize,
    xi: Fr,
    polys: Vec<Vec<Fr>>,
    /// rotation (as a power of omega) -> claimed evaluation
    claims: Vec<BTreeMap<usize, Fr>>,
    rots: Vec<Vec<i32>>,
    hide: Vec<bool>,
    maxdeg: usize,
}
impl World {
    fn pt(&self, r: usize) -> Fr {
        self.xi * omega(self.n).pow([r as u64])
    }
}
fn world(k: &Case) -> World {
    let n = 1usize << k.log_n;
    let mut r = rng(k.seed);
    let xi = Fr::rand(&mut r);
    let mut w = World { n, xi, polys: vec![], claims: vec![], rots: vec![], hide: vec![], maxdeg: 1 };
    for (i, c) in k.cols.iter().enumerate() {
        let src = if i > 0 && (k.share >> (i % 8)) & 1 == 1 { &k.cols[r.gen_range(0..i)] } else { c };
        // distinct points, |rotation| < n
        let mut seen = BTreeSet::new();
        let mut rots = vec![];
        for x in &src.rots {
            let x = (*x as i32) % n as i32;
            if seen.insert(md(x, n)) {
                rots.push(x);
            }
        }
        let len = match c.deg % 12 {
            0 => 0,
            1 => 1,
            2 | 3 => 1 + c.deg as usize / 12 % n,
            4 | 5 => n + c.deg as usize / 12 % 3,
            _ => n,
        };
        let p = tpc::trim_vec((0..len).map(|_| pool_val(c.pool, &mut r)).collect());
        w.maxdeg = w.maxdeg.max(p.len());
        let mut cl = BTreeMap::new();
        for x in &rots {
            cl.insert(md(*x, n), ev(&p, w.pt(md(*x, n))));
        }
        w.polys.push(p);
        w.claims.push(cl);
        w.rots.push(rots);
        w.hide.push(c.hide);
    }
    w
}

fn dp(v: &[Fr]) -> DensePolynomial<Fr> {
    DensePolynomial::from_coefficients_slice(v)
}
struct Setup<PC: Pcs> {
    ck: PC::CommitterKey,
    vk: PC::VerifierKey,
    coms: Vec<PC::Commitment>,
    rands: Vec<PC::Randomness>,
}
fn setup<PC: Pcs>(w: &World, seed: u64) -> Result<Setup<PC>, String> {
    let (ck, vk) = keys::<PC>(if PC::NAME == "kzg" { w.n + 3 } else { 4 * w.n + 8 })?;
    let lp: Vec<_> = w
        .polys
        .iter()
        .zip(&w.hide)
        .enumerate()
        .map(|(i, (p, h))| LabeledPolynomial::new(format!("p{}", i), dp(p), None, if *h { Some(1) } else { None }))
        .collect();
    let (cs, rands) = PC::commit(&ck, &lp, Some(&mut rng(seed ^ 9))).map_err(|e| format!("harness commit {:?}", e))?;
    Ok(Setup { ck, vk, coms: cs.iter().map(|c| c.commitment().clone()).collect(), rands })
}
fn prover_oracles(w: &World) -> Vec<WitnessProverOracle<Fr>> {
    w.polys
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let evals = domain(w.n).fft(p);
            let mut o = WitnessProverOracle::new(format!("p{}", i), dp(p), &evals, false);
            for x in &w.rots[i] {
                o.register_rotation(rot(*x));
            }
            o
        })
        .collect()
}
fn verifier_oracles<PC: Pcs>(w: &World, claims: &[BTreeMap<usize, Fr>], coms: &[PC::Commitment]) -> Vec<WitnessVerifierOracle<Fr, PC>> {
    w.polys
        .iter()
        .enumerate()
        .map(|(i, _)| {
            let mut o = WitnessVerifierOracle::<Fr, PC>::new(format!("p{}", i), false);
            for x in &w.rots[i] {
                o.register_rotation(rot(*x));
            }
            o.register_commitment(coms[i].clone());
            for (r, v) in &claims[i] {
                o.register_eval_at_challenge(w.pt(*r), *v);
            }
            o
        })
        .collect()
}
fn mverify<PC: Pcs, FS: FiatShamirRng>(
    w: &World,
    vk: &PC::VerifierKey,
    claims: &[BTreeMap<usize, Fr>],
    coms: &[PC::Commitment],
    p: MProof<Fr, PC>,
) -> Result<(), String> {
    let o = verifier_oracles::<PC>(w, claims, coms);
    let refs: Vec<&dyn CommittedOracle<Fr, PC>> = o.iter().map(|x| x as &dyn CommittedOracle<Fr, PC>).collect();
    let mut fs = FS::initialize(&b"multiopen".to_vec());
    match guard(|| Multiopen::<Fr, PC, FS>::verify(vk, p, &refs, w.xi, w.n, &mut fs)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}
fn mprove<PC: Pcs, FS: FiatShamirRng>(w: &World, s: &Setup<PC>, seed: u64) -> Result<MProof<Fr, PC>, String> {
    let o = prover_oracles(w);
    let refs: Vec<&dyn Instantiable<Fr>> = o.iter().map(|x| x as &dyn Instantiable<Fr>).collect();
    let mut fs = FS::initialize(&b"multiopen".to_vec());
    match guard(|| Multiopen::<Fr, PC, FS>::prove(&s.ck, &refs, &s.rands, w.xi, w.n, &mut fs, &mut rng(seed ^ 3))) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}
fn mcp<PC: Pcs>(m: &MProof<Fr, PC>) -> MProof<Fr, PC> {
    MProof { q_evals: m.q_evals.clone(), f_commit: m.f_commit.clone(), opening_proof: m.opening_proof.clone() }
}
fn classify(w: &World, st: &mut Stat) {
    let sets: BTreeSet<BTreeSet<usize>> = w.claims.iter().map(|c| c.keys().cloned().collect()).collect();
    st.hit(&format!("sets={}", sets.len()));
    st.hit(&format!("cols={}", w.polys.len()));
    if sets.iter().any(|s| s.is_empty()) {
        st.hit("column-without-rotation");
    }
    if w.polys.iter().any(|p| p.is_empty()) {
        st.hit("zero-polynomial");
    }
    if w.polys.iter().any(|p| p.len() > w.n) {
        st.hit("degree>=n");
    }
    if sets.iter().any(|s| s.len() > 2) {
        st.hit("three-or-more-points");
    }
    if sets.len() < w.polys.len() {
        st.hit("shared-set");
    }
}

/// A false claim. None when this pattern is impossible here.
fn falsify(w: &World, kind: u8, seed: u64, st: &mut Stat) -> Option<(Vec<BTreeMap<usize, Fr>>, &'static str)> {
    let mut r = rng(seed ^ 0xfa15e);
    let mut cl = w.claims.clone();
    let cells: Vec<(usize, usize)> = cl.iter().enumerate().flat_map(|(i, m)| m.keys().map(move |k| (i, *k))).collect();
    if cells.is_empty() {
        return None;
    }
    let d = if r.gen_range(0..3) == 0 { Fr::one() } else { Fr::rand(&mut r) };
    let set = |i: usize| w.claims[i].keys().cloned().collect::<Vec<_>>();
    let (i, q) = cells[r.gen_range(0..cells.len())];
    let name = match kind {
        0 | 1 => {
            *cl[i].get_mut(&q).unwrap() += d;
            "one evaluation"
        }
        2 | 3 => {
            // same rotation set, same point, opposite amounts
            let js: Vec<usize> = (0..cl.len()).filter(|j| *j != i && set(*j) == set(i)).collect();
            if js.is_empty() {
                return None;
            }
            let j = js[r.gen_range(0..js.len())];
            *cl[i].get_mut(&q).unwrap() += d;
            *cl[j].get_mut(&q).unwrap() -= d;
            "two evaluations of one set by opposite amounts"
        }
        4 | 5 => {
            // other set with the same point: residues at the point cancel
            let js: Vec<usize> = (0..cl.len()).filter(|j| set(*j) != set(i) && cl[*j].contains_key(&q)).collect();
            if js.is_empty() {
                return None;
            }
            let j = js[r.gen_range(0..js.len())];
            let w_of = |s: &[usize]| s.iter().filter(|x| **x != q).map(|x| w.pt(q) - w.pt(*x)).fold(Fr::one(), |a, b| a * b);
            *cl[i].get_mut(&q).unwrap() += d * w_of(&set(i));
            *cl[j].get_mut(&q).unwrap() -= d * w_of(&set(j));
            "evaluations at one point in two sets, cancelling residues"
        }
        6 => {
            // a column's evaluations shifted so that their interpolation differs by a multiple of one lower degree
            if cl[i].len() < 2 {
                return None;
            }
            let ks = set(i);
            let (a, b) = (ks[0], ks[ks.len() - 1]);
            let (va, vb) = (cl[i][&a], cl[i][&b]);
            if va == vb {
                return None;
            }
            cl[i].insert(a, vb);
            cl[i].insert(b, va);
            "two evaluations of one column exchanged"
        }
        _ => {
            let (j, p) = cells[r.gen_range(0..cells.len())];
            if (i, q) == (j, p) {
                return None;
            }
            let (x, y) = (cl[i][&q], cl[j][&p]);
            if x == y {
                return None;
            }
            cl[i].insert(q, y);
            cl[j].insert(p, x);
            "two evaluations exchanged"
        }
    };
    st.hit(name);
    Some((cl, name))
}

fn honest<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let w = world(k);
    let s = setup::<PC>(&w, k.seed)?;
    classify(&w, st);
    st.nt();
    let p = mprove::<PC, RealFs>(&w, &s, k.seed).map_err(|e| format!("opening of true evaluations fails: {}", e))?;
    mverify::<PC, RealFs>(&w, &s.vk, &w.claims, &s.coms, mcp(&p)).map_err(|e| format!("true evaluations refused: {}", e))?;
    st.work += 1;
    // the same opening for other claims and commitments
    if let Some((cl, what)) = falsify(&w, k.wrong, k.seed, st) {
        if mverify::<PC, RealFs>(&w, &s.vk, &cl, &s.coms, mcp(&p)).is_ok() {
            return Err(format!("false evaluations accepted with an honest opening: {}", what));
        }
    }
    // amounts that cancel whenever two polynomials, or two sets, weigh the same
    let tries = if PC::NAME == "tpc" { 3 * w.polys.len() as u64 } else { 2 };
    for t in 0..tries {
        if let Some((cl, what)) = falsify(&w, 2 + (t % 4) as u8, k.seed ^ (t + 1) << 32, st) {
            if mverify::<PC, RealFs>(&w, &s.vk, &cl, &s.coms, mcp(&p)).is_ok() {
                return Err(format!("false evaluations accepted with an honest opening: {}", what));
            }
            st.work += 1;
        }
    }
    let mut r = rng(k.seed ^ 0x10);
    let i = r.gen_range(0..w.polys.len());
    if !w.claims[i].is_empty() {
        let mut coms = s.coms.clone();
        coms[i] = PC::add(&coms[i], &crate::adv::commit_plain::<PC>(&s.ck, &[vec![Fr::rand(&mut r)]])?.remove(0));
        if mverify::<PC, RealFs>(&w, &s.vk, &w.claims, &coms, mcp(&p)).is_ok() {
            return Err(format!("accepted with another commitment for column {}", i));
        }
    }
    // intermediate evaluations omitted, added, changed
    for t in 0..4 {
        let mut q = mcp(&p);
        match t {
            0 => {
                q.q_evals.pop();
            }
            1 => q.q_evals.push(Fr::zero()),
            2 => q.q_evals.clear(),
            _ => {
                let x = r.gen_range(0..q.q_evals.len());
                q.q_evals[x] += Fr::one();
            }
        }
        if mverify::<PC, RealFs>(&w, &s.vk, &w.claims, &s.coms, q).is_ok() {
            return Err(["accepted without the last intermediate evaluation", "accepted with an extra intermediate evaluation", "accepted without intermediate evaluations", "accepted with a wrong intermediate evaluation"][t].into());
        }
        st.work += 1;
    }
    if !k.cols.iter().any(|c| !c.rots.is_empty()) {
        st.hit("nothing-opened");
    }
    Ok(())
}

type P1 = Tpc<1>;
/// For the given claims and fixed x1, x2, x3: what an adversary that knows all
/// committed polynomials must have as f(x3) for the final check to pass for
/// whatever x4. Ok(None): impossible. Ok(Some(None)): anything does.
fn needed(w: &World, s: &Setup<P1>, claims: &[BTreeMap<usize, Fr>], x1: Fr, x2: Fr, x3: Fr, nq: usize, seed: u64, st: &mut Stat) -> Result<Option<Option<Fr>>, String> {
    let mut r = rng(seed ^ 0x4e);
    let mut rows: Vec<Vec<Fr>> = vec![];
    for _ in 0..nq + 2 {
        let x4 = Fr::rand(&mut r);
        let mut run = |q: Vec<Fr>, f: Vec<Fr>| -> Result<Fr, String> {
            recfs::set_queue(Some(vec![x1, x2, x3, x4]));
            tpc::log_start();
            let p = MProof::<Fr, P1> { q_evals: q, f_commit: tpc::TCom::new(f, vec![]), opening_proof: tpc::TProof { rv: Fr::zero() } };
            let e = mverify::<P1, RecFs>(w, &s.vk, claims, &s.coms, p);
            recfs::set_queue(None);
            let l = tpc::log_take();
            st.work += 1;
            if l.checks.len() != 1 || l.checks[0].coms.len() != 1 {
                return Err(format!("{} opening checks made by the verifier ({:?})", l.checks.len(), e));
            }
            let c = &l.checks[0];
            if c.point != x3 {
                return Err("the final opening is not at x3".into());
            }
            Ok(c.values[0] - ev(&c.coms[0].c, x3))
        };
        let zero = vec![Fr::zero(); nq];
        let base = run(zero.clone(), vec![])?;
        let mut row = vec![];
        for i in 0..nq {
            let mut q = zero.clone();
            q[i] = Fr::one();
            row.push(run(q, vec![])? - base);
        }
        row.push(run(zero, vec![Fr::one()])? - base);
        row.push(base);
        rows.push(row);
    }
    // solve rows * (q, f, 1) = 0
    let m: Vec<Vec<Fr>> = rows.iter().map(|r| r[..nq + 1].to_vec()).collect();
    if let Some(k) = kernel(&m) {
        if !k[nq].is_zero() {
            return Ok(Some(None));
        }
    }
    match kernel(&rows) {
        None => Ok(None),
        Some(v) => {
            if v[nq + 1].is_zero() {
                return Ok(None);
            }
            Ok(Some(Some(v[nq] * v[nq + 1].inverse().unwrap())))
        }
    }
}
/// Whether the points lie on a polynomial of degree below their number minus one.
fn low_degree(xs: &[Fr], ys: &[Fr], deg: usize) -> bool {
    // Newton's divided differences on deg + 1 points, checked on the others
    let m = deg + 1;
    let mut co = ys[..m].to_vec();
    for j in 1..m {
        for i in (j..m).rev() {
            co[i] = (co[i] - co[i - 1]) * (xs[i] - xs[i - j]).inverse().unwrap();
        }
    }
    (m..xs.len()).all(|t| {
        let mut v = Fr::zero();
        for i in (0..m).rev() {
            v = v * (xs[t] - xs[i]) + co[i];
        }
        v == ys[t]
    })
}

/// The strongest adversary against the batched opening: free choice of f before
/// x3 and of the intermediate evaluations before x4.
fn adaptive(k: &Case, st: &mut Stat) -> Result<(), String> {
    let w = world(k);
    let (cl, what) = match (0..3).find_map(|t| falsify(&w, k.wrong, k.seed ^ t, st)).or_else(|| falsify(&w, 0, k.seed, st)) {
        Some(x) => x,
        None => {
            st.hit("pattern-impossible");
            return Ok(());
        }
    };
    classify(&w, st);
    st.nt();
    let s = setup::<P1>(&w, k.seed)?;
    let sets: BTreeSet<Vec<usize>> = w.claims.iter().map(|c| c.keys().cloned().collect()).collect();
    let nq = {
        // as many as the honest prover sends
        let p = mprove::<P1, RealFs>(&w, &s, 1)?;
        if p.q_evals.len() != sets.len() {
            st.hit("sets-counted-differently");
        }
        p.q_evals.len()
    };
    let mut r = rng(k.seed ^ 0xada);
    let (x1, x2) = (Fr::rand(&mut r), Fr::rand(&mut r));
    // f has at most this degree (a generous bound of what can be committed)
    let deg = w.maxdeg.max(w.n) + 1;
    let mut probe = |claims: &[BTreeMap<usize, Fr>], st: &mut Stat| -> Result<Option<bool>, String> {
        let mut xs = vec![];
        let mut ys = vec![];
        for t in 0..deg + 3 {
            let x3 = Fr::rand(&mut r);
            match needed(&w, &s, claims, x1, x2, x3, nq, k.seed ^ t as u64, st)? {
                None => return Ok(None),
                Some(None) => return Ok(Some(true)),
                Some(Some(f)) => {
                    xs.push(x3);
                    ys.push(f);
                }
            }
        }
        Ok(Some(low_degree(&xs, &ys, deg)))
    };
    match probe(&cl, st)? {
        Some(true) => return Err(format!("false evaluations ({}) can be proved: a fitting f and intermediate evaluations exist for every x3 and x4", what)),
        Some(false) => st.hit("no-polynomial-fits"),
        None => st.hit("no-intermediate-evaluations-fit"),
    }
    if k.seed % 8 == 0 {
        // the adversary does win on true claims
        match probe(&w.claims, st)? {
            Some(true) => st.hit("control-wins"),
            _ => st.hit("control-loses"),
        }
    }
    Ok(())
}

/// Repeated opening points, missing commitments and evaluations are errors.
fn malformed(k: &Case, st: &mut Stat) -> Result<(), String> {
    let w = world(k);
    let s = setup::<Tpc<0>>(&w, k.seed)?;
    let p = mprove::<Tpc<0>, RealFs>(&w, &s, k.seed)?;
    let mut r = rng(k.seed ^ 0x3a1);
    let mut o = verifier_oracles::<Tpc<0>>(&w, &w.claims, &s.coms);
    let i = r.gen_range(0..o.len());
    let what;
    match k.wrong % 3 {
        0 => {
            // +k and k - n are the same point
            let cands: Vec<i32> = w.rots[i].iter().cloned().filter(|x| *x != 0).collect();
            if cands.is_empty() {
                return Ok(());
            }
            let x = cands[r.gen_range(0..cands.len())];
            let other = if x > 0 { x - w.n as i32 } else { x + w.n as i32 };
            o[i].register_rotation(rot(other));
            what = "a rotation registered twice under different names";
        }
        1 => {
            if w.rots[i].is_empty() {
                return Ok(());
            }
            let mut q = WitnessVerifierOracle::<Fr, Tpc<0>>::new(format!("p{}", i), false);
            for x in &w.rots[i] {
                q.register_rotation(rot(*x));
            }
            q.register_commitment(s.coms[i].clone());
            let skip = r.gen_range(0..w.claims[i].len());
            for (t, (a, v)) in w.claims[i].iter().enumerate() {
                if t != skip {
                    q.register_eval_at_challenge(w.pt(*a), *v);
                }
            }
            o[i] = q;
            what = "a missing evaluation";
        }
        _ => {
            let mut q = WitnessVerifierOracle::<Fr, Tpc<0>>::new(format!("p{}", i), false);
            for x in &w.rots[i] {
                q.register_rotation(rot(*x));
            }
            for (a, v) in &w.claims[i] {
                q.register_eval_at_challenge(w.pt(*a), *v);
            }
            o[i] = q;
            what = "a missing commitment";
        }
    }
    st.nt();
    st.hit(what);
    let refs: Vec<&dyn CommittedOracle<Fr, Tpc<0>>> = o.iter().map(|x| x as &dyn CommittedOracle<Fr, Tpc<0>>).collect();
    let mut fs = RealFs::initialize(&b"multiopen".to_vec());
    match guard(|| Multiopen::<Fr, Tpc<0>, RealFs>::verify(&s.vk, p, &refs, w.xi, w.n, &mut fs)) {
        Ok(Ok(())) => Err(format!("accepted with {}", what)),
        Ok(Err(_)) => Ok(()),
        Err(e) => Err(format!("panicked on {}: {}", what, e)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pts {
    k: usize,
    pool: u8,
    seed: u64,
}
fn basis(p: &Pts, st: &mut Stat) -> Result<(), String> {
    let mut r = rng(p.seed);
    let mut xs: Vec<Fr> = vec![];
    while xs.len() < p.k {
        let x = if p.pool == 0 { pool_val(3, &mut r) } else { Fr::rand(&mut r) };
        if !xs.contains(&x) {
            xs.push(x);
        } else if p.pool == 0 {
            let y = Fr::rand(&mut r);
            xs.push(y);
        }
    }
    st.nt();
    let z = construct_vanishing(&xs);
    let t = Fr::rand(&mut r);
    let want = xs.iter().map(|x| t - x).fold(Fr::one(), |a, b| a * b);
    if z.evaluate(&t) != want || z.degree() != xs.len() {
        return Err("vanishing polynomial of the points is not their monic product".into());
    }
    let b = construct_lagrange_basis(&xs);
    if b.len() != xs.len() {
        return Err("wrong number of Lagrange polynomials".into());
    }
    for (i, l) in b.iter().enumerate() {
        if l.degree() >= xs.len().max(1) {
            return Err("Lagrange polynomial of too high degree".into());
        }
        for (j, x) in xs.iter().enumerate() {
            let v = l.evaluate(x);
            if v != if i == j { Fr::one() } else { Fr::zero() } {
                return Err(format!("Lagrange polynomial {} is wrong at point {}", i, j));
            }
        }
    }
    st.work += 1;
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C10",
        rule: "honest: generated columns (any rotation sets, degrees, with and without hiding) are opened and accepted; the same opening with false claims, another commitment, or intermediate evaluations changed is refused. adaptive: for a false claim (single, cancelling within a set, cancelling across sets, exchanged) the f(x3) an unbounded prover needs is computed from the verifier at more points than f's degree, and must not be a polynomial; counts when the pattern exists for the case. malformed: repeated points, missing evaluations or commitments give errors. basis: vanishing and Lagrange polynomials against their definition",
        assumptions: vec!["binding commitments, unpredictable challenges"],
        fams: vec![
            fam("honest", 10000, 200000, || strat(4, 8), |k: &Case, st| honest::<Tpc<0>>(k, st)),
            fam("honest_wide", 600, 20000, || strat_wide(false), |k: &Case, st| honest::<Tpc<0>>(k, st)),
            fam("adaptive_wide", 200, 3000, || strat_wide(true), |k: &Case, st| adaptive(k, st)),
            fam("malformed_wide", 300, 8000, || strat_wide(false), |k: &Case, st| malformed(k, st)),
            fam("adaptive", 1500, 10000, || strat(3, 5), |k: &Case, st| adaptive(k, st)),
            fam("malformed", 3000, 100000, || strat(4, 6), |k: &Case, st| malformed(k, st)),
            fam("basis", 3000, 100000, || bx((0usize..9, 0u8..2, any::<u64>()).prop_map(|(k, pool, seed)| Pts { k, pool, seed })), |p: &Pts, st| basis(p, st)),
            fam("honest_kzg", 60, 2000, || strat(3, 5), |k: &Case, st| honest::<Kzg>(k, st)),
        ],
        known: vec![],
    }
}
