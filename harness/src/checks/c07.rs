use super::c06::coms_mut;
use crate::adv::*;
use crate::recfs::{self, RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::{One, UniformRand, Zero};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::verif_hooks::{TPProof, TurboPlonk};
use zero_over_k::PIL;

const NAMES: [&str; 9] = ["theta", "beta", "gamma", "alpha", "xi", "x1", "x2", "x3", "x4"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    seed: u64,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), any::<u64>()).prop_map(|(s, seed)| Case { s, seed }).boxed()
}

type P1 = Tpc<1>;

/// Challenges drawn when `p` is verified against the statement; the identity is
/// made to hold so that every challenge is reached.
fn draws(c: &Circ, a: &Asg, sys: &Sys<P1>, p: &TPProof<Fr, P1>) -> Result<Option<Vec<Fr>>, String> {
    let inst = inst_polys(c, a);
    let run = |zh: Option<crate::tpc::Poly>| {
        let mut v = VSide::<P1>::new(c, &a.i, &sys.coms, &sys.pvk);
        if let Some(z) = zh {
            v.zh = z;
        }
        recfs::clear();
        let r = guard(|| v.verify::<RecFs>(cp(p)));
        let l = recfs::take();
        (matches!(r, Ok(Ok(()))), recfs::challenges(&l), l)
    };
    let (ok, ch, _) = run(None);
    if ok && ch.len() >= 9 {
        return Ok(Some(ch));
    }
    if ch.len() < 5 {
        return Err(format!("only {} challenges drawn before the identity check", ch.len()));
    }
    let mut full = ch.clone();
    full.resize(9, Fr::zero());
    let chs = Ch::from(&full);
    let lay = layout(c, &sys.vside(), chs.xi);
    let zh = match fake_zh(c, &lay, p, &inst, &chs) {
        Some(z) => z,
        None => return Ok(None),
    };
    let (ok, ch2, _) = run(Some(zh));
    if !ok {
        return Ok(None);
    }
    Ok(Some(ch2))
}

fn bindings(k: &Case, cap: usize, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<P1>::new(&c, &a)?;
    let honest = match sys.prove::<RecFs>(k.s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let mut r = rng(k.seed);
    let base = match draws(&c, &a, &sys, &honest)? {
        Some(b) => b,
        None => {
            st.hit("base-not-accepted");
            return Ok(());
        }
    };
    if base.len() != 9 {
        return Err(format!("{} challenges drawn during verification, 9 in the protocol", base.len()));
    }
    for i in 0..9 {
        for j in 0..i {
            if base[i] == base[j] {
                return Err(format!("challenges {} and {} are equal", NAMES[j], NAMES[i]));
            }
        }
    }
    st.nt();
    super::c01::classify(&c, st);
    // (what, first challenge that follows the message, changed proof, changed statement)
    let mut todo: Vec<(String, usize, TPProof<Fr, P1>, Option<Asg>)> = vec![];
    let nc = coms_mut(&mut cp(&honest)).len();
    let k_of = |name: &str| match name {
        "witness" => 0,
        "lookup" => 1,
        "z" | "lookup-z" => 3,
        "quotient" => 4,
        _ => 7,
    };
    for i in 0..nc {
        let mut p = cp(&honest);
        let mut v = coms_mut(&mut p);
        let name = v[i].0;
        match r.gen_range(0..3) {
            0 => v[i].1.r.push(Fr::rand(&mut r)),
            1 => {
                if v[i].1.c.is_empty() {
                    v[i].1.c.push(Fr::zero());
                }
                v[i].1.c[0] += Fr::one()
            }
            _ => {
                let last = v[i].1.c.len();
                if last > 0 {
                    v[i].1.c[last - 1] += Fr::rand(&mut r);
                } else {
                    v[i].1.c.push(Fr::rand(&mut r));
                }
            }
        }
        let x = k_of(name);
        st.hit(&format!("message-{}", name));
        todo.push((format!("{} commitment at position {}", name, i), x, p, None));
    }
    for (pt, i) in slots(&honest) {
        let mut p = cp(&honest);
        part_mut(&mut p, pt)[i] += if r.gen_range(0..2) == 0 { Fr::one() } else { Fr::rand(&mut r) };
        st.hit(&format!("message-eval-{:?}", pt));
        todo.push((format!("claimed evaluation {:?}[{}]", pt, i), 5, p, None));
    }
    // two claimed evaluations swapped or changed by opposite amounts
    let sl = slots(&honest);
    for _ in 0..4 {
        let (x, y) = (sl[r.gen_range(0..sl.len())], sl[r.gen_range(0..sl.len())]);
        let mut p = cp(&honest);
        if x == y {
            continue;
        }
        if r.gen_range(0..2) == 0 {
            let (vx, vy) = (part(&p, x.0)[x.1], part(&p, y.0)[y.1]);
            if vx == vy {
                continue;
            }
            part_mut(&mut p, x.0)[x.1] = vy;
            part_mut(&mut p, y.0)[y.1] = vx;
        } else {
            let d = Fr::rand(&mut r);
            part_mut(&mut p, x.0)[x.1] += d;
            part_mut(&mut p, y.0)[y.1] -= d;
        }
        todo.push((format!("claimed evaluations {:?} and {:?}", x, y), 5, p, None));
    }
    for i in 0..honest.multiopen_proof.q_evals.len() {
        let mut p = cp(&honest);
        p.multiopen_proof.q_evals[i] += Fr::rand(&mut r);
        st.hit("message-q_eval");
        todo.push((format!("intermediate evaluation {}", i), 8, p, None));
    }
    for col in 0..a.i.len() {
        let mut b = a.clone();
        let row = r.gen_range(0..c.n);
        b.i[col][row] += Fr::one();
        st.hit("message-instance");
        todo.push((format!("public input column {} row {}", col, row), 0, cp(&honest), Some(b)));
        // one coefficient only
        let mut b = a.clone();
        let d = match r.gen_range(0..3) {
            0 => c.n - 1,
            _ => r.gen_range(0..c.n),
        };
        let mut p = vec![Fr::zero(); d + 1];
        p[d] = Fr::one();
        use ark_poly::EvaluationDomain;
        for (x, y) in b.i[col].iter_mut().zip(domain(c.n).fft(&p)) {
            *x += y;
        }
        todo.push((format!("public input column {}, coefficient {}", col, d), 0, cp(&honest), Some(b)));
    }
    if a.i.len() > 1 {
        let (x, y) = (r.gen_range(0..a.i.len()), r.gen_range(0..a.i.len()));
        if a.i[x] != a.i[y] {
            let mut b = a.clone();
            b.i.swap(x, y);
            todo.push((format!("public input columns {} and {} swapped", x, y), 0, cp(&honest), Some(b)));
        }
        if x != y {
            let mut b = a.clone();
            let (row, d) = (r.gen_range(0..c.n), Fr::rand(&mut r));
            b.i[x][row] += d;
            b.i[y][row] -= d;
            todo.push((format!("public input columns {} and {} changed by opposite amounts in row {}", x, y, row), 0, cp(&honest), Some(b)));
        }
    }
    // messages of the same round exchanged, or changed by opposite amounts
    for _ in 0..3 {
        let (x, y) = (r.gen_range(0..nc), r.gen_range(0..nc));
        let mut p = cp(&honest);
        let mut v = coms_mut(&mut p);
        let (kx, ky) = (k_of(v[x].0), k_of(v[y].0));
        if x == y || (&v[x].1.c, &v[x].1.r) == (&v[y].1.c, &v[y].1.r) {
            continue;
        }
        let (cx, cy) = (v[x].1.clone(), v[y].1.clone());
        *v[x].1 = cy;
        *v[y].1 = cx;
        st.hit("message-commitments-swapped");
        todo.push((format!("commitments {} and {}", x, y), kx.min(ky), p, None));
    }
    let nq = honest.multiopen_proof.q_evals.len();
    if nq > 1 {
        let (x, y) = (r.gen_range(0..nq), r.gen_range(0..nq));
        let d = Fr::rand(&mut r);
        if x != y {
            let mut p = cp(&honest);
            p.multiopen_proof.q_evals[x] += d;
            p.multiopen_proof.q_evals[y] -= d;
            todo.push((format!("intermediate evaluations {} and {}", x, y), 8, p, None));
        }
    }
    while todo.len() > cap {
        let x = r.gen_range(0..todo.len());
        todo.swap_remove(x);
    }
    for (what, first, p, b) in todo {
        let got = match draws(&c, b.as_ref().unwrap_or(&a), &sys, &p)? {
            Some(g) => g,
            None => {
                st.hit("not-reached");
                continue;
            }
        };
        st.work += 1;
        for i in 0..9.min(got.len()) {
            if i >= first && got[i] == base[i] {
                return Err(format!("challenge {} does not depend on {}", NAMES[i], what));
            }
            if i < first && got[i] != base[i] {
                return Err(format!("challenge {} depends on {}, which is sent after it", NAMES[i], what));
            }
        }
    }
    Ok(())
}

/// Prover and verifier draw the same challenges, after the same messages.
fn agree<PC: Pcs>(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    recfs::clear();
    let p = match sys.prove::<RecFs>(s.seed) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let pl = recfs::take();
    let _ = sys.verify::<RecFs>(cp(&p));
    let vl = recfs::take();
    let (pc, vc) = (recfs::challenges(&pl), recfs::challenges(&vl));
    st.nt();
    st.work += 1;
    super::c01::classify(&c, st);
    for i in 0..pc.len().min(vc.len()) {
        if pc[i] != vc[i] {
            return Err(format!("prover and verifier derive different challenges ({})", NAMES.get(i).unwrap_or(&"?")));
        }
    }
    if vc.len() != pc.len() {
        return Err(format!("prover draws {} challenges, verifier {}", pc.len(), vc.len()));
    }
    // the protocol name comes before the first challenge
    let name = <TurboPlonk<Fr, PC, RecFs> as PIL<Fr, PC, RecFs>>::PROTOCOL_NAME;
    let segs = recfs::segments(&vl);
    let found = segs.first().map_or(false, |s| s.absorbed.iter().any(|m| m.windows(name.len().max(1)).any(|w| w == name)));
    if !found {
        return Err("the protocol name is not absorbed before the first challenge".into());
    }
    // messages are absorbed, not only summarised: the real generator gives the same verdict
    let r = sys.verify::<RealFs>(p);
    if r.is_err() {
        st.hit("not-accepted");
    }
    Ok(())
}

pub fn check() -> Check {
    let w = Want { copy_pct: 50, lookup_pct: 40, inst: true, ..Want::default() };
    Check {
        id: "C07",
        rule: "bindings: every message of an honest proof (each commitment, claimed evaluation, intermediate evaluation) and every public-input column is changed on its own, the identity is kept satisfied, and the nine challenges are compared with those of the unchanged proof: all later ones must differ, all earlier ones be equal; counts when the unchanged proof reaches all challenges. agree: prover's and verifier's challenge sequences of one proof are equal and start from the protocol name",
        assumptions: vec!["the challenge generator's hash is collision free", "preprocessed commitments are not in the transcript (recorded under C05)"],
        fams: vec![
            fam("bindings", 700, 40000, move || strat(w), |k: &Case, st| bindings(k, usize::MAX, st)),
            fam("bindings_wide", 80, 3000, move || strat(Want { wide: true, ..w }), |k: &Case, st| bindings(k, usize::MAX, st)),
            fam("bindings_large", 12, 600, move || strat(Want { min_log: 6, max_log: 9, max_w: 4, max_gates: 2, maxdeg: 3, ..w }), |k: &Case, st| bindings(k, 24, st)),
            fam("agree", 1500, 50000, move || spec_strat(w), |s: &Spec, st| agree::<Tpc<0>>(s, st)),
            fam("agree_wide", 250, 8000, move || spec_strat(Want { wide: true, ..w }), |s: &Spec, st| agree::<Tpc<0>>(s, st)),
            fam("agree_kzg", 40, 1500, move || spec_strat(Want { max_log: 3, max_w: 4, ..w }), |s: &Spec, st| agree::<Kzg>(s, st)),
        ],
        known: vec![],
    }
}
