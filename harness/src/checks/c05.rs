use crate::adv::*;
use crate::recfs::{self, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::EvaluationDomain;
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use zero_over_k::verif_hooks::TPProof;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    kinds: Vec<(u8, u64)>,
}
const KINDS: u8 = 20;
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), proptest::collection::vec((0..KINDS, any::<u64>()), 6..14)).prop_map(|(s, kinds)| Case { s, kinds }).boxed()
}

fn commit1<PC: Pcs>(ck: &PC::CommitterKey, p: &[Fr]) -> Result<PC::Commitment, String> {
    Ok(commit_plain::<PC>(ck, &[p.to_vec()])?.remove(0))
}

/// Whether the claimed evaluations of a proof also satisfy the reference
/// constraints of another statement at the proof's own challenges (then the
/// change does not make a difference for this proof).
fn agrees<PC: Pcs>(c: &Circ, inst: &[Vec<Fr>], v: &VSide<PC>, p: &TPProof<Fr, PC>, ch: &Ch) -> bool {
    sides(c, inst, v, p, ch)
        .map(|(ts, zh)| combine(&ts, ch.alpha) == t_sum(c.n, p, ch.xi) * zh)
        .unwrap_or(false)
}

/// The constraints of a statement at a proof's challenges and evaluations, and
/// its vanishing polynomial there; None when the shapes do not fit.
fn sides<PC: Pcs>(c: &Circ, inst: &[Vec<Fr>], v: &VSide<PC>, p: &TPProof<Fr, PC>, ch: &Ch) -> Option<(Vec<Term>, Fr)> {
    let r = guard(|| {
        let lay = layout(c, v, ch.xi);
        if lay.w.len() != p.witness_evals.len()
            || lay.f.len() != p.fixed_oracle_evals.len()
            || lay.t.len() != p.table_oracle_evals.len()
            || lay.z.len() != p.z_evals.len()
            || lay.chunks != p.quotient_chunk_commitments.len()
            || c.num_perm() != p.permutation_oracle_evals.len()
            || 3 * c.lookups.len() != p.lookup_evals.len()
        {
            return None;
        }
        let polys: Vec<Vec<Fr>> = inst.iter().map(|x| interp(c.n, x).coeffs).collect();
        let acc = ProofAcc::new(c, &lay, p, &polys, ch.xi);
        Some((terms(c, &lay, ch, &acc), ev(&v.zh.coeffs, ch.xi)))
    });
    r.unwrap_or(None)
}

/// Whether two statements have the same constraint values in the same order
/// (zeros at the end of a group aside): then no numbering of the separating
/// powers tells them apart. Used when the numbering is not the reference one.
fn same_values(a: &Option<(Vec<Term>, Fr)>, b: &Option<(Vec<Term>, Fr)>) -> bool {
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    let group = |ts: &[Term], g: u8| -> Vec<Fr> {
        let mut v: Vec<Fr> = ts
            .iter()
            .filter(|t| {
                g == match t.tag {
                    Tag::Gate(_) => 0,
                    Tag::PStart | Tag::PStep(_) | Tag::PStitch(_) | Tag::PEnd => 1,
                    _ => 2,
                }
            })
            .map(|t| t.val)
            .collect();
        while v.last().map(|x| x.is_zero()).unwrap_or(false) {
            v.pop();
        }
        v
    };
    let all_zero = |ts: &[Term]| ts.iter().all(|t| t.val.is_zero());
    (0..3).all(|g| group(&a.0, g) == group(&b.0, g)) && (a.1 == b.1 || all_zero(&a.0))
}

fn used_fixed<PC: Pcs>(v: &VSide<PC>) -> Vec<usize> {
    use zero_over_k::oracles::traits::ConcreteOracle;
    (0..v.pre.fixed_oracles.len())
        .filter(|k| !v.pre.fixed_oracles[*k].get_queried_rotations().is_empty())
        .collect()
}

fn run<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let proof = match sys.prove::<RecFs>(k.s.seed) {
        Ok(p) => p,
        Err(_) => {
            st.hit("not-proved");
            return Ok(());
        }
    };
    recfs::clear();
    if sys.verify::<RecFs>(cp(&proof)).is_err() {
        st.hit("not-accepted");
        return Ok(());
    }
    let chs = recfs::challenges(&recfs::take());
    if chs.len() < 9 {
        return Err(format!("only {} challenges drawn during verification", chs.len()));
    }
    let ch = Ch::from(&chs);
    super::c01::classify(&c, st);
    let base = sys.vside();
    let reference_numbering = agrees(&c, &a.i, &base, &proof, &ch);
    if !reference_numbering {
        st.hit("other-numbering");
    }
    let mut changed = 0;
    for (kind, seed) in &k.kinds {
        let mut r = rng(*seed);
        let mut c2 = c.clone();
        let mut i2 = a.i.clone();
        let mut coms = sys.coms.clone();
        let what: String;
        // a changed commitment or public input makes another statement whatever
        // the constraints say
        let mut certain = false;
        let pick = |r: &mut rand_chacha::ChaChaRng, n: usize| if n == 0 { 0 } else { r.gen_range(0..n) };
        match kind % KINDS {
            0 | 1 if !i2.is_empty() => {
                let (col, row) = (pick(&mut r, i2.len()), pick(&mut r, c.n));
                let old = i2[col][row];
                i2[col][row] = if kind % KINDS == 0 { old + Fr::one() } else { pool_val(3, &mut r) };
                if i2[col][row] == old {
                    continue;
                }
                certain = true;
                what = format!("instance column {} row {} changed", col, row);
            }
            2 | 3 if !i2.is_empty() => {
                // agree with the old column at every point the proof looks at
                let col = pick(&mut r, i2.len());
                let rots: BTreeSet<usize> = (0..c.n)
                    .filter(|q| {
                        let mut qs = vec![];
                        for g in &c.gates {
                            g.queries(&mut qs);
                        }
                        for l in &c.lookups {
                            for e in &l.exprs {
                                e.queries(&mut qs);
                            }
                        }
                        qs.iter().any(|(t, cc, ro)| *t == Ty::I && *cc == col && md(*ro, c.n) == *q)
                    })
                    .collect();
                if rots.len() + 1 > c.n {
                    continue;
                }
                let mut p = vec![Fr::rand(&mut r)];
                for q in &rots {
                    let pt = ch.xi * omega(c.n).pow([*q as u64]);
                    let mut np = vec![Fr::zero(); p.len() + 1];
                    for (d, x) in p.iter().enumerate() {
                        np[d + 1] += x;
                        np[d] -= *x * pt;
                    }
                    p = np;
                }
                // any multiple of it agrees too: anywhere among the coefficients
                let room = c.n - p.len();
                let up = match pick(&mut r, 3) {
                    0 => 0,
                    1 => room,
                    _ => pick(&mut r, room + 1),
                };
                let mut q = vec![Fr::zero(); up];
                q.extend(p);
                let add = domain(c.n).fft(&q);
                for (x, d) in i2[col].iter_mut().zip(&add) {
                    *x += d;
                }
                certain = true;
                st.hit("adapted-instance");
                what = format!("instance column {} replaced by one agreeing at the evaluation points {:?}", col, rots);
                // and another column that makes up for it, when it is opened nowhere else
                if i2.len() > 1 && seed % 2 == 1 {
                    let other = (col + 1 + pick(&mut r, i2.len() - 1)) % i2.len();
                    let mut qs = vec![];
                    c.gates.iter().for_each(|g| g.queries(&mut qs));
                    c.lookups.iter().flat_map(|l| &l.exprs).for_each(|e| e.queries(&mut qs));
                    if qs.iter().filter(|(t, cc, _)| *t == Ty::I && *cc == other).all(|(_, _, ro)| rots.contains(&md(*ro, c.n))) {
                        for (x, d) in i2[other].iter_mut().zip(&add) {
                            *x -= d;
                        }
                        st.hit("adapted-instance-pair");
                    }
                }
            }
            4 if i2.len() > 1 => {
                let (x, y) = (pick(&mut r, i2.len()), pick(&mut r, i2.len()));
                if i2[x] == i2[y] {
                    continue;
                }
                i2.swap(x, y);
                certain = true;
                what = format!("instance columns {} and {} swapped", x, y);
            }
            5 | 6 | 7 | 8 => {
                let fx = used_fixed(&base);
                // (group, index)
                let mut all: Vec<(u8, usize)> = fx.iter().map(|x| (0u8, *x)).collect();
                let used_t: BTreeSet<usize> = c.lookups.iter().flat_map(|l| l.tabs.iter().map(|t| t.0)).collect();
                all.extend(used_t.iter().map(|x| (1u8, *x)));
                all.extend((0..coms.sig.len()).map(|x| (2u8, x)));
                all.push((3, 0));
                let (g, x) = all[pick(&mut r, all.len())];
                let evs = match g {
                    0 => a.f[x].clone(),
                    1 => a.t[x].clone(),
                    2 => c.sigma_evals()[x].clone(),
                    _ => c.q_blind(),
                };
                let mut ne = evs.clone();
                match seed % 4 {
                    0 => ne[pick(&mut r, c.n)] += Fr::one(),
                    1 => ne.iter_mut().for_each(|v| *v += Fr::one()),
                    2 => {
                        let (p, q) = (pick(&mut r, c.n), pick(&mut r, c.n));
                        ne.swap(p, q)
                    }
                    _ => {
                        // agrees at the opened points (xi times every power of omega it may be opened at)
                        let add = Fr::rand(&mut r);
                        let mut p = interp(c.n, &ne).coeffs;
                        p.resize(c.n + 1, Fr::zero());
                        let xn = ch.xi.pow([c.n as u64]);
                        p[0] -= add * xn;
                        p[c.n] += add;
                        let cm = if PC::NAME == "kzg" { commit1::<PC>(&sys.ck, &p)? } else { commit1::<PC>(&keys::<PC>(4 * c.n)?.0, &p)? };
                        set_com(&mut coms, g, x, cm);
                        ne = vec![];
                        st.hit("adapted-commitment");
                    }
                }
                if ne == evs {
                    continue;
                }
                if !ne.is_empty() {
                    let cm = commit1::<PC>(&sys.ck, &interp(c.n, &ne).coeffs)?;
                    set_com(&mut coms, g, x, cm);
                }
                certain = true;
                st.hit(["fixed-commitment", "table-commitment", "sigma-commitment", "qblind-commitment"][g as usize]);
                what = format!("preprocessed commitment {} of group {} changed", x, ["fixed", "table", "permutation", "blinding"][g as usize]);
            }
            9 if coms.f.len() + coms.t.len() + coms.sig.len() > 1 => {
                // swap two preprocessed commitments of a group
                let which = pick(&mut r, 3);
                let v = match which {
                    0 => &mut coms.f,
                    1 => &mut coms.t,
                    _ => &mut coms.sig,
                };
                if v.len() < 2 {
                    continue;
                }
                let (x, y) = (pick(&mut r, v.len()), pick(&mut r, v.len()));
                if ser(&v[x]) == ser(&v[y]) {
                    continue;
                }
                v.swap(x, y);
                let fx = used_fixed(&base);
                certain = match which {
                    0 => fx.contains(&x) || fx.contains(&y),
                    1 => false,
                    _ => true,
                };
                if which == 1 {
                    let used_t: BTreeSet<usize> = c.lookups.iter().flat_map(|l| l.tabs.iter().map(|t| t.0)).collect();
                    certain = used_t.contains(&x) || used_t.contains(&y);
                }
                if !certain {
                    continue;
                }
                what = format!("preprocessed commitments {} and {} swapped", x, y);
            }
            10 if c.gates.len() > 1 => {
                let g = pick(&mut r, c.gates.len());
                c2.gates.remove(g);
                what = format!("gate {} left out", g);
            }
            11 => {
                let g = pick(&mut r, c.gates.len());
                let e = c.gates[g].clone();
                let at = pick(&mut r, c.gates.len() + 1);
                c2.gates.insert(at, e);
                what = format!("gate {} repeated at {}", g, at);
            }
            12 if c.gates.len() > 1 => {
                let (x, y) = (pick(&mut r, c.gates.len()), pick(&mut r, c.gates.len()));
                c2.gates.swap(x, y);
                what = format!("gates {} and {} swapped", x, y);
            }
            13 => {
                let g = pick(&mut r, c.gates.len());
                let e = c.gates[g].clone();
                c2.gates[g] = match seed % 3 {
                    0 => Ex::Add(e.b(), Ex::C(Fr::one()).b()),
                    1 => Ex::Scale(e.b(), Fr::from(2u64)),
                    _ => Ex::Sub(e.b(), Ex::q(Ty::W, pick(&mut r, c.lw.len()), 0).b()),
                };
                what = format!("gate {} replaced", g);
            }
            14 => {
                let row = pick(&mut r, c.n);
                if !c2.missing.remove(&row) {
                    if c2.missing.len() + 1 >= c.n {
                        continue;
                    }
                    c2.missing.insert(row);
                }
                what = format!("vanishing polynomial toggled at row {}", row);
            }
            15 if c.num_perm() > 0 => {
                let j = pick(&mut r, c.num_perm());
                c2.deltas[j] = if seed % 2 == 0 { Fr::rand(&mut r) } else { c2.deltas[j] + Fr::one() };
                what = format!("separator {} changed", j);
            }
            16 if c.num_perm() > 1 => {
                let (x, y) = (pick(&mut r, c.num_perm()), pick(&mut r, c.num_perm()));
                if x == y {
                    continue;
                }
                c2.deltas.swap(x, y);
                what = format!("separators {} and {} swapped", x, y);
            }
            17 if c.num_perm() > 0 || !c.lookups.is_empty() => {
                let u2 = if seed % 2 == 0 { c.u + 1 } else { c.u.wrapping_sub(1) };
                if u2 == 0 || u2 >= c.n {
                    continue;
                }
                c2.u = u2;
                c2.pu = u2;
                what = format!("usable rows {} instead of {}", u2, c.u);
            }
            18 => {
                c2.n = if seed % 2 == 0 || c.n <= 2 { 2 * c.n } else { c.n / 2 };
                if c2.n < c.n {
                    c2.missing.retain(|x| *x < c2.n);
                    if c2.missing.len() >= c2.n || c2.u >= c2.n {
                        continue;
                    }
                    for i in i2.iter_mut() {
                        i.truncate(c2.n);
                    }
                } else {
                    for i in i2.iter_mut() {
                        i.resize(c2.n, Fr::zero());
                    }
                }
                what = format!("domain of size {} instead of {}", c2.n, c.n);
            }
            19 if !c.lookups.is_empty() => {
                let l = pick(&mut r, c.lookups.len());
                match seed % 4 {
                    0 => {
                        c2.lookups.remove(l);
                        what = format!("lookup {} left out", l);
                    }
                    1 => {
                        let e = c.lookups[l].exprs[0].clone();
                        c2.lookups[l].exprs[0] = Ex::Add(e.b(), Ex::C(Fr::one()).b());
                        what = format!("lookup {} expression changed", l);
                    }
                    2 => {
                        c2.lookups[l].tabs[0].1 += 1;
                        what = format!("lookup {} reads its table one row later", l);
                    }
                    _ => {
                        let m = pick(&mut r, c.lookups.len());
                        c2.lookups.swap(l, m);
                        what = format!("lookups {} and {} swapped", l, m);
                    }
                }
            }
            _ => continue,
        }
        let v = match guard(|| VSide::<PC>::try_new(&c2, &i2, &coms, &sys.pvk)) {
            Ok(Ok(v)) => v,
            _ => {
                st.hit("statement-refused");
                continue;
            }
        };
        let mut v = v;
        let no_op = !certain
            && match reference_numbering {
                true => agrees(&c2, &i2, &v, &proof, &ch),
                false => same_values(&sides(&c, &a.i, &base, &proof, &ch), &sides(&c2, &i2, &v, &proof, &ch)),
            };
        if no_op {
            st.hit("no-op-change");
            continue;
        }
        changed += 1;
        st.work += 1;
        st.hit(&format!("kind-{}", kind % KINDS));
        match guard(|| v.verify::<RecFs>(cp(&proof))) {
            Ok(Ok(())) => return Err(format!("a proof is accepted for another statement: {}", what)),
            Ok(Err(_)) => (),
            Err(e) => {
                if std::env::var("ZOKV_DBG").is_ok() {
                    eprintln!("PANIC {} {}", what, e);
                }
                st.hit("verifier-panicked")
            }
        }
    }
    if changed > 0 {
        st.nt();
    }
    Ok(())
}
fn set_com<PC: Pcs>(c: &mut Coms<PC>, g: u8, x: usize, v: PC::Commitment) {
    match g {
        0 => c.f[x] = v,
        1 => c.t[x] = v,
        2 => c.sig[x] = v,
        _ => c.qb = v,
    }
}

/// Preprocessed commitments are not part of the transcript: given a proof,
/// others can be computed for which it is accepted too.
fn demo() -> Option<String> {
    for seed in 0..20u64 {
        let r = guard(|| -> Result<bool, String> {
            let mut runner = proptest::test_runner::TestRunner::new_with_rng(
                Default::default(),
                proptest::test_runner::TestRng::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &[seed as u8; 32]),
            );
            use proptest::strategy::ValueTree;
            let s = spec_strat(Want { copy_pct: 0, lookup_pct: 0, max_log: 3, ..Want::default() }).new_tree(&mut runner).unwrap().current();
            let (c, a) = s.build();
            let sys = Sys::<Tpc<0>>::new(&c, &a)?;
            let proof = sys.prove::<RecFs>(1)?;
            recfs::clear();
            sys.verify::<RecFs>(cp(&proof))?;
            let ch = Ch::from(&recfs::challenges(&recfs::take()));
            // q_blind plus a multiple of (X^n - xi^n)(X - x3): the same at every opened point
            let mut p = interp(c.n, &c.q_blind()).coeffs;
            p.resize(c.n + 2, Fr::zero());
            let xn = ch.xi.pow([c.n as u64]);
            p[0] += xn * ch.x3;
            p[1] -= xn;
            p[c.n] -= ch.x3;
            p[c.n + 1] += Fr::one();
            let (ck, _) = <Tpc<0> as PolynomialCommitment<Fr, crate::tpc::Poly>>::trim(
                &crate::tpc::TParams { max: 4096 },
                4096,
                0,
                None,
            )
            .unwrap();
            let lp = LabeledPolynomial::new("x".into(), ark_poly::UVPolynomial::from_coefficients_vec(p), None, None);
            let (cm, _) = Tpc::<0>::commit(&ck, &[lp], None).unwrap();
            let mut coms = sys.coms.clone();
            coms.qb = cm[0].commitment().clone();
            let mut v = VSide::<Tpc<0>>::try_new(&c, &a.i, &coms, &sys.pvk)?;
            Ok(v.verify::<RecFs>(proof).is_ok())
        });
        recfs::reset();
        arena_clear();
        if let Ok(Ok(true)) = r {
            return Some("preprocessed commitments are not absorbed into the transcript: for an accepted proof another commitment agreeing at the opened points and at x3 is accepted with the same proof".into());
        }
    }
    None
}

pub fn check() -> Check {
    Check {
        id: "C05",
        rule: "a case is an accepted proof with 6-13 single changes of the statement (public inputs, incl. ones agreeing with the proof at its evaluation points; preprocessed commitments, incl. ones agreeing at the opened points; gates; lookups; vanishing polynomial; separators; usable rows; domain size), each verified with the unchanged proof; counts when at least one change was made. Changes of the constraints under which the proof's claimed evaluations satisfy the reference constraints as well are left out",
        assumptions: vec![
            "preprocessed commitments changed after the last challenge are the recorded finding",
            "binding commitments and unpredictable challenges (C06, C07, C10)",
        ],
        fams: vec![
            fam("changes", 5000, 100000, || strat(Want { copy_pct: 40, lookup_pct: 30, inst: true, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("changes_wide", 700, 8000, || strat(Want { copy_pct: 40, lookup_pct: 30, inst: true, wide: true, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("changes_large", 30, 1000, || strat(Want { copy_pct: 40, lookup_pct: 30, inst: true, min_log: 7, max_log: 10, max_w: 5, max_gates: 2, maxdeg: 4, ..Want::default() }), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("changes_kzg", 40, 1500, || strat(Want { copy_pct: 40, lookup_pct: 30, inst: true, max_log: 3, max_w: 4, ..Want::default() }), |k: &Case, st| run::<Kzg>(k, st)),
        ],
        known: vec![Known { id: "adapted-preprocessed-commitment", demo }],
    }
}
