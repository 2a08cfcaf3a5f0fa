//! Setup and key preparation: keys support exactly the requested degree, work
//! for hidden and plain polynomials, and belong to their setup only.
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use ark_ff::{One, UniformRand};
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PCCommitterKey, PCUniversalParams, PCVerifierKey, PolynomialCommitment};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::verif_hooks::{MockProver, TurboPlonk};
use zero_over_k::PIL as _;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    max: u16,
    mock: bool,
    degs: Vec<(u8, bool, u8)>,
    seed: u64,
}
fn strat(max: u16) -> BoxedStrategy<Case> {
    (prop_oneof![3 => 1u16..12, 2 => 1u16..=max, 1 => (1u32..10).prop_map(move |k| ((1u16 << k) - 1).min(max).max(1)), 1 => (1u32..9).prop_map(move |k| (1u16 << k).min(max))], any::<bool>(), proptest::collection::vec((0u8..8, any::<bool>(), 0u8..4), 1..5), any::<u64>())
        .prop_map(|(max, mock, degs, seed)| Case { max, mock, degs, seed })
        .boxed()
}
type Keys<PC> = (<PC as PolynomialCommitment<Fr, crate::tpc::Poly>>::CommitterKey, <PC as PolynomialCommitment<Fr, crate::tpc::Poly>>::VerifierKey);

fn make<PC: Pcs>(max: usize, mock: bool, seed: u64) -> Result<(usize, Keys<PC>), String> {
    let r = guard(|| -> Result<_, String> {
        let srs = if mock { MockProver::<Fr, PC, RealFs>::universal_setup(max, &mut rng(seed)) } else { TurboPlonk::<Fr, PC, RealFs>::universal_setup(max, &mut rng(seed)) }
            .map_err(|e| format!("setup of degree {} refused: {:?}", max, e))?;
        let d = srs.max_degree();
        let k = if mock { MockProver::<Fr, PC, RealFs>::prepare_keys(&srs) } else { TurboPlonk::<Fr, PC, RealFs>::prepare_keys(&srs) }
            .map_err(|e| format!("keys of degree {} refused: {:?}", max, e))?;
        Ok((d, k))
    });
    r.map_err(|e| format!("setup or key preparation panicked: {}", e))?
}

fn run<PC: Pcs>(k: &Case, st: &mut Stat) -> Result<(), String> {
    let max = k.max as usize;
    let (d, (ck, vk)) = make::<PC>(max, k.mock, k.seed)?;
    st.nt();
    st.hit(if k.mock { "mock" } else { "real" });
    if d != max {
        return Err(format!("asked for degree {}, parameters say {}", max, d));
    }
    if ck.supported_degree() != max || vk.supported_degree() != max {
        return Err(format!("asked for degree {}, keys support {} and {}", max, ck.supported_degree(), vk.supported_degree()));
    }
    if ck.max_degree() != max || vk.max_degree() != max {
        return Err(format!("asked for degree {}, keys say {} and {}", max, ck.max_degree(), vk.max_degree()));
    }
    let (_, (_, vk2)) = make::<PC>(max, k.mock, k.seed ^ 0x5eed)?;
    let mut r = rng(k.seed ^ 9);
    for (kind, hide, pool) in &k.degs {
        let deg = match kind {
            0 => 0,
            1 => max + 1,
            2 => max + r.gen_range(1..20),
            3 => max - 1,
            4 | 5 => max,
            _ => r.gen_range(0..=max),
        };
        let mut v: Vec<Fr> = (0..=deg).map(|_| pool_val(*pool, &mut r)).collect();
        v[deg] = Fr::one();
        let hb = if *hide { Some(1) } else { None };
        let p = LabeledPolynomial::new("p".into(), DensePolynomial::from_coefficients_slice(&v), None, hb);
        st.work += 1;
        let c = guard(|| PC::commit(&ck, std::iter::once(&p), Some(&mut r))).map_err(|e| format!("commit panicked: {}", e))?;
        let (c, rands) = match (c, deg <= max) {
            (Err(_), false) => {
                st.hit("too-large");
                continue;
            }
            (Ok(_), false) => return Err(format!("keys for degree {} committed to a polynomial of degree {}", max, deg)),
            (Err(e), true) => return Err(format!("keys for degree {} refuse degree {} (hiding {:?}): {:?}", max, deg, hb, e)),
            (Ok(x), true) => x,
        };
        if deg == max {
            st.hit("largest");
        }
        let x = Fr::rand(&mut r);
        let y = ev(&v, x);
        let o = guard(|| PC::open(&ck, std::iter::once(&p), c.iter(), &x, Fr::one(), rands.iter(), None))
            .map_err(|e| format!("open panicked: {}", e))?
            .map_err(|e| format!("opening degree {} (hiding {:?}) under keys for degree {} fails: {:?}", deg, hb, max, e))?;
        let ask = |vk: &PC::VerifierKey, y: Fr| guard(|| PC::check(vk, c.iter(), &x, [y], &o, Fr::one(), None)).map(|r| r.unwrap_or(false)).map_err(|e| format!("check panicked: {}", e));
        if !ask(&vk, y)? {
            return Err(format!("an honest opening of degree {} (hiding {:?}) is refused", deg, hb));
        }
        if ask(&vk, y + Fr::rand(&mut r))? {
            return Err("a wrong value is accepted".into());
        }
        // a constant needs no setup secret
        if PC::NAME == "kzg" && (deg > 0 || *hide) {
            st.hit("other-setup");
            if ask(&vk2, y)? {
                return Err(format!("an opening of degree {} made under one setup verifies under another", deg));
            }
        }
    }
    Ok(())
}

/// Whole proofs with parameters of exactly the needed degree.
fn whole<PC: Pcs>(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    let max = c.n - 1;
    let (_, (ck, pvk)) = make::<PC>(max, s.seed & 1 == 1, s.seed)?;
    let (_, (ck2, pvk2)) = make::<PC>(max, false, s.seed ^ 0x5eed)?;
    let sys = Sys::<PC>::with_keys(&c, &a, ck, pvk)?;
    let p = sys.prove::<RealFs>(s.seed).map_err(|e| format!("parameters of degree {}: {}", max, e))?;
    st.nt();
    super::c01::classify(&c, st);
    sys.verify::<RealFs>(cp(&p)).map_err(|e| format!("parameters of degree {}: honest proof refused: {}", max, e))?;
    if PC::NAME == "kzg" {
        // the same statement under the keys of another setup
        let mut v = VSide::new(&c, &a.i, &sys.coms, &pvk2);
        if guard(|| v.verify::<RealFs>(cp(&p))).map_err(|e| format!("verify panicked: {}", e))?.is_ok() {
            return Err("a proof made under one setup verifies under another (commitments of the first)".into());
        }
        let other = Sys::<PC>::with_keys(&c, &a, ck2, pvk2)?;
        if guard(|| other.vside().verify::<RealFs>(cp(&p))).map_err(|e| format!("verify panicked: {}", e))?.is_ok() {
            return Err("a proof made under one setup verifies under another".into());
        }
    }
    // one degree less is too little for the system: an error, not a panic
    if max > 1 {
        let (_, (ck3, pvk3)) = make::<PC>(max - 1, false, s.seed)?;
        match guard(|| Sys::<PC>::with_keys(&c, &a, ck3, pvk3)) {
            Err(e) => return Err(format!("indexing under parameters one degree too small panics: {}", e)),
            Ok(Err(_)) => st.hit("one-less-refused-at-indexing"),
            Ok(Ok(t)) => match guard(|| t.prove_raw::<RealFs>(s.seed)) {
                Err(e) => return Err(format!("proving under parameters one degree too small panics: {}", e)),
                // every message happened to be of lower degree: then it is a good proof
                Ok(Ok(q)) => {
                    t.verify::<RealFs>(q).map_err(|e| format!("a proof made under parameters one degree too small is refused: {}", e))?;
                    st.hit("one-less-is-enough")
                }
                Ok(Err(_)) => st.hit("one-less-refused-at-proving"),
            },
        }
    }
    Ok(())
}

pub fn check() -> Check {
    let w = Want { copy_pct: 50, lookup_pct: 40, ..Want::default() };
    let kw = Want { copy_pct: 50, lookup_pct: 40, max_log: 3, max_w: 4, ..Want::default() };
    Check {
        id: "C25",
        rule: "keys: parameters of a generated degree (both provers' setup and key preparation), polynomials of degrees around it, plain and hidden, committed, opened and checked, with a wrong value and with another setup's key; whole: generated satisfied systems proved and verified under parameters of exactly the degree they need, of one less, and under another setup's keys. A case counts when keys were made and used",
        assumptions: vec!["independent setups have different secrets", "the all-constant commitments of a system do not depend on the setup"],
        fams: vec![
            fam("keys_kzg", 900, 30000, || strat(70), |k: &Case, st| run::<Kzg>(k, st)),
            fam("keys_large_kzg", 24, 600, || strat(600), |k: &Case, st| run::<Kzg>(k, st)),
            fam("keys", 4000, 100000, || strat(1000), |k: &Case, st| run::<Tpc<0>>(k, st)),
            fam("whole", 2500, 60000, move || spec_strat(w), |s: &Spec, st| whole::<Tpc<0>>(s, st)),
            fam("whole_large", 24, 600, move || spec_strat(Want { min_log: 7, max_log: 10, max_w: 4, max_gates: 2, maxdeg: 4, ..w }), |s: &Spec, st| whole::<Tpc<0>>(s, st)),
            fam("whole_kzg", 48, 1500, move || spec_strat(kw), |s: &Spec, st| whole::<Kzg>(s, st)),
        ],
        known: vec![],
    }
}
