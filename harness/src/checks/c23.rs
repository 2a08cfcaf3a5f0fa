use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use ark_ff::{FftField, Field, Zero};
use ark_poly::{EvaluationDomain, Polynomial};
use zero_over_k::data_structures::VerifierKey;
use zero_over_k::indexer::Indexer;

type P = Tpc<0>;

fn same(perm: bool, a: &VerifierKey<Fr, P>, b: &VerifierKey<Fr, P>, what: &str) -> Result<(), String> {
    let (x, y) = (&a.index_info, &b.index_info);
    if x.quotient_degree != y.quotient_degree
        || x.extended_coset_domain.size() != y.extended_coset_domain.size()
        || x.usable_rows != y.usable_rows
        || x.lookups.len() != y.lookups.len()
        || perm && (1..12).any(|k| x.permutation_argument.number_of_z_polys(k) != y.permutation_argument.number_of_z_polys(k))
        || perm && (1..6).any(|k| x.permutation_argument.number_of_alphas(k) != y.permutation_argument.number_of_alphas(k))
        || a.zh_inverses_over_coset != b.zh_inverses_over_coset
    {
        return Err(format!("{}: indices differ (quotient degree {} / {}, extended size {} / {})", what, x.quotient_degree, y.quotient_degree, x.extended_coset_domain.size(), y.extended_coset_domain.size()));
    }
    Ok(())
}
fn index<'a>(c: &Circ, ps: &PSide, pvk: &<P as ark_poly_commit::PolynomialCommitment<Fr, crate::tpc::Poly>>::VerifierKey) -> Result<VerifierKey<'static, Fr, P>, String> {
    Indexer::<Fr, P>::index(pvk, &dynv(&ps.gates), ps.lookups.clone(), &ps.w, &ps.i, &ps.f, c.domain(), &c.zh(), perm_info(c), c.u)
        .map_err(|e| format!("index: {:?}", e))
}

fn run(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    super::c01::classify(&c, st);
    st.nt();
    let (ck, pvk) = keys::<P>(c.srs_max)?;
    let ps = pside(&c, &a);
    let perm = c.num_perm() > 0;
    let vk = index(&c, &ps, &pvk)?;
    same(perm, &vk, &index(&c, &ps, &pvk)?, "indexing twice")?;
    // degrees must not depend on the values in the columns
    let z = |v: &Vec<Vec<Fr>>| v.iter().map(|x| vec![Fr::zero(); x.len()]).collect::<Vec<_>>();
    let az = Asg { w: z(&a.w), i: z(&a.i), f: z(&a.f), t: z(&a.t) };
    same(perm, &vk, &index(&c, &pside(&c, &az), &pvk)?, "zero columns")?;
    let coms = Coms { f: commit_fixed::<P>(&ck, &ps.f)?, t: commit_fixed::<P>(&ck, &ps.t)?, sig: commit_fixed::<P>(&ck, &ps.sig)?, qb: Default::default() };
    let vs = VSide::<P>::try_new(&c, &a.i, &coms, &pvk)?;
    same(perm, &vk, &vs.vk, "prover and verifier columns")?;
    // the index
    let n = c.n;
    let idx = &vk.index_info;
    let e = idx.extended_coset_domain.size();
    if e % n != 0 || e < n {
        return Err(format!("extended domain {} is not a multiple of {}", e, n));
    }
    if idx.usable_rows != c.u || idx.lookups.len() != c.lookups.len() {
        return Err("usable rows or lookups not kept".into());
    }
    let dz = n - c.missing.len();
    let fits = |deg: usize, what: &str| -> Result<(), String> {
        // quotient of degree deg - dz needs deg - dz + 1 points
        if deg >= dz && deg - dz + 1 > e {
            return Err(format!("{}: quotient of degree {} does not fit an extended domain of {}", what, deg - dz, e));
        }
        Ok(())
    };
    for g in &c.gates {
        fits(g.deg() * (n - 1), "gate")?;
    }
    if c.num_perm() > 0 {
        st.hit("copy-sized");
        let mut m = 1;
        while m < c.num_perm() && idx.permutation_argument.number_of_z_polys(m + 1) == 1 {
            m += 1;
        }
        fits((m + 2) * (n - 1), "permutation argument")?;
        let nz = idx.permutation_argument.number_of_z_polys(c.num_perm());
        if nz * m < c.num_perm() {
            return Err("permutation chunks do not cover the columns".into());
        }
    }
    for l in &c.lookups {
        let da = l.exprs.iter().map(|x| x.deg()).max().unwrap().max(1);
        fits((3 + da) * (n - 1), "lookup argument")?;
    }
    // inverses
    let zh = c.zh();
    if zh.degree() != dz {
        return Err("harness: zh".into());
    }
    if vk.zh_inverses_over_coset.len() != e {
        return Err(format!("{} inverses for an extended domain of {}", vk.zh_inverses_over_coset.len(), e));
    }
    let g = Fr::multiplicative_generator();
    let om = idx.extended_coset_domain.element(1);
    for (i, inv) in vk.zh_inverses_over_coset.iter().enumerate() {
        st.work += 1;
        let x = g * om.pow([i as u64]);
        let at = if n <= 256 {
            ev(&zh.coeffs, x)
        } else {
            // too many points for the coefficients: (x^n - 1) without the missing rows
            let mut v = (x.pow([n as u64]) - Fr::from(1u64)) * c.zh_scale;
            for m in &c.missing {
                v *= (x - c.domain().element(*m)).inverse().unwrap();
            }
            v
        };
        if at * inv != Fr::from(1u64) {
            return Err(format!("stored inverse {} is not the inverse of the vanishing polynomial", i));
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C23",
        rule: "a case is a generated system indexed from prover columns (twice, and with all-zero columns) and from verifier columns; every case is non-trivial: indices compared, every stored inverse multiplied out, every constraint's quotient degree computed independently and checked to fit",
        assumptions: vec!["the permutation info's row count equals the usable rows, rotation degrees are below the domain size"],
        fams: vec![
            fam("index", 30000, 900000, || spec_strat(Want { maxdeg: 8, max_log: 6, copy_pct: 45, lookup_pct: 35, drop_pct: 45, ..Want::default() }), |s: &Spec, st| run(s, st)),
            fam("index_wide", 2500, 80000, || spec_strat(Want { wide: true, drop_pct: 45, ..Want::default() }), |s: &Spec, st| run(s, st)),
            fam("index_large", 150, 4000, || spec_strat(Want { drop_pct: 45, min_log: 7, max_log: 8, max_w: 5, max_gates: 2, maxdeg: 4, ..Want::default() }), |s: &Spec, st| run(s, st)),
            fam("index_huge", 40, 800, || spec_strat(Want { drop_pct: 45, min_log: 11, max_log: 13, max_w: 5, max_gates: 2, maxdeg: 4, ..Want::default() }), |s: &Spec, st| run(s, st)),
        ],
        known: vec![],
    }
}
