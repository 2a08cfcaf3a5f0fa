use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use ark_ff::{FftField, Field, One, UniformRand, Zero};
use ark_poly::EvaluationDomain;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::data_structures::PermutationInfo;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::permutation::PermutationArgument;

type P = Tpc<0>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    log_n: u8,
    blind: u8,
    k: u8,
    log_scale: u8,
    log_ext: u8,
    pool: u8,
    deltas: u8,
    /// swaps defining the permutation of the usable cells
    swaps: Vec<(u16, u16)>,
    /// cells changed after the permutation was satisfied
    breaks: Vec<u16>,
    /// factors applied in the running product: (chunk, position 0..=u, factor id)
    factors: Vec<(u8, u8, u8)>,
    seed: u64,
}
fn strat(logs: std::ops::RangeInclusive<u8>, ks: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    (
        (logs, any::<u8>(), ks, 1u8..=3, 1u8..=3),
        (0u8..4, 0u8..3),
        proptest::collection::vec((any::<u16>(), any::<u16>()), 0..12),
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(any::<u16>(), 1..3)],
        prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec((any::<u8>(), any::<u8>(), 0u8..9), 1..3)],
        any::<u64>(),
    )
        .prop_map(|((log_n, blind, k, log_scale, log_ext), (pool, deltas), swaps, breaks, factors, seed)| Case {
            log_n,
            blind,
            k,
            log_scale,
            log_ext,
            pool,
            deltas,
            swaps,
            breaks,
            factors,
            seed,
        })
        .boxed()
}
pub fn wv(l: &str) -> WitnessVerifierOracle<Fr, P> {
    WitnessVerifierOracle::new(l, true)
}
pub fn fv(l: &str) -> FixedVerifierOracle<Fr, P> {
    FixedVerifierOracle::new(l, None)
}

fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let n = 1usize << c.log_n;
    let t = c.blind as usize % (if c.blind >= 224 { n - 1 } else { n / 2 });
    let u = n - 1 - t;
    let k = (c.k as usize).max(1);
    let scale = 1usize << c.log_scale.clamp(1, 3);
    let d = domain(n);
    let ext = domain(n << c.log_ext);
    let els: Vec<Fr> = d.elements().collect();
    let mut r = rng(c.seed);
    let dl = deltas(c.deltas, k, c.seed);
    let cells = k * u;
    let mut perm: Vec<usize> = (0..cells).collect();
    for (a, b) in &c.swaps {
        perm.swap(*a as usize * cells / 65536, *b as usize * cells / 65536);
    }
    // values constant on cycles
    let mut w: Vec<Vec<Fr>> = (0..k).map(|_| (0..n).map(|_| pool_val(c.pool, &mut r)).collect()).collect();
    let mut seen = vec![false; cells];
    for s in 0..cells {
        if seen[s] {
            continue;
        }
        let v = w[s / u][s % u];
        let mut x = s;
        while !seen[x] {
            seen[x] = true;
            w[x / u][x % u] = v;
            x = perm[x];
        }
    }
    for b in &c.breaks {
        let x = *b as usize * cells / 65536;
        w[x / u][x % u] += Fr::rand(&mut r);
    }
    let respected = (0..cells).all(|x| w[x / u][x % u] == w[perm[x] / u][perm[x] % u]);
    let mut sig: Vec<Vec<Fr>> = (0..k).map(|j| els.iter().map(|e| dl[j] * e).collect()).collect();
    for x in 0..cells {
        sig[x / u][x % u] = dl[perm[x] / u] * els[perm[x] % u];
    }
    let qb: Vec<Fr> = (0..n).map(|i| if i > u { Fr::one() } else { Fr::zero() }).collect();
    let (beta, gamma) = (Fr::rand(&mut r), Fr::rand(&mut r));
    let mut wo: Vec<WitnessProverOracle<Fr>> = w.iter().enumerate().map(|(j, v)| wpo(&format!("w{}", j), v, true)).collect();
    let mut so: Vec<FixedProverOracle<Fr>> = sig.iter().enumerate().map(|(j, v)| fpo(&format!("s{}", j), v)).collect();
    let mut qo = fpo("q_blind", &qb);
    for o in wo.iter_mut() {
        o.compute_extended_evals(&ext);
    }
    for o in so.iter_mut() {
        o.compute_extended_evals(&ext);
    }
    qo.compute_extended_evals(&ext);
    let wr: Vec<&WitnessProverOracle<Fr>> = wo.iter().collect();
    let info = PermutationInfo { u, deltas: dl.clone() };
    let arg = PermutationArgument::<Fr>::new(scale, &info);
    let nz = arg.number_of_z_polys(k);
    let per = scale - 1;
    if nz != (k + per - 1) / per {
        return Err("number of aggregation columns".into());
    }
    let na = arg.number_of_alphas(nz);
    st.hit(&format!("chunks={}", nz.min(4)));
    // reference running products
    let factor = |ch: usize, row: usize| -> (Fr, Fr) {
        let (mut a, mut b) = (Fr::one(), Fr::one());
        for j in ch * per..((ch + 1) * per).min(k) {
            a *= w[j][row] + beta * dl[j] * els[row] + gamma;
            b *= w[j][row] + beta * sig[j][row] + gamma;
        }
        (a, b)
    };
    let built = guard(|| arg.construct_agg_polys(&wr, &so, beta, gamma, &d, &ext, &mut r));
    let mut zs: Vec<Vec<Fr>>;
    match (&built, respected) {
        (Err(e), true) => return Err(format!("aggregation of respected permutation failed: {}", e)),
        (Err(_), false) => {
            st.hit("refused");
            // make them by hand: the product is continued as is
            zs = vec![];
        }
        (Ok(a), _) => {
            zs = a.iter().map(|o| o.evals().clone()).collect();
            if zs.len() != nz {
                return Err("number of aggregation columns built".into());
            }
            for (o, z) in a.iter().zip(&zs) {
                if z.len() != n || o.polynomial() != &interp(n, z) {
                    return Err("aggregation polynomial does not interpolate its values".into());
                }
                if o.get_extended_coset_evals().map_err(|e| format!("{:?}", e))? != &ext.coset_fft(&interp(n, z).coeffs) {
                    return Err("aggregation column's coset values".into());
                }
            }
        }
    }
    let mut mutated = false;
    if zs.is_empty() || !c.factors.is_empty() {
        // arbitrary aggregation columns: reference product times chosen factors
        mutated = true;
        zs = vec![];
        let mut cur = Fr::one();
        for ch in 0..nz {
            let mut z = vec![];
            let fac = |p: usize| -> Fr {
                let mut f = Fr::one();
                for (c0, p0, id) in &c.factors {
                    if *c0 as usize % nz == ch && *p0 as usize % (u + 1) == p {
                        f *= cval(*id);
                    }
                }
                f
            };
            cur *= fac(0);
            z.push(cur);
            for row in 0..u {
                let (a, b) = factor(ch, row);
                cur *= a * b.inverse().unwrap() * fac(row + 1);
                z.push(cur);
            }
            while z.len() < n {
                z.push(match ark_std::rand::Rng::gen_range(&mut r, 0..5) {
                    0 => Fr::zero(),
                    1 => Fr::one(),
                    2 => z[ark_std::rand::Rng::gen_range(&mut r, 0..=u)],
                    _ => Fr::rand(&mut r),
                });
            }
            zs.push(z);
        }
    }
    if mutated {
        st.hit("arbitrary-aggs");
    }
    // reference sub-constraints per row
    let ok_at = |row: usize| -> bool {
        let mut ok = true;
        if row == 0 {
            ok &= zs[0][0].is_one();
            for i in 1..nz {
                ok &= zs[i][0] == zs[i - 1][u];
            }
        }
        if row == u {
            let z = zs[nz - 1][u];
            ok &= z.is_zero() || z.is_one();
        }
        if row < u {
            for ch in 0..nz {
                let (a, b) = factor(ch, row);
                ok &= zs[ch][row + 1] * b == zs[ch][row] * a;
            }
        }
        ok
    };
    let alphas: Vec<Fr> = (0..na).map(|_| Fr::rand(&mut r)).collect();
    // the verifier's side at a point with given column values
    let ver = |x: Fr, l0: Fr, lu: Fr, wvs: &[Fr], svs: &[Fr], qbv: Fr, z: &[(Fr, Fr, Fr)]| -> Result<Fr, String> {
        let wos: Vec<_> = wvs
            .iter()
            .map(|v| {
                let mut o = wv("w");
                o.register_rotation(Rotation::curr());
                o.register_eval_at_challenge(x, *v);
                o
            })
            .collect();
        let sos: Vec<_> = svs
            .iter()
            .map(|v| {
                let mut o = fv("s");
                o.register_eval_at_challenge(x, *v);
                o
            })
            .collect();
        let mut q = fv("q_blind");
        q.register_eval_at_challenge(x, qbv);
        let zo: Vec<_> = z
            .iter()
            .map(|(a, b, cc)| {
                let mut o = wv("z");
                o.register_eval_at_challenge(x * els[u], *cc);
                o.register_eval_at_challenge(x * els[1], *b);
                o.register_eval_at_challenge(x, *a);
                o
            })
            .collect();
        let wrefs: Vec<&WitnessVerifierOracle<Fr, P>> = wos.iter().collect();
        guard(|| arg.open_argument::<P>(l0, lu, &q, &zo, &sos, &wrefs, beta, gamma, &d, x, &alphas))
            .map_err(|e| format!("open_argument panicked: {}", e))?
            .map_err(|e| format!("open_argument: {:?}", e))
    };
    let mut all_ok = true;
    for row in 0..n {
        st.work += 1;
        let zr: Vec<_> = zs.iter().map(|z| (z[row], z[(row + 1) % n], z[(row + u) % n])).collect();
        let wvs: Vec<Fr> = w.iter().map(|v| v[row]).collect();
        let svs: Vec<Fr> = sig.iter().map(|v| v[row]).collect();
        let dlt = |b: bool| if b { Fr::one() } else { Fr::zero() };
        let val = ver(els[row], dlt(row == 0), dlt(row == u), &wvs, &svs, qb[row], &zr)?;
        let ok = ok_at(row);
        all_ok &= ok;
        if val.is_zero() != ok {
            return Err(format!(
                "row {}: sub-constraints {} but the combined argument is {}",
                row,
                if ok { "hold" } else { "are violated" },
                if val.is_zero() { "zero" } else { "non-zero" }
            ));
        }
    }
    if !mutated {
        // columns built by the library
        if respected != all_ok {
            return Err(format!("columns respect the permutation: {}, library-built aggregation satisfies the argument: {}", respected, all_ok));
        }
        st.hit("honest");
    } else if !respected && c.factors.is_empty() && all_ok {
        return Err("harness: violated permutation satisfied".into());
    }
    if !all_ok {
        st.hit("violated-rows");
    }
    st.nt();
    // prover and verifier agree at points of the coset
    let mut zo: Vec<WitnessProverOracle<Fr>> = zs.iter().enumerate().map(|(i, z)| wpo(&format!("z{}", i), z, false)).collect();
    for o in zo.iter_mut() {
        o.compute_extended_evals(&ext);
    }
    let lag = |row: usize| {
        let mut v = vec![Fr::zero(); n];
        v[row] = Fr::one();
        interp(n, &v)
    };
    let (l0, lu) = (lag(0), lag(u));
    let (l0c, luc) = (ext.coset_fft(&l0.coeffs), ext.coset_fft(&lu.coeffs));
    let g = Fr::multiplicative_generator();
    let omega_ext = ext.element(1);
    let mut idx: Vec<usize> = vec![0, 1, ext.size() - 1, ext.size() - (1 << c.log_ext)];
    for s in 0..3u64 {
        idx.push((c.seed.rotate_left(9 * s as u32) % ext.size() as u64) as usize);
    }
    for i in idx {
        st.work += 1;
        let x = g * omega_ext.pow([i as u64]);
        let pv = guard(|| arg.instantiate_argument_at_omega_i(&l0c, &luc, &qo, &wr, &so, &zo, i, omega_ext.pow([i as u64]), beta, gamma, &d, &alphas))
            .map_err(|e| format!("instantiate panicked: {}", e))?
            .map_err(|e| format!("instantiate: {:?}", e))?;
        let at = |p: &[Fr], y: Fr| ev(p, y);
        let zr: Vec<_> = zo
            .iter()
            .map(|z| {
                let p = &z.polynomial().coeffs;
                (at(p, x), at(p, x * els[1]), at(p, x * els[u]))
            })
            .collect();
        let wvs: Vec<Fr> = wo.iter().map(|v| at(&v.polynomial().coeffs, x)).collect();
        let svs: Vec<Fr> = so.iter().map(|v| at(&v.polynomial().coeffs, x)).collect();
        let vv = ver(x, at(&l0.coeffs, x), at(&lu.coeffs, x), &wvs, &svs, at(&qo.polynomial().coeffs, x), &zr)?;
        if pv != vv {
            return Err(format!("prover and verifier values of the argument differ at coset position {}", i));
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C15",
        rule: "a case is 1..8 permuted columns over a domain of 4..16 rows, a permutation of the usable cells, optional broken cells, and either the library-built aggregation columns or arbitrary ones (running products with chosen faults at chosen rows); non-trivial when the row-by-row verdict of the combined argument (random separation challenges) was compared with the sub-constraints on every row and prover/verifier values on the coset",
        assumptions: vec!["random challenges do not hit the negligible exceptional set"],
        fams: vec![
            fam("argument", 50000, 1500000, || strat(1..=4, 1..=8), |c: &Case, st| run(c, st)),
            fam("many_columns", 3000, 40000, || strat(2..=3, 9..=40), |c: &Case, st| run(c, st)),
            fam("huge", 100, 2500, || strat(10..=11, 1..=3), |c: &Case, st| run(c, st)),
            fam("large", 100, 3000, || strat(6..=9, 1..=6), |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
