use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, Tpc};
use crate::Fr;
use super::c15::{fv, wv};
use ark_ff::{FftField, Field, One, UniformRand, Zero};
use ark_poly::EvaluationDomain;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::lookup::permute::permute_for_lookup;
use zero_over_k::lookup::subset_equality::SubsetEqualityArgument;
use zero_over_k::lookup::LookupArgument;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::WitnessProverOracle;

type P = Tpc<0>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    log_n: u8,
    blind: u8,
    log_ext: u8,
    pool: u8,
    distinct: u8,
    /// changed cells: (column A/S/A'/S', row, value id); value ids below 100 copy another cell
    cells: Vec<(u8, u8, u8)>,
    /// chosen values on unusable rows: (column, row from the end, value id; 100..200 the column's first value)
    #[serde(default)]
    tail: Vec<(u8, u8, u8)>,
    /// swapped rows of A' or S'
    swaps: Vec<(bool, u8, u8)>,
    /// faults in the running product: (position 0..=u, factor id)
    factors: Vec<(u8, u8)>,
    /// only the three subset-equality sub-constraints
    subset_only: bool,
    seed: u64,
}
fn strat(logs: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    (
        (logs, any::<u8>(), 1u8..=3, 0u8..4, 1u8..8),
        prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec((0u8..4, any::<u8>(), any::<u8>()), 1..3)],
        prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec((any::<bool>(), any::<u8>(), any::<u8>()), 1..4)],
        prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec((any::<u8>(), 0u8..9), 1..3)],
        any::<bool>(),
        any::<u64>(),
        prop_oneof![2 => Just(vec![]), 2 => proptest::collection::vec((prop_oneof![1 => 0u8..4, 2 => Just(2u8)], prop_oneof![2 => Just(0u8), 1 => any::<u8>()], any::<u8>()), 1..4)],
    )
        .prop_map(|((log_n, blind, log_ext, pool, distinct), cells, swaps, factors, subset_only, seed, tail)| Case {
            tail,
            log_n,
            blind,
            log_ext,
            pool,
            distinct,
            cells,
            swaps,
            factors,
            subset_only,
            seed,
        })
        .boxed()
}

fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let n = 1usize << c.log_n;
    let t = c.blind as usize % (if c.blind >= 224 { n - 1 } else { n / 2 });
    let u = n - 1 - t;
    let d = domain(n);
    let ext = domain(n << c.log_ext);
    let els: Vec<Fr> = d.elements().collect();
    let mut r = rng(c.seed);
    use ark_std::rand::Rng;
    let tab: Vec<Fr> = (0..u).map(|_| pool_val(c.pool, &mut r)).collect();
    let pick: Vec<usize> = (0..c.distinct as usize).map(|_| r.gen_range(0..u)).collect();
    let a: Vec<Fr> = (0..u).map(|_| tab[pick[r.gen_range(0..pick.len())]]).collect();
    let (ap, sp) = guard(|| permute_for_lookup(&a, &tab)).map_err(|e| format!("permute: {}", e))?;
    let mut cols: [Vec<Fr>; 4] = [a, tab, ap, sp];
    for v in cols.iter_mut() {
        while v.len() < n {
            v.push(Fr::rand(&mut r));
        }
    }
    for (prime, x, y) in &c.swaps {
        let (x, y) = (*x as usize % u, *y as usize % u);
        cols[if *prime { 2 } else { 3 }].swap(x, y);
    }
    let mut cells = false;
    for (col, row, v) in &c.cells {
        let row = *row as usize % u;
        let val = if *v < 100 { cols[*v as usize % 4][(*v as usize / 4) % u] } else { cval(*v) };
        cols[*col as usize % 4][row] = val;
        cells = true;
    }
    for (col, row, v) in &c.tail {
        let row = n - 1 - *row as usize % (n - u);
        let col = *col as usize % 4;
        let val = match *v {
            v if v < 100 => cols[v as usize % 4][(v as usize / 4) % u],
            v if v < 200 => cols[col][0],
            v => cval(v - 200),
        };
        cols[col][row] = val;
        st.hit("chosen-blinding");
    }
    let (beta, gamma) = (Fr::rand(&mut r), Fr::rand(&mut r));
    let mk = |v: &[Fr], l: &str| -> WitnessProverOracle<Fr> {
        let mut o = wpo(l, v, false);
        o.compute_extended_evals(&ext);
        o
    };
    let polys = (mk(&cols[0], "a"), mk(&cols[1], "s"), mk(&cols[2], "a_prime"), mk(&cols[3], "s_prime"));
    let term = |i: usize| -> (Fr, Fr) {
        ((cols[0][i] + beta) * (cols[1][i] + gamma), (cols[2][i] + beta) * (cols[3][i] + gamma))
    };
    let mut zs: Vec<Fr>;
    let built = guard(|| SubsetEqualityArgument::construct_agg_poly(&polys, beta, gamma, 0, u, &d, &ext, &mut r));
    let multisets = {
        let s = |i: usize| {
            let mut v = cols[i][..u].to_vec();
            v.sort();
            v
        };
        s(0) == s(2) && s(1) == s(3)
    };
    let arbitrary = match (&built, multisets) {
        (Err(e), true) => return Err(format!("aggregation of rearranged columns failed: {}", e)),
        (Err(_), false) => {
            st.hit("refused");
            true
        }
        (Ok(_), _) => !c.factors.is_empty(),
    };
    if arbitrary {
        st.hit("arbitrary-agg");
        let fac = |p: usize| -> Fr {
            let mut f = Fr::one();
            for (p0, id) in &c.factors {
                if *p0 as usize % (u + 1) == p {
                    f *= cval(*id);
                }
            }
            f
        };
        zs = vec![fac(0)];
        for i in 0..u {
            let (nu, de) = term(i);
            let l = *zs.last().unwrap();
            zs.push(l * nu * de.inverse().unwrap() * fac(i + 1));
        }
        while zs.len() < n {
            zs.push(match r.gen_range(0..5) {
                0 => Fr::zero(),
                1 => Fr::one(),
                2 => zs[r.gen_range(0..=u)],
                _ => Fr::rand(&mut r),
            });
        }
    } else {
        let o = built.as_ref().unwrap();
        zs = o.evals().clone();
        if zs.len() != n || o.polynomial() != &interp(n, &zs) {
            return Err("aggregation polynomial does not interpolate its values".into());
        }
        if o.get_extended_coset_evals().map_err(|e| format!("{:?}", e))? != &ext.coset_fft(&interp(n, &zs).coeffs) {
            return Err("aggregation column's coset values".into());
        }
    }
    let sub = c.subset_only;
    let ok_at = |row: usize| -> bool {
        let mut ok = true;
        if row == 0 {
            ok &= zs[0].is_one();
            ok &= sub || cols[2][0] == cols[3][0];
        }
        if row == u {
            ok &= zs[u].is_zero() || zs[u].is_one();
        }
        if row < u {
            let (nu, de) = term(row);
            ok &= zs[row + 1] * de == zs[row] * nu;
            ok &= sub || cols[2][row] == cols[3][row] || cols[2][row] == cols[2][(row + n - 1) % n];
        }
        ok
    };
    let qb: Vec<Fr> = (0..n).map(|i| if i > u { Fr::one() } else { Fr::zero() }).collect();
    let alphas: Vec<Fr> = (0..if sub { 3 } else { 5 }).map(|_| Fr::rand(&mut r)).collect();
    let om = els[1];
    let ver = |x: Fr, l0: Fr, lu: Fr, a: Fr, s: Fr, ap: (Fr, Fr), sp: Fr, qbv: Fr, z: (Fr, Fr)| -> Result<Fr, String> {
        let one = |l: &str, v: Fr| {
            let mut o = wv(l);
            o.register_eval_at_challenge(x, v);
            o
        };
        let mut apo = one("a_prime", ap.0);
        apo.register_eval_at_challenge(om.inverse().unwrap() * x, ap.1);
        let mut zo = one("z", z.0);
        zo.register_eval_at_challenge(om * x, z.1);
        let mut q = fv("q_blind");
        q.register_eval_at_challenge(x, qbv);
        let lo = (one("a", a), one("s", s), apo, one("s_prime", sp));
        guard(|| {
            if sub {
                SubsetEqualityArgument::open_argument::<P>(&l0, lu, &q, &lo, &zo, beta, gamma, &x, &d, &alphas)
            } else {
                LookupArgument::open_argument::<P>(&l0, lu, &q, &lo, &zo, beta, gamma, &x, &d, &alphas)
            }
        })
        .map_err(|e| format!("open_argument panicked: {}", e))?
        .map_err(|e| format!("open_argument: {:?}", e))
    };
    let dlt = |b: bool| if b { Fr::one() } else { Fr::zero() };
    let mut all = true;
    for row in 0..n {
        st.work += 1;
        let p = (row + n - 1) % n;
        let v = ver(
            els[row],
            dlt(row == 0),
            dlt(row == u),
            cols[0][row],
            cols[1][row],
            (cols[2][row], cols[2][p]),
            cols[3][row],
            qb[row],
            (zs[row], zs[(row + 1) % n]),
        )?;
        let ok = ok_at(row);
        all &= ok;
        if v.is_zero() != ok {
            return Err(format!(
                "row {}: sub-constraints {} but the combined argument is {}",
                row,
                if ok { "hold" } else { "are violated" },
                if v.is_zero() { "zero" } else { "non-zero" }
            ));
        }
    }
    if !arbitrary && !cells && c.swaps.is_empty() {
        st.hit("honest");
        if !all {
            return Err("honest lookup columns do not satisfy the argument".into());
        }
    }
    if all && !sub && c.factors.is_empty() && !zs[..=u].iter().any(|x| x.is_zero()) {
        // soundness of the whole: every A value is in S
        if cols[0][..u].iter().any(|x| !cols[1][..u].contains(x)) {
            return Err("argument satisfied although a value is outside the table".into());
        }
    }
    if !all {
        st.hit("violated-rows");
    }
    st.nt();
    let z = mk(&zs, "z");
    let mut q = fpo("q_blind", &qb);
    q.compute_extended_evals(&ext);
    let lag = |row: usize| {
        let mut v = vec![Fr::zero(); n];
        v[row] = Fr::one();
        interp(n, &v)
    };
    let (l0, lu) = (lag(0), lag(u));
    let (l0c, luc) = (ext.coset_fft(&l0.coeffs), ext.coset_fft(&lu.coeffs));
    let g = Fr::multiplicative_generator();
    let oe = ext.element(1);
    let mut idx: Vec<usize> = vec![0, 1, (1 << c.log_ext) - 1, ext.size() - 1];
    for s in 0..3u64 {
        idx.push((c.seed.rotate_left(9 * s as u32) % ext.size() as u64) as usize);
    }
    for i in idx {
        st.work += 1;
        let x = g * oe.pow([i as u64]);
        let pv = guard(|| {
            if sub {
                SubsetEqualityArgument::instantiate_argument_at_omega_i(&l0c, &luc, &q, &polys, &z, beta, gamma, i, &alphas)
            } else {
                LookupArgument::instantiate_argument_at_omega_i(&l0c, &luc, &q, &polys, &z, beta, gamma, i, &alphas)
            }
        })
        .map_err(|e| format!("instantiate panicked: {}", e))?
        .map_err(|e| format!("instantiate: {:?}", e))?;
        let at = |o: &WitnessProverOracle<Fr>, y: Fr| ev(&o.polynomial().coeffs, y);
        let vv = ver(
            x,
            ev(&l0.coeffs, x),
            ev(&lu.coeffs, x),
            at(&polys.0, x),
            at(&polys.1, x),
            (at(&polys.2, x), at(&polys.2, x * om.inverse().unwrap())),
            at(&polys.3, x),
            ev(&q.polynomial().coeffs, x),
            (at(&z, x), at(&z, x * om)),
        )?;
        if pv != vv {
            return Err(format!("prover and verifier values of the argument differ at coset position {}", i));
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C16",
        rule: "a case is a table and looked-up column over 4..16 rows, their permuted versions, optionally with changed or swapped cells, and the library-built or an arbitrary aggregation column; non-trivial when the combined argument's row-by-row verdict (random separation challenges) was compared with the sub-constraints on every row and prover/verifier values on the coset",
        assumptions: vec!["random challenges do not hit the negligible exceptional set"],
        fams: vec![
            fam("argument", 80000, 2500000, || strat(1..=4), |c: &Case, st| run(c, st)),
            fam("huge", 100, 2500, || strat(10..=11), |c: &Case, st| run(c, st)),
            fam("large", 200, 6000, || strat(6..=9), |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
