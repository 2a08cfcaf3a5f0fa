use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::{ev, vadd, vscale};
use crate::Fr;
use ark_bls12_381::{Bls12_381, G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PolynomialCommitment};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::commitment::HomomorphicCommitment;

type Com = <Kzg as PolynomialCommitment<Fr, DensePolynomial<Fr>>>::Commitment;
type Rand = <Kzg as PolynomialCommitment<Fr, DensePolynomial<Fr>>>::Randomness;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Leaf(u8),
    Zero,
    Add(Box<Op>, Box<Op>),
    Scale(Box<Op>, u8),
    Neg(Box<Op>),
    Msm(Vec<(Op, u8)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyS {
    len: u8,
    pool: u8,
    hiding: bool,
    seed: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    polys: Vec<PolyS>,
    op: Op,
    point: u8,
    delta: u8,
    seed: u64,
}
fn op_strat() -> BoxedStrategy<Op> {
    let leaf = prop_oneof![8 => any::<u8>().prop_map(Op::Leaf), 1 => Just(Op::Zero)];
    leaf.prop_recursive(3, 12, 4, |x| {
        prop_oneof![
            3 => (x.clone(), x.clone()).prop_map(|(a, b)| Op::Add(Box::new(a), Box::new(b))),
            2 => (x.clone(), 0u8..12).prop_map(|(a, k)| Op::Scale(Box::new(a), k)),
            2 => x.clone().prop_map(|a| Op::Neg(Box::new(a))),
            3 => proptest::collection::vec((x, 0u8..12), 0..5).prop_map(Op::Msm),
        ]
    })
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    (
        proptest::collection::vec(
            (0u8..9, 0u8..4, any::<bool>(), any::<u16>()).prop_map(|(len, pool, hiding, seed)| PolyS { len, pool, hiding, seed }),
            1..4,
        ),
        op_strat(),
        any::<u8>(),
        any::<u8>(),
        any::<u64>(),
    )
        .prop_map(|(polys, op, point, delta, seed)| Case { polys, op, point, delta, seed })
        .boxed()
}
/// a wide combination: many (possibly longer) polynomials, combined by one MSM and by a chain of additions
fn many_strat() -> BoxedStrategy<Case> {
    let leaf = any::<u8>().prop_map(Op::Leaf);
    let arm = prop_oneof![
        6 => leaf.clone(),
        1 => Just(Op::Zero),
        2 => (leaf.clone(), 0u8..40).prop_map(|(a, k)| Op::Scale(Box::new(a), k)),
        1 => leaf.clone().prop_map(|a| Op::Neg(Box::new(a))),
    ];
    let chain = proptest::collection::vec(leaf, 5..40).prop_map(|v| {
        let mut it = v.into_iter();
        let first = it.next().unwrap();
        it.fold(first, |a, b| Op::Add(Box::new(a), Box::new(b)))
    });
    let msm = proptest::collection::vec((arm, any::<u8>()), 5..48).prop_map(Op::Msm);
    let nested = proptest::collection::vec((proptest::collection::vec((any::<u8>().prop_map(Op::Leaf), any::<u8>()), 0..14).prop_map(Op::Msm), any::<u8>()), 2..6).prop_map(Op::Msm);
    (
        proptest::collection::vec(
            (prop_oneof![2 => 0u8..9, 2 => 9u8..70, 1 => 70u8..=255], 0u8..4, any::<bool>(), any::<u16>())
                .prop_map(|(len, pool, hiding, seed)| PolyS { len, pool, hiding, seed }),
            1..14,
        ),
        prop_oneof![4 => msm, 1 => chain, 1 => nested],
        any::<u8>(),
        any::<u8>(),
        any::<u64>(),
    )
        .prop_map(|(polys, op, point, delta, seed)| Case { polys, op, point, delta, seed })
        .boxed()
}
#[derive(Clone)]
struct V {
    com: Com,
    rand: Rand,
    p: Vec<Fr>,
    b: Vec<Fr>,
}
fn zero_rand() -> Rand {
    use ark_poly_commit::PCRandomness;
    Rand::empty()
}
fn run_op(o: &Op, l: &[V]) -> V {
    match o {
        Op::Leaf(i) => l[*i as usize % l.len()].clone(),
        Op::Zero => V { com: Kzg::zero_comm(), rand: zero_rand(), p: vec![], b: vec![] },
        Op::Add(a, b) => {
            let (a, b) = (run_op(a, l), run_op(b, l));
            V { com: Kzg::add(&a.com, &b.com), rand: Kzg::add_rands(&a.rand, &b.rand), p: vadd(&a.p, &b.p), b: vadd(&a.b, &b.b) }
        }
        Op::Scale(a, k) => {
            let a = run_op(a, l);
            let k = cval(*k);
            V { com: Kzg::scale_com(&a.com, k), rand: Kzg::scale_rand(&a.rand, k), p: vscale(&a.p, k), b: vscale(&a.b, k) }
        }
        Op::Neg(a) => {
            let a = run_op(a, l);
            let k = -Fr::one();
            V { com: Kzg::neg_com(&a.com), rand: Kzg::scale_rand(&a.rand, k), p: vscale(&a.p, k), b: vscale(&a.b, k) }
        }
        Op::Msm(xs) => {
            let vs: Vec<V> = xs.iter().map(|(o, _)| run_op(o, l)).collect();
            let ks: Vec<Fr> = xs.iter().map(|(_, k)| cval(*k)).collect();
            let coms: Vec<Com> = vs.iter().map(|v| v.com.clone()).collect();
            let mut rand = zero_rand();
            let (mut p, mut b) = (vec![], vec![]);
            for (v, k) in vs.iter().zip(&ks) {
                Kzg::add_assign_rand(&mut rand, &Kzg::scale_rand(&v.rand, *k));
                p = vadd(&p, &vscale(&v.p, *k));
                b = vadd(&b, &vscale(&v.b, *k));
            }
            V { com: Kzg::msm(&coms, &ks), rand, p, b }
        }
    }
}
fn shape(o: &Op, st: &mut Stat) {
    match o {
        Op::Leaf(_) => {}
        Op::Zero => st.hit("zero"),
        Op::Add(a, b) => {
            st.hit("add");
            shape(a, st);
            shape(b, st)
        }
        Op::Scale(a, k) => {
            st.hit(if *k < 5 { "scale-special" } else { "scale" });
            shape(a, st)
        }
        Op::Neg(a) => {
            st.hit("neg");
            shape(a, st)
        }
        Op::Msm(v) => {
            st.hit(if v.is_empty() { "msm-empty" } else if v.len() > 16 { "msm-over-16" } else if v.len() > 8 { "msm-over-8" } else { "msm" });
            v.iter().for_each(|x| shape(&x.0, st))
        }
    }
}
/// reference commitment straight from the powers of the structured reference string
fn reference(ck: &<Kzg as PolynomialCommitment<Fr, DensePolynomial<Fr>>>::CommitterKey, p: &[Fr], b: &[Fr]) -> G1Affine {
    let mut acc = G1Projective::zero();
    for (c, g) in p.iter().zip(&ck.powers_of_g) {
        acc += g.mul(c.into_repr());
    }
    for (c, g) in b.iter().zip(&ck.powers_of_gamma_g) {
        acc += g.mul(c.into_repr());
    }
    acc.into_affine()
}
fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let (ck, vk) = keys::<Kzg>(if c.polys.iter().all(|p| p.len <= 10) { 10 } else { 256 })?;
    let mut leaves = vec![];
    let mut r = rng(c.seed);
    for (i, p) in c.polys.iter().enumerate() {
        let mut pr = rng(p.seed as u64);
        let co: Vec<Fr> = (0..p.len).map(|_| pool_val(p.pool, &mut pr)).collect();
        let poly = DensePolynomial::from_coefficients_vec(co);
        let lp = LabeledPolynomial::new(format!("p{}", i), poly.clone(), None, if p.hiding { Some(1) } else { None });
        let (cs, rs) = Kzg::commit(&ck, &[lp], Some(&mut r)).map_err(|e| format!("{:?}", e))?;
        leaves.push(V { com: cs[0].commitment().clone(), rand: rs[0].clone(), p: poly.coeffs.clone(), b: rs[0].blinding_polynomial.coeffs.clone() });
    }
    shape(&c.op, st);
    st.nt();
    let v = guard(|| run_op(&c.op, &leaves)).map_err(|e| format!("panic: {}", e))?;
    let want = reference(&ck, &v.p, &v.b);
    if v.com.0 != want {
        return Err("combined commitment is not the commitment of the combined polynomial".into());
    }
    let wantc = ark_poly_commit::kzg10::Commitment::<Bls12_381>(want);
    if !Kzg::eq_cm(&v.com, &wantc) || !Kzg::eq_cm(&wantc, &v.com) {
        return Err("eq_cm denies equality of equal commitments".into());
    }
    if Kzg::is_zero(&v.com) != want.is_zero() {
        return Err("is_zero is wrong".into());
    }
    // randomness is the combination of the blinding polynomials
    for k in 0..3u64 {
        let x = Fr::rand(&mut rng(c.seed ^ k ^ 99));
        if ev(&v.rand.blinding_polynomial.coeffs, x) != ev(&v.b, x) {
            return Err("combined randomness is not the combination of the randomness".into());
        }
    }
    // neutral, inverse, distinguishing
    if Kzg::add(&v.com, &Kzg::zero_comm()).0 != want || Kzg::add(&Kzg::zero_comm(), &v.com).0 != want {
        return Err("zero commitment is not neutral".into());
    }
    if !Kzg::is_zero(&Kzg::zero_comm()) {
        return Err("zero commitment is not zero".into());
    }
    if !Kzg::is_zero(&Kzg::add(&v.com, &Kzg::neg_com(&v.com))) {
        return Err("negation is not the inverse".into());
    }
    let other = &leaves[c.delta as usize % leaves.len()];
    if Kzg::eq_cm(&v.com, &other.com) != (v.com.0 == other.com.0) {
        return Err("eq_cm disagrees with equality".into());
    }
    if !v.com.0.is_zero() && Kzg::eq_cm(&v.com, &Kzg::neg_com(&v.com)) {
        return Err("eq_cm identifies a commitment with its negation".into());
    }
    // openings
    let poly = DensePolynomial::from_coefficients_vec(v.p.clone());
    let x = cval(c.point);
    let val = ev(&v.p, x);
    let lp = LabeledPolynomial::new("c".into(), poly, None, if v.b.is_empty() { None } else { Some(1) });
    let lc = LabeledCommitment::new("c".into(), v.com.clone(), None);
    let ch = Fr::from(7u64);
    let pf = guard(|| Kzg::open(&ck, &[lp], &[lc.clone()], &x, ch, &[v.rand.clone()], None))
        .map_err(|e| format!("open panicked: {}", e))?
        .map_err(|e| format!("open: {:?}", e))?;
    let chk = |value: Fr, at: Fr| -> Result<bool, String> {
        Kzg::check(&vk, &[lc.clone()], &at, vec![value], &pf, ch, None).map_err(|e| format!("{:?}", e))
    };
    if !chk(val, x)? {
        return Err("opening of the combination is rejected".into());
    }
    let mut d = cval(c.delta);
    if d.is_zero() {
        d = Fr::one();
    }
    if chk(val + d, x)? {
        return Err("opening accepted with a wrong value".into());
    }
    st.work += 2;
    Ok(())
}
/// commitments at chosen group elements (multiples of the generator, the identity, repeats
/// and negations): the group laws, checked in the exponent
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Points {
    ds: Vec<(u8, u8)>,
    k: u8,
}
fn points_strat() -> BoxedStrategy<Points> {
    (proptest::collection::vec((prop_oneof![3 => 0u8..6, 2 => any::<u8>()], any::<u8>()), 1..40), any::<u8>()).prop_map(|(ds, k)| Points { ds, k }).boxed()
}
fn points(c: &Points, st: &mut Stat) -> Result<(), String> {
    let g = G1Affine::prime_subgroup_generator();
    let at = |d: Fr| -> Com { ark_poly_commit::kzg10::Commitment::<Bls12_381>(g.mul(d.into_repr()).into_affine()) };
    let ds: Vec<Fr> = c.ds.iter().map(|x| cval(x.0)).collect();
    let ks: Vec<Fr> = c.ds.iter().map(|x| cval(x.1)).collect();
    let ps: Vec<Com> = ds.iter().map(|d| at(*d)).collect();
    st.nt();
    let same = |what: &str, got: Com, d: Fr| -> Result<(), String> {
        if got.0 != at(d).0 {
            return Err(format!("{} is not the commitment it should be", what));
        }
        if Kzg::is_zero(&got) != d.is_zero() {
            return Err(format!("is_zero is wrong on {}", what));
        }
        Ok(())
    };
    let k = cval(c.k);
    let (d0, p0) = (ds[0], &ps[0]);
    same("a point", p0.clone(), d0)?;
    same("a sum with itself", Kzg::add(p0, p0), d0 + d0)?;
    same("a sum with the negation", Kzg::add(p0, &Kzg::neg_com(p0)), Fr::zero())?;
    same("a negation", Kzg::neg_com(p0), -d0)?;
    same("a multiple", Kzg::scale_com(p0, k), d0 * k)?;
    same("an empty combination", Kzg::msm(&[], &[]), Fr::zero())?;
    if let (Some(p1), Some(d1)) = (ps.get(1), ds.get(1)) {
        same("a sum", Kzg::add(p0, p1), d0 + d1)?;
        if Kzg::eq_cm(p0, p1) != (d0 == *d1) {
            return Err("eq_cm disagrees with equality".into());
        }
        st.hit(if d0 == *d1 { "equal" } else if d0 == -*d1 { "opposite" } else { "distinct" });
    }
    if d0.is_zero() {
        st.hit("identity");
    }
    let want = ds.iter().zip(&ks).fold(Fr::zero(), |a, (d, k)| a + *d * *k);
    same("a combination", Kzg::msm(&ps, &ks), want)?;
    same("a sum of all", ps.iter().fold(Kzg::zero_comm(), |a, p| Kzg::add(&a, p)), ds.iter().sum())?;
    st.work += ps.len() as u64;
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C11",
        rule: "a case is a set of KZG-committed polynomials (hiding or not, including zero and constant ones) and an operation tree over their commitments and randomness; every case is non-trivial: result compared with a commitment computed directly from the reference string, plus one accepting and one rejecting opening",
        assumptions: vec!["the curve, pairing and KZG implementations of arkworks are correct", "discrete logarithm relations among the reference string are unknown to the generator"],
        fams: vec![
            fam("kzg_ops", 4000, 150000, strat, |c: &Case, st| run(c, st)),
            fam("points", 1500, 40000, points_strat, |c: &Points, st| points(c, st)),
            fam("many", 600, 20000, many_strat, |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
