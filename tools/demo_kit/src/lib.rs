#![allow(clippy::all)]
//! What the demonstration needs to drive the library: circuit descriptions,
//! prover and verifier objects, a transparent commitment scheme.
pub mod adv;
pub mod recfs;
pub mod runner;
pub mod spec;
pub mod sys;
pub mod tpc;

#[cfg(feature = "alt")]
pub mod field;
#[cfg(not(feature = "alt"))]
pub type Fr = ark_bls12_381::Fr;
#[cfg(feature = "alt")]
pub type Fr = field::F62;
pub const WORDS: usize = <<Fr as ark_ff::PrimeField>::BigInt as ark_ff::BigInteger>::NUM_LIMBS;
pub const BYTES: usize = 8 * WORDS;

use ark_ff::Zero;
use spec::*;

/// An empty system over `n` rows, `u` of them usable, with zero columns.
pub fn circ(n: usize, u: usize, nw: usize, ni: usize, nf: usize, nt: usize) -> (Circ, Asg) {
    let z = |k: usize| vec![vec![Fr::zero(); n]; k];
    let l = |t: char, k: usize| (0..k).map(|i| format!("{}{}", t, i)).collect::<Vec<_>>();
    (
        Circ {
            n,
            u,
            pu: u,
            missing: Default::default(),
            zh_scale: num(1),
            permuted: vec![false; nw],
            gates: vec![],
            lookups: vec![],
            sigma: Default::default(),
            deltas: vec![],
            lw: l('w', nw),
            li: l('i', ni),
            lf: l('f', nf),
            lt: l('t', nt),
            srs_max: 8 * n + 8,
            corr: vec![],
            sel: vec![],
        },
        Asg { w: z(nw), i: z(ni), f: z(nf), t: z(nt) },
    )
}
pub fn w(c: usize, r: i32) -> Ex {
    Ex::Q(Ty::W, c, r)
}
pub fn f(c: usize, r: i32) -> Ex {
    Ex::Q(Ty::F, c, r)
}
pub fn inst(c: usize, r: i32) -> Ex {
    Ex::Q(Ty::I, c, r)
}
pub fn add(a: Ex, b: Ex) -> Ex {
    Ex::Add(Box::new(a), Box::new(b))
}
pub fn sub(a: Ex, b: Ex) -> Ex {
    Ex::Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: Ex, b: Ex) -> Ex {
    Ex::Mul(Box::new(a), Box::new(b))
}
pub fn num(x: i64) -> Fr {
    if x < 0 {
        -Fr::from((-x) as u64)
    } else {
        Fr::from(x as u64)
    }
}
/// Make the first `k` columns copy-constrained (identity permutation so far).
pub fn permute(c: &mut Circ, k: usize) {
    for i in 0..k {
        c.permuted[i] = true;
    }
    c.deltas = deltas(0, k, 1);
}
/// Swap the images of two cells (joins their cycles).
pub fn copy(c: &mut Circ, x: (usize, usize), y: (usize, usize)) {
    let a = *c.sigma.get(&x).unwrap_or(&x);
    let b = *c.sigma.get(&y).unwrap_or(&y);
    c.sigma.insert(x, b);
    c.sigma.insert(y, a);
}
/// `Ok` ends the demonstration quietly.
pub fn finish(r: Result<(), String>) -> ! {
    match r {
        Ok(()) => {
            println!("guarantee holds");
            std::process::exit(0)
        }
        Err(m) => {
            println!("GUARANTEE BROKEN: {}", m);
            std::process::exit(1)
        }
    }
}
/// Runs the demonstration; a panic is a failure.
pub fn demo(f: impl FnOnce() -> Result<(), String>) -> ! {
    runner::install_hook();
    finish(match runner::guard(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    })
}
