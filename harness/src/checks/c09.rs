use super::c06::{coms_mut, els_mut};
use super::c08::edit;
use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::UniformRand;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use ark_std::rand::Rng;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::verif_hooks::TPProof;

type P<PC> = TPProof<Fr, PC>;

/// (name, bytes, announced size, decoder)
fn modes<PC: Pcs>(p: &P<PC>) -> Result<Vec<(&'static str, Vec<u8>, usize, fn(&[u8]) -> Result<(P<PC>, usize), SerializationError>)>, String> {
    let e = |x: SerializationError| format!("serialization failed: {:?}", x);
    let mut a = vec![];
    p.serialize(&mut a).map_err(e)?;
    let mut b = vec![];
    p.serialize_uncompressed(&mut b).map_err(e)?;
    let mut c = vec![];
    p.serialize_unchecked(&mut c).map_err(e)?;
    Ok(vec![
        ("compressed", a, p.serialized_size(), |b| {
            let mut s = b;
            let x = P::<PC>::deserialize(&mut s)?;
            Ok((x, b.len() - s.len()))
        }),
        ("uncompressed", b, p.uncompressed_size(), |b| {
            let mut s = b;
            let x = P::<PC>::deserialize_uncompressed(&mut s)?;
            Ok((x, b.len() - s.len()))
        }),
        ("unchecked", c, p.uncompressed_size(), |b| {
            let mut s = b;
            let x = P::<PC>::deserialize_unchecked(&mut s)?;
            Ok((x, b.len() - s.len()))
        }),
    ])
}

/// Field by field comparison.
fn same<PC: Pcs>(p: &P<PC>, q: &P<PC>) -> Result<(), String> {
    let (mut p, mut q) = (cp(p), cp(q));
    let lens = |p: &P<PC>| {
        vec![
            p.witness_commitments.len(),
            p.witness_evals.len(),
            p.fixed_oracle_evals.len(),
            p.table_oracle_evals.len(),
            p.permutation_oracle_evals.len(),
            p.lookup_commitments.len(),
            p.lookup_z_commitments.len(),
            p.lookup_evals.len(),
            p.lookup_z_evals.len(),
            p.z_commitments.len(),
            p.z_evals.len(),
            p.quotient_chunk_commitments.len(),
            p.quotient_chunks_evals.len(),
            p.multiopen_proof.q_evals.len(),
        ]
    };
    if lens(&p) != lens(&q) {
        return Err("vector lengths differ".into());
    }
    for (x, y) in els_mut(&mut p).iter().zip(els_mut(&mut q).iter()) {
        if *x.1 != *y.1 {
            return Err(format!("{} value differs", x.0));
        }
    }
    for (x, y) in coms_mut(&mut p).iter().zip(coms_mut(&mut q).iter()) {
        if ser(x.1) != ser(y.1) {
            return Err(format!("{} commitment differs", x.0));
        }
    }
    if ser(&p.multiopen_proof.opening_proof) != ser(&q.multiopen_proof.opening_proof) {
        return Err("opening proof differs".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    /// 0: honest proof, 1: vectors resized and values random
    shape: u8,
    edits: Vec<(u8, u16, u8)>,
    seed: u64,
}
fn strat(w: Want) -> BoxedStrategy<Case> {
    (spec_strat(w), 0u8..3, proptest::collection::vec((0u8..6, any::<u16>(), any::<u8>()), 1..6), any::<u64>())
        .prop_map(|(s, shape, edits, seed)| Case { s, shape, edits, seed })
        .boxed()
}

fn run<PC: Pcs>(k: &Case, prefixes: usize, st: &mut Stat) -> Result<(), String> {
    let (c, a) = k.s.build();
    let sys = Sys::<PC>::new(&c, &a)?;
    let mut p = match sys.prove::<RealFs>(k.s.seed) {
        Ok(p) => p,
        Err(_) => {
            st.hit("not-proved");
            return Ok(());
        }
    };
    let mut r = rng(k.seed);
    if k.shape == 1 {
        for x in els_mut(&mut p) {
            *x.1 = match r.gen_range(0..3) {
                0 => pool_val(0, &mut r),
                1 => pool_val(3, &mut r),
                _ => Fr::rand(&mut r),
            };
        }
        st.hit("random-values");
    }
    if k.shape == 2 {
        // any lengths are proofs as well
        for v in [
            &mut p.witness_evals,
            &mut p.fixed_oracle_evals,
            &mut p.table_oracle_evals,
            &mut p.permutation_oracle_evals,
            &mut p.lookup_evals,
            &mut p.lookup_z_evals,
            &mut p.z_evals,
            &mut p.quotient_chunks_evals,
            &mut p.multiopen_proof.q_evals,
        ] {
            if r.gen_range(0..2) == 0 {
                let n = if r.gen_range(0..60) == 0 { r.gen_range(100..700) } else { r.gen_range(0..5) };
                *v = (0..n).map(|_| Fr::rand(&mut r)).collect();
            }
        }
        for v in [
            &mut p.witness_commitments,
            &mut p.lookup_commitments,
            &mut p.lookup_z_commitments,
            &mut p.z_commitments,
            &mut p.quotient_chunk_commitments,
        ] {
            if r.gen_range(0..2) == 0 {
                let x = p.multiopen_proof.f_commit.clone();
                let n = if r.gen_range(0..60) == 0 { r.gen_range(100..700) } else { r.gen_range(0..4) };
                v.resize(n, x);
            }
        }
        st.hit("random-lengths");
    }
    st.nt();
    super::c01::classify(&c, st);
    let verdict = sys.verify::<RealFs>(cp(&p)).is_ok();
    st.hit(if verdict { "verdict-accept" } else { "verdict-reject" });
    for (name, b, size, dec) in modes::<PC>(&p)? {
        if size != b.len() {
            return Err(format!("{}: announced size {} but {} bytes written", name, size, b.len()));
        }
        let (q, used) = match guard(|| dec(&b)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(format!("{}: proof does not decode from its own bytes: {:?}", name, e)),
            Err(e) => return Err(format!("{}: decoding panicked: {}", name, e)),
        };
        if used != b.len() {
            return Err(format!("{}: decoding consumed {} of {} bytes", name, used, b.len()));
        }
        same(&p, &q).map_err(|e| format!("{}: decoded proof differs: {}", name, e))?;
        for (n2, b2, _, _) in modes::<PC>(&q)? {
            if n2 == name && b2 != b {
                return Err(format!("{}: re-encoded bytes differ", name));
            }
        }
        let v2 = sys.verify::<RealFs>(q).is_ok();
        if v2 != verdict {
            return Err(format!("{}: verdict {} before and {} after a round trip", name, verdict, v2));
        }
        // trailing bytes are left to the reader
        let mut more = b.clone();
        more.extend([1, 2, 3]);
        match guard(|| dec(&more)) {
            Ok(Ok((_, u))) if u == b.len() => (),
            Ok(Ok((_, u))) => return Err(format!("{}: with bytes after the proof, decoding consumed {} of {}", name, u, b.len())),
            _ => return Err(format!("{}: proof followed by other bytes does not decode", name)),
        }
        for j in 0..prefixes {
            let at = match j {
                0 => b.len() - 1,
                1 => 0,
                // the fields written last
                _ if j % 3 == 2 => b.len() - 1 - r.gen_range(0..b.len().min(160)),
                _ => r.gen_range(0..b.len()),
            };
            st.work += 1;
            match guard(|| dec(&b[..at])) {
                Err(e) => return Err(format!("{}: decoding a prefix panicked: {}", name, e)),
                Ok(Ok(_)) => return Err(format!("{}: a prefix of {} of {} bytes decodes to a proof", name, at, b.len())),
                Ok(Err(_)) => (),
            }
        }
        let mut e = b.clone();
        edit(&mut e, &k.edits);
        match guard(|| dec(&e)) {
            Err(x) => return Err(format!("{}: decoding edited bytes panicked: {}", name, x)),
            Ok(Ok((q, u))) => {
                st.hit("edited-decodes");
                // decoding is the inverse of encoding there too
                if name == "compressed" && PC::NAME != "kzg" {
                    let back = ser(&q);
                    if back != e[..u] {
                        return Err("edited bytes decode to a proof whose bytes differ".into());
                    }
                }
            }
            Ok(Err(_)) => st.hit("edited-refused"),
        }
    }
    Ok(())
}

fn noise(b: &Vec<u8>, st: &mut Stat) -> Result<(), String> {
    st.nt();
    for dec in 0..3 {
        let t = guard(|| match dec {
            0 => P::<Kzg>::deserialize(&b[..]).is_ok(),
            1 => P::<Kzg>::deserialize_uncompressed(&b[..]).is_ok(),
            _ => P::<Kzg>::deserialize_unchecked(&b[..]).is_ok(),
        });
        match t {
            Err(e) => return Err(format!("decoding arbitrary bytes panicked: {}", e)),
            Ok(true) => st.hit("decodes"),
            Ok(false) => st.hit("refused"),
        }
        st.work += 1;
    }
    Ok(())
}

pub fn check() -> Check {
    let w = Want { copy_pct: 50, lookup_pct: 40, ..Want::default() };
    let words = || {
        proptest::collection::vec(
            prop_oneof![
                3 => (0u8..4).prop_map(|x| { let mut v = vec![0u8; 8]; v[0] = x; v }),
                1 => any::<[u8; 8]>().prop_map(|x| x.to_vec()),
                1 => Just(vec![255u8; 8]),
                2 => Just({ let mut v = vec![0u8; 48]; v[47] = 0x40; v }),
                2 => Just(vec![0u8; 32]),
                1 => any::<[u8; 32]>().prop_map(|x| x.to_vec()),
                1 => proptest::collection::vec(any::<u8>(), 0..12),
            ],
            0..30,
        )
        .prop_map(|v| v.concat())
        .boxed()
    };
    Check {
        id: "C09",
        rule: "round_trip: honest proofs, proofs with random values and proofs with random vector lengths, in the compressed, uncompressed and unchecked encodings: decoded proof, bytes, size, verdict and consumed length compared, sampled prefixes refused, edited bytes never panic; counts when the system proves. noise: structured random bytes",
        assumptions: vec![],
        fams: vec![
            fam("round_trip", 9000, 100000, move || strat(w), |k: &Case, st| run::<Tpc<0>>(k, 24, st)),
            fam("round_trip_wide", 800, 10000, move || strat(Want { wide: true, ..w }), |k: &Case, st| run::<Tpc<0>>(k, 24, st)),
            fam("round_trip_large", 40, 800, move || strat(Want { min_log: 7, max_log: 10, max_w: 5, max_gates: 2, maxdeg: 4, ..w }), |k: &Case, st| run::<Tpc<0>>(k, 12, st)),
            fam("round_trip_kzg", 150, 2000, move || strat(Want { max_log: 3, max_w: 4, ..w }), |k: &Case, st| run::<Kzg>(k, 6, st)),
            fam("noise", 100000, 1000000, words, |b: &Vec<u8>, st| noise(b, st)),
        ],
        known: vec![],
    }
}
