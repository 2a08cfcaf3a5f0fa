use crate::recfs::RealFs;
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;
use crate::Fr;
use ark_ff::{UniformRand, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zero_over_k::verif_hooks::MockProver;
use zero_over_k::PIL;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    /// (type, column, row, value id)
    changes: Vec<(u8, u8, u8, u8)>,
}
fn strat(wide: bool, min_log: u8, max_log: u8) -> BoxedStrategy<Case> {
    let w = Want { copy_pct: 15, lookup_pct: 15, drop_pct: 20, wide, min_log, max_log, ..Want::default() };
    (
        spec_strat(w),
        prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec((0u8..3, any::<u8>(), any::<u8>(), any::<u8>()), 1..4)],
    )
        .prop_map(|(s, changes)| Case { s, changes })
        .boxed()
}
pub fn apply_changes(a: &mut Asg, n: usize, ch: &[(u8, u8, u8, u8)]) {
    for (t, c, r, v) in ch {
        let cols = match t % 3 {
            1 if !a.i.is_empty() => &mut a.i,
            2 if !a.f.is_empty() => &mut a.f,
            _ => &mut a.w,
        };
        let k = *c as usize % cols.len();
        let row = *r as usize % n;
        cols[k][row] = if v % 4 == 0 { cols[k][row] + cval(v / 4) } else { cval(*v) };
    }
}
fn ints(s: &str) -> Vec<usize> {
    let s = s.rsplit_once(" at ").map(|x| x.0).unwrap_or(s);
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
fn run(c: &Case, st: &mut Stat) -> Result<(), String> {
    let (circ, mut a) = c.s.build();
    apply_changes(&mut a, circ.n, &c.changes);
    let mut bad = vec![];
    for row in 0..circ.n {
        for (g, e) in circ.gates.iter().enumerate() {
            if !circ.eval_row(e, &a, row).is_zero() {
                bad.push((g, row));
            }
        }
    }
    let sys = Sys::<Tpc<0>>::new(&circ, &a)?;
    let r = guard(|| {
        let mut w = sys.ps.w.clone();
        let mut i = sys.ps.i.clone();
        MockProver::<Fr, Tpc<0>, RealFs>::prove(&sys.pk, &sys.pp, &mut w, &mut i, &dynv(&sys.ps.gates), circ.n, &mut rng(1)).map(|_| ())
    });
    st.nt();
    let msg = match r {
        Ok(Ok(())) => {
            st.hit("success");
            if let Some((g, row)) = bad.first() {
                return Err(format!("mock prover succeeds although gate {} is violated on row {}", g, row));
            }
            None
        }
        Ok(Err(e)) => Some(format!("{:?}", e)),
        Err(p) => Some(p),
    };
    if let Some(m) = &msg {
        st.hit("failure");
        if bad.is_empty() {
            return Err(format!("mock prover fails on satisfied gates: {}", m));
        }
        let k = ints(m);
        if !bad.iter().any(|(g, row)| (0..k.len()).any(|i| (0..k.len()).any(|j| i != j && k[i] == *g && k[j] == *row))) {
            return Err(format!("mock prover does not name a violated gate and row: {} (violated: {:?})", m, &bad[..bad.len().min(8)]));
        }
    }
    // agreement with the real verdict on gate-only systems over the full domain
    if circ.lookups.is_empty() && circ.num_perm() == 0 && circ.missing.is_empty() {
        st.hit("real-verdict");
        let p = sys.prove::<RealFs>(c.s.seed)?;
        let v = sys.verify::<RealFs>(p);
        if v.is_ok() != msg.is_none() {
            return Err(format!("mock verdict {:?}, real verdict {:?}", msg, v));
        }
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C18",
        rule: "a case is a generated system with an assignment changed in 0..3 cells (witness, instance or fixed); every case is non-trivial: mock verdict compared with row-by-row evaluation, and with the real proof's verdict when the system is gates only over the full domain",
        assumptions: vec![],
        fams: vec![
            fam("mock", 40000, 1200000, || strat(false, 2, 5), |c: &Case, st| run(c, st)),
            fam("mock_wide", 3000, 90000, || strat(true, 2, 3), |c: &Case, st| run(c, st)),
            fam("mock_large", 200, 5000, || strat(false, 7, 10), |c: &Case, st| run(c, st)),
        ],
        known: vec![],
    }
}
#[allow(dead_code)]
fn _u() -> Fr {
    Fr::rand(&mut rng(0))
}
