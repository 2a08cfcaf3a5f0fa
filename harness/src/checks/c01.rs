use crate::recfs::{RealFs, RecFs};
use crate::runner::*;
use crate::spec::*;
use crate::sys::*;
use crate::tpc::Tpc;

fn complete<PC: Pcs, FS: zero_over_k::rng::FiatShamirRng>(s: &Spec, st: &mut Stat) -> Result<(), String> {
    let (c, a) = s.build();
    if !c.satisfied(&a) {
        return Err(format!("harness: generator produced an unsatisfied system: {:?} {} {:?}", c.gate_violations(&a), c.copies_ok(&a), c.lookup_violations(&a)));
    }
    classify(&c, st);
    st.nt();
    let sys = Sys::<PC>::new(&c, &a)?;
    let p = sys.prove::<FS>(s.seed ^ 1)?;
    sys.verify::<FS>(p)?;
    Ok(())
}

pub fn classify(c: &Circ, st: &mut Stat) {
    st.hit(&format!("n={}", c.n));
    if c.num_perm() > 0 {
        st.hit("copy");
        if c.sigma.iter().any(|(a, b)| a != b) {
            st.hit("copy-nontrivial");
        }
        st.hit(&format!("perm_cols={}", c.num_perm()));
    }
    if !c.lookups.is_empty() {
        st.hit("lookup");
        if c.lookups.iter().any(|l| l.exprs.iter().any(|e| e.deg() > 1)) {
            st.hit("lookup-highdeg");
        }
        if c.lookups.iter().any(|l| l.tabs.iter().any(|t| t.1 != 0)) {
            st.hit("lookup-tabrot");
        }
    }
    if c.zh_scale != crate::Fr::from(1u64) {
        st.hit("scaled-zh");
    }
    if !c.missing.is_empty() {
        st.hit("reduced-zh");
    }
    if c.gates.iter().any(|g| {
        let mut q = vec![];
        g.queries(&mut q);
        q.iter().any(|x| x.2 < 0)
    }) {
        st.hit("negative-rotation");
    }
    st.hit(&format!("maxdeg={}", c.gates.iter().map(|g| g.deg()).max().unwrap_or(0)));
}

pub fn check() -> Check {
    Check {
        id: "C01",
        rule: "a case is a generated constraint system with a satisfying assignment; every case is non-trivial (it is indexed, proved and verified); distinct by its JSON description",
        assumptions: vec![],
        fams: vec![
            fam("complete_tpc", 25000, 600000, || spec_strat(Want::default()), |s: &Spec, st| complete::<Tpc<0>, RecFs>(s, st)),
            fam("complete_kzg", 400, 12000, || spec_strat(Want { max_log: 4, max_w: 6, ..Want::default() }), |s: &Spec, st| complete::<Kzg, RealFs>(s, st)),
            fam("wide_tpc", 2500, 60000, || spec_strat(Want { wide: true, ..Want::default() }), |s: &Spec, st| complete::<Tpc<0>, RecFs>(s, st)),
            fam("wide_kzg", 32, 1200, || spec_strat(Want { wide: true, ..Want::default() }), |s: &Spec, st| complete::<Kzg, RealFs>(s, st)),
            fam("large_tpc", 120, 4000, || spec_strat(Want { min_log: 7, max_log: 10, max_w: 5, max_gates: 2, maxdeg: 4, ..Want::default() }), |s: &Spec, st| complete::<Tpc<0>, RecFs>(s, st)),
            fam("huge_tpc", 24, 300, || spec_strat(Want { min_log: 11, max_log: 13, max_w: 4, max_gates: 2, maxdeg: 3, ..Want::default() }), |s: &Spec, st| complete::<Tpc<0>, RecFs>(s, st)),
            fam("large_kzg", 8, 300, || spec_strat(Want { min_log: 6, max_log: 8, max_w: 4, max_gates: 2, maxdeg: 3, ..Want::default() }), |s: &Spec, st| complete::<Kzg, RealFs>(s, st)),
        ],
        known: vec![],
    }
}
