//! The other properties again, over another scalar field, another hash and
//! another generator.
use super::again::Again;
use super::*;
use crate::runner::*;

pub fn check() -> Check {
    let mut all: Vec<Check> = vec![c01::check()];
    #[cfg(not(feature = "no_c02"))]
    all.push(c02::check());
    #[cfg(not(feature = "no_c03"))]
    all.push(c03::check());
    #[cfg(not(feature = "no_c04"))]
    all.push(c04::check());
    #[cfg(not(feature = "no_c05"))]
    all.push(c05::check());
    #[cfg(not(feature = "no_c06"))]
    all.push(c06::check());
    #[cfg(not(feature = "no_c07"))]
    all.push(c07::check());
    #[cfg(not(feature = "no_c08"))]
    all.push(c08::check());
    #[cfg(not(feature = "no_c09"))]
    all.push(c09::check());
    #[cfg(not(feature = "no_c10"))]
    all.push(c10::check());
    #[cfg(not(feature = "no_c12"))]
    all.push(c12::check());
    #[cfg(not(feature = "no_c13"))]
    all.push(c13::check());
    #[cfg(not(feature = "no_c14"))]
    all.push(c14::check());
    #[cfg(not(feature = "no_c15"))]
    all.push(c15::check());
    #[cfg(not(feature = "no_c16"))]
    all.push(c16::check());
    #[cfg(not(feature = "no_c17"))]
    all.push(c17::check());
    #[cfg(not(feature = "no_c18"))]
    all.push(c18::check());
    #[cfg(not(feature = "no_c19"))]
    all.push(c19::check());
    #[cfg(not(feature = "no_c20"))]
    all.push(c20::check());
    #[cfg(not(feature = "no_c21"))]
    all.push(c21::check());
    #[cfg(not(feature = "no_c22"))]
    all.push(c22::check());
    #[cfg(not(feature = "no_c23"))]
    all.push(c23::check());
    #[cfg(not(feature = "no_c24"))]
    all.push(c24::check());
    #[cfg(not(feature = "no_c27"))]
    all.push(c27::check());
    let mut fams: Vec<Box<dyn Fam>> = vec![];
    for c in all {
        for f in c.fams {
            // no curve has this scalar field: the KZG families would repeat the exact scheme
            if !f.name().contains("kzg") {
                fams.push(Box::new(Again { name: format!("{}.{}", c.id, f.name()), share: 0.5, inner: f }));
            }
        }
    }
    Check {
        id: "C26",
        rule: "the families of C01-C10 and C12-C24 (named <property>.<family>, KZG ones left out) over a 62-bit scalar field with generator 15 and two-adicity 28, one-word elements, Blake2b and ChaCha8 as the transcript's hash and generator; a case counts when it counts there",
        assumptions: vec!["the second field stands for any prime field with large enough two-adicity; no pairing curve has it as its scalar field, so the transparent commitment scheme is used throughout", "accidental failures have a chance of about degree / 2^62 per challenge"],
        fams,
        known: vec![],
    }
}
