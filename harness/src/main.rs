#![allow(clippy::all)]
mod adv;
mod checks;
mod recfs;
mod runner;
mod spec;
mod sys;
mod tpc;

#[cfg(feature = "alt")]
mod field;
#[cfg(not(feature = "alt"))]
pub type Fr = ark_bls12_381::Fr;
#[cfg(feature = "alt")]
pub type Fr = field::F62;
/// machine words of an element, and bytes of its serialization
pub const WORDS: usize = <<Fr as ark_ff::PrimeField>::BigInt as ark_ff::BigInteger>::NUM_LIMBS;
pub const BYTES: usize = 8 * WORDS;

use runner::*;
use std::time::Duration;

#[cfg(feature = "alt")]
fn get(id: &str) -> Option<Check> {
    (id == "C26").then(checks::c26::check)
}

#[cfg(not(feature = "alt"))]
fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => checks::c01::check(),
        #[cfg(not(feature = "no_c02"))]
        "C02" => checks::c02::check(),
        #[cfg(not(feature = "no_c03"))]
        "C03" => checks::c03::check(),
        #[cfg(not(feature = "no_c04"))]
        "C04" => checks::c04::check(),
        #[cfg(not(feature = "no_c05"))]
        "C05" => checks::c05::check(),
        #[cfg(not(feature = "no_c06"))]
        "C06" => checks::c06::check(),
        #[cfg(not(feature = "no_c07"))]
        "C07" => checks::c07::check(),
        #[cfg(not(feature = "no_c08"))]
        "C08" => checks::c08::check(),
        #[cfg(not(feature = "no_c09"))]
        "C09" => checks::c09::check(),
        #[cfg(not(feature = "no_c10"))]
        "C10" => checks::c10::check(),
        #[cfg(not(feature = "no_c11"))]
        "C11" => checks::c11::check(),
        #[cfg(not(feature = "no_c12"))]
        "C12" => checks::c12::check(),
        #[cfg(not(feature = "no_c13"))]
        "C13" => checks::c13::check(),
        #[cfg(not(feature = "no_c14"))]
        "C14" => checks::c14::check(),
        #[cfg(not(feature = "no_c15"))]
        "C15" => checks::c15::check(),
        #[cfg(not(feature = "no_c16"))]
        "C16" => checks::c16::check(),
        #[cfg(not(feature = "no_c17"))]
        "C17" => checks::c17::check(),
        #[cfg(not(feature = "no_c18"))]
        "C18" => checks::c18::check(),
        #[cfg(not(feature = "no_c19"))]
        "C19" => checks::c19::check(),
        #[cfg(not(feature = "no_c20"))]
        "C20" => checks::c20::check(),
        #[cfg(not(feature = "no_c21"))]
        "C21" => checks::c21::check(),
        #[cfg(not(feature = "no_c22"))]
        "C22" => checks::c22::check(),
        #[cfg(not(feature = "no_c23"))]
        "C23" => checks::c23::check(),
        #[cfg(not(feature = "no_c24"))]
        "C24" => checks::c24::check(),
        #[cfg(not(feature = "no_c25"))]
        "C25" => checks::c25::check(),
        #[cfg(not(feature = "no_c27"))]
        "C27" => checks::c27::check(),
        _ => return None,
    })
}

/// Which properties' families stand in for a check that does not compile.
fn stand_in(id: &str) -> Option<Check> {
    const FROM: &[(&str, &[&str])] = &[
        ("C02", &["C01"]),
        ("C03", &["C02"]),
        ("C04", &["C02"]),
        ("C05", &["C06"]),
        ("C06", &["C05"]),
        ("C07", &["C05"]),
        ("C08", &["C06"]),
        ("C09", &["C06"]),
        ("C10", &["C06", "C05"]),
        ("C11", &["C06"]),
        ("C12", &["C02"]),
        ("C13", &["C02"]),
        ("C14", &["C04"]),
        ("C15", &["C03"]),
        ("C16", &["C04"]),
        ("C17", &["C02"]),
        ("C18", &["C02"]),
        ("C19", &["C01"]),
        ("C20", &["C01"]),
        ("C21", &["C01"]),
        ("C22", &["C07"]),
        ("C23", &["C02"]),
        ("C24", &["C01"]),
        ("C25", &["C01"]),
        ("C27", &["C09"]),
    ];
    let (id, from) = FROM.iter().find(|x| x.0 == id)?;
    let mut got: Vec<Check> = from.iter().filter_map(|x| get(x)).collect();
    if got.is_empty() {
        got.push(checks::c01::check());
    }
    Some(checks::again::stand_in(id, got))
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: zokverif <ID> [replay <file> | family <name>]");
        std::process::exit(2);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale = std::env::var("ZOKV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let check = match get(&args[1]).or_else(|| stand_in(&args[1])) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2);
        }
    };
    if args.len() >= 4 && args[2] == "replay" {
        let txt = std::fs::read_to_string(&args[3]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("json");
        if let Some(k) = v["known"].as_str() {
            let k = check.known.iter().find(|x| x.id == k).expect("known finding");
            if let Some(d) = (k.demo)() {
                println!("VIOLATION property={} replay={}", check.id, args[3]);
                println!("{}", d);
                std::process::exit(1);
            }
            println!("replay: passes");
            return;
        }
        let f = check.fams.iter().find(|f| f.name() == v["family"].as_str().unwrap_or("")).expect("family");
        match f.replay(&v["case"]) {
            Ok(()) => println!("replay: passes"),
            Err(m) => {
                println!("VIOLATION property={} replay={}", check.id, args[3]);
                println!("{}", m);
                std::process::exit(1);
            }
        }
        return;
    }
    let only = if args.len() >= 4 && args[2] == "family" { Some(args[3].clone()) } else { None };
    start_watchdog(Duration::from_secs(240));
    let code = run_check(check, &Cfg { seed, thorough, scale, only });
    std::process::exit(code);
}
