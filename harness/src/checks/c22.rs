use crate::recfs::RealFs;
use crate::runner::*;
use ark_ff::{ToBytes, UniformRand};
use ark_std::io::{Result as IoResult, Write};
use ark_std::rand::RngCore;
use blake2::{Blake2b, Blake2s};
use proptest::prelude::*;
use rand_chacha::{ChaCha12Rng, ChaCha8Rng, ChaChaRng};
use serde::{Deserialize, Serialize};
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

use crate::Fr;

struct Raw(Vec<u8>);
impl ToBytes for Raw {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        for b in &self.0 {
            b.write(&mut w)?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Draw {
    U32,
    U64,
    Fill(u8),
    TryFill(u8),
    Field,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Mutn {
    Flip { msg: u16, bit: u16 },
    Append { msg: u16, byte: u8 },
    Truncate { msg: u16 },
    Prepend { msg: u16, byte: u8 },
    Swap { msg: u16 },
    Duplicate { msg: u16 },
    Delete { msg: u16 },
    Shift { msg: u16, k: u8 },
    InsertEmpty { pos: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    digest: u8,
    msgs: Vec<Vec<u8>>,
    draws: Vec<Vec<Draw>>,
    muts: Vec<Mutn>,
}

fn msg_strat() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => proptest::collection::vec(any::<u8>(), 1..8),
        2 => proptest::collection::vec(prop_oneof![Just(0u8), Just(1u8)], 1..70),
        3 => proptest::collection::vec(any::<u8>(), 30..140),
        1 => (200usize..6000, any::<u8>()).prop_map(|(n, s)| (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s)).collect()),
    ]
    .boxed()
}
fn hist_strat() -> BoxedStrategy<Hist> {
    let d = prop_oneof![
        Just(Draw::U32),
        Just(Draw::U64),
        any::<u8>().prop_map(Draw::Fill),
        any::<u8>().prop_map(Draw::TryFill),
        Just(Draw::Field)
    ];
    let m = prop_oneof![
        6 => (any::<u16>(), any::<u16>()).prop_map(|(msg, bit)| Mutn::Flip { msg, bit }),
        1 => (any::<u16>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(msg, byte)| Mutn::Append { msg, byte }),
        1 => any::<u16>().prop_map(|msg| Mutn::Truncate { msg }),
        1 => (any::<u16>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(msg, byte)| Mutn::Prepend { msg, byte }),
        2 => any::<u16>().prop_map(|msg| Mutn::Swap { msg }),
        1 => any::<u16>().prop_map(|msg| Mutn::Duplicate { msg }),
        1 => any::<u16>().prop_map(|msg| Mutn::Delete { msg }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(msg, k)| Mutn::Shift { msg, k }),
        1 => any::<u16>().prop_map(|pos| Mutn::InsertEmpty { pos }),
    ];
    (
        0u8..4,
        proptest::collection::vec(msg_strat(), 1..8),
        proptest::collection::vec(proptest::collection::vec(d, 0..5), 8),
        proptest::collection::vec(m, 1..6),
    )
        .prop_map(|(digest, msgs, draws, muts)| Hist { digest, msgs, draws, muts })
        .boxed()
}
/// many messages, very long messages, long draws
fn long_strat() -> BoxedStrategy<Hist> {
    let big = (1000usize..70000, any::<u8>()).prop_map(|(n, s)| (0..n).map(|i| ((i * i / 7) as u8).wrapping_mul(31).wrapping_add(s)).collect::<Vec<u8>>());
    let small = proptest::collection::vec(any::<u8>(), 0..40);
    let msgs = prop_oneof![
        2 => proptest::collection::vec(small.clone(), 20..300),
        2 => proptest::collection::vec(prop_oneof![1 => big, 2 => small], 1..6),
    ];
    let m = prop_oneof![
        8 => (any::<u16>(), any::<u16>()).prop_map(|(msg, bit)| Mutn::Flip { msg, bit }),
        2 => any::<u16>().prop_map(|msg| Mutn::Truncate { msg }),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(msg, byte)| Mutn::Append { msg, byte }),
        2 => any::<u16>().prop_map(|msg| Mutn::Swap { msg }),
        2 => any::<u16>().prop_map(|msg| Mutn::Delete { msg }),
        1 => any::<u16>().prop_map(|msg| Mutn::Duplicate { msg }),
    ];
    let d = prop_oneof![any::<u8>().prop_map(Draw::Fill), Just(Draw::Field), Just(Draw::U64)];
    (0u8..4, msgs, proptest::collection::vec(proptest::collection::vec(d, 0..40), 8), proptest::collection::vec(m, 1..4))
        .prop_map(|(digest, msgs, draws, muts)| Hist { digest, msgs, draws, muts })
        .boxed()
}
/// a long stream after the history does not come back to earlier output
fn long_stream<FS: FiatShamirRng>(h: &Hist) -> Result<(), String> {
    let mut fs = FS::initialize(&Raw(h.msgs[0].clone()));
    for m in &h.msgs[1..] {
        fs.absorb(&Raw(m.clone()));
    }
    let mut seen = std::collections::HashSet::new();
    for i in 0..2000 {
        let mut b = [0u8; 16];
        fs.fill_bytes(&mut b);
        if !seen.insert(b) {
            return Err(format!("stream repeats itself after {} blocks of 16 bytes", i));
        }
    }
    Ok(())
}
fn check_long(h: &Hist, st: &mut Stat) -> Result<(), String> {
    check_hist(h, st)?;
    match h.digest {
        0 => long_stream::<RealFs>(h),
        1 => long_stream::<SimpleHashFiatShamirRng<Blake2b, ChaChaRng>>(h),
        2 => long_stream::<SimpleHashFiatShamirRng<Blake2s, ChaCha8Rng>>(h),
        _ => long_stream::<SimpleHashFiatShamirRng<Blake2b, ChaCha12Rng>>(h),
    }
}

/// buffers of any size are filled completely, with output of the history
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fills {
    digest: u8,
    msgs: Vec<Vec<u8>>,
    bit: u16,
    pre: Vec<Draw>,
    sizes: Vec<u32>,
    try_fill: bool,
}
fn fills_strat() -> BoxedStrategy<Fills> {
    let size = prop_oneof![
        3 => 1u32..80,
        3 => 80u32..1200,
        2 => 1200u32..10000,
        1 => 10000u32..80000,
        2 => (5u32..17, 0u32..3).prop_map(|(e, d)| (1 << e) + d - 1),
    ];
    let d = prop_oneof![Just(Draw::U32), Just(Draw::U64), any::<u8>().prop_map(Draw::Fill), Just(Draw::Field)];
    (
        0u8..4,
        proptest::collection::vec(proptest::collection::vec(any::<u8>(), 1..40), 1..5),
        any::<u16>(),
        proptest::collection::vec(d, 0..4),
        proptest::collection::vec(size, 1..4),
        any::<bool>(),
    )
        .prop_map(|(digest, msgs, bit, pre, sizes, try_fill)| Fills { digest, msgs, bit, pre, sizes, try_fill })
        .boxed()
}
fn fill_seq<FS: FiatShamirRng>(c: &Fills, msgs: &[Vec<u8>], before: u8) -> Vec<Vec<u8>> {
    let mut fs = FS::initialize(&Raw(msgs[0].clone()));
    for m in &msgs[1..] {
        fs.absorb(&Raw(m.clone()));
    }
    for d in &c.pre {
        draw(&mut fs, d);
    }
    c.sizes
        .iter()
        .map(|n| {
            let mut b = vec![before; *n as usize];
            if c.try_fill {
                fs.try_fill_bytes(&mut b).unwrap();
            } else {
                fs.fill_bytes(&mut b);
            }
            b
        })
        .collect()
}
fn check_fill_fs<FS: FiatShamirRng>(c: &Fills) -> Result<(), String> {
    let a = fill_seq::<FS>(c, &c.msgs, 0);
    if a != fill_seq::<FS>(c, &c.msgs, 0xff) {
        return Err("a filled buffer keeps bytes it had before".into());
    }
    let mut seen = std::collections::HashSet::new();
    for b in &a {
        for (i, x) in b.chunks_exact(16).enumerate() {
            if !seen.insert(x.to_vec()) {
                return Err(format!("block {} of a buffer of {} bytes repeats an earlier one", i, b.len()));
            }
        }
    }
    let mut other = c.msgs.clone();
    let i = c.bit as usize % other.len();
    let l = other[i].len() * 8;
    let bit = c.bit as usize / 7 % l;
    other[i][bit / 8] ^= 1 << (bit % 8);
    for b in fill_seq::<FS>(c, &other, 0) {
        for (i, x) in b.chunks_exact(16).enumerate() {
            if seen.contains(x) {
                return Err(format!("block {} of a buffer of {} bytes is the same for two histories", i, b.len()));
            }
        }
    }
    Ok(())
}
fn check_fills(c: &Fills, st: &mut Stat) -> Result<(), String> {
    if c.msgs.is_empty() || c.msgs.iter().any(|m| m.is_empty()) {
        return Ok(());
    }
    if c.sizes.iter().any(|n| *n >= 16) {
        st.nt();
    }
    if c.sizes.iter().any(|n| *n >= 1024) {
        st.hit("buffer-1024-or-more");
    }
    match c.digest {
        0 => check_fill_fs::<RealFs>(c),
        1 => check_fill_fs::<SimpleHashFiatShamirRng<Blake2b, ChaChaRng>>(c),
        2 => check_fill_fs::<SimpleHashFiatShamirRng<Blake2s, ChaCha8Rng>>(c),
        _ => check_fill_fs::<SimpleHashFiatShamirRng<Blake2b, ChaCha12Rng>>(c),
    }
}

fn draw<R: RngCore>(r: &mut R, d: &Draw) -> Vec<u8> {
    match d {
        Draw::U32 => r.next_u32().to_le_bytes().to_vec(),
        Draw::U64 => r.next_u64().to_le_bytes().to_vec(),
        Draw::Fill(k) => {
            let mut b = vec![0; *k as usize];
            r.fill_bytes(&mut b);
            b
        }
        Draw::TryFill(k) => {
            let mut b = vec![0; *k as usize];
            r.try_fill_bytes(&mut b).unwrap();
            b
        }
        Draw::Field => crate::sys::ser(&Fr::rand(r)),
    }
}
/// per message: the draws made after it
fn run<FS: FiatShamirRng>(msgs: &[Vec<u8>], draws: &[Vec<Draw>]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut fs: Option<FS> = None;
    for (i, m) in msgs.iter().enumerate() {
        let raw = Raw(m.clone());
        match &mut fs {
            None => fs = Some(FS::initialize(&raw)),
            Some(f) => f.absorb(&raw),
        }
        let f = fs.as_mut().unwrap();
        let mut o = vec![];
        if let Some(ds) = draws.get(i) {
            for d in ds {
                o.extend(draw(f, d));
            }
        }
        out.push(o);
    }
    out
}
fn firsts<FS: FiatShamirRng>(msgs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let d = vec![vec![Draw::Fill(64)]; msgs.len()];
    run::<FS>(msgs, &d)
}

fn mutate(msgs: &[Vec<u8>], m: &Mutn) -> Option<(Vec<Vec<u8>>, usize)> {
    let k = msgs.len();
    let mut v = msgs.to_vec();
    let ix = |x: &u16, n: usize| *x as usize * n / 65536;
    let first = match m {
        Mutn::Flip { msg, bit } => {
            let i = ix(msg, k);
            if v[i].is_empty() {
                return None;
            }
            let b = ix(bit, v[i].len() * 8);
            v[i][b / 8] ^= 1 << (b % 8);
            i
        }
        Mutn::Append { msg, byte } => {
            let i = ix(msg, k);
            v[i].push(*byte);
            i
        }
        Mutn::Prepend { msg, byte } => {
            let i = ix(msg, k);
            v[i].insert(0, *byte);
            i
        }
        Mutn::Truncate { msg } => {
            let i = ix(msg, k);
            v[i].pop()?;
            i
        }
        Mutn::Swap { msg } => {
            let i = ix(msg, k);
            if i + 1 >= k || v[i] == v[i + 1] {
                return None;
            }
            v.swap(i, i + 1);
            i
        }
        Mutn::Duplicate { msg } => {
            let i = ix(msg, k);
            let c = v[i].clone();
            v.insert(i, c);
            i + 1
        }
        Mutn::Delete { msg } => {
            let i = ix(msg, k);
            if k < 2 || i == 0 {
                return None;
            }
            v.remove(i);
            i
        }
        Mutn::Shift { msg, k: s } => {
            let i = ix(msg, k);
            if i + 1 >= k || v[i].is_empty() {
                return None;
            }
            let s = 1 + *s as usize % v[i].len().min(40);
            let l = v[i].len();
            let tail: Vec<u8> = v[i].drain(l - s..).collect();
            let mut nv = tail;
            nv.extend(v[i + 1].iter());
            v[i + 1] = nv;
            i
        }
        Mutn::InsertEmpty { pos } => {
            let i = 1 + ix(pos, k);
            v.insert(i, vec![]);
            i
        }
    };
    Some((v, first))
}

fn check_fs<FS: FiatShamirRng>(h: &Hist, st: &mut Stat) -> Result<(), String> {
    let a = run::<FS>(&h.msgs, &h.draws);
    let b = run::<FS>(&h.msgs, &h.draws);
    if a != b {
        return Err("equal histories gave different streams".into());
    }
    let base = firsts::<FS>(&h.msgs);
    // draws do not influence later absorbs, absorbing resets the position
    for i in 0..h.msgs.len() {
        let mut d = h.draws.clone();
        d.resize(h.msgs.len(), vec![]);
        d[i] = vec![Draw::Fill(64)];
        if run::<FS>(&h.msgs, &d)[i] != base[i] {
            return Err(format!("stream after message {} depends on earlier draws", i));
        }
    }
    // the streams are not constant and differ from each other
    for i in 0..base.len() {
        if base[i][..32] == base[i][32..] {
            return Err("stream repeats itself".into());
        }
        for j in 0..i {
            if base[i] == base[j] {
                return Err(format!("same stream after messages {} and {}", j, i));
            }
        }
    }
    for m in &h.muts {
        if let Some((v, from)) = mutate(&h.msgs, m) {
            st.work += 1;
            st.nt();
            st.hit(match m {
                Mutn::Flip { .. } => "flip",
                Mutn::Append { .. } => "append",
                Mutn::Prepend { .. } => "prepend",
                Mutn::Truncate { .. } => "truncate",
                Mutn::Swap { .. } => "swap",
                Mutn::Duplicate { .. } => "duplicate",
                Mutn::Delete { .. } => "delete",
                Mutn::Shift { .. } => "shift",
                Mutn::InsertEmpty { .. } => "insert-empty",
            });
            let o = firsts::<FS>(&v);
            for i in 0..from {
                if o[i] != base[i] {
                    return Err(format!("{:?}: stream after message {} depends on a later message", m, i));
                }
            }
            // no stream of the changed history from the change on occurs in the
            // original one, and the final streams differ
            for i in from..o.len() {
                for (j, x) in base.iter().enumerate() {
                    // the history up to i equals the original one up to j only if
                    // they are the same list of messages
                    if v[..=i] != h.msgs[..=j] && *x == o[i] {
                        return Err(format!("{:?}: different histories, same stream ({} vs {})", m, i, j));
                    }
                }
            }
        }
    }
    // what is absorbed is the byte encoding, whatever the type
    let last = h.msgs.last().unwrap();
    let xs: Vec<Fr> = last.iter().take(4).map(|b| Fr::from(*b as u64 + 1)).collect();
    let mut bytes = vec![];
    for x in &xs {
        x.write(&mut bytes).unwrap();
    }
    let mut f1 = FS::initialize(&Raw(h.msgs[0].clone()));
    let mut f2 = FS::initialize(&Raw(h.msgs[0].clone()));
    f1.absorb(&xs);
    f2.absorb(&Raw(bytes));
    if draw(&mut f1, &Draw::Field) != draw(&mut f2, &Draw::Field) {
        return Err("field elements and their bytes lead to different streams".into());
    }
    Ok(())
}

fn check_hist(h: &Hist, st: &mut Stat) -> Result<(), String> {
    if h.msgs.is_empty() {
        return Ok(());
    }
    match h.digest {
        0 => check_fs::<RealFs>(h, st),
        1 => check_fs::<SimpleHashFiatShamirRng<Blake2b, ChaChaRng>>(h, st),
        2 => check_fs::<SimpleHashFiatShamirRng<Blake2s, ChaCha8Rng>>(h, st),
        _ => check_fs::<SimpleHashFiatShamirRng<Blake2b, ChaCha12Rng>>(h, st),
    }
}

pub fn check() -> Check {
    Check {
        id: "C22",
        rule: "a case is a history of absorbed messages (0 to 70000 bytes, up to 300 of them) with draws of several kinds between them and a list of mutations; non-trivial when at least one mutation applied (a changed history was compared with the original from the change to the end); inner executions count mutated histories; in fills a case draws up to three buffers of up to 80000 bytes, non-trivial from 16 bytes on",
        assumptions: vec!["the digest has no collisions on the generated inputs"],
        fams: vec![
            fam("histories", 100000, 4000000, hist_strat, |h: &Hist, st| check_hist(h, st)),
            fam("fills", 6000, 200000, fills_strat, |c: &Fills, st| check_fills(c, st)),
            fam("long", 800, 20000, long_strat, |h: &Hist, st| check_long(h, st)),
        ],
        known: vec![],
    }
}
