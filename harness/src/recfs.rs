//! Fiat-Shamir generator used by the harness: the library's own
//! `SimpleHashFiatShamirRng<Blake2s, ChaChaRng>` with every absorbed message and
//! every draw recorded, or (scripted mode) challenges taken from a script that
//! does not depend on the absorbed messages.
use ark_ff::{ToBytes, UniformRand};
use ark_std::rand::{RngCore, SeedableRng};
#[cfg(not(feature = "alt"))]
use blake2::Blake2s;
use rand_chacha::ChaChaRng;
use std::cell::RefCell;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

use crate::Fr;

#[cfg(not(feature = "alt"))]
pub type RealFs = SimpleHashFiatShamirRng<Blake2s, ChaChaRng>;
#[cfg(feature = "alt")]
pub type RealFs = SimpleHashFiatShamirRng<blake2::Blake2b, rand_chacha::ChaCha8Rng>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Absorb(Vec<u8>),
    Draw(Vec<u8>),
}

#[derive(Default)]
struct State {
    log: Vec<Ev>,
    script: Option<Vec<[u8; 32]>>,
    queue: Option<Vec<Fr>>,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

/// Forget everything recorded so far (script stays).
pub fn clear() {
    ST.with(|s| s.borrow_mut().log.clear())
}
pub fn take() -> Vec<Ev> {
    ST.with(|s| std::mem::take(&mut s.borrow_mut().log))
}
/// Scripted mode: segment i (draws after the i-th absorb) comes from seed i.
pub fn set_script(seed: Option<u64>) {
    ST.with(|s| {
        s.borrow_mut().script = seed.map(|x| {
            let mut r = ChaChaRng::seed_from_u64(x);
            (0..256)
                .map(|_| {
                    let mut b = [0u8; 32];
                    r.fill_bytes(&mut b);
                    b
                })
                .collect()
        })
    })
}

/// Queue mode: the k-th challenge drawn is the k-th element, whatever was
/// absorbed; challenges beyond the end are drawn normally.
pub fn set_queue(q: Option<Vec<Fr>>) {
    ST.with(|s| s.borrow_mut().queue = q)
}
/// Back to the real generator with nothing recorded.
pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default())
}

pub struct RecFs {
    words: usize,
    inner: RealFs,
    scripted: Option<ChaChaRng>,
    seg: usize,
}

impl RecFs {
    fn next_segment(&mut self) {
        self.seg += 1;
        self.load();
    }
    fn queued(&mut self) -> Option<u64> {
        let w = self.words;
        self.words += 1;
        ST.with(|s| s.borrow().queue.as_ref().and_then(|q| q.get(w / crate::WORDS).map(|x| x.0 .0[w % crate::WORDS])))
    }
    fn load(&mut self) {
        let seg = self.seg;
        self.scripted = ST.with(|s| s.borrow().script.as_ref().map(|v| ChaChaRng::from_seed(v[seg % v.len()])));
    }
}

fn ser<'a, T: 'a + ToBytes>(x: &'a T) -> Vec<u8> {
    let mut b = vec![];
    x.write(&mut b).unwrap();
    b
}
fn rec(e: Ev) {
    ST.with(|s| s.borrow_mut().log.push(e))
}

impl FiatShamirRng for RecFs {
    fn initialize<'a, T: 'a + ToBytes>(i: &'a T) -> Self {
        rec(Ev::Absorb(ser(i)));
        let mut s = RecFs { words: 0, inner: RealFs::initialize(i), scripted: None, seg: 0 };
        s.load();
        s
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, i: &'a T) {
        rec(Ev::Absorb(ser(i)));
        self.inner.absorb(i);
        self.next_segment();
    }
}
impl RngCore for RecFs {
    fn next_u32(&mut self) -> u32 {
        let x = match &mut self.scripted {
            Some(r) => r.next_u32(),
            None => self.inner.next_u32(),
        };
        rec(Ev::Draw(x.to_le_bytes().to_vec()));
        x
    }
    fn next_u64(&mut self) -> u64 {
        let x = match (self.queued(), &mut self.scripted) {
            (Some(x), _) => x,
            (None, Some(r)) => r.next_u64(),
            (None, None) => self.inner.next_u64(),
        };
        rec(Ev::Draw(x.to_le_bytes().to_vec()));
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match &mut self.scripted {
            Some(r) => r.fill_bytes(d),
            None => self.inner.fill_bytes(d),
        };
        rec(Ev::Draw(d.to_vec()));
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

struct Replay<'a> {
    d: &'a [Vec<u8>],
    pos: usize,
}
impl<'a> RngCore for Replay<'a> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, o: &mut [u8]) {
        if self.pos < self.d.len() {
            let s = &self.d[self.pos];
            for (a, b) in o.iter_mut().zip(s.iter()) {
                *a = *b;
            }
        }
        self.pos += 1;
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A run of messages followed by the challenges drawn after them.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Segment {
    pub absorbed: Vec<Vec<u8>>,
    pub challenges: Vec<Fr>,
}

pub fn segments(log: &[Ev]) -> Vec<Segment> {
    let mut out: Vec<Segment> = vec![];
    let mut draws: Vec<Vec<u8>> = vec![];
    let flush = |out: &mut Vec<Segment>, draws: &mut Vec<Vec<u8>>| {
        if draws.is_empty() {
            return;
        }
        let mut r = Replay { d: draws, pos: 0 };
        let mut ch = vec![];
        while r.pos < r.d.len() {
            ch.push(Fr::rand(&mut r));
        }
        if let Some(s) = out.last_mut() {
            s.challenges = ch;
        }
        draws.clear();
    };
    for e in log {
        match e {
            Ev::Absorb(b) => {
                if !draws.is_empty() || out.is_empty() {
                    flush(&mut out, &mut draws);
                    out.push(Segment { absorbed: vec![], challenges: vec![] });
                }
                out.last_mut().unwrap().absorbed.push(b.clone());
            }
            Ev::Draw(d) => draws.push(d.clone()),
        }
    }
    flush(&mut out, &mut draws);
    out
}

/// All challenges, in the order they were drawn.
pub fn challenges(log: &[Ev]) -> Vec<Fr> {
    segments(log).into_iter().flat_map(|s| s.challenges).collect()
}
