//! Search: seeded random cases with shrinking, complete enumeration, minimisation, bookkeeping.

use crate::api::guard;
use crate::case::{Case, Fail, V};
use crate::known::Known;
use crate::model::{Model, ISAS, X};
use crate::ops::OPS;
use crate::props::{judge, Prop, SUPPORTED};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const CLASSES: usize = 200;

#[derive(Default)]
pub struct Stats {
    pub random: u64,
    pub enumerated: u64,
    /// Non-trivial cases of the enumeration; every enumerated case is distinct.
    pub enumerated_nontrivial: u64,
    /// Distinct non-trivial random cases outside the enumerated domain.
    pub extra: HashSet<Case>,
    pub random_nontrivial: u64,
    pub classes: BTreeMap<u32, u64>,
    pub samples: Vec<Case>,
    pub known_hits: BTreeMap<usize, u64>,
    pub complete: bool,
}

pub struct Found {
    pub case: Case,
    pub fail: Fail,
    pub stage: &'static str,
}

pub struct Search<'a> {
    pub prop: &'a Prop,
    pub model: &'a Model,
    pub known: &'a Known,
    pub deadline: Instant,
    pub progress: &'a Progress,
}

/// What every worker is working on, for the watchdog.
pub struct Progress {
    slots: &'static [Slot],
}

/// Bits and tag of the current case, number of cases so far. Alone in its cache lines, because it is
/// written for every case.
#[repr(align(128))]
pub struct Slot(pub [AtomicU64; 3]);

impl Progress {
    pub fn new(slots: &'static [Slot]) -> Progress {
        Progress { slots }
    }
    #[inline]
    pub fn at(&self, slot: usize, c: Case) {
        let s = &self.slots[slot % self.slots.len()].0;
        s[0].store(c.bits(), Relaxed);
        s[1].store(tag(c), Relaxed);
        s[2].store(s[2].load(Relaxed) + 1, Relaxed);
    }
    fn idle(&self, slot: usize) {
        self.slots[slot % self.slots.len()].0[1].store(0, Relaxed);
    }
    /// A slot that sits on the same case for the whole of `limit`.
    pub fn stuck(&self, limit: Duration) -> bool {
        let snap = || -> Vec<[u64; 3]> {
            self.slots
                .iter()
                .map(|s| [0, 1, 2].map(|i| s.0[i].load(Relaxed)))
                .collect()
        };
        let first = snap();
        let mut same: Vec<bool> = first.iter().map(|s| s[1] != 0).collect();
        let steps = 40;
        for _ in 0..steps {
            std::thread::sleep(limit / steps);
            for (i, s) in snap().iter().enumerate() {
                same[i] &= *s == first[i];
            }
        }
        same.contains(&true)
    }
}

fn tag(c: Case) -> u64 {
    let x = |i: X| u64::from(i == X::Rv64);
    match c {
        Case::Word { width, isa, .. } => 1 | u64::from(width) << 8 | x(isa) << 16,
        Case::Pair { width, op, isa, .. } => {
            2 | u64::from(width) << 8 | x(isa) << 16 | (op as u64) << 32
        }
        Case::Usize(_) => 3,
    }
}

pub fn untag(b: u64, t: u64) -> Case {
    let isa = if t >> 16 & 1 == 1 { X::Rv64 } else { X::Rv32 };
    let width = (t >> 8 & 0xff) as u32;
    match t & 0xff {
        1 => Case::Word {
            width,
            word: b as u32,
            isa,
        },
        2 => Case::Pair {
            width,
            word: b as u32,
            op: (t >> 32) as usize,
            isa,
        },
        _ => Case::Usize(b),
    }
}

pub fn splitmix(z: &mut u64) -> u64 {
    *z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut y = *z;
    y = (y ^ y >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    y = (y ^ y >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    y ^ y >> 31
}

// Machine words that are too wide for the length they announce: every halfword, and a word with every
// lower half, with excess bits of many kinds.

/// Excess bits whatever the word below: runs of ones, small numbers, single bytes, patterns.
fn excess(from: u32) -> &'static [u64] {
    static KINDS: OnceLock<[Vec<u64>; 2]> = OnceLock::new();
    let make = |from: u32| {
        let ones = u64::MAX >> from;
        let mut v: Vec<u64> = (1..=256).collect();
        for lo in 0..64 - from {
            v.extend((lo..64 - from).map(|hi| u64::MAX >> (63 - hi + lo) << lo));
        }
        for byte in 0..8 {
            v.extend((1u64..256).map(|b| b << (8 * byte) & ones));
        }
        for pattern in [
            0x5555_5555_5555_5555,
            0xaaaa_aaaa_aaaa_aaaa,
            0x0123_4567_89ab_cdef,
            0xdead_beef_dead_beef,
            0xcafe_babe_cafe_babe,
            0x8000_0000_8000_0000,
            0x0001_0001_0001_0001,
            0x0013_0000_0013_0000,
            0x0000_0013_0000_0013,
            0x5555u64,
        ] {
            v.extend([pattern & ones, pattern >> from, !pattern & ones]);
        }
        v.retain(|&x| x != 0);
        v.sort_unstable();
        v.dedup();
        v
    };
    &KINDS.get_or_init(|| [make(16), make(32)])[usize::from(from == 32)]
}

/// Excess bits that depend on the word below: itself, near it, turned round.
fn related(low: u64, from: u32) -> Vec<u64> {
    let ones = u64::MAX >> from;
    let unit = (1u64 << from) - 1;
    let many = |x: u64| match from {
        16 => x | x << 16 | x << 32,
        _ => x,
    };
    let bytes = low.swap_bytes() >> (64 - from);
    let bits = low.reverse_bits() >> (64 - from);
    let mut v = Vec::new();
    for x in [low, !low & unit, bytes, bits, low.wrapping_neg() & unit] {
        v.extend([x, many(x), x << 16 & ones]);
    }
    for d in [1, 2, 4, 8, 128] {
        v.extend([low + d, low.wrapping_sub(d) & ones, low ^ d, low ^ d << 5]);
    }
    v.retain(|x| x & ones != 0 && excess(from).binary_search(&(x & ones)).is_err());
    v.iter_mut().for_each(|x| *x &= ones);
    v.sort_unstable();
    v.dedup();
    v
}

fn announced(v: u64) -> u32 {
    if v & 3 == 3 {
        32
    } else {
        16
    }
}

/// A word with the lower half `h`.
fn filled(h: u64) -> u64 {
    let mut z = h;
    h | (splitmix(&mut z) | 1) << 48 >> 32
}

/// The over-wide machine words above the halfword `h`.
fn over_wides(h: u64) -> impl Iterator<Item = u64> {
    let from = announced(h);
    let word = (from == 32).then(|| filled(h));
    std::iter::once(h).chain(word).flat_map(move |low| {
        excess(from)
            .iter()
            .copied()
            .chain(related(low, from))
            .map(move |x| low | x << from)
    })
}

/// Membership in `over_wides`.
fn over_wide(v: u64) -> bool {
    let from = announced(v);
    let (low, x) = (v & ((1u64 << from) - 1), v >> from);
    (low < 65536 || low == filled(low & 0xffff))
        && (excess(from).binary_search(&x).is_ok() || related(low, from).contains(&x))
}

/// Threads of the enumeration.
pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .min(16)
}

// ---- generators -------------------------------------------------------------------------------

/// Operand bits: uniform, or all-zero / all-one / single-bit / alternating boundary patterns.
fn bits() -> impl Strategy<Value = u32> {
    prop_oneof![
        6 => any::<u32>(),
        1 => Just(0u32),
        1 => Just(u32::MAX),
        2 => (0u32..32).prop_map(|b| 1 << b),
        1 => (0u32..32).prop_map(|b| !(1u32 << b)),
        1 => Just(0x5555_5555u32),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b),
    ]
}

/// How an encoded instruction is disturbed, to produce near misses.
#[derive(Clone, Debug)]
enum Disturb {
    No,
    Flip(Vec<u32>),
    Funct3(u32),
    Upper(u32),
    Funct7(u32),
    Major(u32),
}

fn disturb() -> impl Strategy<Value = Disturb> {
    prop_oneof![
        6 => Just(Disturb::No),
        4 => proptest::collection::vec(0u32..32, 1..4).prop_map(Disturb::Flip),
        1 => (0u32..8).prop_map(Disturb::Funct3),
        1 => (0u32..4096).prop_map(Disturb::Upper),
        1 => (0u32..128).prop_map(Disturb::Funct7),
        1 => (0u32..128).prop_map(Disturb::Major),
    ]
}

fn apply(w: u32, width: u32, d: &Disturb) -> u32 {
    let v = match d {
        Disturb::No => w,
        Disturb::Flip(b) => b.iter().fold(w, |a, b| a ^ (1 << (b % width))),
        Disturb::Funct3(f) if width == 32 => w & !0x7000 | f << 12,
        Disturb::Funct3(f) => w & !0xe000 | f << 13,
        Disturb::Upper(u) if width == 32 => w & 0xf_ffff | u << 20,
        Disturb::Upper(u) => w & !0x1ffc | (u << 2) & 0x1ffc,
        Disturb::Funct7(f) if width == 32 => w & !0xfe00_0000 | f << 25,
        Disturb::Funct7(f) => w & !0x1c60 | (f & 3) << 5 | (f >> 2 & 7) << 10,
        Disturb::Major(m) if width == 32 => w & !0x7f | m,
        Disturb::Major(m) => w & !3 | m & 3,
    };
    if width == 16 {
        v & 0xffff
    } else {
        v
    }
}

fn isa() -> impl Strategy<Value = X> {
    prop_oneof![Just(X::Rv32), Just(X::Rv64)]
}

/// Encoded instruction of the model with arbitrary operands, possibly disturbed; or any word.
pub fn word(m: &Model, width: Option<u32>) -> BoxedStrategy<(u32, u32)> {
    let encs: Vec<(u32, u32, u32)> = m
        .encs
        .iter()
        .filter(|e| width.map_or(true, |w| w == e.width))
        .map(|e| (e.width, e.mask, e.value))
        .collect();
    let structured = (0..encs.len(), bits(), disturb()).prop_map(move |(i, b, d)| {
        let (width, mask, value) = encs[i];
        let b = if width == 16 { b & 0xffff } else { b };
        (width, apply(value | b & !mask, width, &d))
    });
    let uniform = (any::<bool>(), bits()).prop_map(move |(h, b)| {
        let w = width.unwrap_or(if h { 16 } else { 32 });
        (w, if w == 16 { b & 0xffff } else { b })
    });
    prop_oneof![8 => structured, 1 => uniform].boxed()
}

fn usizes(m: &Model) -> BoxedStrategy<u64> {
    prop_oneof![
        2 => word(m, None).prop_map(|(_, w)| u64::from(w)),
        3 => (word(m, None), 16u32..64).prop_map(|((_, w), b)| u64::from(w) | 1 << b),
        2 => (word(m, None), any::<u32>()).prop_map(|((_, w), h)| u64::from(w) | u64::from(h) << 32),
        1 => (word(m, Some(16)), any::<u64>()).prop_map(|((_, w), h)| u64::from(w) | h << 16),
        // Sign-extended from 16 or 32 bits, whatever the sign.
        2 => (word(m, None), any::<bool>()).prop_map(|((n, w), ones)| {
            let sign = w >> (n - 1) & 1 == 1;
            u64::from(w) | if sign || ones { u64::MAX << n } else { 1 << 63 }
        }),
        // Followed by more code, or by itself.
        2 => (word(m, None), word(m, None), any::<bool>()).prop_map(|((n, w), (_, v), twice)| {
            u64::from(w) | u64::from(if twice { w } else { v }) << n
        }),
        // Below something made of itself.
        2 => (word(m, None), any::<proptest::sample::Index>()).prop_map(|((n, w), k)| {
            let v = related(u64::from(w), n);
            u64::from(w) | if v.is_empty() { 1 } else { v[k.index(v.len())] } << n
        }),
        1 => any::<u64>(),
    ]
    .boxed()
}

pub fn cases(p: &Prop, m: &Model) -> BoxedStrategy<Case> {
    let mut parts: Vec<(u32, BoxedStrategy<Case>)> = Vec::new();
    let full = matches!(p.majors, crate::props::Majors::None);
    let width = match (p.half, full) {
        (true, true) => Some(16),
        (false, false) => Some(32),
        _ => None,
    };
    if !p.usize_sweep {
        let w = (word(m, width), isa());
        parts.push((
            4,
            w.prop_map(|((width, word), isa)| Case::Word { width, word, isa })
                .boxed(),
        ));
    }
    if p.pairs.is_some() {
        let w = (word(m, None), 0..OPS.len(), isa());
        parts.push((
            3,
            w.prop_map(|((width, word), op, isa)| Case::Pair {
                width,
                word,
                op,
                isa,
            })
            .boxed(),
        ));
    }
    if p.usizes.is_some() {
        parts.push((3, usizes(m).prop_map(Case::Usize).boxed()));
    }
    proptest::strategy::Union::new_weighted(parts).boxed()
}

pub fn rng(seed: u64, stream: u64) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&stream.to_le_bytes());
    b[16..24].copy_from_slice(&0x7261_6b69_5f70_6274u64.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

impl Search<'_> {
    /// Verdict with known findings filtered out: `Err` only for a new failure.
    fn verdict(&self, c: Case, hits: &mut BTreeMap<usize, u64>) -> V {
        match judge(self.prop, self.model, &c) {
            Ok(n) => Ok(n),
            Err(f) => match self.known.find(self.prop.id, c, &f) {
                Some(k) => {
                    *hits.entry(k).or_default() += 1;
                    Ok(0)
                }
                None => Err(f),
            },
        }
    }

    /// A case the enumeration of this run visits anyway.
    fn in_sweep(&self, c: Case, majors: &[u32]) -> bool {
        match c {
            Case::Word { width: 16, .. } => self.prop.half,
            Case::Word { word, .. } => majors.contains(&(word & 0x7f)),
            Case::Usize(v) => {
                v <= u64::from(u32::MAX)
                    && self.prop.usize_sweep
                    && majors.contains(&(v as u32 & 0x7f))
                    || over_wide(v)
            }
            Case::Pair { width, .. } => width == 16,
        }
    }

    pub fn random(
        &self,
        cases_n: u32,
        seed: u64,
        stream: u64,
        majors: &[u32],
        s: &mut Stats,
    ) -> Option<Found> {
        let strategy = cases(self.prop, self.model);
        let config = Config {
            cases: cases_n,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng(seed, stream));
        let cell = std::cell::RefCell::new((std::mem::take(s), HashSet::<u32>::new(), false));
        let r = runner.run(&strategy, |c| {
            self.progress.at(0, c);
            let mut g = cell.borrow_mut();
            let (s, seen, failed) = &mut *g;
            match self.verdict(c, &mut s.known_hits) {
                Ok(n) => {
                    if !*failed {
                        s.random += 1;
                        if n > 0 {
                            s.random_nontrivial += 1;
                            *s.classes.entry(n).or_default() += 1;
                            if !self.in_sweep(c, majors) {
                                s.extra.insert(c);
                            }
                            if s.samples.len() < 12 && seen.insert(n) {
                                s.samples.push(c);
                            }
                        }
                    }
                    Ok(())
                }
                Err(f) => {
                    *failed = true;
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        self.progress.idle(0);
        *s = cell.into_inner().0;
        match r {
            Ok(()) => None,
            Err(TestError::Fail(_, c)) => Some(self.minimise(c, "random")),
            Err(e) => panic!("harness: proptest gave up: {e}"),
        }
    }

    /// Enumerate the domain: halfwords, over-wide machine words, the words of each major opcode.
    pub fn sweep(&self, majors: &[u32], s: &mut Stats) -> Option<Found> {
        const CHUNK: u32 = 1 << 16;
        let per_major = (1u64 << 25) / u64::from(CHUNK);
        let isas: &[X] = if self.prop.both_isas {
            &ISAS[..1]
        } else {
            &ISAS
        };
        let per_word = if self.prop.usize_sweep {
            1
        } else {
            isas.len() as u64
        };
        let half_chunks = u64::from(self.prop.half);
        let wide_chunks = if self.prop.usizes.is_some() { 64 } else { 0 };
        let n_major = majors.len() as u64;
        let first = half_chunks + wide_chunks;
        let total = first + n_major * per_major;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let cut = AtomicBool::new(false);
        let found: Mutex<Option<(Case, Fail)>> = Mutex::new(None);
        let merged = Mutex::new(std::mem::take(s));
        std::thread::scope(|scope| {
            for t in 0..threads() {
                let (next, stop, cut, found, merged) = (&next, &stop, &cut, &found, &merged);
                scope.spawn(move || {
                    let mut counts = vec![0u64; CLASSES];
                    let mut hits = BTreeMap::new();
                    let mut n = 0u64;
                    let mut plain = [0u64; CLASSES];
                    let mut one = |c: Case| -> bool {
                        self.progress.at(t, c);
                        n += 1;
                        match self.verdict(c, &mut hits) {
                            Ok(k) => {
                                counts[k as usize] += 1;
                                true
                            }
                            Err(f) => {
                                found.lock().unwrap().get_or_insert((c, *f));
                                stop.store(true, Relaxed);
                                false
                            }
                        }
                    };
                    'work: while !stop.load(Relaxed) {
                        let i = next.fetch_add(1, Relaxed) as u64;
                        if i >= total {
                            break;
                        }
                        if Instant::now() > self.deadline {
                            cut.store(true, Relaxed);
                            break;
                        }
                        if i < half_chunks {
                            for word in 0..65536 {
                                for &isa in isas {
                                    if !one(Case::Word {
                                        width: 16,
                                        word,
                                        isa,
                                    }) {
                                        break 'work;
                                    }
                                }
                            }
                            continue;
                        }
                        if i < first {
                            let k = (i - half_chunks) << 10;
                            let mut all = (k..k + 1024).flat_map(over_wides);
                            if !all.all(|v| one(Case::Usize(v))) {
                                break 'work;
                            }
                            continue;
                        }
                        let j = i - first;
                        // Majors in turn, chunks of a major in a spread order.
                        let major = majors[(j % n_major) as usize];
                        let chunk = ((j / n_major) as u32).reverse_bits()
                            >> (32 - per_major.trailing_zeros());
                        let words = (0..CHUNK).map(|k| (chunk * CHUNK + k) << 7 | major);
                        let word = |word: u32| {
                            if self.prop.usize_sweep {
                                one(Case::Usize(u64::from(word)))
                            } else {
                                isas.iter().all(|&isa| {
                                    one(Case::Word {
                                        width: 32,
                                        word,
                                        isa,
                                    })
                                })
                            }
                        };
                        // Majors without instructions: plain rejections need no closer look.
                        if !SUPPORTED.contains(&major) {
                            let mut odd = Vec::new();
                            let mut tally = [0u64; CLASSES];
                            let bulk = guard(|| {
                                for word in words.clone() {
                                    self.progress.at(
                                        t,
                                        Case::Word {
                                            width: 32,
                                            word,
                                            isa: X::Rv32,
                                        },
                                    );
                                    match (self.prop.rejected)(word) {
                                        Some(k) => tally[k as usize] += per_word,
                                        None => odd.push(word),
                                    }
                                }
                            });
                            if bulk.is_err() {
                                tally = [0; CLASSES];
                                odd = words.collect();
                            }
                            if !odd.into_iter().all(word) {
                                break 'work;
                            }
                            plain.iter_mut().zip(tally).for_each(|(a, b)| *a += b);
                            continue;
                        }
                        if !words.into_iter().all(word) {
                            break 'work;
                        }
                    }
                    drop(one);
                    self.progress.idle(t);
                    let mut s = merged.lock().unwrap();
                    s.enumerated += n + plain.iter().sum::<u64>();
                    counts.iter_mut().zip(plain).for_each(|(a, b)| *a += b);
                    for (k, c) in counts.iter().enumerate().skip(1) {
                        if *c > 0 {
                            s.enumerated_nontrivial += c;
                            *s.classes.entry(k as u32).or_default() += c;
                        }
                    }
                    for (k, c) in hits {
                        *s.known_hits.entry(k).or_default() += c;
                    }
                });
            }
        });
        *s = merged.into_inner().unwrap();
        s.complete = total > 0 && !cut.load(Relaxed) && !stop.load(Relaxed);
        let f = found.into_inner().unwrap();
        f.map(|(c, _)| self.minimise(c, "enumeration"))
    }

    /// (word, opcode) pairs: every halfword with every opcode; and walking patterns, uniform words and
    /// encodings of every instruction with every opcode for 32-bit words, besides one in `step` of the
    /// upper 25 bits with some lower bits.
    pub fn pairs(&self, seed: u64, per_op: u32, step: usize, s: &mut Stats) -> Option<Found> {
        if self.prop.pairs.is_none() {
            return None;
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Case>> = Mutex::new(None);
        let extra = std::mem::take(&mut s.extra);
        let merged = Mutex::new(std::mem::take(s));
        std::thread::scope(|scope| {
            for t in 0..threads() {
                let (next, stop, found, merged, extra) = (&next, &stop, &found, &merged, &extra);
                scope.spawn(move || {
                    let mut hits = BTreeMap::new();
                    let mut counts = vec![0u64; CLASSES];
                    let mut n = 0u64;
                    let mut words: HashSet<u32> = HashSet::new();
                    while !stop.load(Relaxed) {
                        let op = next.fetch_add(1, Relaxed);
                        if op >= OPS.len() {
                            break;
                        }
                        let mut one = |c: Case| -> bool {
                            self.progress.at(t, c);
                            n += 1;
                            match self.verdict(c, &mut hits) {
                                Ok(k) => {
                                    // Counted with the random cases already.
                                    if !extra.contains(&c) {
                                        counts[k as usize] += 1;
                                    }
                                    true
                                }
                                Err(_) => {
                                    found.lock().unwrap().get_or_insert(c);
                                    stop.store(true, Relaxed);
                                    false
                                }
                            }
                        };
                        words.clear();
                        for a in 0..32 {
                            for b in a..32 {
                                let p = 1u32 << a | 1 << b;
                                words.extend([p, !p]);
                            }
                        }
                        words.extend([0, u32::MAX, 0xaaaa_aaaa, 0x5555_5555]);
                        // Uniform words, and words that encode instructions of their own.
                        let mut z = seed ^ (op as u64) << 40;
                        for _ in 0..per_op {
                            words.insert(splitmix(&mut z) as u32);
                        }
                        for e in self.model.encs.iter().filter(|e| e.width == 32) {
                            words.extend([e.value, e.value | !e.mask]);
                            for _ in 0..per_op / 200 {
                                words.insert(e.value | splitmix(&mut z) as u32 & !e.mask);
                            }
                        }
                        for isa in ISAS {
                            for &word in &words {
                                if !one(Case::Pair {
                                    width: 32,
                                    word,
                                    op,
                                    isa,
                                }) {
                                    break;
                                }
                            }
                            let mut z = seed ^ (op as u64) << 40;
                            let first = splitmix(&mut z) as usize % step;
                            for upper in (first as u32..1 << 25).step_by(step) {
                                let low = (upper.wrapping_mul(0x9e37_79b9) >> 27) << 2 | 3;
                                let word = upper << 7 | low;
                                if !words.contains(&word)
                                    && !one(Case::Pair {
                                        width: 32,
                                        word,
                                        op,
                                        isa,
                                    })
                                {
                                    break;
                                }
                            }
                            for word in 0..65536 {
                                if !one(Case::Pair {
                                    width: 16,
                                    word,
                                    op,
                                    isa,
                                }) {
                                    break;
                                }
                            }
                        }
                    }
                    self.progress.idle(t);
                    let mut s = merged.lock().unwrap();
                    s.enumerated += n;
                    for (k, c) in counts.iter().enumerate().skip(1) {
                        if *c > 0 {
                            s.enumerated_nontrivial += c;
                            *s.classes.entry(k as u32).or_default() += c;
                        }
                    }
                    for (k, c) in hits {
                        *s.known_hits.entry(k).or_default() += c;
                    }
                });
            }
        });
        *s = merged.into_inner().unwrap();
        s.extra = extra;
        let f = found.into_inner().unwrap();
        f.map(|c| self.minimise(c, "pairs"))
    }

    fn failure(&self, c: Case) -> Option<Fail> {
        self.progress.at(0, c);
        self.verdict(c, &mut BTreeMap::new()).err().map(|f| *f)
    }

    /// Clear bits greedily as long as the case still fails; prefer RV32.
    fn minimise(&self, mut c: Case, stage: &'static str) -> Found {
        let Some(mut fail) = self.failure(c) else {
            // Only a library with hidden state can pass now; report the case as found.
            return Found {
                case: c,
                fail: Fail {
                    msg: "failed once, passes when repeated".into(),
                    actual: "unstable".into(),
                },
                stage,
            };
        };
        if let Case::Word {
            width,
            word,
            isa: X::Rv64,
        } = c
        {
            let d = Case::Word {
                width,
                word,
                isa: X::Rv32,
            };
            if let Some(f) = self.failure(d) {
                (c, fail) = (d, f);
            }
        }
        loop {
            let b = c.bits();
            let smaller = (0..64).rev().filter(|k| b >> k & 1 == 1).find_map(|k| {
                let d = c.with_bits(b & !(1 << k));
                self.failure(d).map(|f| (d, f))
            });
            match smaller {
                Some((d, f)) => (c, fail) = (d, f),
                None => {
                    return Found {
                        case: c,
                        fail,
                        stage,
                    }
                }
            }
        }
    }
}
