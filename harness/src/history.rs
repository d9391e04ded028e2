//! C17: sequences of calls, evaluated in fresh processes in different orders and on several threads.
//!
//! A history is a list of (call, repetitions). Every evaluation of the same call, anywhere in any of
//! the processes, must give the same result. Fresh processes make a failure reproducible: hidden
//! state starts from scratch each time.

use crate::api::{self, isa_name};
use crate::engine::{self, rng};
use crate::model::{Model, X};
use crate::{ops, props};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::test_runner::{Config, TestCaseError, TestError, TestRunner};
use raki::{DecodingError, Instruction, OpcodeKind};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Decode,
    Text,
    Access,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Word {
        kind: Kind,
        width: u32,
        word: u32,
        isa: X,
    },
    Convert(u64),
    /// A run of consecutive words, for their effect on other calls. Of a 32-bit run, `start` and
    /// `len` count the upper 25 bits and the words share the major opcode.
    Range {
        width: u32,
        major: u32,
        isa: X,
        start: u32,
        len: u32,
    },
}

pub type History = Vec<(Call, u32)>;

#[derive(PartialEq, Debug)]
enum Res {
    Decode(Result<Result<Instruction, DecodingError>, String>),
    Text(Result<Result<Result<String, String>, DecodingError>, String>),
    Access(
        Result<Result<OpcodeKind, DecodingError>, String>,
        Vec<Result<Result<Option<i64>, DecodingError>, String>>,
    ),
    /// Digest of the results of a range, whatever their order.
    Digest(u64),
}

fn isa_of(s: &str) -> X {
    if s == "rv32" {
        X::Rv32
    } else {
        X::Rv64
    }
}

fn widen<T: Into<i128>>(
    r: Result<Result<Option<T>, DecodingError>, String>,
) -> Result<Result<Option<i64>, DecodingError>, String> {
    r.map(|r| r.map(|o| o.map(|v| v.into() as i64)))
}

fn eval(c: Call) -> Res {
    match c {
        Call::Convert(v) => Res::Decode(api::try_from(v)),
        Call::Range {
            width,
            major,
            isa,
            start,
            len,
        } => Res::Digest((start..start + len).fold(0, |d, k| {
            let r = eval(member(width, major, isa, k));
            d.wrapping_add(digest(k, &r))
        })),
        Call::Word {
            kind: Kind::Decode,
            width,
            word,
            isa,
        } => Res::Decode(api::decode(width, word, isa)),
        Call::Word {
            kind: Kind::Text,
            width,
            word,
            isa,
        } => Res::Text(api::decode(width, word, isa).map(|r| r.map(|i| api::text(&i)))),
        Call::Word {
            kind: Kind::Access,
            width,
            word,
            isa,
        } => {
            let o = api::opcode(width, word, isa);
            let mut parts = Vec::new();
            if let Ok(Ok(k)) = &o {
                let a = api::access(width, word, k, isa);
                parts.push(widen(a.rd.map(|r| r.map(|o| o.map(|v| v as u64)))));
                parts.push(widen(a.rs1.map(|r| r.map(|o| o.map(|v| v as u64)))));
                parts.push(widen(a.rs2.map(|r| r.map(|o| o.map(|v| v as u64)))));
                parts.push(widen(a.imm));
            }
            Res::Access(o, parts)
        }
    }
}

fn blend(h: u64, v: u64) -> u64 {
    let h = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ h >> 29
}

/// A number for the result of the k-th word of a range.
fn digest(k: u32, r: &Res) -> u64 {
    let h = u64::from(k) << 8;
    let reg = |h, r: Option<usize>| blend(h, r.map_or(u64::MAX, |v| v as u64));
    match r {
        Res::Decode(Ok(Ok(i))) => {
            let h = blend(h, ops::id_of(&i.opc) as u64);
            let h = reg(reg(reg(h, i.rd), i.rs1), i.rs2);
            let h = blend(h, i.imm.map_or(u64::MAX, |v| u64::from(v as u32)));
            blend(h, u64::from(i.is_compressed) | 2)
        }
        Res::Decode(Ok(Err(e))) => blend(h, 1 << 32 | u64::from(props::reason_class(e))),
        Res::Text(Ok(Ok(Ok(t)))) => t.bytes().fold(h | 1, |h, b| blend(h, u64::from(b))),
        Res::Text(Ok(Err(e))) => blend(h | 1, 1 << 32 | u64::from(props::reason_class(e))),
        Res::Digest(d) => blend(h, *d),
        // Panics, and accessors, which ranges do not call.
        _ => blend(h, 1 << 33),
    }
}

/// The call a range makes for its k-th word: mostly decodes, some conversions and texts.
fn member(width: u32, major: u32, isa: X, k: u32) -> Call {
    let word = if width == 16 { k } else { k << 7 | major };
    let kind = match k.wrapping_mul(0x9e37_79b1) >> 29 {
        0 if isa == X::Rv64 => return Call::Convert(u64::from(word)),
        1 => Kind::Text,
        _ => Kind::Decode,
    };
    Call::Word {
        kind,
        width,
        word,
        isa,
    }
}

impl Call {
    fn line(self) -> String {
        match self {
            Call::Convert(v) => format!("convert {v:#x}"),
            Call::Range {
                width,
                major,
                isa,
                start,
                len,
            } => format!(
                "range {width} {major:#x} {} {start:#x} {len:#x}",
                isa_name(isa)
            ),
            Call::Word {
                kind,
                width,
                word,
                isa,
            } => {
                let k = match kind {
                    Kind::Decode => "decode",
                    Kind::Text => "text",
                    Kind::Access => "access",
                };
                format!("{k} {width} {word:#x} {}", isa_name(isa))
            }
        }
    }
    fn parse(s: &str) -> Option<Call> {
        let f: Vec<&str> = s.split(' ').collect();
        let hex = |s: &str| u64::from_str_radix(s.strip_prefix("0x")?, 16).ok();
        match f[..] {
            ["convert", v] => Some(Call::Convert(hex(v)?)),
            ["range", width, major, isa, start, len] => Some(Call::Range {
                width: width.parse().ok()?,
                major: hex(major)? as u32,
                isa: isa_of(isa),
                start: hex(start)? as u32,
                len: hex(len)? as u32,
            }),
            [k, width, word, isa] => Some(Call::Word {
                kind: match k {
                    "decode" => Kind::Decode,
                    "text" => Kind::Text,
                    "access" => Kind::Access,
                    _ => return None,
                },
                width: width.parse().ok()?,
                word: hex(word)? as u32,
                isa: isa_of(isa),
            }),
            _ => None,
        }
    }
}

pub fn to_json(h: &History) -> Value {
    json!({"kind": "history", "calls": h.iter().map(|(c, n)| format!("{n} x {}", c.line())).collect::<Vec<_>>()})
}

pub fn from_json(v: &Value) -> Option<History> {
    v["calls"]
        .as_array()?
        .iter()
        .map(|l| {
            let (n, c) = l.as_str()?.split_once(" x ")?;
            Some((Call::parse(c)?, n.parse().ok()?))
        })
        .collect()
}

// ---- child side -------------------------------------------------------------------------------

const THREADS: usize = 6;
/// Seconds an evaluating process may take, besides those its number of calls allows.
const PATIENCE: u64 = 20;
const LIMIT: &str = "RAKI_PBT_LIMIT";
/// Exit status of an evaluating process that does not get done.
const STUCK: i32 = 78;
const ORDERS: [&str; 4] = ["forward", "reverse", "grouped", "threads"];

/// Results per distinct call seen by one thread: the first result, and a differing one if any.
#[derive(Default)]
struct Log(HashMap<Call, (Res, Option<Res>)>);

impl Log {
    fn record(&mut self, c: Call, r: Res) {
        match self.0.get_mut(&c) {
            None => {
                self.0.insert(c, (r, None));
            }
            Some((first, other)) => {
                if other.is_none() && *first != r {
                    *other = Some(r);
                }
            }
        }
    }
    fn run<'a>(&mut self, h: impl Iterator<Item = &'a (Call, u32)>) {
        for &(c, n) in h {
            if n == 0 {
                continue;
            }
            let first = eval(c);
            for _ in 1..n {
                let r = eval(c);
                if r != first {
                    self.record(c, r);
                }
            }
            self.record(c, first);
        }
    }
}

/// Entry point of the evaluating process: history on stdin, results on stdout.
pub fn child(order: &str) {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).expect("stdin");
    let h: History = input
        .lines()
        .map(|l| {
            let (n, c) = l.split_once(" x ").expect("line");
            (Call::parse(c).expect("call"), n.parse().expect("count"))
        })
        .collect();
    let base = std::env::var(LIMIT).ok().and_then(|s| s.parse().ok());
    let limit = Duration::from_secs(base.unwrap_or(PATIENCE) + size(&h) / 100_000);
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        std::process::exit(STUCK);
    });
    let mut logs = Vec::new();
    match order {
        "sweep" => return sweep_child(&h, false),
        "sweep-back" => return sweep_child(&h, true),
        "repeat" => return repeat_child(h[0]),
        "forward" => {
            let mut l = Log::default();
            l.run(h.iter());
            l.run(h.iter());
            logs.push(l);
        }
        "reverse" => {
            let mut l = Log::default();
            l.run(h.iter().rev());
            logs.push(l);
        }
        "grouped" => {
            // All occurrences of a call together, in the order of its first one.
            let mut at: HashMap<Call, usize> = HashMap::new();
            let mut groups: Vec<Vec<&(Call, u32)>> = Vec::new();
            for c in &h {
                let i = *at.entry(c.0).or_insert_with(|| {
                    groups.push(Vec::new());
                    groups.len() - 1
                });
                groups[i].push(c);
            }
            let mut l = Log::default();
            l.run(groups.into_iter().flatten());
            logs.push(l);
        }
        "threads" => std::thread::scope(|s| {
            let h = &h;
            let hs: Vec<_> = (0..THREADS)
                .map(|t| {
                    s.spawn(move || {
                        let mut l = Log::default();
                        let k = h.len() * t / THREADS;
                        l.run(h[k..].iter().chain(&h[..k]));
                        l
                    })
                })
                .collect();
            logs.extend(hs.into_iter().map(|j| j.join().expect("join")));
        }),
        _ => panic!("order"),
    }
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let hash = |r: &Res| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        api::dbg(r).hash(&mut h);
        h.finish()
    };
    let short = h.len() <= 64;
    for l in logs {
        for (c, (first, other)) in l.0 {
            for r in std::iter::once(&first).chain(other.as_ref()) {
                let detail = if short { api::dbg(r) } else { String::new() };
                writeln!(out, "{}|{:x}|{detail}", c.line(), hash(r)).expect("stdout");
            }
        }
    }
}

/// Number of calls a history makes.
fn size(h: &History) -> u64 {
    h.iter()
        .map(|(c, n)| match c {
            Call::Range { len, .. } => u64::from(*len) * u64::from(*n),
            _ => u64::from(*n),
        })
        .sum()
}

fn ending(s: std::process::ExitStatus) -> String {
    if s.code() == Some(STUCK) {
        "does not end".into()
    } else {
        s.to_string()
    }
}

// ---- parent side ------------------------------------------------------------------------------

struct Disagreement {
    stuck: bool,
    call: String,
    results: Vec<(String, String)>,
}

/// What a call must not depend on either: environment, arguments and directory of the process.
fn surroundings<'a>(k: &'a mut Command, order: &str) -> &'a mut Command {
    match order {
        "reverse" => k.env_clear().current_dir("/"),
        "grouped" => k.args(["--verbose", "--no-color", "-O"]).envs([
            ("CLICOLOR_FORCE", "1"),
            ("COLUMNS", "20"),
            ("DEBUG", "1"),
            ("ISA", "rv32"),
            ("LANG", "de_DE.UTF-8"),
            ("LC_ALL", "tr_TR.UTF-8"),
            ("NO_COLOR", "1"),
            ("RUST_BACKTRACE", "full"),
            ("RUST_LOG", "trace"),
            ("TERM", "dumb"),
            ("VERBOSE", "1"),
            ("XLEN", "32"),
        ]),
        _ => k,
    }
}

/// Evaluate a history in fresh processes; the first call with two different results.
fn disagreement(h: &History) -> Option<Disagreement> {
    disagreement_within(h, PATIENCE)
}

fn disagreement_within(h: &History, seconds: u64) -> Option<Disagreement> {
    let mut input = String::new();
    for (c, n) in h {
        input.push_str(&format!("{n} x {}\n", c.line()));
    }
    let exe = std::env::current_exe().expect("current_exe");
    let kids: Vec<_> = ORDERS
        .iter()
        .map(|o| {
            let mut k = surroundings(Command::new(&exe).args(["--eval-history", o]), o)
                .env(LIMIT, seconds.to_string())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("spawn");
            let mut stdin = k.stdin.take().expect("stdin");
            let text = input.clone();
            // The child reads all of its input before it writes.
            let t = std::thread::spawn(move || stdin.write_all(text.as_bytes()));
            (o, k, t)
        })
        .collect();
    let mut seen: BTreeMap<String, Vec<(String, String, String)>> = BTreeMap::new();
    let mut died = Vec::new();
    let mut stuck = false;
    for (o, k, t) in kids {
        let out = k.wait_with_output().expect("wait");
        // A process that dies early does not read its input.
        let _ = t.join().expect("join");
        if !out.status.success() {
            stuck |= out.status.code() == Some(STUCK);
            died.push(((*o).to_string(), ending(out.status)));
            continue;
        }
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let mut f = l.splitn(3, '|');
            let (c, hash, d) = (
                f.next().unwrap_or(""),
                f.next().unwrap_or(""),
                f.next().unwrap_or(""),
            );
            let e = seen.entry(c.into()).or_default();
            if e.iter().all(|r| r.0 != hash) {
                e.push((hash.into(), (*o).into(), d.into()));
            }
        }
    }
    // A single call that ends its process, whatever came before, is another property's failure.
    assert!(
        died.len() < ORDERS.len() || size(h) > 1,
        "harness: the call fails on its own: {} {died:?}",
        h[0].0.line()
    );
    if !died.is_empty() {
        if died.len() < ORDERS.len() {
            died.push(("other orders".into(), "all results".into()));
        }
        return Some(Disagreement {
            stuck,
            call: "the whole history".into(),
            results: died,
        });
    }
    seen.into_iter()
        .find(|(_, r)| r.len() > 1)
        .map(|(call, r)| Disagreement {
            stuck,
            call,
            results: r
                .into_iter()
                .map(|(h, o, d)| (o, if d.is_empty() { h } else { d }))
                .collect(),
        })
}

/// When minimising has to be done.
static END: OnceLock<Instant> = OnceLock::new();

/// Delta debugging: drop runs of calls, then lower repetitions, while the history still disagrees.
fn minimise(mut h: History, seconds: u64) -> History {
    // Schedules can be flaky: a candidate counts only if it fails when tried, and is tried twice.
    let fails = |h: &History| {
        let once = || disagreement_within(h, seconds).is_some();
        !h.is_empty() && (once() || once())
    };
    let mut size = h.len().div_ceil(2);
    let mut budget = 600;
    let until = Instant::now() + Duration::from_secs(240);
    let until = END.get().map_or(until, |&end| until.min(end));
    let fails = |h: &History| Instant::now() < until && fails(h);
    while size >= 1 && budget > 0 {
        let mut i = 0;
        let mut shrunk = false;
        while i < h.len() && budget > 0 {
            let mut c = h.clone();
            c.drain(i..(i + size).min(c.len()));
            budget -= 1;
            if fails(&c) {
                h = c;
                shrunk = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !shrunk {
            break;
        }
        size = if size == 1 { 1 } else { size / 2 };
    }
    for i in 0..h.len() {
        while let (
            Call::Range {
                width,
                major,
                isa,
                start,
                len,
            },
            true,
        ) = (h[i].0, budget > 0)
        {
            let part = |start, len| Call::Range {
                width,
                major,
                isa,
                start,
                len,
            };
            let parts = if len == 1 {
                vec![member(width, major, isa, start)]
            } else {
                vec![part(start, len / 2), part(start + len / 2, len - len / 2)]
            };
            budget -= 1;
            let smaller = parts.into_iter().find_map(|p| {
                let mut c = h.clone();
                c[i].0 = p;
                fails(&c).then_some(c)
            });
            match smaller {
                Some(c) => h = c,
                None => break,
            }
        }
        while h[i].1 > 1 && budget > 0 {
            let mut c = h.clone();
            c[i].1 /= 2;
            budget -= 1;
            if fails(&c) {
                h = c;
            } else {
                break;
            }
        }
    }
    h
}

fn call(m: &Model) -> BoxedStrategy<Call> {
    let kind =
        || prop_oneof![2 => Just(Kind::Decode), 2 => Just(Kind::Text), 1 => Just(Kind::Access)];
    let isa = || prop_oneof![Just(X::Rv32), Just(X::Rv64)];
    prop_oneof![
        5 => (kind(), engine::word(m, None), isa())
            .prop_map(|(kind, (width, word), isa)| Call::Word { kind, width, word, isa }),
        1 => engine::word(m, None).prop_map(|(_, w)| Call::Convert(u64::from(w))),
    ]
    .boxed()
}

/// A call easily confused with another one: other ISA, length or kind, or a nearby word.
fn sibling(c: Call, how: u32) -> Call {
    match c {
        Call::Range { .. } => c,
        Call::Convert(v) => match how % 3 {
            0 => Call::Word {
                kind: Kind::Decode,
                width: 32,
                word: v as u32,
                isa: X::Rv64,
            },
            1 => Call::Word {
                kind: Kind::Text,
                width: 16,
                word: v as u32 & 0xffff,
                isa: X::Rv32,
            },
            _ => Call::Convert(v ^ 1 << (how / 3 % 40)),
        },
        Call::Word {
            kind,
            width,
            word,
            isa,
        } => {
            let other = if isa == X::Rv32 { X::Rv64 } else { X::Rv32 };
            match how % 6 {
                0 | 1 => Call::Word {
                    kind,
                    width,
                    word,
                    isa: other,
                },
                2 => Call::Word {
                    kind,
                    width: 48 - width,
                    word: word & 0xffff,
                    isa,
                },
                3 => Call::Convert(u64::from(word)),
                4 => Call::Word {
                    kind: if kind == Kind::Text {
                        Kind::Access
                    } else {
                        Kind::Text
                    },
                    width,
                    word,
                    isa,
                },
                _ => Call::Word {
                    kind,
                    width,
                    word: word ^ 1 << (how / 6 % width),
                    isa,
                },
            }
        }
    }
}

/// A pool of calls and their siblings, and a sequence over the pool.
fn histories(m: &Model, len: usize, long: bool) -> BoxedStrategy<History> {
    let pool = vec((call(m), vec(any::<u32>(), 0..3)), 1..10).prop_map(|p| {
        let mut all = Vec::new();
        for (c, sib) in p {
            all.push(c);
            all.extend(sib.into_iter().map(|h| sibling(c, h)));
        }
        all
    });
    let times = if long {
        prop_oneof![30 => 1u32..3, 4 => 3u32..300, 1 => 300u32..70_000].boxed()
    } else {
        (1u32..3).boxed()
    };
    (pool, vec((any::<u16>(), times), 1..len))
        .prop_map(|(p, s)| {
            s.into_iter()
                .map(|(i, n)| (p[i as usize * p.len() >> 16], n))
                .collect()
        })
        .boxed()
}

/// Width, mask and value of an encoding.
type Shape = (u32, u32, u32);

/// Every opcode directly after every other one, with the registers of the two related in some way.
fn neighbours(encs: &[Shape], seed: u64) -> History {
    let mut state = seed;
    let mut next = move || {
        state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = state;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ z >> 31) as u32
    };
    let mut pairs: Vec<(usize, usize)> = (0..encs.len())
        .flat_map(|a| (0..encs.len()).map(move |b| (a, b)))
        .collect();
    for i in (1..pairs.len()).rev() {
        pairs.swap(i, next() as usize % (i + 1));
    }
    let mut h = Vec::with_capacity(2 * pairs.len());
    for (a, b) in pairs {
        let (a, b) = (encs[a], encs[b]);
        let fit = |(width, mask, value): Shape, bits: u32| {
            (value | bits & !mask) & (u32::MAX >> (32 - width))
        };
        let first = fit(a, next());
        let reg = first >> 7 & 31;
        let other = match next() % 4 {
            0 => first >> 15 & 31,
            1 => first >> 20 & 31,
            2 => next() & 31,
            _ => reg,
        };
        let fill = match next() % 4 {
            0 => next(),
            1 => first,
            // The register, once or all over the register fields of both lengths.
            2 => next() & !0x000f_8000 | reg << 15,
            _ => {
                next() & !0x01ff_8f80
                    | if b.0 == 32 {
                        reg << 15 | other << 7 | other << 20
                    } else {
                        reg << 7 | (other & 31) << 2
                    }
            }
        };
        let second = fit(b, fill);
        let isa = if next() % 2 == 0 { X::Rv32 } else { X::Rv64 };
        for (e, word) in [(a, first), (b, second)] {
            let kind = match next() % 8 {
                0 if isa == X::Rv64 => {
                    h.push((Call::Convert(u64::from(word)), 1));
                    continue;
                }
                1 | 2 => Kind::Text,
                3 => Kind::Access,
                _ => Kind::Decode,
            };
            h.push((
                Call::Word {
                    kind,
                    width: e.0,
                    word,
                    isa,
                },
                1,
            ));
        }
    }
    h
}

/// The same two instructions over and over on all threads, formatted on some and decoded on others.
fn contention(a: Shape, b: Shape, bits: u32, isa: X, n: u32) -> History {
    let fit = |(width, mask, value): Shape, bits: u32| {
        (width, (value | bits & !mask) & (u32::MAX >> (32 - width)))
    };
    let pair = [fit(a, bits), fit(b, !bits)];
    [
        Kind::Text,
        Kind::Text,
        Kind::Decode,
        if bits & 1 == 0 {
            Kind::Access
        } else {
            Kind::Decode
        },
    ]
    .into_iter()
    .flat_map(|kind| {
        pair.map(|(width, word)| {
            let c = Call::Word {
                kind,
                width,
                word,
                isa,
            };
            (c, n)
        })
    })
    .collect()
}

/// CSRs a decoder might be tempted to keep an eye on.
const CSRS: &[u32] = &[
    0x001, 0x002, 0x003, 0x008, 0x011, 0x015, 0x100, 0x104, 0x105, 0x106, 0x10a, 0x140, 0x141,
    0x142, 0x143, 0x144, 0x180, 0x200, 0x280, 0x300, 0x301, 0x302, 0x303, 0x304, 0x305, 0x306,
    0x30a, 0x310, 0x320, 0x340, 0x341, 0x342, 0x343, 0x344, 0x3a0, 0x3b0, 0x600, 0x680, 0x744,
    0x747, 0x7a0, 0x7b0, 0x7c0, 0xb00, 0xb02, 0xb80, 0xb82, 0xc00, 0xc01, 0xc02, 0xc03, 0xc80,
    0xc81, 0xc82, 0xf11, 0xf12, 0xf13, 0xf14, 0xf15, 0xfff,
];

/// Every opcode with telling operands (few registers, round immediates, well-known CSRs), in a shuffled
/// order: any two of them come after one another, though not next to one another, in some order.
fn telling(encs: &[Shape], seed: u64) -> History {
    let mut words = Vec::new();
    for &(width, mask, value) in encs {
        let all = u32::MAX >> (32 - width);
        let mut fill = |bits: u32| words.push((width, (value | bits & !mask) & all));
        fill(0);
        fill(all);
        let regs = [0u32, 1, 2, 5, 8, 10, 31];
        if width == 16 {
            for r in regs {
                fill(r << 7);
                fill(r << 2);
                fill(r << 7 | r << 2);
                fill(r << 7 | r << 2 | 1 << 12);
            }
        } else if value & 0x7f == 0x73 {
            for &csr in CSRS {
                for rs1 in [0, 1, 10] {
                    fill(csr << 20 | rs1 << 15);
                }
                fill(csr << 20 | 10 << 15 | 10 << 7);
            }
        } else {
            for r in regs {
                for imm in [0, 1, 0x800, 0x7ff, 0xfff] {
                    fill(imm << 20 | r << 15 | r << 7);
                }
                fill(r << 20 | r << 15 | r << 7);
                fill(r << 20);
                fill(r << 15);
                fill(r << 7);
            }
        }
    }
    words.sort_unstable();
    words.dedup();
    let mut z = seed;
    let mut h: History = Vec::new();
    for isa in crate::model::ISAS {
        for &(width, word) in &words {
            let kind = match engine::splitmix(&mut z) % 8 {
                0 if isa == X::Rv64 => {
                    h.push((Call::Convert(u64::from(word)), 1));
                    continue;
                }
                1 | 2 => Kind::Text,
                3 => Kind::Access,
                _ => Kind::Decode,
            };
            h.push((
                Call::Word {
                    kind,
                    width,
                    word,
                    isa,
                },
                1,
            ));
        }
    }
    for i in (1..h.len()).rev() {
        h.swap(i, engine::splitmix(&mut z) as usize % (i + 1));
    }
    h
}

#[derive(Default)]
pub struct Stats {
    pub histories: u64,
    pub calls: u64,
    pub nontrivial: HashSet<u64>,
    pub longest: u64,
    /// Words decoded between two evaluations of the panel.
    pub swept: u64,
    pub panel: usize,
    pub panel_rounds: u64,
    /// Calls made over and over.
    pub repeated: u64,
    /// Histories and ranges there was no time for.
    pub skipped: u64,
    pub samples: Vec<Value>,
}

/// Non-trivial: two distinct calls, one of which decodes and recurs after another call in between. By
/// the model: this process makes no calls into the library, which may be what a call spoils.
fn nontrivial(h: &History) -> bool {
    static MODEL: OnceLock<Model> = OnceLock::new();
    let m = MODEL.get_or_init(Model::new);
    let decodes = |c: Call| match c {
        Call::Range { .. } => false,
        Call::Convert(v) => match (u32::try_from(v), v & 3) {
            (Ok(w), 3) => m.decode32(w, X::Rv64).is_some(),
            (Ok(w), _) => w < 65536 && m.decode16(w as u16, X::Rv64).is_some(),
            _ => false,
        },
        Call::Word {
            width, word, isa, ..
        } => m.decode(width, word, isa).is_some(),
    };
    let mut last: HashMap<Call, usize> = HashMap::new();
    for (i, (c, _)) in h.iter().enumerate() {
        if let Some(&j) = last.get(c) {
            if h[j + 1..i].iter().any(|d| d.0 != *c) && decodes(*c) {
                return true;
            }
        }
        last.insert(*c, i);
    }
    false
}

impl Stats {
    fn count(&mut self, h: &History) {
        self.histories += 1;
        let n: u64 = h.iter().map(|c| u64::from(c.1)).sum();
        // forward twice, reverse, grouped, threads
        self.calls += (4 + THREADS as u64) * n;
        self.longest = self.longest.max(n);
        if nontrivial(h) {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.nontrivial.insert(s.finish());
            if self.samples.len() < 4 && h.len() < 30 {
                self.samples.push(to_json(h));
            }
        }
    }
}

pub struct Found {
    pub history: History,
    pub msg: String,
}

pub fn check(h: &History) -> Option<String> {
    disagreement(h).map(|d| {
        let r: Vec<String> = d.results.iter().map(|(o, r)| format!("{o}: {r}")).collect();
        format!("`{}` gives different results: {}", d.call, r.join(" / "))
    })
}

fn found(h: History) -> Found {
    // Waiting for calls that never end takes long; what was shrunk with less patience is confirmed.
    let stuck = disagreement(&h).is_some_and(|d| d.stuck);
    let mut small = minimise(h.clone(), if stuck { 2 } else { PATIENCE });
    if stuck && disagreement(&small).is_none() {
        small = h;
    }
    let msg = check(&small).unwrap_or_else(|| "different results, not on every run".into());
    Found {
        history: small,
        msg,
    }
}

/// A fixed choice of calls, every opcode on both ISAs, to look for lasting effects of other calls.
fn panel(m: &Model) -> Vec<Call> {
    let mut p = Vec::new();
    for e in &m.encs {
        for isa in crate::model::ISAS {
            for (bits, kind) in [
                (0x5a5a_96d3u32, Kind::Text),
                (0x0c31_5208, Kind::Access),
                (u32::MAX, Kind::Text),
            ] {
                let word = (e.value | bits & !e.mask) & (u32::MAX >> (32 - e.width));
                p.push(Call::Word {
                    kind,
                    width: e.width,
                    word,
                    isa,
                });
            }
        }
    }
    for word in [0u32, 1, 3, 0xffff, 0x8000, 0x6001, 0x0000_707b, u32::MAX] {
        p.push(Call::Convert(u64::from(word)));
    }
    p
}

const CHUNK: u32 = 1 << 15;

/// Child: panel, chunk, panel, chunk, ... until the panel changes. The first line is the range. Prints
/// the digests of the chunks, which are visited from the first to the last or the other way round.
fn sweep_child(h: &History, backwards: bool) {
    let Call::Range {
        width,
        major,
        isa,
        start,
        len,
    } = h[0].0
    else {
        panic!("range")
    };
    let panel: Vec<Call> = h[1..].iter().map(|c| c.0).collect();
    let first: Vec<Res> = panel.iter().map(|&c| eval(c)).collect();
    let mut chunks: Vec<u32> = (start..start + len).step_by(CHUNK as usize).collect();
    if backwards {
        chunks.reverse();
    }
    let mut digests = Vec::new();
    for at in chunks {
        let n = CHUNK.min(start + len - at);
        let part = |start: u32, len: u32| {
            let r = eval(Call::Range {
                width,
                major,
                isa,
                start,
                len,
            });
            match r {
                Res::Digest(d) => d,
                _ => unreachable!(),
            }
        };
        let d = if backwards {
            (at..at + n)
                .rev()
                .fold(0, |d: u64, k| d.wrapping_add(part(k, 1)))
        } else {
            part(at, n)
        };
        if let Some(i) = (0..panel.len()).find(|&i| eval(panel[i]) != first[i]) {
            println!("{at:#x} {n:#x}|{}", panel[i].line());
            return;
        }
        digests.push((at, d));
    }
    digests.sort_unstable();
    for (at, d) in digests {
        println!("{at:#x} {d:#x}");
    }
}

fn spawn(h: &History, order: &str) -> std::process::Output {
    let mut input = String::new();
    for (c, n) in h {
        input.push_str(&format!("{n} x {}\n", c.line()));
    }
    let mut k = Command::new(std::env::current_exe().expect("current_exe"))
        .args(["--eval-history", order])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn");
    let _ = k.stdin.take().expect("stdin").write_all(input.as_bytes());
    k.wait_with_output().expect("wait")
}

/// Decode every word of a range forwards and backwards, and look for lasting effects on the panel and
/// for words with different results.
fn sweep(range: Call, panel: &[Call]) -> Option<History> {
    let mut h: History = vec![(range, 1)];
    h.extend(panel.iter().map(|&c| (c, 1)));
    let there = spawn(&h, "sweep");
    let back = spawn(&h, "sweep-back");
    if !there.status.success() || !back.status.success() {
        return Some(vec![(range, 1)]);
    }
    let there = String::from_utf8_lossy(&there.stdout);
    let back = String::from_utf8_lossy(&back.stdout);
    let Call::Range {
        width,
        major,
        isa,
        start,
        len,
    } = range
    else {
        panic!("range")
    };
    let hex = |s: &str| u32::from_str_radix(&s[2..], 16).expect("number");
    let part = |start: u32, len: u32| Call::Range {
        width,
        major,
        isa,
        start,
        len,
    };
    let whole = |panel: &[Call], range: Call| {
        let mut all: History = panel.iter().map(|&c| (c, 1)).collect();
        all.push((range, 1));
        all.extend(panel.iter().map(|&c| (c, 1)));
        all
    };
    for (text, backwards) in [(&there, false), (&back, true)] {
        let Some((chunk, call)) = text.trim().split_once('|') else {
            continue;
        };
        let (at, n) = chunk.split_once(' ').expect("chunk");
        let (at, n) = (hex(at), hex(n));
        let call = Call::parse(call).expect("call");
        let with = |r: Call| vec![(call, 1), (r, 1), (call, 1)];
        let seen = if backwards {
            part(at, start + len - at)
        } else {
            part(start, at + n - start)
        };
        let candidates = [with(part(at, n)), with(seen)];
        let short = candidates.into_iter().find(|h| disagreement(h).is_some());
        // Otherwise the effect needs the rest of the panel.
        return Some(short.unwrap_or_else(|| whole(panel, seen)));
    }
    let (a, _) = there.lines().zip(back.lines()).find(|(a, b)| a != b)?;
    let at = hex(a.split_once(' ').expect("digest").0);
    let pieces = |start: u32, len: u32, size: u32| -> History {
        (start..start + len)
            .step_by(size as usize)
            .map(|k| (part(k, size), 1))
            .collect()
    };
    // The words of the chunk among themselves, the chunks before and after it, or all of them.
    let n = CHUNK.min(start + len - at);
    let from = at.saturating_sub(4 * CHUNK).max(start);
    let to = (at + 5 * CHUNK).min(start + len);
    let candidates = [
        pieces(at, n.min(2048), 1),
        pieces(at, n, 16),
        pieces(from, to - from, 1024),
    ];
    let short = candidates.into_iter().find(|h| disagreement(h).is_some());
    Some(short.unwrap_or_else(|| pieces(start, len, CHUNK)))
}

/// Child: one call over and over until its result changes. Prints how often it was made, if it does.
fn repeat_child((c, n): (Call, u32)) {
    let first = eval(c);
    if let Some(i) = (1..n).find(|_| eval(c) != first) {
        println!("{}", i + 1);
    }
}

/// Hand out 0..n to the processors until one of them has found something.
fn share<F: Fn(usize) -> Option<History> + Sync>(
    n: usize,
    until: Instant,
    f: F,
) -> (usize, Option<Found>) {
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let found = Mutex::new(None);
    std::thread::scope(|scope| {
        for _ in 0..engine::threads() {
            scope.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || found.lock().unwrap().is_some() || Instant::now() > until {
                    break;
                }
                if let Some(h) = f(i) {
                    found.lock().unwrap().get_or_insert(h);
                }
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
    });
    let h: Option<History> = found.into_inner().unwrap();
    (done.into_inner(), h.map(self::found))
}

/// Every opcode very often, in a process of its own.
fn repeats(m: &Model, thorough: bool, until: Instant, s: &mut Stats) -> Option<Found> {
    let n: u32 = (1 << 24) + (1 << 17);
    let mut calls = Vec::new();
    for e in &m.encs {
        let word = (e.value | 0x0a35_4515 & !e.mask) & (u32::MAX >> (32 - e.width));
        for isa in crate::model::ISAS {
            let decodes = m.decode(e.width, word, isa).is_some();
            if isa == X::Rv32 && !thorough && m.decode(e.width, word, X::Rv64).is_some() || !decodes
            {
                continue;
            }
            for (kind, n) in [
                (Kind::Decode, n),
                (Kind::Text, if thorough { 1 << 21 } else { 1 << 17 }),
            ] {
                calls.push((
                    Call::Word {
                        kind,
                        width: e.width,
                        word,
                        isa,
                    },
                    n,
                ));
            }
        }
    }
    if thorough {
        // A few of them more often still.
        let some = calls.iter_mut().filter(|c| c.1 == n);
        some.step_by(24).for_each(|c| c.1 = 300_000_000);
    }
    let repeated = AtomicU64::new(0);
    let (done, r) = share(calls.len(), until, |i| {
        let h = vec![calls[i]];
        let out = spawn(&h, "repeat");
        if !out.status.success() {
            return Some(h);
        }
        repeated.fetch_add(u64::from(calls[i].1), Ordering::Relaxed);
        let n = String::from_utf8_lossy(&out.stdout).trim().parse().ok()?;
        Some(vec![(calls[i].0, n)])
    });
    s.repeated = repeated.into_inner();
    s.skipped += (calls.len() - done) as u64;
    r
}

fn sweeps(m: &Model, until: Instant, s: &mut Stats) -> Option<Found> {
    let panel = panel(m);
    s.panel = panel.len();
    let mut ranges = Vec::new();
    for isa in crate::model::ISAS {
        ranges.push(Call::Range {
            width: 16,
            major: 0,
            isa,
            start: 0,
            len: 1 << 16,
        });
        for &major in crate::props::SUPPORTED {
            ranges.push(Call::Range {
                width: 32,
                major,
                isa,
                start: 0,
                len: 1 << 25,
            });
        }
    }
    let swept = AtomicU64::new(0);
    let rounds = AtomicU64::new(0);
    let (done, r) = share(ranges.len(), until, |i| {
        let r = sweep(ranges[i], &panel);
        let Call::Range { len, .. } = ranges[i] else {
            unreachable!()
        };
        if r.is_none() {
            // Forwards and backwards.
            swept.fetch_add(2 * u64::from(len), Ordering::Relaxed);
            rounds.fetch_add(2 * (1 + u64::from(len.div_ceil(CHUNK))), Ordering::Relaxed);
        }
        r
    });
    (s.swept, s.panel_rounds) = (swept.into_inner(), rounds.into_inner());
    s.skipped += (ranges.len() - done) as u64;
    r
}

/// Search for `budget` at most; what there was no time for is counted.
pub fn search(
    m: &Model,
    seed: u64,
    thorough: bool,
    budget: Duration,
    s: &mut Stats,
) -> Option<Found> {
    let until = Instant::now() + budget;
    let _ = END.set(until + Duration::from_secs(60));
    let round = |k: u64, s: &mut Stats| round(m, seed, k, until, s);
    round(0, s)
        .or_else(|| repeats(m, thorough, until, s))
        .or_else(|| sweeps(m, until, s))
        .or_else(|| (1..if thorough { 3 } else { 0 }).find_map(|k| round(k, s)))
}

/// Random histories of every kind.
fn round(m: &Model, seed: u64, round: u64, until: Instant, s: &mut Stats) -> Option<Found> {
    let (short, deep) = (500, 6);
    let cell = std::cell::RefCell::new((std::mem::take(s), false, false));
    let run = |strategy: BoxedStrategy<History>, cases: u32, stream: u64, shrink: u32| {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: shrink,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng(seed, stream + 16 * round));
        let r = runner.run(&strategy, |h| {
            let (s, failed, stuck) = &mut *cell.borrow_mut();
            if Instant::now() > until {
                s.skipped += u64::from(!*failed);
                return Ok(());
            }
            if !*failed {
                s.count(&h);
            }
            if *stuck {
                // Leave the shrinking to `found`.
                return Ok(());
            }
            match disagreement(&h) {
                None => Ok(()),
                Some(d) => {
                    *failed = true;
                    *stuck = d.stuck;
                    Err(TestCaseError::fail(d.call))
                }
            }
        });
        match r {
            Ok(()) => None,
            Err(TestError::Fail(_, h)) => Some(found(h)),
            Err(e) => panic!("harness: proptest gave up: {e}"),
        }
    };
    let r = run(histories(m, 60, true), short, 1, 300)
        .or_else(|| run(histories(m, 40_000, false), deep, 2, 20))
        // Many different words, hardly ever repeated.
        .or_else(|| {
            run(
                vec((call(m), Just(1u32)), 30_000..60_000).boxed(),
                deep,
                3,
                20,
            )
        })
        .or_else(|| {
            let encs: Vec<Shape> = m.encs.iter().map(|e| (e.width, e.mask, e.value)).collect();
            run(
                any::<u64>()
                    .prop_map(move |s| neighbours(&encs, s))
                    .no_shrink()
                    .boxed(),
                2 * deep,
                6,
                0,
            )
        })
        .or_else(|| {
            let encs: Vec<Shape> = m.encs.iter().map(|e| (e.width, e.mask, e.value)).collect();
            run(
                any::<u64>()
                    .prop_map(move |s| telling(&encs, s))
                    .no_shrink()
                    .boxed(),
                2 * deep,
                8,
                0,
            )
        })
        // Every opcode against itself with other operands, and against another opcode.
        .or_else(|| {
            let encs: Vec<Shape> = m.encs.iter().map(|e| (e.width, e.mask, e.value)).collect();
            let count = encs.len() as u32;
            let turn = std::cell::Cell::new(0);
            run(
                (any::<u32>(), any::<u32>(), 0..count)
                    .prop_map(move |(bits, isa, other)| {
                        let k = turn.replace(turn.get() + 1);
                        let a = encs[(k / 2 % count) as usize];
                        let b = if k % 2 == 0 { a } else { encs[other as usize] };
                        let isa = if isa % 3 == 0 { X::Rv32 } else { X::Rv64 };
                        contention(a, b, bits, isa, 2000)
                    })
                    .no_shrink()
                    .boxed(),
                2 * count,
                7,
                0,
            )
        })
        // A few calls in tight loops, against each other on the threads.
        .or_else(|| {
            run(
                vec((call(m), 1000u32..10_000), 3..14).boxed(),
                2 * deep,
                5,
                40,
            )
        })
        // One call very often, between two others.
        .or_else(|| {
            run(
                (call(m), call(m))
                    .prop_map(move |(a, b)| vec![(a, 1), (b, 4_000_000), (a, 2), (b, 1)])
                    .boxed(),
                3,
                4,
                0,
            )
        });
    *s = cell.into_inner().0;
    r
}
