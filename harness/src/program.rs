//! C23: code streams. A program is a sequence of encoded instructions laid out back to back; walking
//! it by decoding must visit exactly those instructions.

use crate::api::{self, isa_name, Dec};
use crate::case::Case;
use crate::engine::{rng, word};
use crate::model::{Model, X};
use crate::ops;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::test_runner::{Config, TestCaseError, TestError, TestRunner};
use serde_json::{json, Value};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Program {
    pub isa: X,
    /// (width, word)
    pub code: Vec<(u32, u32)>,
}

impl Program {
    pub fn to_json(&self) -> Value {
        let words: Vec<String> = self
            .code
            .iter()
            .map(|(n, w)| format!("{w:#0d$x}", d = *n as usize / 4 + 2))
            .collect();
        json!({"kind": "program", "isa": isa_name(self.isa), "words": words})
    }

    pub fn from_json(v: &Value) -> Option<Program> {
        let isa = match v["isa"].as_str()? {
            "rv32" => X::Rv32,
            "rv64" => X::Rv64,
            _ => return None,
        };
        let code = v["words"].as_array()?.iter().map(|w| {
            let d = w.as_str()?.strip_prefix("0x")?;
            Some((d.len() as u32 * 4, u32::from_str_radix(d, 16).ok()?))
        });
        Some(Program {
            isa,
            code: code.collect::<Option<_>>()?,
        })
    }

    fn bytes(&self) -> Vec<u8> {
        let mut b = Vec::new();
        for (width, w) in &self.code {
            b.extend_from_slice(&w.to_le_bytes()[..*width as usize / 8]);
        }
        b
    }
}

/// What is wrong with a decoded instruction of a stream.
fn differs(m: &Model, width: u32, w: u32, x: X, d: &Dec) -> Option<String> {
    let e = m.decode(width, w, x)?;
    let f = e.fields(w);
    match d {
        Ok(Ok(i))
            if ops::id_of(&i.opc) == e.op
                && i.is_compressed == (width == 16)
                && i.rd == f.rd.map(|v| v as usize)
                && i.rs1 == f.rs1.map(|v| v as usize)
                && i.rs2 == f.rs2.map(|v| v as usize)
                && i.imm == f.imm =>
        {
            None
        }
        _ => Some(format!(
            "{w:#x} is {} {f:?}, got {}",
            api::op_name(e.op),
            api::show(d)
        )),
    }
}

/// The predicate for a program of one instruction.
pub fn single(m: &Model, width: u32, w: u32, x: X) -> Result<u32, String> {
    let Some(e) = m.decode(width, w, x) else {
        return Ok(0);
    };
    let wrong = differs(m, width, w, x, &api::decode(width, w, x)).or_else(|| match x {
        X::Rv32 => None,
        X::Rv64 => differs(m, width, w, x, &api::try_from(u64::from(w))),
    });
    match wrong {
        None => Ok(e.op as u32 + 1),
        Some(why) => Err(why),
    }
}

/// Walk the program from its first byte to its last, telling `at_word` every word about to be decoded.
pub fn check(m: &Model, p: &Program, at_word: &dyn Fn(Case)) -> Option<String> {
    let b = p.bytes();
    let mut walks = vec![false];
    if p.isa == X::Rv64 {
        walks.push(true);
    }
    for convert in walks {
        let mut at = 0;
        for (k, &(width, w)) in p.code.iter().enumerate() {
            let here = |why: &str| {
                let how = if convert { "converting" } else { "decoding" };
                Some(format!("{how}, instruction {k} at byte {at}: {why}"))
            };
            let half = |i: usize| b.get(i..i + 2).map(|s| u16::from_le_bytes([s[0], s[1]]));
            let Some(low) = half(at) else {
                return here("the stream has ended");
            };
            let (n, v) = if low & 3 == 3 {
                let Some(high) = half(at + 2) else {
                    return here("the stream has ended");
                };
                (32, u32::from(high) << 16 | u32::from(low))
            } else {
                (16, u32::from(low))
            };
            if (n, v) != (width, w) {
                return here(&format!("found {v:#x} instead of {w:#x}"));
            }
            at_word(Case::Word {
                width,
                word: w,
                isa: p.isa,
            });
            let d = if convert {
                api::try_from(u64::from(v))
            } else {
                api::decode(n, v, p.isa)
            };
            if let Some(why) = differs(m, width, w, p.isa, &d) {
                return here(&why);
            }
            let Ok(Ok(i)) = d else {
                return here("not decoded");
            };
            at += if i.is_compressed { 2 } else { 4 };
        }
        if at != b.len() {
            return Some(format!("the walk ends at byte {at} of {}", b.len()));
        }
    }
    None
}

fn programs(m: &'static Model) -> BoxedStrategy<Program> {
    let isa = prop_oneof![Just(X::Rv32), Just(X::Rv64)];
    (isa, vec(word(m, None), 1..48))
        .prop_map(move |(isa, code)| Program {
            isa,
            code: code
                .into_iter()
                .filter(|&(n, w)| m.decode(n, w, isa).is_some())
                .collect(),
        })
        .boxed()
}

#[derive(Default)]
pub struct Stats {
    pub programs: u64,
    pub instructions: u64,
    pub nontrivial: HashSet<Program>,
    pub samples: Vec<Value>,
}

/// Non-trivial: at least two instructions, of both lengths.
fn nontrivial(p: &Program) -> bool {
    [16, 32].iter().all(|n| p.code.iter().any(|c| c.0 == *n))
}

pub fn search(
    m: &'static Model,
    seed: u64,
    cases: u32,
    at_word: &dyn Fn(Case),
    s: &mut Stats,
) -> Option<(Program, String)> {
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng(seed, 7));
    let cell = std::cell::RefCell::new((std::mem::take(s), false));
    let r = runner.run(&programs(m), |p| {
        let (s, failed) = &mut *cell.borrow_mut();
        if !*failed {
            s.programs += 1;
            s.instructions += p.code.len() as u64;
            if nontrivial(&p) {
                if s.samples.len() < 3 && p.code.len() < 8 {
                    s.samples.push(p.to_json());
                }
                s.nontrivial.insert(p.clone());
            }
        }
        match check(m, &p, at_word) {
            None => Ok(()),
            Some(why) => {
                *failed = true;
                Err(TestCaseError::fail(why))
            }
        }
    });
    *s = cell.into_inner().0;
    match r {
        Ok(()) => None,
        Err(TestError::Fail(_, p)) => {
            let why = check(m, &p, at_word).unwrap_or_else(|| "failed once".into());
            Some((p, why))
        }
        Err(e) => panic!("harness: proptest gave up: {e}"),
    }
}
