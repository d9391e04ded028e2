//! Generated cases and verdicts.

use crate::api;
use crate::model::X;
use crate::ops::OPS;
use serde_json::{json, Value};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Case {
    Word {
        width: u32,
        word: u32,
        isa: X,
    },
    Pair {
        width: u32,
        word: u32,
        op: usize,
        isa: X,
    },
    Usize(u64),
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// What the library did, for matching known findings.
    pub actual: String,
}

pub type V = Result<u32, Box<Fail>>;

fn isa_from(s: &str) -> Option<X> {
    match s {
        "rv32" => Some(X::Rv32),
        "rv64" => Some(X::Rv64),
        _ => None,
    }
}

fn num(v: &Value) -> Option<u64> {
    u64::from_str_radix(v.as_str()?.strip_prefix("0x")?, 16).ok()
}

impl Case {
    pub fn to_json(self) -> Value {
        match self {
            Case::Word { width, word, isa } => {
                json!({"kind": "word", "width": width, "word": format!("{word:#x}"), "isa": api::isa_name(isa)})
            }
            Case::Pair {
                width,
                word,
                op,
                isa,
            } => json!({
                "kind": "pair", "width": width, "word": format!("{word:#x}"),
                "opcode": api::op_name(op), "isa": api::isa_name(isa)
            }),
            Case::Usize(v) => json!({"kind": "usize", "value": format!("{v:#x}")}),
        }
    }

    pub fn from_json(v: &Value) -> Option<Case> {
        let isa = || isa_from(v["isa"].as_str()?);
        let width = || u32::try_from(v["width"].as_u64()?).ok();
        let word = || u32::try_from(num(&v["word"])?).ok();
        match v["kind"].as_str()? {
            "word" => Some(Case::Word {
                width: width()?,
                word: word()?,
                isa: isa()?,
            }),
            "pair" => {
                let name = v["opcode"].as_str()?;
                let op = (0..OPS.len()).find(|&i| api::op_name(i) == name)?;
                Some(Case::Pair {
                    width: width()?,
                    word: word()?,
                    op,
                    isa: isa()?,
                })
            }
            "usize" => Some(Case::Usize(num(&v["value"])?)),
            _ => None,
        }
    }

    /// The case written out with what the library makes of it.
    pub fn describe(self) -> Value {
        let mut v = self.to_json();
        let result = match self {
            Case::Word { width, word, isa } => {
                let d = api::decode(width, word, isa);
                if let Ok(Ok(i)) = &d {
                    v["text"] = json!(api::text(i).unwrap_or_else(|e| e));
                }
                api::show(&d)
            }
            Case::Pair {
                width,
                word,
                op,
                isa,
            } => {
                let a = api::access(width, word, &crate::ops::make(op), isa);
                format!(
                    "rd={} rs1={} rs2={} imm={}",
                    api::dbg(&a.rd),
                    api::dbg(&a.rs1),
                    api::dbg(&a.rs2),
                    api::dbg(&a.imm)
                )
            }
            Case::Usize(n) => api::show(&api::try_from(n)),
        };
        v["result"] = json!(result);
        v
    }

    pub fn bits(self) -> u64 {
        match self {
            Case::Word { word, .. } | Case::Pair { word, .. } => u64::from(word),
            Case::Usize(v) => v,
        }
    }

    pub fn with_bits(self, b: u64) -> Case {
        match self {
            Case::Word { width, isa, .. } => Case::Word {
                width,
                word: b as u32,
                isa,
            },
            Case::Pair { width, op, isa, .. } => Case::Pair {
                width,
                word: b as u32,
                op,
                isa,
            },
            Case::Usize(_) => Case::Usize(b),
        }
    }
}
