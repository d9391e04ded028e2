//! Known findings: failures of the current tree that are recorded instead of repaired.
//!
//! `known_findings.txt` holds lines
//! `finding: property=<id> width=<16|32> mask=0x.. match=0x.. isa=<rv32|rv64|any> actual=<text>; <what fails>`
//! and `fixed: ...` lines, which suppress nothing.

use crate::case::{Case, Fail};
use crate::model::X;

pub struct Finding {
    pub property: String,
    width: u32,
    mask: u32,
    value: u32,
    isa: Option<X>,
    actual: String,
    pub what: String,
}

pub struct Known(pub Vec<Finding>);

impl Known {
    pub fn load(path: &std::path::Path) -> Result<Known, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
        text.lines()
            .filter_map(|l| l.strip_prefix("finding:"))
            .map(|l| parse(l).ok_or_else(|| format!("bad finding line: {l}")))
            .collect::<Result<Vec<_>, _>>()
            .map(Known)
    }

    pub fn find(&self, property: &str, c: Case, f: &Fail) -> Option<usize> {
        if self.0.is_empty() {
            return None;
        }
        let Case::Word { width, word, isa } = c else {
            return None;
        };
        self.0.iter().position(|k| {
            k.property == property
                && k.width == width
                && word & k.mask == k.value
                && k.isa.map_or(true, |i| i == isa)
                && k.actual == f.actual
        })
    }
}

fn hex(s: &str) -> Option<u32> {
    u32::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}

fn parse(l: &str) -> Option<Finding> {
    let (key, what) = l.split_once(';')?;
    let (key, actual) = key.split_once(" actual=")?;
    let get = |name: &str| {
        key.split_whitespace()
            .find_map(|f| f.strip_prefix(name).and_then(|f| f.strip_prefix('=')))
    };
    Some(Finding {
        property: get("property")?.into(),
        width: get("width")?.parse().ok()?,
        mask: hex(get("mask")?)?,
        value: hex(get("match")?)?,
        isa: match get("isa")? {
            "rv32" => Some(X::Rv32),
            "rv64" => Some(X::Rv64),
            "any" => None,
            _ => return None,
        },
        actual: actual.trim().into(),
        what: what.trim().into(),
    })
}
