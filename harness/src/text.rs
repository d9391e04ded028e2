//! Reading formatted instructions back.

use crate::ops::{self, OPS};
use raki::{InstFormat, Instruction};

pub const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4",
    "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4",
    "t5", "t6",
];

/// Operand an instruction's notation names.
#[derive(Copy, Clone, PartialEq, Debug)]
enum T {
    Rd,
    Rs1,
    Rs2,
    Imm,
    Csr,
    /// A register written literally.
    Lit(usize),
    Zero,
}

/// Notation of an opcode: the operands, and whether the last one stands in parentheses.
fn notation(id: usize) -> (&'static [T], bool) {
    use InstFormat as F;
    use T::*;
    match OPS[id].mnem {
        "C.jr" => return (&[Lit(0), Zero, Rs1], true),
        "C.jalr" => return (&[Lit(1), Zero, Rs1], true),
        "C.mv" => return (&[Rd, Rs2], false),
        "sfence.vma" => return (&[Rs1, Rs2], false),
        "C.srli" | "C.srai" | "C.andi" => return (&[Rd, Rd, Imm], false),
        _ => {}
    }
    match ops::format_of(id) {
        F::RFormat | F::MFormat | F::AFormat => (&[Rd, Rs1, Rs2], false),
        F::ALrFormat => (&[Rd, Rs1], false),
        F::RShamtFormat | F::IFormat | F::ClFormat => (&[Rd, Rs1, Imm], false),
        F::SFormat | F::CsFormat => (&[Rs2, Imm, Rs1], true),
        F::BFormat => (&[Rs1, Rs2, Imm], false),
        F::UFormat | F::JFormat => (&[Rd, Imm], false),
        F::CrFormat | F::CaFormat => (&[Rd, Rd, Rs2], false),
        F::CiFormat => (&[Rd, Rd, Imm], false),
        F::CssFormat => (&[Rs2, Imm, Lit(2)], true),
        F::CiwFormat => (&[Rd, Lit(2), Imm], false),
        F::CbFormat => (&[Rs1, Imm], false),
        F::CjFormat => (&[Imm], false),
        F::CsrFormat => (&[Rd, Csr, Rs1], false),
        F::CsrUiFormat => (&[Rd, Csr, Imm], false),
        F::NoOperand => (&[], false),
        F::OnlyRd => (&[Rd], false),
        F::OnlyRs1 => (&[Rs1], false),
        F::OnlyRs2 => (&[Rs2], false),
        #[allow(unreachable_patterns)]
        _ => unreachable!("harness: format_of only gives the formats above"),
    }
}

pub fn names_operands(id: usize) -> bool {
    !notation(id).0.is_empty()
}

pub fn operands_present(i: &Instruction, id: usize) -> bool {
    notation(id).0.iter().all(|t| match t {
        T::Rd => i.rd.is_some(),
        T::Rs1 => i.rs1.is_some(),
        T::Rs2 | T::Csr => i.rs2.is_some(),
        T::Imm => i.imm.is_some(),
        T::Lit(_) | T::Zero => true,
    })
}

/// Set the operands the notation names to values picked by `h`. A register that is destination and
/// first source at once stays both.
pub fn alter(i: &mut Instruction, id: usize, mut h: u64) {
    let mut next = || crate::engine::splitmix(&mut h);
    let named = notation(id).0;
    let shared = !named.contains(&T::Rs1) && i.rd == i.rs1;
    // Leave some operands as they are.
    let keep = next() >> 32;
    for (k, t) in named.iter().enumerate() {
        if keep >> k & 3 == 3 {
            continue;
        }
        let v = next() >> 32;
        match t {
            T::Rd => {
                i.rd = Some(v as usize % 32);
                if shared {
                    i.rs1 = i.rd;
                }
            }
            T::Rs1 => i.rs1 = Some(v as usize % 32),
            T::Rs2 => i.rs2 = Some(v as usize % 32),
            T::Csr => i.rs2 = Some(v as usize % 4096),
            T::Imm => i.imm = Some(number_of(v as u32, next())),
            T::Lit(_) | T::Zero => {}
        }
    }
}

/// An immediate: any, small, or next to a power of two.
fn number_of(v: u32, how: u64) -> i32 {
    let power = (1i32.wrapping_shl(v)).wrapping_add((v >> 8) as i32 % 3 - 1);
    match how >> 40 & 7 {
        0..=2 => v as i32,
        3 => v as i32 >> 20,
        4 => power,
        5 => power.wrapping_neg(),
        6 => v as i32 >> (how >> 50 & 31),
        _ => [0, 1, -1, i32::MIN, i32::MAX, i32::MIN + 1, 9, 10][v as usize % 8],
    }
}

/// A decimal or 0x-prefixed number.
fn number(s: &str) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let n = match d.strip_prefix("0x") {
        Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => {
            i64::from_str_radix(h, 16).ok()?
        }
        None if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => d.parse().ok()?,
        _ => return None,
    };
    Some(if neg { -n } else { n })
}

fn is_reg(s: &str, r: usize) -> bool {
    r < 32 && ABI[r] == s
}

/// An immediate; hexadecimal may show the 32-bit two's complement.
fn is_imm(s: &str, v: i32) -> bool {
    match number(s) {
        Some(n) => n == i64::from(v) || s.starts_with("0x") && n == i64::from(v as u32),
        None => false,
    }
}

fn token(s: &str, t: T, i: &Instruction) -> bool {
    match t {
        T::Rd => i.rd.is_some_and(|r| is_reg(s, r)),
        T::Rs1 => i.rs1.is_some_and(|r| is_reg(s, r)),
        T::Rs2 => i.rs2.is_some_and(|r| is_reg(s, r)),
        T::Imm => i.imm.is_some_and(|v| is_imm(s, v)),
        T::Csr => i
            .rs2
            .is_some_and(|c| i64::try_from(c).is_ok_and(|c| number(s) == Some(c))),
        T::Lit(r) => is_reg(s, r),
        T::Zero => number(s) == Some(0),
    }
}

fn operands(rest: &str, want: &[T], paren: bool, i: &Instruction) -> bool {
    let mut parts = rest.split(',');
    let plain = if paren { want.len() - 2 } else { want.len() };
    for &t in &want[..plain] {
        match parts.next() {
            Some(p) if token(p.trim(), t, i) => {}
            _ => return false,
        }
    }
    if paren {
        let ok = parts
            .next()
            .and_then(|p| p.trim().strip_suffix(')'))
            .and_then(|p| p.split_once('('))
            .is_some_and(|(off, base)| {
                token(off, want[plain], i) && token(base, want[plain + 1], i)
            });
        if !ok {
            return false;
        }
    }
    parts.next().is_none()
}

/// The text names the instruction and its operands.
pub fn check(text: &str, i: &Instruction, id: usize) -> Result<(), String> {
    let (mnem, rest) = match text.split_once(' ') {
        Some((m, r)) => (m, r.trim()),
        None => (text, ""),
    };
    if !mnem.eq_ignore_ascii_case(OPS[id].mnem) {
        return Err(format!("{text:?} does not name {}", OPS[id].mnem));
    }
    let (want, paren) = notation(id);
    let ok = if want.is_empty() {
        rest.is_empty()
    } else {
        operands(rest, want, paren, i)
            // A destructive form may name the shared register once.
            || want.len() == 3 && want[0] == want[1] && operands(rest, &want[1..], false, i)
    };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "{text:?} does not show the operands {want:?} of rd={:?} rs1={:?} rs2={:?} imm={:?}",
            i.rd, i.rs1, i.rs2, i.imm
        ))
    }
}
