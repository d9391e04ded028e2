//! Expansion of compressed instructions into 32-bit ones, from the specification.

use crate::api::Dec;
use crate::model::{Fields, Model, X};
use crate::ops::{self, OPS, UNKNOWN};
use raki::Instruction;

/// 32-bit instruction a compressed one is named after.
fn base_of(c: &str) -> Option<&'static str> {
    Some(match c {
        "C.addi4spn" | "C.nop" | "C.addi" | "C.li" | "C.addi16sp" => "addi",
        "C.lw" | "C.lwsp" => "lw",
        "C.ld" | "C.ldsp" => "ld",
        "C.sw" | "C.swsp" => "sw",
        "C.sd" | "C.sdsp" => "sd",
        "C.jal" | "C.j" => "jal",
        "C.addiw" => "addiw",
        "C.lui" => "lui",
        "C.srli" => "srli",
        "C.srai" => "srai",
        "C.slli" => "slli",
        "C.andi" => "andi",
        "C.sub" => "sub",
        "C.xor" => "xor",
        "C.or" => "or",
        "C.and" => "and",
        "C.subw" => "subw",
        "C.addw" => "addw",
        "C.beqz" => "beq",
        "C.bnez" => "bne",
        "C.jr" | "C.jalr" => "jalr",
        "C.mv" | "C.add" => "add",
        "C.ebreak" => "ebreak",
        "c.sspush" => "sspush",
        "c.sspopchk" => "sspopchk",
        _ => return None,
    })
}

/// The 32-bit word a halfword expands to; None when it has no defined expansion.
pub fn expansion(m: &Model, h: u16, x: X) -> Option<u32> {
    let w = u32::from(h);
    let e = m.decode16(h, x)?;
    let f = e.fields(w);
    let name = OPS[e.op].mnem;
    let (rd, rs1, rs2, imm) = (f.rd, f.rs1, f.rs2, f.imm);
    // Encodings the specification reserves have no expansion.
    let reserved = match name {
        "C.addi4spn" | "C.lui" | "C.addi16sp" => imm == Some(0),
        "C.addiw" | "C.lwsp" | "C.ldsp" => rd == Some(0),
        "C.jr" => rs1 == Some(0),
        _ => false,
    };
    if reserved {
        return None;
    }
    let r = |rd, rs1, rs2, imm| Fields { rd, rs1, rs2, imm };
    let x0 = Some(0);
    let g = match name {
        "C.addi4spn" => r(rd, Some(2), None, imm),
        "C.nop" => r(x0, x0, None, imm),
        "C.li" => r(rd, x0, None, imm),
        "C.lwsp" | "C.ldsp" => r(rd, Some(2), None, imm),
        "C.swsp" | "C.sdsp" => r(None, Some(2), rs2, imm),
        "C.jal" => r(Some(1), None, None, imm),
        "C.j" => r(x0, None, None, imm),
        "C.lui" => r(rd, None, None, imm.map(|v| ((v as u32) >> 12) as i32)),
        "C.beqz" | "C.bnez" => r(None, rs1, x0, imm),
        "C.jr" => r(x0, rs1, None, Some(0)),
        "C.jalr" => r(Some(1), rs1, None, Some(0)),
        "C.mv" => r(rd, x0, rs2, None),
        "C.ebreak" => r(None, None, None, None),
        "c.sspush" => r(x0, x0, Some(1), None),
        "c.sspopchk" => r(x0, Some(5), None, None),
        // Loads, stores and destructive forms name all their operands.
        _ => f,
    };
    let base = m.op(base_of(name)?);
    let word = m.encodings(base, x).find_map(|e| e.encode(&g));
    Some(word.unwrap_or_else(|| panic!("harness: {name} {h:#06x} has no expansion")))
}

/// Compare raki's view of a halfword with its view of the expansion.
pub fn mirrors(c: &Instruction, id: usize, base: &Dec) -> Result<(), String> {
    let Ok(Ok(b)) = base else {
        return Err("the expansion does not decode".into());
    };
    if id == UNKNOWN {
        return Ok(());
    }
    let name = OPS[id].mnem;
    let bid = ops::id_of(&b.opc);
    if bid == UNKNOWN || Some(OPS[bid].mnem) != base_of(name) {
        return Err(
            "the expansion is not the instruction the compressed one is named after".into(),
        );
    }
    let differ = |what: &str| Err(format!("{what} differs"));
    match name {
        "c.sspush" => {
            return if c.rd == b.rs2 {
                Ok(())
            } else {
                differ("the pushed register")
            }
        }
        "c.sspopchk" => {
            return if c.rd == b.rs1 {
                Ok(())
            } else {
                differ("the checked register")
            }
        }
        _ => {}
    }
    if c.rd.is_some() && c.rd != b.rd {
        return differ("rd");
    }
    if c.rs1.is_some() && c.rs1 != b.rs1 {
        return differ("rs1");
    }
    if c.rs2.is_some() && c.rs2 != b.rs2 && !matches!(name, "C.jr" | "C.jalr") {
        return differ("rs2");
    }
    // An operand the compressed form names must be reported, not just not contradicted.
    let (rd, rs1, rs2, imm) = named(name);
    if rd && c.rd.is_none() || rs1 && c.rs1.is_none() || rs2 && c.rs2.is_none() {
        return Err("an operand of the compressed form is missing".into());
    }
    if imm {
        let want = if name == "C.lui" {
            b.imm.map(|v| v.wrapping_shl(12))
        } else {
            b.imm
        };
        if c.imm != want {
            return differ("the immediate");
        }
    }
    Ok(())
}

/// Operands a compressed form names explicitly: rd, rs1, rs2, immediate.
fn named(name: &str) -> (bool, bool, bool, bool) {
    match name {
        "C.addi4spn" | "C.li" | "C.lui" | "C.lwsp" | "C.ldsp" => (true, false, false, true),
        "C.lw" | "C.ld" => (true, true, false, true),
        "C.sw" | "C.sd" => (false, true, true, true),
        "C.nop" | "C.jal" | "C.j" => (false, false, false, true),
        "C.addi" | "C.addi16sp" | "C.addiw" | "C.slli" | "C.srli" | "C.srai" | "C.andi" => {
            (true, true, false, true)
        }
        "C.sub" | "C.xor" | "C.or" | "C.and" | "C.subw" | "C.addw" | "C.add" => {
            (true, true, true, false)
        }
        "C.beqz" | "C.bnez" => (false, true, false, true),
        "C.jr" | "C.jalr" => (false, true, false, false),
        "C.mv" => (true, false, true, false),
        "C.swsp" | "C.sdsp" => (false, false, true, true),
        _ => (false, false, false, false),
    }
}
