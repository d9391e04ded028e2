//! Reading the debug text of instructions and errors.

use crate::api;
use crate::ops::{self, OPS, UNKNOWN};
use raki::{DecodingError, InstFormat, Instruction};
use std::fmt::Write;

fn format_name(f: &InstFormat) -> &'static str {
    use InstFormat as F;
    match f {
        F::RFormat => "RFormat",
        F::RShamtFormat => "RShamtFormat",
        F::IFormat => "IFormat",
        F::SFormat => "SFormat",
        F::BFormat => "BFormat",
        F::UFormat => "UFormat",
        F::JFormat => "JFormat",
        F::MFormat => "MFormat",
        F::AFormat => "AFormat",
        F::ALrFormat => "ALrFormat",
        F::CrFormat => "CrFormat",
        F::CiFormat => "CiFormat",
        F::ClFormat => "ClFormat",
        F::CsFormat => "CsFormat",
        F::CiwFormat => "CiwFormat",
        F::CssFormat => "CssFormat",
        F::CaFormat => "CaFormat",
        F::CbFormat => "CbFormat",
        F::CjFormat => "CjFormat",
        F::CsrFormat => "CsrFormat",
        F::CsrUiFormat => "CsrUiFormat",
        F::NoOperand => "NoOperand",
        F::OnlyRd => "OnlyRd",
        F::OnlyRs1 => "OnlyRs1",
        F::OnlyRs2 => "OnlyRs2",
        #[allow(unreachable_patterns)]
        _ => "",
    }
}

fn error_name(e: &DecodingError) -> &'static str {
    use DecodingError as E;
    match e {
        E::Not16BitInst => "Not16BitInst",
        E::Not32BitInst => "Not32BitInst",
        E::InvalidFunct3 => "InvalidFunct3",
        E::InvalidFunct5 => "InvalidFunct5",
        E::InvalidFunct6 => "InvalidFunct6",
        E::InvalidFunct7 => "InvalidFunct7",
        E::InvalidOpcode => "InvalidOpcode",
        E::UnknownExtension => "UnknownExtension",
        E::IllegalInstruction => "IllegalInstruction",
        E::OnlyRv64Inst => "OnlyRv64Inst",
        #[allow(unreachable_patterns)]
        _ => "",
    }
}

fn text_of(v: &dyn std::fmt::Debug, alternate: bool, out: &mut String) -> Result<(), String> {
    out.clear();
    let r = api::guard(|| match alternate {
        false => write!(api::Capped(out), "{v:?}"),
        true => write!(api::Capped(out), "{v:#?}"),
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(_)) => Err("Debug returned an error".into()),
        Err(p) => Err(format!("Debug panicked: {p}")),
    }
}

/// The usual form, which spares most texts the parsing.
fn usual(i: &Instruction, id: usize, out: &mut String) {
    out.clear();
    let number = |out: &mut String, name: &str, v: Option<i128>| match v {
        Some(n) => write!(out, "{name}: Some({n}), "),
        None => write!(out, "{name}: None, "),
    };
    let (kind, variant) = (OPS[id].kind, OPS[id].variant);
    let _ = write!(out, "Instruction {{ opc: {kind}({variant}), ");
    for (name, v) in [("rd", i.rd), ("rs1", i.rs1), ("rs2", i.rs2)] {
        let _ = number(out, name, v.map(|n| n as i128));
    }
    let _ = number(out, "imm", i.imm.map(i128::from));
    out.push_str("inst_format: ");
    out.push_str(format_name(&i.inst_format));
    out.push_str(", is_compressed: ");
    out.push_str(if i.is_compressed { "true }" } else { "false }" });
}

/// The fields of a record, without white space and trailing commas.
fn parts(text: &str) -> Option<Vec<(String, String)>> {
    let bare: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    let bare = bare.replace(",)", ")").replace(",}", "}");
    let inner = bare.strip_prefix("Instruction{")?.strip_suffix('}')?;
    let mut out = Vec::new();
    let (mut depth, mut start) = (0, 0);
    for (k, c) in inner.char_indices().chain([(inner.len(), ',')]) {
        match c {
            '(' | '{' | '[' => depth += 1,
            ')' | '}' | ']' => depth -= 1,
            ',' if depth == 0 => {
                let (name, value) = inner[start..k].split_once(':')?;
                out.push((name.to_string(), value.to_string()));
                start = k + 1;
            }
            _ => {}
        }
    }
    Some(out)
}

/// The debug text lists every part of the instruction.
pub fn check(
    i: &Instruction,
    alternate: bool,
    text: &mut String,
    other: &mut String,
) -> Result<(), String> {
    let id = ops::id_of(&i.opc);
    let format = format_name(&i.inst_format);
    if id == UNKNOWN || format.is_empty() {
        return Ok(());
    }
    text_of(i, alternate, text)?;
    usual(i, id, other);
    if text == other {
        return Ok(());
    }
    let (Some(got), Some(want)) = (parts(text), parts(other)) else {
        return Err(format!("{text:?} is no list of fields"));
    };
    for (name, value) in &want {
        let mut shown = got.iter().filter(|(n, _)| n == name);
        match (shown.next(), shown.next()) {
            (Some((_, v)), None) if v == value => {}
            _ => return Err(format!("{text:?} does not show {name} = {value}")),
        }
    }
    Ok(())
}

/// The debug texts of an opcode and of a format name them.
pub fn check_parts(i: &Instruction, alternate: bool, text: &mut String) -> Result<(), String> {
    let id = ops::id_of(&i.opc);
    if id != UNKNOWN {
        text_of(&i.opc, alternate, text)?;
        let bare: String = text.chars().filter(|c| !c.is_whitespace()).collect();
        let want = format!("{}({})", OPS[id].kind, OPS[id].variant);
        if bare.replace(",)", ")") != want {
            return Err(format!("{text:?} is not {want}"));
        }
    }
    let format = format_name(&i.inst_format);
    if !format.is_empty() {
        text_of(&i.inst_format, alternate, text)?;
        if text != format {
            return Err(format!("{text:?} is not {format}"));
        }
    }
    Ok(())
}

/// The debug text of an error names it.
pub fn check_error(e: &DecodingError, alternate: bool, text: &mut String) -> Result<(), String> {
    let want = error_name(e);
    if want.is_empty() {
        return Ok(());
    }
    text_of(e, alternate, text)?;
    if text == want {
        Ok(())
    } else {
        Err(format!("{text:?} is not {want}"))
    }
}
