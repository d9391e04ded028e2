//! Guarded calls into raki.

use crate::model::X;
use crate::ops;
use raki::{Decode, DecodingError, Instruction, Isa, OpcodeKind};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;

pub fn isa(x: X) -> Isa {
    match x {
        X::Rv32 => Isa::Rv32,
        X::Rv64 => Isa::Rv64,
    }
}

pub fn isa_name(x: X) -> &'static str {
    match x {
        X::Rv32 => "rv32",
        X::Rv64 => "rv64",
    }
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics inside guarded calls are recorded silently, all others are harness errors and print.
pub fn install_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if GUARDED.with(Cell::get) {
                LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
            } else {
                old(info);
            }
        }));
    });
}

#[inline]
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Outcome of a decode: `Err` is a panic.
pub type Dec = Result<Result<Instruction, DecodingError>, String>;

#[inline]
pub fn decode(width: u32, w: u32, x: X) -> Dec {
    if width == 16 {
        let h = w as u16;
        guard(|| h.decode(isa(x)))
    } else {
        guard(|| w.decode(isa(x)))
    }
}

/// The instruction a word decodes to, None when it is rejected (or panics).
#[inline]
pub fn decoded(width: u32, w: u32, x: X) -> Option<Instruction> {
    match decode(width, w, x) {
        Ok(Ok(i)) => Some(i),
        _ => None,
    }
}

pub fn try_from(v: u64) -> Dec {
    guard(|| Instruction::try_from(v as usize))
}

type Acc<T> = Result<Result<Option<T>, DecodingError>, String>;

pub struct Accessed {
    pub rd: Acc<usize>,
    pub rs1: Acc<usize>,
    pub rs2: Acc<usize>,
    pub imm: Acc<i32>,
}

pub fn opcode(width: u32, w: u32, x: X) -> Result<Result<OpcodeKind, DecodingError>, String> {
    if width == 16 {
        guard(|| (w as u16).parse_opcode(isa(x)))
    } else {
        guard(|| w.parse_opcode(isa(x)))
    }
}

pub fn access(width: u32, w: u32, op: &OpcodeKind, x: X) -> Accessed {
    if width == 16 {
        let h = w as u16;
        Accessed {
            rd: guard(|| h.parse_rd(op)),
            rs1: guard(|| h.parse_rs1(op)),
            rs2: guard(|| h.parse_rs2(op)),
            imm: guard(|| h.parse_imm(op, isa(x))),
        }
    } else {
        Accessed {
            rd: guard(|| w.parse_rd(op)),
            rs1: guard(|| w.parse_rs1(op)),
            rs2: guard(|| w.parse_rs2(op)),
            imm: guard(|| w.parse_imm(op, isa(x))),
        }
    }
}

/// A writer that refuses text without end.
pub struct Capped<'a>(pub &'a mut String);

impl std::fmt::Write for Capped<'_> {
    #[inline]
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > 1 << 16 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// Text of a value; `Err` on a panic or a formatting error.
#[inline]
pub fn text_into(v: &dyn std::fmt::Display, out: &mut String) -> Result<(), String> {
    use std::fmt::Write;
    out.clear();
    match guard(|| write!(Capped(out), "{v}")) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(_)) => Err("Display returned an error".into()),
        Err(p) => Err(format!("Display panicked: {p}")),
    }
}

/// Format with flags or for debugging, one of several ways; what is wrong if that fails.
pub fn formats<T: std::fmt::Display + std::fmt::Debug>(
    v: &T,
    how: u64,
    out: &mut String,
) -> Result<(), String> {
    use std::fmt::Write;
    out.clear();
    let (how, r) = match how % 9 {
        0 => ("{:#}", guard(|| write!(Capped(out), "{v:#}"))),
        1 => ("{:60}", guard(|| write!(Capped(out), "{v:60}"))),
        2 => ("{:*>3}", guard(|| write!(Capped(out), "{v:*>3}"))),
        3 => ("{:.2}", guard(|| write!(Capped(out), "{v:.2}"))),
        4 => ("{:+}", guard(|| write!(Capped(out), "{v:+}"))),
        5 => ("{:08}", guard(|| write!(Capped(out), "{v:08}"))),
        6 => ("{:.40}", guard(|| write!(Capped(out), "{v:.40}"))),
        7 => ("{:?}", guard(|| write!(Capped(out), "{v:?}"))),
        _ => ("{:#?}", guard(|| write!(Capped(out), "{v:#?}"))),
    };
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(_)) => Err(format!("formatting with {how} returned an error")),
        Err(p) => Err(format!("formatting with {how} panicked: {p}")),
    }
}

/// Debug text of a library value for messages, whatever its Debug does.
pub fn dbg(v: &dyn std::fmt::Debug) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    match guard(|| write!(Capped(&mut s), "{v:?}")) {
        Ok(Ok(())) => s,
        _ => "(no debug text)".into(),
    }
}

pub fn text(v: &dyn std::fmt::Display) -> Result<String, String> {
    let mut s = String::new();
    text_into(v, &mut s)?;
    Ok(s)
}

/// Short description of a decode outcome for messages.
pub fn show(d: &Dec) -> String {
    match d {
        Ok(Ok(i)) => describe(i),
        Ok(Err(e)) => format!("Err({})", dbg(e)),
        Err(p) => format!("panic: {p}"),
    }
}

pub fn describe(i: &Instruction) -> String {
    format!(
        "Ok({} rd={:?} rs1={:?} rs2={:?} imm={:?} {}{})",
        dbg(&i.opc),
        i.rd,
        i.rs1,
        i.rs2,
        i.imm,
        dbg(&i.inst_format),
        if i.is_compressed { " compressed" } else { "" }
    )
}

pub fn op_name(id: usize) -> String {
    if id == ops::UNKNOWN {
        "?".into()
    } else {
        format!("{}::{}", ops::OPS[id].kind, ops::OPS[id].variant)
    }
}
