//! The properties as predicates over single cases.

use crate::api::{self, access, decode, opcode, show, Dec};
use crate::case::{Case, Fail, V};
use crate::debug;
use crate::model::{Enc, Fields, Model, X};
use crate::ops::{self, OPS, UNKNOWN};
use crate::{expand, heap, text};
use raki::{Decode, DecodingError, Instruction, Isa};

/// Class of machine words too wide for the length they announce.
pub const OVER_WIDE: u32 = OPS.len() as u32 + 2;

pub struct Prop {
    pub id: &'static str,
    /// Verdict on one word. `Ok(0)` is a trivial case, `Ok(n)` a non-trivial one of class n.
    pub word: fn(&Model, u32, u32, X) -> V,
    /// Halfwords are in the domain.
    pub half: bool,
    /// Major opcodes (low seven bits) of the 32-bit words in the domain.
    pub majors: Majors,
    /// The domain is the same in every tier, and other words are none of the property's business.
    pub bound: bool,
    /// The predicate looks at both ISAs at once, so words are enumerated once only.
    pub both_isas: bool,
    /// (word, opcode) pairs are in the domain.
    pub pairs: Option<fn(&Model, u32, u32, usize, X) -> V>,
    /// Enumerated 32-bit values are machine words, not instruction words.
    pub usize_sweep: bool,
    /// 64-bit machine words are in the domain.
    pub usizes: Option<fn(&Model, u64) -> V>,
    /// A quick look at a word of a major opcode without instructions: the verdict's class if the
    /// word is plainly rejected on both ISAs, None if it takes the whole predicate. May panic where
    /// raki does.
    pub rejected: fn(u32) -> Option<u32>,
    /// What is sampled, not enumerated.
    pub sampled: Option<&'static str>,
    pub rule: &'static str,
}

#[derive(Copy, Clone, PartialEq)]
pub enum Majors {
    None,
    Only(&'static [u32]),
    Except(&'static [u32]),
}

const BASE: &[u32] = &[
    0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x1b, 0x3b,
];
const AMO: &[u32] = &[0x2f];
const BASE_AMO: &[u32] = &[
    0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x1b, 0x3b, 0x2f,
];
pub const SUPPORTED: &[u32] = &[
    0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x1b, 0x3b, 0x2f, 0x73, 0x0f,
];
const ALL: Majors = Majors::Except(&[]);

impl Majors {
    fn contains(self, w: u32) -> bool {
        match self {
            Majors::None => false,
            Majors::Only(l) => l.contains(&(w & 0x7f)),
            Majors::Except(l) => !l.contains(&(w & 0x7f)),
        }
    }
    pub fn list(self) -> Vec<u32> {
        (0..128).filter(|&m| self.contains(m)).collect()
    }
}

const NONE: Prop = Prop {
    id: "",
    word: |_, _, _, _| Ok(0),
    half: false,
    majors: Majors::None,
    bound: false,
    both_isas: false,
    pairs: None,
    usizes: None,
    usize_sweep: false,
    rejected: |w| plainly(w).then_some(0),
    sampled: None,
    rule: "",
};

const DECODED: &str = "non-trivial when raki decodes the word; classes are raki's opcodes";
const ACCEPTED: &str =
    "non-trivial when the reference model or raki accepts the word; classes are opcodes";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01", word: c01, half: true, majors: ALL, pairs: Some(c01_pair), usizes: Some(c01_usize),
        rejected: c01_rejected, sampled: Some("32-bit words with opcodes, machine words beyond 32 bits"),
        rule: "words: non-trivial when raki decodes the word; pairs: non-trivial when an accessor returns \
               an operand; machine words: non-trivial when too wide for their announced length", ..NONE
    },
    Prop { id: "C02", word: recognised, majors: Majors::Only(BASE), bound: true, rule: ACCEPTED, ..NONE },
    Prop { id: "C03", word: recognised, majors: Majors::Only(AMO), bound: true, rule: ACCEPTED, ..NONE },
    Prop { id: "C04", word: recognised, majors: Majors::Except(BASE_AMO), bound: true, rule: ACCEPTED, ..NONE },
    Prop { id: "C05", word: recognised, half: true, rule: ACCEPTED, ..NONE },
    Prop { id: "C06", word: c06, majors: ALL, rule: DECODED, ..NONE },
    Prop { id: "C07", word: c07, majors: ALL, rule: DECODED, ..NONE },
    Prop { id: "C08", word: c08, half: true, rule: DECODED, ..NONE },
    Prop { id: "C09", word: c09, half: true, majors: ALL, rule: DECODED, ..NONE },
    Prop {
        id: "C10", word: c10, half: true, majors: ALL, both_isas: true,
        rule: "non-trivial when raki decodes the word on at least one ISA; classes are the opcodes", ..NONE
    },
    Prop {
        id: "C11", word: c11, half: true, majors: ALL,
        rule: "non-trivial when raki rejects a word of the announced length whose major opcode has \
               supported instructions; classes are the error reasons", ..NONE
    },
    Prop {
        id: "C12", word: c12, half: true, majors: ALL, sampled: Some("format flags of 32-bit words"),
        rule: DECODED, ..NONE
    },
    Prop { id: "C13", word: c13, half: true, majors: ALL, rule: DECODED, ..NONE },
    Prop { id: "C14", word: c14, half: true, majors: ALL, rule: DECODED, ..NONE },
    Prop {
        id: "C15", usizes: Some(c15), word: |m, _, w, _| c15(m, u64::from(w)), half: false, majors: ALL,
        both_isas: true, usize_sweep: true, rejected: c15_rejected,
        sampled: Some("machine words beyond 32 bits"),
        rule: "non-trivial when the value decodes, or is too wide for the length its low bits announce", ..NONE
    },
    Prop {
        id: "C16", word: c16, half: true, majors: ALL, pairs: Some(c16_pair), rejected: c16_rejected,
        sampled: Some("32-bit words with opcodes"),
        rule: "words: non-trivial when the word decodes; pairs: non-trivial when the opcode has an operand \
               and has the length of the word", ..NONE
    },
    Prop { id: "C18", word: c18, half: true, majors: ALL, rule: DECODED, ..NONE },
    Prop {
        id: "C19", word: c19, half: true,
        rule: "non-trivial when raki decodes the halfword and the specification defines an expansion; \
               classes are the compressed opcodes", ..NONE
    },
    Prop {
        id: "C21", word: c21, half: true, majors: ALL, pairs: Some(c21_pair),
        sampled: Some("altered copies, 32-bit words with opcodes"),
        rule: "words: non-trivial when the word decodes, each compared with itself, with a neighbouring word \
               and with copies that differ in one part; pairs: non-trivial when the word decodes", ..NONE
    },
    Prop {
        id: "C22", word: c22, half: true, majors: ALL, sampled: Some("points of failure"),
        rule: "non-trivial when raki decodes the word, whose text then goes to a writer that fails at a \
               point derived from the word and to one that does not fail; classes are raki's opcodes", ..NONE
    },
    Prop {
        id: "C23", word: c23, half: true, majors: ALL, sampled: Some("programs"),
        rule: "programs: sequences of encoded instructions, non-trivial with instructions of both lengths; \
               words: programs of one instruction, non-trivial when the model has it; classes are opcodes", ..NONE
    },
    Prop {
        id: "C24", word: c24, half: true, majors: ALL, pairs: Some(c24_pair), usizes: Some(c24_usize),
        rejected: c24_rejected, sampled: Some("32-bit words with opcodes, machine words beyond 32 bits, stack use of words \
               without a supported major opcode"),
        rule: "words: non-trivial when raki decodes the word, which is then compared, taken apart and \
               formatted; pairs: non-trivial when an accessor returns an operand; machine words: \
               non-trivial when too wide for their announced length", ..NONE
    },
    Prop {
        id: "C25", word: c25, half: true, majors: ALL, sampled: Some("values set"),
        rule: "non-trivial when raki decodes the word to an instruction whose notation names an operand, \
               which is then set to values derived from the word; classes are raki's opcodes", ..NONE
    },
    Prop {
        id: "C26", word: c26, half: true, majors: ALL, sampled: Some("values set, alternate form"),
        rule: "non-trivial when raki decodes the word, whose debug text is then read as decoded and after \
               setting parts to values derived from the word; classes are raki's opcodes", ..NONE
    },
    Prop { id: "C20", word: c20, half: true, majors: ALL, rule: DECODED, ..NONE },
];

fn fail(msg: String, actual: String) -> V {
    Err(Box::new(Fail { msg, actual }))
}

fn class(id: usize) -> V {
    Ok(if id == UNKNOWN {
        OPS.len() as u32 + 1
    } else {
        id as u32 + 1
    })
}

/// Decoded instruction and its opcode number. `Ok(None)`: the word is rejected. A panic on a word
/// that encodes a supported instruction is a failure of every property.
#[inline]
fn inst(m: &Model, width: u32, w: u32, x: X) -> Result<Option<(Instruction, usize)>, Box<Fail>> {
    match decode(width, w, x) {
        Ok(Ok(i)) => {
            let id = ops::id_of(&i.opc);
            Ok(Some((i, id)))
        }
        Ok(Err(_)) => Ok(None),
        Err(p) => {
            if m.decode(width, w, x).is_some() {
                Err(Box::new(Fail {
                    msg: format!("decoding a supported instruction panics: {p}"),
                    actual: "panic".into(),
                }))
            } else {
                Ok(None)
            }
        }
    }
}

/// Errors that are true of any word of a major opcode without instructions.
#[inline]
fn plain_reason(w: u32, e: &DecodingError) -> bool {
    match e {
        DecodingError::InvalidOpcode | DecodingError::UnknownExtension => true,
        DecodingError::Not32BitInst => w & 3 != 3,
        _ => false,
    }
}

#[inline]
fn plainly(w: u32) -> bool {
    matches!(w.decode(Isa::Rv32), Err(e) if plain_reason(w, &e))
        && matches!(w.decode(Isa::Rv64), Err(e) if plain_reason(w, &e))
}

fn c01_rejected(w: u32) -> Option<u32> {
    (plainly(w)
        && w.parse_opcode(Isa::Rv32).is_err()
        && w.parse_opcode(Isa::Rv64).is_err()
        && Instruction::try_from(w as usize).is_err())
    .then_some(0)
}

fn c15_rejected(w: u32) -> Option<u32> {
    let got = Instruction::try_from(w as usize);
    if !fits(u64::from(w)).1 {
        return got.is_err().then_some(OVER_WIDE);
    }
    match (got, w.decode(Isa::Rv64)) {
        (Err(a), Err(b)) if w & 3 == 3 && a == b => Some(0),
        _ => None,
    }
}

fn c16_rejected(w: u32) -> Option<u32> {
    [Isa::Rv32, Isa::Rv64]
        .into_iter()
        .all(|x| match (w.decode(x), w.parse_opcode(x)) {
            (Err(a), Err(b)) => a == b,
            _ => false,
        })
        .then_some(0)
}

fn c01(m: &Model, width: u32, w: u32, x: X) -> V {
    if x == X::Rv64 {
        c01_usize(m, u64::from(w))?;
    }
    match decode(width, w, x) {
        Err(p) => fail(format!("decode panics: {p}"), "panic".into()),
        Ok(Ok(i)) => {
            if let Err(p) = opcode(width, w, x) {
                return fail(format!("parse_opcode panics: {p}"), "panic".into());
            }
            class(ops::id_of(&i.opc))
        }
        Ok(Err(_)) => match opcode(width, w, x) {
            Err(p) => fail(format!("parse_opcode panics: {p}"), "panic".into()),
            Ok(_) => Ok(0),
        },
    }
}

fn c01_pair(_: &Model, width: u32, w: u32, op: usize, x: X) -> V {
    let k = ops::make(op);
    let a = access(width, w, &k, x);
    let same = OPS[op].width == width;
    let mut some = false;
    let mut bad = None;
    macro_rules! look {
        ($f:ident) => {
            match &a.$f {
                Err(p) => bad = Some(format!("parse_{} panics: {p}", stringify!($f))),
                Ok(Ok(v)) => {
                    some |= v.is_some();
                    if !same {
                        bad = Some(format!(
                            "parse_{} accepts an opcode of the other length: {v:?}",
                            stringify!($f)
                        ));
                    }
                }
                Ok(Err(_)) => {}
            }
        };
    }
    look!(rd);
    look!(rs1);
    look!(rs2);
    look!(imm);
    match bad {
        Some(b) => fail(b, api::op_name(op)),
        None if some => class(op),
        None => Ok(0),
    }
}

/// The length a machine word's low bits announce, and whether it fits.
fn fits(v: u64) -> (u32, bool) {
    if v & 3 == 3 {
        (32, v <= u64::from(u32::MAX))
    } else {
        (16, v <= u64::from(u16::MAX))
    }
}

fn c01_usize(_: &Model, v: u64) -> V {
    let (_, ok) = fits(v);
    match api::try_from(v) {
        Err(p) => fail(format!("conversion panics: {p}"), "panic".into()),
        Ok(Ok(i)) if !ok => fail(
            format!("an over-wide value converts to {}", api::dbg(&i.opc)),
            api::dbg(&i.opc),
        ),
        Ok(_) => Ok(if ok { 0 } else { OVER_WIDE }),
    }
}

#[inline]
fn recognised(m: &Model, width: u32, w: u32, x: X) -> V {
    let want = m.decode(width, w, x).map(|e| e.op);
    let got = decode(width, w, x);
    match (&got, want) {
        (Ok(Ok(i)), Some(op)) if ops::id_of(&i.opc) == op => class(op),
        (Ok(Err(_)), None) => Ok(0),
        _ => mismatch(&got, want),
    }
}

#[cold]
fn mismatch(got: &Dec, want: Option<usize>) -> V {
    let want = want.map_or("rejection".into(), api::op_name);
    fail(format!("expected {want}, got {}", show(got)), actual(got))
}

fn actual(d: &Dec) -> String {
    match d {
        Ok(Ok(i)) => api::dbg(&i.opc),
        Ok(Err(e)) => api::dbg(e),
        Err(_) => "panic".into(),
    }
}

fn us(v: Option<u32>) -> Option<usize> {
    v.map(|n| n as usize)
}

#[cold]
fn operand(i: &Instruction, f: &Fields) -> V {
    let d =
        format!(
        "{}: expected rd={:?} rs1={:?} rs2={:?} imm={:?}, got rd={:?} rs1={:?} rs2={:?} imm={:?}",
        api::dbg(&i.opc), f.rd, f.rs1, f.rs2, f.imm, i.rd, i.rs1, i.rs2, i.imm
    );
    fail(d, api::dbg(&i.opc))
}

#[inline]
fn c06(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    let Some(e) = m.layout(id, x) else {
        return Ok(0);
    };
    let (rd, rs1, rs2) = (e.rd.get(w), e.rs1.get(w), e.rs2.get(w));
    if i.rd == us(rd) && i.rs1 == us(rs1) && i.rs2 == us(rs2) {
        class(id)
    } else {
        operand(&i, &e.fields(w))
    }
}

#[inline]
fn c07(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    let Some(e) = m.layout(id, x) else {
        return Ok(0);
    };
    if i.imm == e.imm.get(w) {
        class(id)
    } else {
        operand(&i, &e.fields(w))
    }
}

fn c08(m: &Model, width: u32, w: u32, x: X) -> V {
    c06(m, width, w, x)?;
    c07(m, width, w, x)
}

/// Fields of an instruction in the model's terms; None when a value is not representable.
fn fields_of(i: &Instruction) -> Option<Fields> {
    let r = |v: Option<usize>| match v {
        None => Some(None),
        Some(n) => u32::try_from(n).ok().map(Some),
    };
    Some(Fields {
        rd: r(i.rd)?,
        rs1: r(i.rs1)?,
        rs2: r(i.rs2)?,
        imm: i.imm,
    })
}

#[inline]
fn c09(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if id == UNKNOWN {
        return Ok(0);
    }
    let ok = |e: &Enc| {
        e.width == width
            && fields_of(&i)
                .and_then(|f| e.encode(&f))
                .is_some_and(|v| (v ^ w) & !e.hidden == 0)
    };
    let Some(e) = m.encodings(id, x).find(|e| ok(e)) else {
        return lossy(m, &i, id, x, ok);
    };
    // One bit apart from another word: not equal to what that one decodes to.
    let h = mix(width, w, x);
    let bit = 1 << ((h >> 20) as u32 % width);
    if h % 4 == 0 && bit & e.hidden == 0 {
        if let Some(j) = api::decoded(width, w ^ bit, x) {
            if i == j {
                return fail(
                    format!("{:#x} decodes to an equal instruction", w ^ bit),
                    api::op_name(id),
                );
            }
        }
    }
    class(id)
}

#[cold]
fn lossy(m: &Model, i: &Instruction, id: usize, x: X, ok: impl Fn(&Enc) -> bool) -> V {
    // An instruction that does not exist on this ISA is judged by its only layout.
    let other = if x == X::Rv32 { X::Rv64 } else { X::Rv32 };
    if m.encodings(id, x).next().is_none() && m.encodings(id, other).any(|e| ok(e)) {
        return class(id);
    }
    let back: Vec<String> = m
        .encodings(id, x)
        .map(|e| match fields_of(i).and_then(|f| e.encode(&f)) {
            Some(v) => format!("{v:#x}"),
            None => "nothing".into(),
        })
        .collect();
    fail(
        format!(
            "{} re-encodes to {} instead of the word",
            api::describe(i),
            back.join(" or ")
        ),
        api::op_name(id),
    )
}

fn is_nonword_shift(id: usize) -> bool {
    id != UNKNOWN
        && matches!(
            OPS[id].mnem,
            "slli" | "srli" | "srai" | "C.slli" | "C.srli" | "C.srai"
        )
}

fn c10(m: &Model, width: u32, w: u32, _: X) -> V {
    let d32 = decode(width, w, X::Rv32);
    let d64 = decode(width, w, X::Rv64);
    let (m32, m64) = (m.decode(width, w, X::Rv32), m.decode(width, w, X::Rv64));
    let id = |d: &Dec| match d {
        Ok(Ok(i)) => Some(ops::id_of(&i.opc)),
        _ => None,
    };
    let (i32_, i64_) = (id(&d32), id(&d64));
    let bad = |why: &str| {
        fail(
            format!(
                "{why}: rv32 gives {}, rv64 gives {}",
                show(&d32),
                show(&d64)
            ),
            format!("{} / {}", actual(&d32), actual(&d64)),
        )
    };
    let only64 = |i: usize| i != UNKNOWN && m.only64[i];
    let only32 = |i: usize| i != UNKNOWN && m.only32[i];
    let gate32 = matches!(d32, Ok(Err(DecodingError::OnlyRv64Inst)));
    if matches!(d64, Ok(Err(DecodingError::OnlyRv64Inst))) {
        return bad("RV64 reports an RV64-only instruction");
    }
    if i32_.is_some_and(only64) {
        return bad("an RV64-only instruction decodes on RV32");
    }
    if i64_.is_some_and(only32) {
        return bad("an RV32-only instruction decodes on RV64");
    }
    if gate32 && !i64_.is_some_and(only64) {
        return bad("RV32 reports an RV64-only instruction for a word that is none");
    }
    if let Some(e) = m64 {
        if m.only64[e.op] {
            if i64_ != Some(e.op) {
                return bad("an RV64-only instruction does not decode on RV64");
            }
            if m32.is_none() && !gate32 {
                return bad("an RV64-only instruction is not reported as such on RV32");
            }
        }
    }
    let nontrivial = || i64_.or(i32_).map_or(Ok(0), class);
    // Where the specification gives the word a meaning of its own on RV32.
    let differs = match (m32, m64) {
        (Some(a), Some(b)) => a.op != b.op,
        (Some(a), None) => m.only32[a.op],
        _ => false,
    };
    if differs {
        return if i32_ == m32.map(|e| e.op) {
            nontrivial()
        } else {
            bad("the word has a meaning of its own on RV32")
        };
    }
    match (&d32, &d64) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            if a == b {
                nontrivial()
            } else {
                bad("the two widths decode the word differently")
            }
        }
        (Ok(Ok(_)), _) => bad("the word decodes on RV32 only"),
        (_, Ok(Ok(b))) => {
            let wide_shift = i64_.is_some_and(is_nonword_shift) && b.imm.is_some_and(|v| v >= 32);
            if i64_.is_some_and(only64) || wide_shift {
                nontrivial()
            } else {
                bad("the word decodes on RV64 only")
            }
        }
        _ => Ok(0),
    }
}

/// Rows that count as supported for judging reasons on an ISA: its own, and RV64-only ones.
fn rows<'a>(m: &'a Model, x: X) -> impl Iterator<Item = &'a Enc> + 'a {
    m.encs
        .iter()
        .filter(move |e| e.width == 32 && (e.isas.contains(&x) || m.only64[e.op]))
}

const OP7: u32 = 0x7f;
const F3: u32 = 0x7000;
const F7: u32 = 0xfe00_0000;

pub fn reason_class(e: &DecodingError) -> u32 {
    use DecodingError::*;
    match e {
        Not16BitInst => 1,
        Not32BitInst => 2,
        InvalidFunct3 => 3,
        InvalidFunct5 => 4,
        InvalidFunct6 => 5,
        InvalidFunct7 => 6,
        InvalidOpcode => 7,
        UnknownExtension => 8,
        IllegalInstruction => 9,
        OnlyRv64Inst => 10,
        #[allow(unreachable_patterns)]
        _ => 11,
    }
}

pub const REASONS: &[&str] = &[
    "Not16BitInst",
    "Not32BitInst",
    "InvalidFunct3",
    "InvalidFunct5",
    "InvalidFunct6",
    "InvalidFunct7",
    "InvalidOpcode",
    "UnknownExtension",
    "IllegalInstruction",
    "OnlyRv64Inst",
    "other",
];

/// Which blames on selector fields are true for (opcode, funct3, funct7), and which are required.
#[derive(Copy, Clone, Default)]
pub struct Blame {
    f3: bool,
    f5: bool,
    f6: bool,
    f7: bool,
    /// Replacing one selector field makes the word a supported instruction.
    must: bool,
    supported_major: bool,
}

pub struct BlameTable(Vec<Blame>);

impl BlameTable {
    pub fn new(m: &Model) -> BlameTable {
        let mut t = Vec::with_capacity(2 << 17);
        for x in crate::model::ISAS {
            let all: Vec<&Enc> = rows(m, x).collect();
            for key in 0..(1u32 << 17) {
                let w = (key & 0x7f) | ((key >> 7) & 7) << 12 | (key >> 10) << 25;
                t.push(blame(&all, w));
            }
        }
        BlameTable(t)
    }
    #[inline]
    fn get(&self, w: u32, x: X) -> Blame {
        let key = (w & 0x7f) | ((w >> 12) & 7) << 7 | (w >> 25) << 10;
        self.0[((x as usize) << 17) + key as usize]
    }
}

fn blame(all: &[&Enc], w: u32) -> Blame {
    let (op7, f3) = (w & OP7, w & F3);
    // Slots selected by the whole upper field (SYSTEM funct3 0 and 4, cbo).
    let slot = op7 == 0x73 && (f3 == 0 || f3 == 0x4000) || op7 == 0x0f && f3 == 0x2000;
    let same: Vec<&&Enc> = all.iter().filter(|e| e.value & OP7 == op7).collect();
    let mut b = Blame {
        supported_major: !same.is_empty(),
        ..Blame::default()
    };
    if slot {
        b.f5 = true;
        b.f7 = true;
        return b;
    }
    let agree = |e: &Enc, bits: u32| (e.value ^ w) & e.mask & bits == 0;
    // The selector fields already select an instruction: no blame on them is true.
    if same.iter().any(|e| agree(e, F3 | F7)) {
        return b;
    }
    let f3_known = same.iter().any(|e| agree(e, F3));
    let f3_fixable = same
        .iter()
        .any(|e| e.mask & F3 != 0 && !agree(e, F3) && agree(e, F7));
    let explicit = same
        .iter()
        .any(|e| e.mask & F7 != 0 && e.mask & F3 != 0 && !agree(e, F3) && agree(e, F7));
    b.f3 = f3_fixable && (!f3_known || explicit) || !f3_known;
    for e in same.iter().filter(|e| agree(e, F3) && !agree(e, F7)) {
        match e.mask & F7 {
            0xfe00_0000 => b.f7 = true,
            0xfc00_0000 => b.f6 = true,
            0xf800_0000 => {
                b.f5 = true;
                b.f7 = true;
            }
            _ => {}
        }
    }
    b.must = f3_fixable || b.f5 || b.f6 || b.f7;
    b
}

fn c11(m: &Model, width: u32, w: u32, x: X) -> V {
    use DecodingError::*;
    let e = match decode(width, w, x) {
        Ok(Err(e)) => e,
        Err(_) => return Ok(0),
        Ok(Ok(_)) => {
            return if width == 16 && w == 0 {
                fail("the all-zero halfword decodes".into(), "Ok".into())
            } else {
                Ok(0)
            }
        }
    };
    let bad = |why: &str| fail(format!("{why}, got {}", api::dbg(&e)), api::dbg(&e));
    let zero = width == 16 && w == 0;
    if zero != (e == IllegalInstruction) {
        return bad(if zero {
            "the all-zero halfword must be an illegal instruction"
        } else {
            "only the all-zero halfword is an illegal instruction"
        });
    }
    let length_ok = (w & 3 == 3) == (width == 32);
    if length_ok && matches!(e, Not16BitInst | Not32BitInst) {
        return bad("the word has the announced length");
    }
    let supported = m.decode(width, w, x).is_some();
    if supported {
        return bad("the word is a supported instruction");
    }
    if e == OnlyRv64Inst {
        return match m.decode(width, w, X::Rv64) {
            Some(r) if m.only64[r.op] && x == X::Rv32 => Ok(reason_class(&e)),
            _ => bad("the word is no RV64-only instruction"),
        };
    }
    if width == 16 || !length_ok {
        if matches!(
            e,
            InvalidFunct3 | InvalidFunct5 | InvalidFunct6 | InvalidFunct7
        ) {
            return bad("the word has no such selector field");
        }
        return Ok(if length_ok { reason_class(&e) } else { 0 });
    }
    let b = blames(m).get(w, x);
    let sound = match e {
        InvalidFunct3 => b.f3,
        InvalidFunct5 => b.f5,
        InvalidFunct6 => b.f6,
        InvalidFunct7 => b.f7,
        _ => true,
    };
    if !sound {
        return bad("the blamed field is not at fault");
    }
    // An RV64-only word that is refused on RV32 for another reason is judged by C10.
    let gated = x == X::Rv32 && m.decode(32, w, X::Rv64).is_some_and(|r| m.only64[r.op]);
    if b.must && !gated && e == InvalidOpcode {
        return bad("the opcode is known and a selector field is at fault");
    }
    Ok(if b.supported_major {
        reason_class(&e)
    } else {
        0
    })
}

fn blames(m: &Model) -> &'static BlameTable {
    static T: std::sync::OnceLock<BlameTable> = std::sync::OnceLock::new();
    T.get_or_init(|| BlameTable::new(m))
}

thread_local! {
    static BUF: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}

/// Words of instructions with few encodings, which get a closer look each: halfwords, and the SYSTEM
/// words without a CSR.
fn scarce(width: u32, w: u32) -> bool {
    width == 16 || w & 0x307f == 0x0073
}

/// On RV64, a word that RV32 decodes to the same instruction has been formatted already.
#[inline]
fn formatted_on_rv32(width: u32, w: u32, x: X, i: &Instruction) -> bool {
    x == X::Rv64 && api::decoded(width, w, X::Rv32).is_some_and(|j| j == *i)
}

fn c12(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if formatted_on_rv32(width, w, x, &i) {
        return class(id);
    }
    BUF.with(|b| {
        let (t, o) = &mut *b.borrow_mut();
        let bad = |why: String| fail(why, api::op_name(id));
        let h = mix(width, w, x);
        let ways = match scarce(width, w) {
            true => 0..9,
            false if h % 16 == 0 => (h >> 8) % 9..(h >> 8) % 9 + 1,
            false => 0..0,
        };
        for k in ways {
            let r = api::formats(&i, k, t).and_then(|()| api::formats(&i.opc, k, t));
            if let Err(p) = r {
                return bad(format!("{}: {p}", api::op_name(id)));
            }
        }
        if let Err(p) = api::text_into(&i, t) {
            return bad(format!("{}: {p}", api::op_name(id)));
        }
        if let Err(p) = api::text_into(&i.opc, o) {
            return bad(format!("opcode {}: {p}", api::op_name(id)));
        }
        if t.is_empty() || o.is_empty() || !t.bytes().all(|b| (b' '..=b'~').contains(&b)) {
            return bad(format!("not one non-empty line of printable ASCII: {t:?}"));
        }
        match t.strip_prefix(o.as_str()) {
            Some(rest) if rest.is_empty() || (rest.starts_with(' ') && rest.trim() != "") => {
                class(id)
            }
            _ => bad(format!(
                "{t:?} is not the opcode text {o:?} followed by its operands"
            )),
        }
    })
}

fn c13(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if id == UNKNOWN {
        return Ok(0);
    }
    if formatted_on_rv32(width, w, x, &i) {
        return class(id);
    }
    BUF.with(|b| {
        let t = &mut b.borrow_mut().0;
        if let Err(p) = api::text_into(&i, t) {
            return fail(p, api::op_name(id));
        }
        match text::check(t, &i, id) {
            Ok(()) => class(id),
            Err(why) => fail(why, api::op_name(id)),
        }
    })
}

fn c25(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((mut i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if id == UNKNOWN || !text::names_operands(id) || !text::operands_present(&i, id) {
        return Ok(0);
    }
    let h = mix(width, w, x);
    let times = if scarce(width, w) { 32 } else { 1 };
    BUF.with(|b| {
        let t = &mut b.borrow_mut().0;
        for k in 0..times {
            text::alter(&mut i, id, h.wrapping_add(k));
            if let Err(p) = api::text_into(&i, t) {
                return fail(format!("set to {}: {p}", api::dbg(&i)), api::op_name(id));
            }
            if let Err(why) = text::check(t, &i, id) {
                return fail(format!("set to {}: {why}", api::dbg(&i)), api::op_name(id));
            }
        }
        class(id)
    })
}

fn c26(m: &Model, width: u32, w: u32, x: X) -> V {
    let h = mix(width, w, x);
    let few = scarce(width, w);
    BUF.with(|b| {
        let (t, o) = &mut *b.borrow_mut();
        let (mut i, id) = match (inst(m, width, w, x)?, decode(width, w, x)) {
            (Some(i), _) => i,
            (None, Ok(Err(e))) if few || h % 64 == 0 => {
                // Some errors no word gives.
                let any = &ERRORS[(h >> 16) as usize % ERRORS.len()];
                let alternate = h >> 8 & 1 == 1;
                let r = debug::check_error(&e, alternate, t);
                return match r.and_then(|()| debug::check_error(any, alternate, t)) {
                    Ok(()) => Ok(0),
                    Err(why) => fail(why, "error".into()),
                };
            }
            _ => return Ok(0),
        };
        if !few && formatted_on_rv32(width, w, x, &i) {
            return class(id);
        }
        let times = match few {
            true => 24,
            false => u64::from(h >> 40 & 3 == 0),
        };
        for k in 0..=times {
            let alternate = k > 0 && h >> 60 & 3 == k & 3;
            let mut r = debug::check(&i, alternate, t, o);
            if few || h % 64 == 0 {
                r = r.and_then(|()| debug::check_parts(&i, alternate, t));
            }
            if let Err(why) = r {
                return fail(why, api::op_name(id));
            }
            vary(&mut i, h.rotate_left(7 * k as u32));
        }
        class(id)
    })
}

fn c14(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    let bad = |why: String| fail(format!("{}: {why}", api::dbg(&i.opc)), api::op_name(id));
    if i.is_compressed != (width == 16) {
        return bad(format!(
            "is_compressed = {} for a {width}-bit word",
            i.is_compressed
        ));
    }
    let reported = match api::guard(|| i.opc.get_format()) {
        Ok(f) => f,
        Err(p) => return bad(format!("get_format panics: {p}")),
    };
    if i.inst_format != reported {
        return bad(format!(
            "recorded format {}, opcode reports {}",
            api::dbg(&i.inst_format),
            api::dbg(&reported)
        ));
    }
    if id == UNKNOWN {
        return Ok(0);
    }
    if i.inst_format != ops::format_of(id) {
        return bad(format!(
            "format {}, expected {}",
            api::dbg(&i.inst_format),
            api::dbg(&ops::format_of(id))
        ));
    }
    // The extension that defines the instruction the word encodes.
    if let Some(e) = m.decode(width, w, x) {
        let want = OPS[e.op].kind;
        if ops::kind_of(&i.opc) != want {
            return bad(format!(
                "reported as {}, defined by {want}",
                ops::kind_of(&i.opc)
            ));
        }
    }
    if !text::operands_present(&i, id) {
        return bad(format!(
            "{} names an operand that is absent: {}",
            api::dbg(&i.inst_format),
            api::describe(&i)
        ));
    }
    class(id)
}

fn c15(_: &Model, v: u64) -> V {
    let (width, fits) = fits(v);
    let got = api::try_from(v);
    if !fits {
        return match got {
            Ok(Ok(_)) => fail(
                format!("an over-wide value converts to {}", show(&got)),
                actual(&got),
            ),
            _ => Ok(OVER_WIDE),
        };
    }
    let want = decode(width, v as u32, X::Rv64);
    match (&got, &want) {
        (Ok(a), Ok(b)) if a == b => match a {
            Ok(i) => class(ops::id_of(&i.opc)),
            Err(_) => Ok(0),
        },
        (Err(_), Err(_)) => Ok(0),
        _ => fail(
            format!(
                "conversion gives {}, decoding gives {}",
                show(&got),
                show(&want)
            ),
            actual(&got),
        ),
    }
}

fn c16(_: &Model, width: u32, w: u32, x: X) -> V {
    let d = decode(width, w, x);
    let o = opcode(width, w, x);
    let bad = |why: String| fail(why, actual(&d));
    match (&d, &o) {
        (Ok(Ok(i)), Ok(Ok(k))) => {
            if i.opc != *k {
                return bad(format!(
                    "decode gives {}, parse_opcode {}",
                    api::dbg(&i.opc),
                    api::dbg(k)
                ));
            }
            let a = access(width, w, k, x);
            let ok = matches!(&a.rd, Ok(Ok(v)) if *v == i.rd)
                && matches!(&a.rs1, Ok(Ok(v)) if *v == i.rs1)
                && matches!(&a.rs2, Ok(Ok(v)) if *v == i.rs2)
                && matches!(&a.imm, Ok(Ok(v)) if *v == i.imm);
            if ok {
                class(ops::id_of(k))
            } else {
                bad(format!(
                    "decode gives {}, the accessors rd={} rs1={} rs2={} imm={}",
                    show(&d),
                    api::dbg(&a.rd),
                    api::dbg(&a.rs1),
                    api::dbg(&a.rs2),
                    api::dbg(&a.imm)
                ))
            }
        }
        (Ok(Err(a)), Ok(Err(b))) => {
            if a == b || width == 16 && w == 0 {
                Ok(0)
            } else {
                bad(format!(
                    "decode fails with {}, parse_opcode with {}",
                    api::dbg(a),
                    api::dbg(b)
                ))
            }
        }
        (Err(_), Err(_)) => Ok(0),
        _ => bad(format!(
            "decode gives {}, parse_opcode {}",
            show(&d),
            api::dbg(&o)
        )),
    }
}

fn c16_pair(m: &Model, width: u32, w: u32, op: usize, x: X) -> V {
    if OPS[op].width != width {
        return Ok(0);
    }
    let Some(e) = m.layout(op, x) else {
        return Ok(0);
    };
    let f = e.fields(w);
    let k = ops::make(op);
    let a = access(width, w, &k, x);
    let ok = matches!(&a.rd, Ok(Ok(v)) if *v == us(f.rd))
        && matches!(&a.rs1, Ok(Ok(v)) if *v == us(f.rs1))
        && matches!(&a.rs2, Ok(Ok(v)) if *v == us(f.rs2))
        && matches!(&a.imm, Ok(Ok(v)) if *v == f.imm);
    if !ok {
        return fail(
            format!(
                "accessors give rd={} rs1={} rs2={} imm={}, the layout of {} gives {f:?}",
                api::dbg(&a.rd),
                api::dbg(&a.rs1),
                api::dbg(&a.rs2),
                api::dbg(&a.imm),
                api::op_name(op)
            ),
            api::op_name(op),
        );
    }
    if f == (Fields {
        rd: None,
        rs1: None,
        rs2: None,
        imm: None,
    }) {
        Ok(0)
    } else {
        class(op)
    }
}

#[inline]
fn c18(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    let Some(e) = m.layout(id, x) else {
        return Ok(0);
    };
    let bad = |why: &str| {
        fail(
            format!("{why}: {}", show(&decode(width, w, x))),
            api::op_name(id),
        )
    };
    let csr = OPS[id].kind == "Zicsr";
    let below = |v: Option<usize>, n: usize| v.map_or(true, |v| v < n);
    if !below(i.rd, 32) || !below(i.rs1, 32) || !below(i.rs2, if csr { 4096 } else { 32 }) {
        return bad("a register operand is out of range");
    }
    let (true, Some(v)) = (e.imm.present, i.imm) else {
        return class(id);
    };
    let v = i64::from(v);
    let (lo, hi) = if e.imm.signed {
        (-(1i64 << (e.imm.bits - 1)), 1i64 << (e.imm.bits - 1))
    } else {
        (0, 1i64 << e.imm.bits)
    };
    if v < lo || v >= hi {
        return bad("the immediate is outside the range of its format");
    }
    if x == X::Rv32 && is_nonword_shift(id) && v >= 32 {
        return bad("an RV32 shift amount is 32 or more");
    }
    let scale = 1i64 << e.imm.segs.iter().map(|s| s.2).min().unwrap();
    if v.rem_euclid(scale) != 0 {
        return bad("the immediate is not a multiple of its scale");
    }
    class(id)
}

fn c19(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    let Some(base) = expand::expansion(m, w as u16, x) else {
        return Ok(0);
    };
    let d = decode(32, base, x);
    match expand::mirrors(&i, id, &d) {
        Ok(()) => class(id),
        Err(why) => fail(
            format!(
                "{why}: the halfword gives {}, its expansion {base:#010x} gives {}",
                show(&Ok(Ok(i))),
                show(&d)
            ),
            api::op_name(id),
        ),
    }
}

fn c20(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    BUF.with(|b| {
        let o = &mut b.borrow_mut().0;
        let bad = |why: String| fail(why, api::op_name(id));
        if let Err(p) = api::text_into(&i.opc, o) {
            return bad(p);
        }
        if id == UNKNOWN {
            return if o.is_empty() || o.contains([' ', ',']) || OPS.iter().any(|p| p.mnem == *o) {
                bad(format!("{} prints as {o:?}", api::dbg(&i.opc)))
            } else {
                Ok(0)
            };
        }
        if *o == OPS[id].mnem {
            class(id)
        } else {
            bad(format!(
                "{} prints as {o:?}, its mnemonic is {:?}",
                api::dbg(&i.opc),
                OPS[id].mnem
            ))
        }
    })
}

/// A well-mixed number for a word, to vary what is done with it.
#[inline]
fn mix(width: u32, w: u32, x: X) -> u64 {
    let mut y = u64::from(w) << 8 | u64::from(width) << 1 | x as u64;
    y = (y ^ y >> 31).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    y = (y ^ y >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    y ^ y >> 28
}

/// Equality by parts, without the library's own comparison of its types.
fn same_parts(a: &Instruction, b: &Instruction) -> bool {
    let opc = |k: &raki::OpcodeKind| (ops::kind_of(k), ops::id_of(k));
    opc(&a.opc) == opc(&b.opc)
        && a.rd == b.rd
        && a.rs1 == b.rs1
        && a.rs2 == b.rs2
        && a.imm == b.imm
        && std::mem::discriminant(&a.inst_format) == std::mem::discriminant(&b.inst_format)
        && a.is_compressed == b.is_compressed
}

/// The library's equality of two instructions, if it is consistent.
fn eq(a: &Instruction, b: &Instruction) -> Result<bool, &'static str> {
    match api::guard(|| (a == b, b == a, a != b, b != a)) {
        Ok((true, true, false, false)) => Ok(true),
        Ok((false, false, true, true)) => Ok(false),
        Ok((p, q, _, _)) if p != q => Err("equality is not symmetric"),
        Ok(_) => Err("inequality is not the negation of equality"),
        Err(_) => Err("comparing panics"),
    }
}

fn compare(a: &Instruction, b: &Instruction) -> Result<(), Box<Fail>> {
    let why = match eq(a, b) {
        Ok(e) if e == same_parts(a, b) => return Ok(()),
        Ok(true) => "different instructions compare equal",
        Ok(false) => "equal instructions compare different",
        Err(e) => e,
    };
    Err(Box::new(Fail {
        msg: format!("{why}: {} and {}", api::describe(a), api::describe(b)),
        actual: "comparison".into(),
    }))
}

fn compare_errors(a: &DecodingError, b: &DecodingError) -> Result<(), Box<Fail>> {
    let same = reason_class(a) == reason_class(b);
    match api::guard(|| (a == b, b == a, a != b, b != a)) {
        Ok(r) if r == (same, same, !same, !same) => Ok(()),
        r => Err(Box::new(Fail {
            msg: format!("{} compared with {} gives {r:?}", api::dbg(a), api::dbg(b)),
            actual: "comparison".into(),
        })),
    }
}

/// Change one part of an instruction.
fn vary(i: &mut Instruction, h: u64) {
    let n = (h >> 8) as u32;
    let reg = |r: &mut Option<usize>| {
        *r = match *r {
            Some(_) if n % 4 == 0 => None,
            Some(v) if n % 4 == 1 => Some(v ^ 1 << (n >> 8) % 5),
            Some(v) => Some(v ^ 1 << (n >> 8) % 64),
            None if n % 2 == 0 => Some(0),
            None => Some((n >> 8) as usize % 32),
        }
    };
    match h % 9 {
        0 => reg(&mut i.rd),
        1 => reg(&mut i.rs1),
        2 => reg(&mut i.rs2),
        3 => {
            i.imm = match i.imm {
                Some(_) if n % 4 == 0 => None,
                Some(v) if n % 4 == 1 => Some(v.wrapping_neg()),
                Some(v) => Some(v ^ 1 << (n >> 8) % 32),
                None if n % 2 == 0 => Some(0),
                None => Some(n as i32 >> 8),
            }
        }
        4 => i.opc = ops::make(n as usize % OPS.len()),
        5 => i.inst_format = ops::format_of(n as usize % OPS.len()),
        6 => i.is_compressed = !i.is_compressed,
        // The same parts in other places.
        7 => match n % 3 {
            0 => std::mem::swap(&mut i.rd, &mut i.rs1),
            1 => std::mem::swap(&mut i.rs1, &mut i.rs2),
            _ => std::mem::swap(&mut i.rd, &mut i.rs2),
        },
        _ => {
            let r = [&mut i.rd, &mut i.rs1, &mut i.rs2]
                .into_iter()
                .nth(n as usize % 3);
            let r = r.expect("three registers");
            let v = r.map(|v| v as i32);
            *r = i.imm.map(|v| v as usize);
            i.imm = v;
        }
    }
}

const ERRORS: [DecodingError; 10] = [
    DecodingError::Not16BitInst,
    DecodingError::Not32BitInst,
    DecodingError::InvalidFunct3,
    DecodingError::InvalidFunct5,
    DecodingError::InvalidFunct6,
    DecodingError::InvalidFunct7,
    DecodingError::InvalidOpcode,
    DecodingError::UnknownExtension,
    DecodingError::IllegalInstruction,
    DecodingError::OnlyRv64Inst,
];

fn c21(m: &Model, width: u32, w: u32, x: X) -> V {
    let h = mix(width, w, x);
    let (mut i, id) = match (inst(m, width, w, x)?, decode(width, w, x)) {
        (Some(i), _) => i,
        (None, Ok(Err(e))) => {
            let any = |h: u64| &ERRORS[h as usize % ERRORS.len()];
            compare_errors(&e, any(h))?;
            compare_errors(any(h >> 16), any(h >> 32))?;
            return Ok(0);
        }
        _ => return Ok(0),
    };
    let Some(mut j) = api::decoded(width, w, x) else {
        return fail("the word decodes only sometimes".into(), "unstable".into());
    };
    compare(&i, &j)?;
    if scarce(width, w) {
        for k in 0..16 {
            let Some(mut j) = api::decoded(width, w, x) else {
                break;
            };
            vary(&mut j, h.rotate_left(4 * k));
            compare(&i, &j)?;
        }
    }
    vary(&mut j, h);
    compare(&i, &j)?;
    // Two instructions that are both no decoding result.
    vary(&mut i, h >> 32);
    compare(&i, &j)?;
    let near = w ^ 1 << ((h >> 20) as u32 % width);
    if let Some(k) = api::decoded(width, near, x) {
        compare(&j, &k)?;
        if let Some(i) = api::decoded(width, w, x) {
            compare(&i, &k)?;
        }
    }
    class(id)
}

fn c21_pair(m: &Model, width: u32, w: u32, op: usize, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if id == UNKNOWN {
        return Ok(0);
    }
    let other = ops::make(op);
    let same = id == op;
    match api::guard(|| (i.opc == other, other == i.opc, i.opc != other)) {
        Ok((a, b, c)) if a == same && b == same && c != same => class(id),
        r => fail(
            format!(
                "{} compared with {} gives {r:?}",
                api::dbg(&i.opc),
                api::dbg(&other)
            ),
            "comparison".into(),
        ),
    }
}

/// A writer that takes `room` bytes and then fails, with or without taking what fits.
struct Sink<'a> {
    out: &'a mut String,
    room: usize,
    /// Take as much of the write that fails as there is room for.
    partly: bool,
    /// Take everything after the write that fails.
    recovers: bool,
    failed: bool,
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed && self.recovers {
            return Ok(());
        }
        if s.len() <= self.room {
            self.room -= s.len();
            self.out.push_str(s);
            return Ok(());
        }
        if self.partly {
            self.out.extend(s.bytes().take(self.room).map(char::from));
        }
        self.room = 0;
        self.failed = true;
        Err(std::fmt::Error)
    }
}

fn c22(m: &Model, width: u32, w: u32, x: X) -> V {
    let Some((i, id)) = inst(m, width, w, x)? else {
        return Ok(0);
    };
    if formatted_on_rv32(width, w, x, &i) {
        return class(id);
    }
    let h = mix(width, w, x);
    BUF.with(|b| {
        let (t, o) = &mut *b.borrow_mut();
        let bad = |why: String| fail(format!("{}: {why}", api::dbg(&i.opc)), api::op_name(id));
        let mut one = |whole: &dyn std::fmt::Display, at: u64, mode: u64| {
            if let Err(p) = api::text_into(whole, t) {
                return bad(p);
            }
            // Room from none at all to just enough.
            let room = at as usize % (t.len() + 1);
            o.clear();
            let mut sink = Sink {
                out: o,
                room,
                partly: mode & 1 == 1,
                recovers: mode & 2 == 2,
                failed: false,
            };
            use std::fmt::Write;
            match api::guard(|| write!(sink, "{whole}")) {
                Err(p) => return bad(format!("a writer that fails after {room} bytes: {p}")),
                Ok(r) if r.is_ok() != (room == t.len()) => {
                    return bad(format!(
                        "{t:?} to a writer that takes {room} bytes gives {r:?}"
                    ))
                }
                Ok(_) => {}
            }
            let exact = room == t.len();
            if exact && o != t || !t.starts_with(o.as_str()) {
                return bad(format!(
                    "a writer that takes {room} bytes of {t:?} received {o:?}"
                ));
            }
            Ok(t.len() as u32)
        };
        if scarce(width, w) {
            for whole in [&i as &dyn std::fmt::Display, &i.opc] {
                for mode in 0..4 {
                    let len = one(whole, 0, mode)?;
                    for at in 1..=len {
                        one(whole, u64::from(at), mode)?;
                    }
                }
            }
        } else {
            let whole: &dyn std::fmt::Display = if h % 8 == 0 { &i.opc } else { &i };
            one(whole, h >> 8, h >> 4)?;
        }
        class(id)
    })
}

fn c23(m: &Model, width: u32, w: u32, x: X) -> V {
    crate::program::single(m, width, w, x).or_else(|why| fail(why, "stream".into()))
}

/// Verdict on a case of any shape.
pub fn judge(p: &Prop, m: &Model, c: &Case) -> V {
    match *c {
        Case::Word { word, .. } if p.bound && !p.majors.contains(word) => Ok(0),
        Case::Word { width, word, isa } => (p.word)(m, width, word, isa),
        Case::Pair {
            width,
            word,
            op,
            isa,
        } => p.pairs.map_or(Ok(0), |f| f(m, width, word, op, isa)),
        Case::Usize(v) => p.usizes.map_or(Ok(0), |f| f(m, v)),
    }
}

// ---- C24 --------------------------------------------------------------------------------------

fn heap_free(r: Result<Option<&'static str>, String>, class: V) -> V {
    match r {
        Ok(Some(what)) => fail(what.into(), what.into()),
        // A panic is another property's business.
        Err(_) => Ok(0),
        Ok(None) => class,
    }
}

fn c24_rejected(w: u32) -> Option<u32> {
    let calls = || {
        let before = heap::allocations();
        plainly(w)
            && w.parse_opcode(Isa::Rv32).is_err()
            && w.parse_opcode(Isa::Rv64).is_err()
            && Instruction::try_from(w as usize).is_err()
            && heap::allocations() == before
    };
    // The stack is looked at now and then.
    let ok = if w >> 7 & 63 == 0 {
        heap::shallow(calls) == (true, true)
    } else {
        calls()
    };
    ok.then_some(0)
}

fn c24(m: &Model, width: u32, w: u32, x: X) -> V {
    let r = api::guard(|| heap::of_word(width, w, x));
    let c = match inst(m, width, w, x) {
        Ok(Some((_, id))) => class(id),
        _ => Ok(0),
    };
    heap_free(r, c)
}

fn c24_pair(_: &Model, width: u32, w: u32, op: usize, x: X) -> V {
    let k = ops::make(op);
    let r = api::guard(|| heap::of_pair(width, w, &k, x));
    let a = access(width, w, &k, x);
    let some = matches!(a.rd, Ok(Ok(Some(_))))
        || matches!(a.rs1, Ok(Ok(Some(_))))
        || matches!(a.rs2, Ok(Ok(Some(_))))
        || matches!(a.imm, Ok(Ok(Some(_))));
    heap_free(r, if some { class(op) } else { Ok(0) })
}

fn c24_usize(_: &Model, v: u64) -> V {
    let r = api::guard(|| heap::of_usize(v));
    heap_free(r, Ok(if fits(v).1 { 0 } else { OVER_WIDE }))
}
