//! Reference model of the instruction encodings raki supports.
//!
//! Written from the RISC-V unprivileged and privileged manuals as a flat table of encodings
//! (fixed bit fields, operand positions, immediate layouts). A word is decoded by scanning the
//! table; the most specific encoding (most fixed bits) wins. Nothing here calls raki.

use crate::ops::{OPS, UNKNOWN};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum X {
    Rv32,
    Rv64,
}
pub const ISAS: [X; 2] = [X::Rv32, X::Rv64];

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Reg {
    None,
    /// Plain field of `len` bits at `lsb` (5 for registers, 12 for CSR numbers).
    Field {
        lsb: u32,
        len: u32,
    },
    /// Three-bit field at `lsb` denoting x8..x15.
    Short {
        lsb: u32,
    },
    /// Register implied by the encoding.
    Implied(u32),
}

#[derive(Clone, Debug, Default)]
pub struct Imm {
    pub present: bool,
    pub signed: bool,
    /// (word lsb, length, immediate lsb)
    pub segs: Vec<(u32, u32, u32)>,
    /// Number of immediate bits (highest immediate bit + 1).
    pub bits: u32,
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub op: usize,
    pub width: u32,
    pub isas: &'static [X],
    pub mask: u32,
    pub value: u32,
    pub rd: Reg,
    pub rs1: Reg,
    pub rs2: Reg,
    pub imm: Imm,
    /// Word bits that belong to no operand and no fixed field, and are not decoded by raki.
    pub hidden: u32,
    /// Additional constraint on the register fields.
    pub only: Option<fn(u32) -> bool>,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Fields {
    pub rd: Option<u32>,
    pub rs1: Option<u32>,
    pub rs2: Option<u32>,
    pub imm: Option<i32>,
}

const BOTH: &[X] = &ISAS;
const R32: &[X] = &[X::Rv32];
const R64: &[X] = &[X::Rv64];

const I: &str = "s 31:20=11:0";
const S: &str = "s 31:25=11:5 11:7=4:0";
const B: &str = "s 31:31=12:12 30:25=10:5 11:8=4:1 7:7=11:11";
const U: &str = "u 31:12=19:0";
const J: &str = "s 31:31=20:20 30:21=10:1 20:20=11:11 19:12=19:12";
const SH5: &str = "u 24:20=4:0";
const SH6: &str = "u 25:20=5:0";
const F12: &str = "u 31:20=11:0";
const AQRL: &str = "u 26:25=1:0";
const UIMM: &str = "u 19:15=4:0";

const CI: &str = "s 12:12=5:5 6:2=4:0";
const CIU: &str = "u 12:12=5:5 6:2=4:0";
const CJ: &str = "s 12:12=11:11 11:11=4:4 10:9=9:8 8:8=10:10 7:7=6:6 6:6=7:7 5:3=3:1 2:2=5:5";
const CB: &str = "s 12:12=8:8 11:10=4:3 6:5=7:6 4:3=2:1 2:2=5:5";
const CLW: &str = "u 12:10=5:3 6:6=2:2 5:5=6:6";
const CLD: &str = "u 12:10=5:3 6:5=7:6";

// (mnemonic, isas, fixed fields, rd, rs1, rs2, immediate)
type Row = (
    &'static str,
    &'static [X],
    &'static str,
    &'static str,
    &'static str,
    &'static str,
    &'static str,
);

const RD: &str = "11:7";
const RS1: &str = "19:15";
const RS2: &str = "24:20";

#[rustfmt::skip]
const ROWS: &[Row] = &[
    ("lui",   BOTH, "6:0=0x37", RD, "", "", U),
    ("auipc", BOTH, "6:0=0x17", RD, "", "", U),
    ("jal",   BOTH, "6:0=0x6f", RD, "", "", J),
    ("jalr",  BOTH, "6:0=0x67 14:12=0", RD, RS1, "", I),
    ("beq",   BOTH, "6:0=0x63 14:12=0", "", RS1, RS2, B),
    ("bne",   BOTH, "6:0=0x63 14:12=1", "", RS1, RS2, B),
    ("blt",   BOTH, "6:0=0x63 14:12=4", "", RS1, RS2, B),
    ("bge",   BOTH, "6:0=0x63 14:12=5", "", RS1, RS2, B),
    ("bltu",  BOTH, "6:0=0x63 14:12=6", "", RS1, RS2, B),
    ("bgeu",  BOTH, "6:0=0x63 14:12=7", "", RS1, RS2, B),
    ("lb",    BOTH, "6:0=0x03 14:12=0", RD, RS1, "", I),
    ("lh",    BOTH, "6:0=0x03 14:12=1", RD, RS1, "", I),
    ("lw",    BOTH, "6:0=0x03 14:12=2", RD, RS1, "", I),
    ("ld",    R64,  "6:0=0x03 14:12=3", RD, RS1, "", I),
    ("lbu",   BOTH, "6:0=0x03 14:12=4", RD, RS1, "", I),
    ("lhu",   BOTH, "6:0=0x03 14:12=5", RD, RS1, "", I),
    ("lwu",   R64,  "6:0=0x03 14:12=6", RD, RS1, "", I),
    ("sb",    BOTH, "6:0=0x23 14:12=0", "", RS1, RS2, S),
    ("sh",    BOTH, "6:0=0x23 14:12=1", "", RS1, RS2, S),
    ("sw",    BOTH, "6:0=0x23 14:12=2", "", RS1, RS2, S),
    ("sd",    R64,  "6:0=0x23 14:12=3", "", RS1, RS2, S),
    ("addi",  BOTH, "6:0=0x13 14:12=0", RD, RS1, "", I),
    ("slti",  BOTH, "6:0=0x13 14:12=2", RD, RS1, "", I),
    ("sltiu", BOTH, "6:0=0x13 14:12=3", RD, RS1, "", I),
    ("xori",  BOTH, "6:0=0x13 14:12=4", RD, RS1, "", I),
    ("ori",   BOTH, "6:0=0x13 14:12=6", RD, RS1, "", I),
    ("andi",  BOTH, "6:0=0x13 14:12=7", RD, RS1, "", I),
    ("slli",  R32,  "6:0=0x13 14:12=1 31:25=0x00", RD, RS1, "", SH5),
    ("srli",  R32,  "6:0=0x13 14:12=5 31:25=0x00", RD, RS1, "", SH5),
    ("srai",  R32,  "6:0=0x13 14:12=5 31:25=0x20", RD, RS1, "", SH5),
    ("slli",  R64,  "6:0=0x13 14:12=1 31:26=0x00", RD, RS1, "", SH6),
    ("srli",  R64,  "6:0=0x13 14:12=5 31:26=0x00", RD, RS1, "", SH6),
    ("srai",  R64,  "6:0=0x13 14:12=5 31:26=0x10", RD, RS1, "", SH6),
    ("add",   BOTH, "6:0=0x33 14:12=0 31:25=0x00", RD, RS1, RS2, ""),
    ("sub",   BOTH, "6:0=0x33 14:12=0 31:25=0x20", RD, RS1, RS2, ""),
    ("sll",   BOTH, "6:0=0x33 14:12=1 31:25=0x00", RD, RS1, RS2, ""),
    ("slt",   BOTH, "6:0=0x33 14:12=2 31:25=0x00", RD, RS1, RS2, ""),
    ("sltu",  BOTH, "6:0=0x33 14:12=3 31:25=0x00", RD, RS1, RS2, ""),
    ("xor",   BOTH, "6:0=0x33 14:12=4 31:25=0x00", RD, RS1, RS2, ""),
    ("srl",   BOTH, "6:0=0x33 14:12=5 31:25=0x00", RD, RS1, RS2, ""),
    ("sra",   BOTH, "6:0=0x33 14:12=5 31:25=0x20", RD, RS1, RS2, ""),
    ("or",    BOTH, "6:0=0x33 14:12=6 31:25=0x00", RD, RS1, RS2, ""),
    ("and",   BOTH, "6:0=0x33 14:12=7 31:25=0x00", RD, RS1, RS2, ""),
    ("addiw", R64,  "6:0=0x1b 14:12=0", RD, RS1, "", I),
    ("slliw", R64,  "6:0=0x1b 14:12=1 31:25=0x00", RD, RS1, "", SH5),
    ("srliw", R64,  "6:0=0x1b 14:12=5 31:25=0x00", RD, RS1, "", SH5),
    ("sraiw", R64,  "6:0=0x1b 14:12=5 31:25=0x20", RD, RS1, "", SH5),
    ("addw",  R64,  "6:0=0x3b 14:12=0 31:25=0x00", RD, RS1, RS2, ""),
    ("subw",  R64,  "6:0=0x3b 14:12=0 31:25=0x20", RD, RS1, RS2, ""),
    ("sllw",  R64,  "6:0=0x3b 14:12=1 31:25=0x00", RD, RS1, RS2, ""),
    ("srlw",  R64,  "6:0=0x3b 14:12=5 31:25=0x00", RD, RS1, RS2, ""),
    ("sraw",  R64,  "6:0=0x3b 14:12=5 31:25=0x20", RD, RS1, RS2, ""),
    ("ecall",  BOTH, "31:0=0x00000073", "", "", "", ""),
    ("ebreak", BOTH, "31:0=0x00100073", "", "", "", ""),
    // M
    ("mul",    BOTH, "6:0=0x33 14:12=0 31:25=0x01", RD, RS1, RS2, ""),
    ("mulh",   BOTH, "6:0=0x33 14:12=1 31:25=0x01", RD, RS1, RS2, ""),
    ("mulhsu", BOTH, "6:0=0x33 14:12=2 31:25=0x01", RD, RS1, RS2, ""),
    ("mulhu",  BOTH, "6:0=0x33 14:12=3 31:25=0x01", RD, RS1, RS2, ""),
    ("div",    BOTH, "6:0=0x33 14:12=4 31:25=0x01", RD, RS1, RS2, ""),
    ("divu",   BOTH, "6:0=0x33 14:12=5 31:25=0x01", RD, RS1, RS2, ""),
    ("rem",    BOTH, "6:0=0x33 14:12=6 31:25=0x01", RD, RS1, RS2, ""),
    ("remu",   BOTH, "6:0=0x33 14:12=7 31:25=0x01", RD, RS1, RS2, ""),
    ("mulw",   R64,  "6:0=0x3b 14:12=0 31:25=0x01", RD, RS1, RS2, ""),
    ("divw",   R64,  "6:0=0x3b 14:12=4 31:25=0x01", RD, RS1, RS2, ""),
    ("divuw",  R64,  "6:0=0x3b 14:12=5 31:25=0x01", RD, RS1, RS2, ""),
    ("remw",   R64,  "6:0=0x3b 14:12=6 31:25=0x01", RD, RS1, RS2, ""),
    ("remuw",  R64,  "6:0=0x3b 14:12=7 31:25=0x01", RD, RS1, RS2, ""),
    // A
    ("lr.w",      BOTH, "6:0=0x2f 14:12=2 31:27=0x02 24:20=0", RD, RS1, "", AQRL),
    ("sc.w",      BOTH, "6:0=0x2f 14:12=2 31:27=0x03", RD, RS1, RS2, AQRL),
    ("amoswap.w", BOTH, "6:0=0x2f 14:12=2 31:27=0x01", RD, RS1, RS2, AQRL),
    ("amoadd.w",  BOTH, "6:0=0x2f 14:12=2 31:27=0x00", RD, RS1, RS2, AQRL),
    ("amoxor.w",  BOTH, "6:0=0x2f 14:12=2 31:27=0x04", RD, RS1, RS2, AQRL),
    ("amoand.w",  BOTH, "6:0=0x2f 14:12=2 31:27=0x0c", RD, RS1, RS2, AQRL),
    ("amoor.w",   BOTH, "6:0=0x2f 14:12=2 31:27=0x08", RD, RS1, RS2, AQRL),
    ("amomin.w",  BOTH, "6:0=0x2f 14:12=2 31:27=0x10", RD, RS1, RS2, AQRL),
    ("amomax.w",  BOTH, "6:0=0x2f 14:12=2 31:27=0x14", RD, RS1, RS2, AQRL),
    ("amominu.w", BOTH, "6:0=0x2f 14:12=2 31:27=0x18", RD, RS1, RS2, AQRL),
    ("amomaxu.w", BOTH, "6:0=0x2f 14:12=2 31:27=0x1c", RD, RS1, RS2, AQRL),
    ("lr.d",      R64,  "6:0=0x2f 14:12=3 31:27=0x02 24:20=0", RD, RS1, "", AQRL),
    ("sc.d",      R64,  "6:0=0x2f 14:12=3 31:27=0x03", RD, RS1, RS2, AQRL),
    ("amoswap.d", R64,  "6:0=0x2f 14:12=3 31:27=0x01", RD, RS1, RS2, AQRL),
    ("amoadd.d",  R64,  "6:0=0x2f 14:12=3 31:27=0x00", RD, RS1, RS2, AQRL),
    ("amoxor.d",  R64,  "6:0=0x2f 14:12=3 31:27=0x04", RD, RS1, RS2, AQRL),
    ("amoand.d",  R64,  "6:0=0x2f 14:12=3 31:27=0x0c", RD, RS1, RS2, AQRL),
    ("amoor.d",   R64,  "6:0=0x2f 14:12=3 31:27=0x08", RD, RS1, RS2, AQRL),
    ("amomin.d",  R64,  "6:0=0x2f 14:12=3 31:27=0x10", RD, RS1, RS2, AQRL),
    ("amomax.d",  R64,  "6:0=0x2f 14:12=3 31:27=0x14", RD, RS1, RS2, AQRL),
    ("amominu.d", R64,  "6:0=0x2f 14:12=3 31:27=0x18", RD, RS1, RS2, AQRL),
    ("amomaxu.d", R64,  "6:0=0x2f 14:12=3 31:27=0x1c", RD, RS1, RS2, AQRL),
    // Zicfiss
    ("ssamoswap.w", BOTH, "6:0=0x2f 14:12=2 31:27=0x09", RD, RS1, RS2, ""),
    ("ssamoswap.d", R64,  "6:0=0x2f 14:12=3 31:27=0x09", RD, RS1, RS2, ""),
    ("sspush",   BOTH, "31:0=0xce104073", "=0", "=0", RS2, ""),
    ("sspush",   BOTH, "31:0=0xce504073", "=0", "=0", RS2, ""),
    ("sspopchk", BOTH, "31:0=0xcdc0c073", "=0", RS1, "", ""),
    ("sspopchk", BOTH, "31:0=0xcdc2c073", "=0", RS1, "", ""),
    ("ssrdp",    BOTH, "6:0=0x73 14:12=4 19:15=0 31:20=0xcdc", RD, "", "", ""),
    ("c.sspush",   BOTH, "15:0=0x6081", "=1", "", "", ""),
    ("c.sspopchk", BOTH, "15:0=0x6281", "=5", "", "", ""),
    // Zicsr
    ("csrrw",  BOTH, "6:0=0x73 14:12=1", RD, RS1, "31:20", ""),
    ("csrrs",  BOTH, "6:0=0x73 14:12=2", RD, RS1, "31:20", ""),
    ("csrrc",  BOTH, "6:0=0x73 14:12=3", RD, RS1, "31:20", ""),
    ("csrrwi", BOTH, "6:0=0x73 14:12=5", RD, "", "31:20", UIMM),
    ("csrrsi", BOTH, "6:0=0x73 14:12=6", RD, "", "31:20", UIMM),
    ("csrrci", BOTH, "6:0=0x73 14:12=7", RD, "", "31:20", UIMM),
    // Zicntr
    ("rdcycle",    BOTH, "6:0=0x73 14:12=2 19:15=0 31:20=0xc00", RD, "", "", ""),
    ("rdtime",     BOTH, "6:0=0x73 14:12=2 19:15=0 31:20=0xc01", RD, "", "", ""),
    ("rdinstret",  BOTH, "6:0=0x73 14:12=2 19:15=0 31:20=0xc02", RD, "", "", ""),
    ("rdcycleh",   R32,  "6:0=0x73 14:12=2 19:15=0 31:20=0xc80", RD, "", "", ""),
    ("rdtimeh",    R32,  "6:0=0x73 14:12=2 19:15=0 31:20=0xc81", RD, "", "", ""),
    ("rdinstreth", R32,  "6:0=0x73 14:12=2 19:15=0 31:20=0xc82", RD, "", "", ""),
    // fences, cache block, privileged
    ("fence",    BOTH, "6:0=0x0f 14:12=0", RD, RS1, "", F12),
    ("fence.i",  BOTH, "6:0=0x0f 14:12=1", RD, RS1, "", F12),
    ("cbo.zero", BOTH, "6:0=0x0f 14:12=2 11:7=0 31:20=0x004", "", RS1, "", ""),
    ("sret", BOTH, "31:0=0x10200073", "", "", "", ""),
    ("mret", BOTH, "31:0=0x30200073", "", "", "", ""),
    ("wfi",  BOTH, "31:0=0x10500073", "", "", "", ""),
    ("sfence.vma", BOTH, "6:0=0x73 14:12=0 11:7=0 31:25=0x09", "", RS1, RS2, ""),
    // C, quadrant 0
    ("C.addi4spn", BOTH, "1:0=0 15:13=0", "4:2'", "", "", "u 12:11=5:4 10:7=9:6 6:6=2:2 5:5=3:3"),
    ("C.lw", BOTH, "1:0=0 15:13=2", "4:2'", "9:7'", "", CLW),
    ("C.ld", R64,  "1:0=0 15:13=3", "4:2'", "9:7'", "", CLD),
    ("C.sw", BOTH, "1:0=0 15:13=6", "", "9:7'", "4:2'", CLW),
    ("C.sd", R64,  "1:0=0 15:13=7", "", "9:7'", "4:2'", CLD),
    // quadrant 1
    ("C.nop",   BOTH, "1:0=1 15:13=0 11:7=0", "", "", "", CI),
    ("C.addi",  BOTH, "1:0=1 15:13=0", RD, "11:7", "", CI),
    ("C.jal",   R32,  "1:0=1 15:13=1", "", "", "", CJ),
    ("C.addiw", R64,  "1:0=1 15:13=1", RD, "11:7", "", CI),
    ("C.li",    BOTH, "1:0=1 15:13=2", RD, "", "", CI),
    ("C.addi16sp", BOTH, "1:0=1 15:13=3 11:7=2", RD, "11:7", "", "s 12:12=9:9 6:6=4:4 5:5=6:6 4:3=8:7 2:2=5:5"),
    ("C.lui",   BOTH, "1:0=1 15:13=3", RD, "", "", "s 12:12=17:17 6:2=16:12"),
    ("C.srli",  R32,  "1:0=1 15:13=4 11:10=0 12:12=0", "9:7'", "9:7'", "", CIU),
    ("C.srai",  R32,  "1:0=1 15:13=4 11:10=1 12:12=0", "9:7'", "9:7'", "", CIU),
    ("C.srli",  R64,  "1:0=1 15:13=4 11:10=0", "9:7'", "9:7'", "", CIU),
    ("C.srai",  R64,  "1:0=1 15:13=4 11:10=1", "9:7'", "9:7'", "", CIU),
    ("C.andi",  BOTH, "1:0=1 15:13=4 11:10=2", "9:7'", "9:7'", "", CI),
    ("C.sub",   BOTH, "1:0=1 15:10=0x23 6:5=0", "9:7'", "9:7'", "4:2'", ""),
    ("C.xor",   BOTH, "1:0=1 15:10=0x23 6:5=1", "9:7'", "9:7'", "4:2'", ""),
    ("C.or",    BOTH, "1:0=1 15:10=0x23 6:5=2", "9:7'", "9:7'", "4:2'", ""),
    ("C.and",   BOTH, "1:0=1 15:10=0x23 6:5=3", "9:7'", "9:7'", "4:2'", ""),
    ("C.subw",  R64,  "1:0=1 15:10=0x27 6:5=0", "9:7'", "9:7'", "4:2'", ""),
    ("C.addw",  R64,  "1:0=1 15:10=0x27 6:5=1", "9:7'", "9:7'", "4:2'", ""),
    ("C.j",     BOTH, "1:0=1 15:13=5", "", "", "", CJ),
    ("C.beqz",  BOTH, "1:0=1 15:13=6", "", "9:7'", "", CB),
    ("C.bnez",  BOTH, "1:0=1 15:13=7", "", "9:7'", "", CB),
    // quadrant 2
    ("C.slli",  R32,  "1:0=2 15:13=0 12:12=0", RD, "11:7", "", CIU),
    ("C.slli",  R64,  "1:0=2 15:13=0", RD, "11:7", "", CIU),
    ("C.lwsp",  BOTH, "1:0=2 15:13=2", RD, "", "", "u 12:12=5:5 6:4=4:2 3:2=7:6"),
    ("C.ldsp",  R64,  "1:0=2 15:13=3", RD, "", "", "u 12:12=5:5 6:5=4:3 4:2=8:6"),
    ("C.jr",    BOTH, "1:0=2 15:12=8 6:2=0", "", "11:7", "6:2", ""),
    ("C.mv",    BOTH, "1:0=2 15:12=8", RD, "", "6:2", ""),
    ("C.ebreak", BOTH, "15:0=0x9002", "", "", "", ""),
    ("C.jalr",  BOTH, "1:0=2 15:12=9 6:2=0", "", "11:7", "6:2", ""),
    ("C.add",   BOTH, "1:0=2 15:12=9", RD, "11:7", "6:2", ""),
    ("C.swsp",  BOTH, "1:0=2 15:13=6", "", "", "6:2", "u 12:9=5:2 8:7=7:6"),
    ("C.sdsp",  R64,  "1:0=2 15:13=7", "", "", "6:2", "u 12:10=5:3 9:7=8:6"),
];

fn range(s: &str) -> (u32, u32) {
    let (a, b) = s.split_once(':').expect("range");
    let (a, b): (u32, u32) = (a.parse().unwrap(), b.parse().unwrap());
    assert!(a >= b);
    (b, a - b + 1)
}

fn ones(len: u32) -> u32 {
    if len >= 32 {
        u32::MAX
    } else {
        (1 << len) - 1
    }
}

fn reg(s: &str) -> Reg {
    if s.is_empty() {
        Reg::None
    } else if let Some(n) = s.strip_prefix('=') {
        Reg::Implied(n.parse().unwrap())
    } else if let Some(r) = s.strip_suffix('\'') {
        let (lsb, len) = range(r);
        assert_eq!(len, 3);
        Reg::Short { lsb }
    } else {
        let (lsb, len) = range(s);
        Reg::Field { lsb, len }
    }
}

fn imm(s: &str) -> Imm {
    if s.is_empty() {
        return Imm::default();
    }
    let mut it = s.split(' ');
    let signed = it.next().unwrap() == "s";
    let segs: Vec<_> = it
        .map(|p| {
            let (w, i) = p.split_once('=').unwrap();
            let ((wl, n), (il, m)) = (range(w), range(i));
            assert_eq!(n, m, "{s}");
            (wl, n, il)
        })
        .collect();
    let bits = segs.iter().map(|(_, n, il)| il + n).max().unwrap();
    Imm {
        present: true,
        signed,
        segs,
        bits,
    }
}

fn number(s: &str) -> u32 {
    match s.strip_prefix("0x") {
        Some(h) => u32::from_str_radix(h, 16).unwrap(),
        None => s.parse().unwrap(),
    }
}

impl Reg {
    #[inline]
    pub fn get(self, w: u32) -> Option<u32> {
        match self {
            Reg::None => None,
            Reg::Field { lsb, len } => Some((w >> lsb) & ones(len)),
            Reg::Short { lsb } => Some(((w >> lsb) & 7) + 8),
            Reg::Implied(n) => Some(n),
        }
    }
    fn bits(self) -> u32 {
        match self {
            Reg::None | Reg::Implied(_) => 0,
            Reg::Field { lsb, len } => ones(len) << lsb,
            Reg::Short { lsb } => 7 << lsb,
        }
    }
    /// Bits of the word this operand determines, or None if the value cannot be encoded.
    pub fn put(self, v: Option<u32>) -> Option<(u32, u32)> {
        match (self, v) {
            (Reg::None, None) => Some((0, 0)),
            (Reg::Implied(n), Some(v)) if n == v => Some((0, 0)),
            (Reg::Field { lsb, len }, Some(v)) if v <= ones(len) => Some((self.bits(), v << lsb)),
            (Reg::Short { lsb }, Some(v)) if (8..16).contains(&v) => {
                Some((self.bits(), (v - 8) << lsb))
            }
            _ => None,
        }
    }
}

impl Imm {
    #[inline]
    pub fn get(&self, w: u32) -> Option<i32> {
        if !self.present {
            return None;
        }
        let mut v: u32 = 0;
        for &(wl, n, il) in &self.segs {
            v |= ((w >> wl) & ones(n)) << il;
        }
        if self.signed && self.bits < 32 && (v >> (self.bits - 1)) & 1 == 1 {
            v |= !ones(self.bits);
        }
        Some(v as i32)
    }
    pub fn word_bits(&self) -> u32 {
        self.segs
            .iter()
            .fold(0, |a, &(wl, n, _)| a | (ones(n) << wl))
    }
    pub fn put(&self, v: Option<i32>) -> Option<(u32, u32)> {
        match (self.present, v) {
            (false, None) => Some((0, 0)),
            (true, Some(v)) => {
                let mut w = 0;
                for &(wl, n, il) in &self.segs {
                    w |= ((v as u32 >> il) & ones(n)) << wl;
                }
                // The value must survive the trip: in range, aligned, right sign.
                (self.get(w) == Some(v)).then(|| (self.word_bits(), w))
            }
            _ => None,
        }
    }
}

impl Enc {
    #[inline]
    pub fn matches(&self, w: u32) -> bool {
        w & self.mask == self.value && self.only.map_or(true, |f| f(w))
    }
    #[inline]
    pub fn fields(&self, w: u32) -> Fields {
        Fields {
            rd: self.rd.get(w),
            rs1: self.rs1.get(w),
            rs2: self.rs2.get(w),
            imm: self.imm.get(w),
        }
    }
    /// Encode operands; None when they do not fit this encoding or contradict each other.
    pub fn encode(&self, f: &Fields) -> Option<u32> {
        let mut mask = self.mask;
        let mut word = self.value;
        for (m, v) in [
            self.rd.put(f.rd)?,
            self.rs1.put(f.rs1)?,
            self.rs2.put(f.rs2)?,
            self.imm.put(f.imm)?,
        ] {
            if (word ^ v) & (mask & m) != 0 {
                return None;
            }
            mask |= m;
            word |= v;
        }
        Some(word)
    }
}

pub struct Model {
    pub encs: Vec<Enc>,
    /// By opcode7 * 8 + funct3.
    b32: [Vec<Vec<usize>>; 2],
    /// Complete table for halfwords.
    t16: [Vec<u16>; 2],
    /// Encodings of an opcode, per ISA.
    by_op: [Vec<Vec<usize>>; 2],
    pub only64: Vec<bool>,
    pub only32: Vec<bool>,
}

fn x(i: X) -> usize {
    match i {
        X::Rv32 => 0,
        X::Rv64 => 1,
    }
}

impl Model {
    pub fn new() -> Model {
        let mut encs: Vec<Enc> = Vec::new();
        for &(mnem, isas, fixed, rd, rs1, rs2, im) in ROWS {
            let op = OPS
                .iter()
                .position(|o| o.mnem == mnem)
                .unwrap_or_else(|| panic!("no opcode {mnem}"));
            let width = OPS[op].width;
            let (mut mask, mut value) = (0u32, 0u32);
            for f in fixed.split(' ') {
                let (r, v) = f.split_once('=').unwrap();
                let (lsb, len) = range(r);
                let v = number(v);
                assert!(
                    v <= ones(len) && mask & (ones(len) << lsb) == 0,
                    "{mnem}: {f}"
                );
                mask |= ones(len) << lsb;
                value |= v << lsb;
            }
            let mut e = Enc {
                op,
                width,
                isas,
                mask,
                value,
                rd: reg(rd),
                rs1: reg(rs1),
                rs2: reg(rs2),
                imm: imm(im),
                hidden: 0,
                only: None,
            };
            if mnem == "ssrdp" {
                e.only = Some(|w| (w >> 7) & 31 != 0);
            }
            // The all-zero halfword is defined to be illegal.
            if mnem == "C.addi4spn" {
                e.only = Some(|w| w & 0xffff != 0);
            }
            let used = mask | e.rd.bits() | e.rs1.bits() | e.rs2.bits() | e.imm.word_bits();
            e.hidden = ones(width) & !used;
            let expect_hidden = if mnem.starts_with("ssamoswap") {
                0x0600_0000
            } else {
                0
            };
            assert_eq!(e.hidden, expect_hidden, "{mnem}");
            encs.push(e);
        }
        let mut b32 = [vec![Vec::new(); 1024], vec![Vec::new(); 1024]];
        let mut t16 = [vec![u16::MAX; 65536], vec![u16::MAX; 65536]];
        let mut by_op = [vec![Vec::new(); OPS.len()], vec![Vec::new(); OPS.len()]];
        for isa in ISAS {
            let mut order: Vec<usize> = (0..encs.len())
                .filter(|&i| encs[i].isas.contains(&isa))
                .collect();
            order.sort_by_key(|&i| std::cmp::Reverse(encs[i].mask.count_ones()));
            for &i in &order {
                by_op[x(isa)][encs[i].op].push(i);
                if encs[i].width == 16 {
                    for w in 0..65536u32 {
                        let t = &mut t16[x(isa)][w as usize];
                        if *t == u16::MAX && encs[i].matches(w) {
                            *t = i as u16;
                        }
                    }
                } else {
                    let op7 = encs[i].value & 0x7f;
                    for f3 in 0..8 {
                        let m3 = encs[i].mask & 0x7000;
                        if (f3 << 12) & m3 == encs[i].value & 0x7000 {
                            b32[x(isa)][(op7 * 8 + f3) as usize].push(i);
                        }
                    }
                }
            }
        }
        let has = |isa: X, op: usize| encs.iter().any(|e| e.op == op && e.isas.contains(&isa));
        let only64 = (0..OPS.len()).map(|o| !has(X::Rv32, o)).collect();
        let only32 = (0..OPS.len()).map(|o| !has(X::Rv64, o)).collect();
        Model {
            encs,
            b32,
            t16,
            by_op,
            only64,
            only32,
        }
    }

    #[inline]
    pub fn decode32(&self, w: u32, isa: X) -> Option<&Enc> {
        let b = ((w & 0x7f) * 8 + ((w >> 12) & 7)) as usize;
        self.b32[x(isa)][b]
            .iter()
            .map(|&i| &self.encs[i])
            .find(|e| e.matches(w))
    }
    #[inline]
    pub fn decode16(&self, w: u16, isa: X) -> Option<&Enc> {
        let i = self.t16[x(isa)][w as usize];
        (i != u16::MAX).then(|| &self.encs[i as usize])
    }
    pub fn decode(&self, width: u32, w: u32, isa: X) -> Option<&Enc> {
        if width == 16 {
            self.decode16(w as u16, isa)
        } else {
            self.decode32(w, isa)
        }
    }
    /// The operand layout of an opcode on an ISA (that of the other ISA when it has none there).
    #[inline]
    pub fn layout(&self, op: usize, isa: X) -> Option<&Enc> {
        if op == UNKNOWN {
            return None;
        }
        self.by_op[x(isa)][op]
            .first()
            .or_else(|| self.by_op[1 - x(isa)][op].first())
            .map(|&i| &self.encs[i])
    }
    /// All encodings of an opcode on an ISA.
    pub fn encodings(&self, op: usize, isa: X) -> impl Iterator<Item = &Enc> {
        let v: &[usize] = if op == UNKNOWN {
            &[]
        } else {
            &self.by_op[x(isa)][op]
        };
        v.iter().map(move |&i| &self.encs[i])
    }
    pub fn op(&self, mnem: &str) -> usize {
        OPS.iter()
            .position(|o| o.mnem == mnem)
            .unwrap_or_else(|| panic!("no opcode {mnem}"))
    }
}
