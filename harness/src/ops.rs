// Generated by tools/gen_ops.py.
use raki::*;

pub struct Op {
    pub kind: &'static str,
    pub variant: &'static str,
    pub mnem: &'static str,
    pub width: u32,
}

pub const UNKNOWN: usize = usize::MAX;

pub static OPS: &[Op] = &[
    Op {
        kind: "BaseI",
        variant: "LUI",
        mnem: "lui",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "AUIPC",
        mnem: "auipc",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "JAL",
        mnem: "jal",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "JALR",
        mnem: "jalr",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LB",
        mnem: "lb",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LH",
        mnem: "lh",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LW",
        mnem: "lw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LBU",
        mnem: "lbu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LHU",
        mnem: "lhu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ADDI",
        mnem: "addi",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLTI",
        mnem: "slti",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLTIU",
        mnem: "sltiu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "XORI",
        mnem: "xori",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ORI",
        mnem: "ori",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ANDI",
        mnem: "andi",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LWU",
        mnem: "lwu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "LD",
        mnem: "ld",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ADDIW",
        mnem: "addiw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BEQ",
        mnem: "beq",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BNE",
        mnem: "bne",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BLT",
        mnem: "blt",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BGE",
        mnem: "bge",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BLTU",
        mnem: "bltu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "BGEU",
        mnem: "bgeu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SB",
        mnem: "sb",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SH",
        mnem: "sh",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SW",
        mnem: "sw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SD",
        mnem: "sd",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLLI",
        mnem: "slli",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRLI",
        mnem: "srli",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRAI",
        mnem: "srai",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLLIW",
        mnem: "slliw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRLIW",
        mnem: "srliw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRAIW",
        mnem: "sraiw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ADD",
        mnem: "add",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SUB",
        mnem: "sub",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLL",
        mnem: "sll",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLT",
        mnem: "slt",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLTU",
        mnem: "sltu",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "XOR",
        mnem: "xor",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRL",
        mnem: "srl",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRA",
        mnem: "sra",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "OR",
        mnem: "or",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "AND",
        mnem: "and",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ADDW",
        mnem: "addw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SUBW",
        mnem: "subw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SLLW",
        mnem: "sllw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRLW",
        mnem: "srlw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "SRAW",
        mnem: "sraw",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "ECALL",
        mnem: "ecall",
        width: 32,
    },
    Op {
        kind: "BaseI",
        variant: "EBREAK",
        mnem: "ebreak",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "MUL",
        mnem: "mul",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "MULH",
        mnem: "mulh",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "MULHSU",
        mnem: "mulhsu",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "MULHU",
        mnem: "mulhu",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "DIV",
        mnem: "div",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "DIVU",
        mnem: "divu",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "REM",
        mnem: "rem",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "REMU",
        mnem: "remu",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "MULW",
        mnem: "mulw",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "DIVW",
        mnem: "divw",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "DIVUW",
        mnem: "divuw",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "REMW",
        mnem: "remw",
        width: 32,
    },
    Op {
        kind: "M",
        variant: "REMUW",
        mnem: "remuw",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "LR_W",
        mnem: "lr.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "LR_D",
        mnem: "lr.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "SC_W",
        mnem: "sc.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOSWAP_W",
        mnem: "amoswap.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOADD_W",
        mnem: "amoadd.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOXOR_W",
        mnem: "amoxor.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOAND_W",
        mnem: "amoand.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOOR_W",
        mnem: "amoor.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMIN_W",
        mnem: "amomin.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMAX_W",
        mnem: "amomax.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMINU_W",
        mnem: "amominu.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMAXU_W",
        mnem: "amomaxu.w",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "SC_D",
        mnem: "sc.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOSWAP_D",
        mnem: "amoswap.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOADD_D",
        mnem: "amoadd.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOXOR_D",
        mnem: "amoxor.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOAND_D",
        mnem: "amoand.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOOR_D",
        mnem: "amoor.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMIN_D",
        mnem: "amomin.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMAX_D",
        mnem: "amomax.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMINU_D",
        mnem: "amominu.d",
        width: 32,
    },
    Op {
        kind: "A",
        variant: "AMOMAXU_D",
        mnem: "amomaxu.d",
        width: 32,
    },
    Op {
        kind: "C",
        variant: "ADDI4SPN",
        mnem: "C.addi4spn",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LW",
        mnem: "C.lw",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LD",
        mnem: "C.ld",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SW",
        mnem: "C.sw",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SD",
        mnem: "C.sd",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "NOP",
        mnem: "C.nop",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "EBREAK",
        mnem: "C.ebreak",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "JAL",
        mnem: "C.jal",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "J",
        mnem: "C.j",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ADDI",
        mnem: "C.addi",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LI",
        mnem: "C.li",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ADDI16SP",
        mnem: "C.addi16sp",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LUI",
        mnem: "C.lui",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ADDIW",
        mnem: "C.addiw",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SLLI",
        mnem: "C.slli",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LWSP",
        mnem: "C.lwsp",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "LDSP",
        mnem: "C.ldsp",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SRLI",
        mnem: "C.srli",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SRAI",
        mnem: "C.srai",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ANDI",
        mnem: "C.andi",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "BEQZ",
        mnem: "C.beqz",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "BNEZ",
        mnem: "C.bnez",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SUB",
        mnem: "C.sub",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "XOR",
        mnem: "C.xor",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "OR",
        mnem: "C.or",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "AND",
        mnem: "C.and",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SUBW",
        mnem: "C.subw",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ADDW",
        mnem: "C.addw",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "JR",
        mnem: "C.jr",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "MV",
        mnem: "C.mv",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "JALR",
        mnem: "C.jalr",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "ADD",
        mnem: "C.add",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SWSP",
        mnem: "C.swsp",
        width: 16,
    },
    Op {
        kind: "C",
        variant: "SDSP",
        mnem: "C.sdsp",
        width: 16,
    },
    Op {
        kind: "Zifencei",
        variant: "FENCE",
        mnem: "fence",
        width: 32,
    },
    Op {
        kind: "Zifencei",
        variant: "FENCE_I",
        mnem: "fence.i",
        width: 32,
    },
    Op {
        kind: "Zicboz",
        variant: "CBO_ZERO",
        mnem: "cbo.zero",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRW",
        mnem: "csrrw",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRS",
        mnem: "csrrs",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRC",
        mnem: "csrrc",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRWI",
        mnem: "csrrwi",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRSI",
        mnem: "csrrsi",
        width: 32,
    },
    Op {
        kind: "Zicsr",
        variant: "CSRRCI",
        mnem: "csrrci",
        width: 32,
    },
    Op {
        kind: "Zicfiss",
        variant: "SSPUSH",
        mnem: "sspush",
        width: 32,
    },
    Op {
        kind: "Zicfiss",
        variant: "SSPOPCHK",
        mnem: "sspopchk",
        width: 32,
    },
    Op {
        kind: "Zicfiss",
        variant: "SSRDP",
        mnem: "ssrdp",
        width: 32,
    },
    Op {
        kind: "Zicfiss",
        variant: "C_SSPUSH",
        mnem: "c.sspush",
        width: 16,
    },
    Op {
        kind: "Zicfiss",
        variant: "C_SSPOPCHK",
        mnem: "c.sspopchk",
        width: 16,
    },
    Op {
        kind: "Zicfiss",
        variant: "SSAMOSWAP_W",
        mnem: "ssamoswap.w",
        width: 32,
    },
    Op {
        kind: "Zicfiss",
        variant: "SSAMOSWAP_D",
        mnem: "ssamoswap.d",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDCYCLE",
        mnem: "rdcycle",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDTIME",
        mnem: "rdtime",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDINSTRET",
        mnem: "rdinstret",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDCYCLE_H",
        mnem: "rdcycleh",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDTIME_H",
        mnem: "rdtimeh",
        width: 32,
    },
    Op {
        kind: "Zicntr",
        variant: "RDINSTRET_H",
        mnem: "rdinstreth",
        width: 32,
    },
    Op {
        kind: "Priv",
        variant: "MRET",
        mnem: "mret",
        width: 32,
    },
    Op {
        kind: "Priv",
        variant: "SRET",
        mnem: "sret",
        width: 32,
    },
    Op {
        kind: "Priv",
        variant: "WFI",
        mnem: "wfi",
        width: 32,
    },
    Op {
        kind: "Priv",
        variant: "SFENCE_VMA",
        mnem: "sfence.vma",
        width: 32,
    },
];

/// Number of an opcode; UNKNOWN for a variant this table does not list.
#[allow(unreachable_patterns)]
#[inline]
pub fn id_of(o: &OpcodeKind) -> usize {
    match o {
        OpcodeKind::BaseI(BaseIOpcode::LUI) => 0,
        OpcodeKind::BaseI(BaseIOpcode::AUIPC) => 1,
        OpcodeKind::BaseI(BaseIOpcode::JAL) => 2,
        OpcodeKind::BaseI(BaseIOpcode::JALR) => 3,
        OpcodeKind::BaseI(BaseIOpcode::LB) => 4,
        OpcodeKind::BaseI(BaseIOpcode::LH) => 5,
        OpcodeKind::BaseI(BaseIOpcode::LW) => 6,
        OpcodeKind::BaseI(BaseIOpcode::LBU) => 7,
        OpcodeKind::BaseI(BaseIOpcode::LHU) => 8,
        OpcodeKind::BaseI(BaseIOpcode::ADDI) => 9,
        OpcodeKind::BaseI(BaseIOpcode::SLTI) => 10,
        OpcodeKind::BaseI(BaseIOpcode::SLTIU) => 11,
        OpcodeKind::BaseI(BaseIOpcode::XORI) => 12,
        OpcodeKind::BaseI(BaseIOpcode::ORI) => 13,
        OpcodeKind::BaseI(BaseIOpcode::ANDI) => 14,
        OpcodeKind::BaseI(BaseIOpcode::LWU) => 15,
        OpcodeKind::BaseI(BaseIOpcode::LD) => 16,
        OpcodeKind::BaseI(BaseIOpcode::ADDIW) => 17,
        OpcodeKind::BaseI(BaseIOpcode::BEQ) => 18,
        OpcodeKind::BaseI(BaseIOpcode::BNE) => 19,
        OpcodeKind::BaseI(BaseIOpcode::BLT) => 20,
        OpcodeKind::BaseI(BaseIOpcode::BGE) => 21,
        OpcodeKind::BaseI(BaseIOpcode::BLTU) => 22,
        OpcodeKind::BaseI(BaseIOpcode::BGEU) => 23,
        OpcodeKind::BaseI(BaseIOpcode::SB) => 24,
        OpcodeKind::BaseI(BaseIOpcode::SH) => 25,
        OpcodeKind::BaseI(BaseIOpcode::SW) => 26,
        OpcodeKind::BaseI(BaseIOpcode::SD) => 27,
        OpcodeKind::BaseI(BaseIOpcode::SLLI) => 28,
        OpcodeKind::BaseI(BaseIOpcode::SRLI) => 29,
        OpcodeKind::BaseI(BaseIOpcode::SRAI) => 30,
        OpcodeKind::BaseI(BaseIOpcode::SLLIW) => 31,
        OpcodeKind::BaseI(BaseIOpcode::SRLIW) => 32,
        OpcodeKind::BaseI(BaseIOpcode::SRAIW) => 33,
        OpcodeKind::BaseI(BaseIOpcode::ADD) => 34,
        OpcodeKind::BaseI(BaseIOpcode::SUB) => 35,
        OpcodeKind::BaseI(BaseIOpcode::SLL) => 36,
        OpcodeKind::BaseI(BaseIOpcode::SLT) => 37,
        OpcodeKind::BaseI(BaseIOpcode::SLTU) => 38,
        OpcodeKind::BaseI(BaseIOpcode::XOR) => 39,
        OpcodeKind::BaseI(BaseIOpcode::SRL) => 40,
        OpcodeKind::BaseI(BaseIOpcode::SRA) => 41,
        OpcodeKind::BaseI(BaseIOpcode::OR) => 42,
        OpcodeKind::BaseI(BaseIOpcode::AND) => 43,
        OpcodeKind::BaseI(BaseIOpcode::ADDW) => 44,
        OpcodeKind::BaseI(BaseIOpcode::SUBW) => 45,
        OpcodeKind::BaseI(BaseIOpcode::SLLW) => 46,
        OpcodeKind::BaseI(BaseIOpcode::SRLW) => 47,
        OpcodeKind::BaseI(BaseIOpcode::SRAW) => 48,
        OpcodeKind::BaseI(BaseIOpcode::ECALL) => 49,
        OpcodeKind::BaseI(BaseIOpcode::EBREAK) => 50,
        OpcodeKind::M(MOpcode::MUL) => 51,
        OpcodeKind::M(MOpcode::MULH) => 52,
        OpcodeKind::M(MOpcode::MULHSU) => 53,
        OpcodeKind::M(MOpcode::MULHU) => 54,
        OpcodeKind::M(MOpcode::DIV) => 55,
        OpcodeKind::M(MOpcode::DIVU) => 56,
        OpcodeKind::M(MOpcode::REM) => 57,
        OpcodeKind::M(MOpcode::REMU) => 58,
        OpcodeKind::M(MOpcode::MULW) => 59,
        OpcodeKind::M(MOpcode::DIVW) => 60,
        OpcodeKind::M(MOpcode::DIVUW) => 61,
        OpcodeKind::M(MOpcode::REMW) => 62,
        OpcodeKind::M(MOpcode::REMUW) => 63,
        OpcodeKind::A(AOpcode::LR_W) => 64,
        OpcodeKind::A(AOpcode::LR_D) => 65,
        OpcodeKind::A(AOpcode::SC_W) => 66,
        OpcodeKind::A(AOpcode::AMOSWAP_W) => 67,
        OpcodeKind::A(AOpcode::AMOADD_W) => 68,
        OpcodeKind::A(AOpcode::AMOXOR_W) => 69,
        OpcodeKind::A(AOpcode::AMOAND_W) => 70,
        OpcodeKind::A(AOpcode::AMOOR_W) => 71,
        OpcodeKind::A(AOpcode::AMOMIN_W) => 72,
        OpcodeKind::A(AOpcode::AMOMAX_W) => 73,
        OpcodeKind::A(AOpcode::AMOMINU_W) => 74,
        OpcodeKind::A(AOpcode::AMOMAXU_W) => 75,
        OpcodeKind::A(AOpcode::SC_D) => 76,
        OpcodeKind::A(AOpcode::AMOSWAP_D) => 77,
        OpcodeKind::A(AOpcode::AMOADD_D) => 78,
        OpcodeKind::A(AOpcode::AMOXOR_D) => 79,
        OpcodeKind::A(AOpcode::AMOAND_D) => 80,
        OpcodeKind::A(AOpcode::AMOOR_D) => 81,
        OpcodeKind::A(AOpcode::AMOMIN_D) => 82,
        OpcodeKind::A(AOpcode::AMOMAX_D) => 83,
        OpcodeKind::A(AOpcode::AMOMINU_D) => 84,
        OpcodeKind::A(AOpcode::AMOMAXU_D) => 85,
        OpcodeKind::C(COpcode::ADDI4SPN) => 86,
        OpcodeKind::C(COpcode::LW) => 87,
        OpcodeKind::C(COpcode::LD) => 88,
        OpcodeKind::C(COpcode::SW) => 89,
        OpcodeKind::C(COpcode::SD) => 90,
        OpcodeKind::C(COpcode::NOP) => 91,
        OpcodeKind::C(COpcode::EBREAK) => 92,
        OpcodeKind::C(COpcode::JAL) => 93,
        OpcodeKind::C(COpcode::J) => 94,
        OpcodeKind::C(COpcode::ADDI) => 95,
        OpcodeKind::C(COpcode::LI) => 96,
        OpcodeKind::C(COpcode::ADDI16SP) => 97,
        OpcodeKind::C(COpcode::LUI) => 98,
        OpcodeKind::C(COpcode::ADDIW) => 99,
        OpcodeKind::C(COpcode::SLLI) => 100,
        OpcodeKind::C(COpcode::LWSP) => 101,
        OpcodeKind::C(COpcode::LDSP) => 102,
        OpcodeKind::C(COpcode::SRLI) => 103,
        OpcodeKind::C(COpcode::SRAI) => 104,
        OpcodeKind::C(COpcode::ANDI) => 105,
        OpcodeKind::C(COpcode::BEQZ) => 106,
        OpcodeKind::C(COpcode::BNEZ) => 107,
        OpcodeKind::C(COpcode::SUB) => 108,
        OpcodeKind::C(COpcode::XOR) => 109,
        OpcodeKind::C(COpcode::OR) => 110,
        OpcodeKind::C(COpcode::AND) => 111,
        OpcodeKind::C(COpcode::SUBW) => 112,
        OpcodeKind::C(COpcode::ADDW) => 113,
        OpcodeKind::C(COpcode::JR) => 114,
        OpcodeKind::C(COpcode::MV) => 115,
        OpcodeKind::C(COpcode::JALR) => 116,
        OpcodeKind::C(COpcode::ADD) => 117,
        OpcodeKind::C(COpcode::SWSP) => 118,
        OpcodeKind::C(COpcode::SDSP) => 119,
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) => 120,
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE_I) => 121,
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) => 122,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) => 123,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) => 124,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => 125,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) => 126,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) => 127,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => 128,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => 129,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => 130,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) => 131,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) => 132,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => 133,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) => 134,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => 135,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) => 136,
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) => 137,
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) => 138,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) => 139,
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) => 140,
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) => 141,
        OpcodeKind::Priv(PrivOpcode::MRET) => 142,
        OpcodeKind::Priv(PrivOpcode::SRET) => 143,
        OpcodeKind::Priv(PrivOpcode::WFI) => 144,
        OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => 145,
        _ => UNKNOWN,
    }
}

pub fn make(id: usize) -> OpcodeKind {
    match id {
        0 => OpcodeKind::BaseI(BaseIOpcode::LUI),
        1 => OpcodeKind::BaseI(BaseIOpcode::AUIPC),
        2 => OpcodeKind::BaseI(BaseIOpcode::JAL),
        3 => OpcodeKind::BaseI(BaseIOpcode::JALR),
        4 => OpcodeKind::BaseI(BaseIOpcode::LB),
        5 => OpcodeKind::BaseI(BaseIOpcode::LH),
        6 => OpcodeKind::BaseI(BaseIOpcode::LW),
        7 => OpcodeKind::BaseI(BaseIOpcode::LBU),
        8 => OpcodeKind::BaseI(BaseIOpcode::LHU),
        9 => OpcodeKind::BaseI(BaseIOpcode::ADDI),
        10 => OpcodeKind::BaseI(BaseIOpcode::SLTI),
        11 => OpcodeKind::BaseI(BaseIOpcode::SLTIU),
        12 => OpcodeKind::BaseI(BaseIOpcode::XORI),
        13 => OpcodeKind::BaseI(BaseIOpcode::ORI),
        14 => OpcodeKind::BaseI(BaseIOpcode::ANDI),
        15 => OpcodeKind::BaseI(BaseIOpcode::LWU),
        16 => OpcodeKind::BaseI(BaseIOpcode::LD),
        17 => OpcodeKind::BaseI(BaseIOpcode::ADDIW),
        18 => OpcodeKind::BaseI(BaseIOpcode::BEQ),
        19 => OpcodeKind::BaseI(BaseIOpcode::BNE),
        20 => OpcodeKind::BaseI(BaseIOpcode::BLT),
        21 => OpcodeKind::BaseI(BaseIOpcode::BGE),
        22 => OpcodeKind::BaseI(BaseIOpcode::BLTU),
        23 => OpcodeKind::BaseI(BaseIOpcode::BGEU),
        24 => OpcodeKind::BaseI(BaseIOpcode::SB),
        25 => OpcodeKind::BaseI(BaseIOpcode::SH),
        26 => OpcodeKind::BaseI(BaseIOpcode::SW),
        27 => OpcodeKind::BaseI(BaseIOpcode::SD),
        28 => OpcodeKind::BaseI(BaseIOpcode::SLLI),
        29 => OpcodeKind::BaseI(BaseIOpcode::SRLI),
        30 => OpcodeKind::BaseI(BaseIOpcode::SRAI),
        31 => OpcodeKind::BaseI(BaseIOpcode::SLLIW),
        32 => OpcodeKind::BaseI(BaseIOpcode::SRLIW),
        33 => OpcodeKind::BaseI(BaseIOpcode::SRAIW),
        34 => OpcodeKind::BaseI(BaseIOpcode::ADD),
        35 => OpcodeKind::BaseI(BaseIOpcode::SUB),
        36 => OpcodeKind::BaseI(BaseIOpcode::SLL),
        37 => OpcodeKind::BaseI(BaseIOpcode::SLT),
        38 => OpcodeKind::BaseI(BaseIOpcode::SLTU),
        39 => OpcodeKind::BaseI(BaseIOpcode::XOR),
        40 => OpcodeKind::BaseI(BaseIOpcode::SRL),
        41 => OpcodeKind::BaseI(BaseIOpcode::SRA),
        42 => OpcodeKind::BaseI(BaseIOpcode::OR),
        43 => OpcodeKind::BaseI(BaseIOpcode::AND),
        44 => OpcodeKind::BaseI(BaseIOpcode::ADDW),
        45 => OpcodeKind::BaseI(BaseIOpcode::SUBW),
        46 => OpcodeKind::BaseI(BaseIOpcode::SLLW),
        47 => OpcodeKind::BaseI(BaseIOpcode::SRLW),
        48 => OpcodeKind::BaseI(BaseIOpcode::SRAW),
        49 => OpcodeKind::BaseI(BaseIOpcode::ECALL),
        50 => OpcodeKind::BaseI(BaseIOpcode::EBREAK),
        51 => OpcodeKind::M(MOpcode::MUL),
        52 => OpcodeKind::M(MOpcode::MULH),
        53 => OpcodeKind::M(MOpcode::MULHSU),
        54 => OpcodeKind::M(MOpcode::MULHU),
        55 => OpcodeKind::M(MOpcode::DIV),
        56 => OpcodeKind::M(MOpcode::DIVU),
        57 => OpcodeKind::M(MOpcode::REM),
        58 => OpcodeKind::M(MOpcode::REMU),
        59 => OpcodeKind::M(MOpcode::MULW),
        60 => OpcodeKind::M(MOpcode::DIVW),
        61 => OpcodeKind::M(MOpcode::DIVUW),
        62 => OpcodeKind::M(MOpcode::REMW),
        63 => OpcodeKind::M(MOpcode::REMUW),
        64 => OpcodeKind::A(AOpcode::LR_W),
        65 => OpcodeKind::A(AOpcode::LR_D),
        66 => OpcodeKind::A(AOpcode::SC_W),
        67 => OpcodeKind::A(AOpcode::AMOSWAP_W),
        68 => OpcodeKind::A(AOpcode::AMOADD_W),
        69 => OpcodeKind::A(AOpcode::AMOXOR_W),
        70 => OpcodeKind::A(AOpcode::AMOAND_W),
        71 => OpcodeKind::A(AOpcode::AMOOR_W),
        72 => OpcodeKind::A(AOpcode::AMOMIN_W),
        73 => OpcodeKind::A(AOpcode::AMOMAX_W),
        74 => OpcodeKind::A(AOpcode::AMOMINU_W),
        75 => OpcodeKind::A(AOpcode::AMOMAXU_W),
        76 => OpcodeKind::A(AOpcode::SC_D),
        77 => OpcodeKind::A(AOpcode::AMOSWAP_D),
        78 => OpcodeKind::A(AOpcode::AMOADD_D),
        79 => OpcodeKind::A(AOpcode::AMOXOR_D),
        80 => OpcodeKind::A(AOpcode::AMOAND_D),
        81 => OpcodeKind::A(AOpcode::AMOOR_D),
        82 => OpcodeKind::A(AOpcode::AMOMIN_D),
        83 => OpcodeKind::A(AOpcode::AMOMAX_D),
        84 => OpcodeKind::A(AOpcode::AMOMINU_D),
        85 => OpcodeKind::A(AOpcode::AMOMAXU_D),
        86 => OpcodeKind::C(COpcode::ADDI4SPN),
        87 => OpcodeKind::C(COpcode::LW),
        88 => OpcodeKind::C(COpcode::LD),
        89 => OpcodeKind::C(COpcode::SW),
        90 => OpcodeKind::C(COpcode::SD),
        91 => OpcodeKind::C(COpcode::NOP),
        92 => OpcodeKind::C(COpcode::EBREAK),
        93 => OpcodeKind::C(COpcode::JAL),
        94 => OpcodeKind::C(COpcode::J),
        95 => OpcodeKind::C(COpcode::ADDI),
        96 => OpcodeKind::C(COpcode::LI),
        97 => OpcodeKind::C(COpcode::ADDI16SP),
        98 => OpcodeKind::C(COpcode::LUI),
        99 => OpcodeKind::C(COpcode::ADDIW),
        100 => OpcodeKind::C(COpcode::SLLI),
        101 => OpcodeKind::C(COpcode::LWSP),
        102 => OpcodeKind::C(COpcode::LDSP),
        103 => OpcodeKind::C(COpcode::SRLI),
        104 => OpcodeKind::C(COpcode::SRAI),
        105 => OpcodeKind::C(COpcode::ANDI),
        106 => OpcodeKind::C(COpcode::BEQZ),
        107 => OpcodeKind::C(COpcode::BNEZ),
        108 => OpcodeKind::C(COpcode::SUB),
        109 => OpcodeKind::C(COpcode::XOR),
        110 => OpcodeKind::C(COpcode::OR),
        111 => OpcodeKind::C(COpcode::AND),
        112 => OpcodeKind::C(COpcode::SUBW),
        113 => OpcodeKind::C(COpcode::ADDW),
        114 => OpcodeKind::C(COpcode::JR),
        115 => OpcodeKind::C(COpcode::MV),
        116 => OpcodeKind::C(COpcode::JALR),
        117 => OpcodeKind::C(COpcode::ADD),
        118 => OpcodeKind::C(COpcode::SWSP),
        119 => OpcodeKind::C(COpcode::SDSP),
        120 => OpcodeKind::Zifencei(ZifenceiOpcode::FENCE),
        121 => OpcodeKind::Zifencei(ZifenceiOpcode::FENCE_I),
        122 => OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO),
        123 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRW),
        124 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRS),
        125 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRC),
        126 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI),
        127 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI),
        128 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI),
        129 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH),
        130 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK),
        131 => OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP),
        132 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH),
        133 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK),
        134 => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W),
        135 => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D),
        136 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE),
        137 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME),
        138 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET),
        139 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H),
        140 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H),
        141 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H),
        142 => OpcodeKind::Priv(PrivOpcode::MRET),
        143 => OpcodeKind::Priv(PrivOpcode::SRET),
        144 => OpcodeKind::Priv(PrivOpcode::WFI),
        145 => OpcodeKind::Priv(PrivOpcode::SFENCE_VMA),
        _ => panic!("harness: bad opcode id"),
    }
}

pub fn format_of(id: usize) -> InstFormat {
    match id {
        0 => InstFormat::UFormat,
        1 => InstFormat::UFormat,
        2 => InstFormat::JFormat,
        3 => InstFormat::IFormat,
        4 => InstFormat::IFormat,
        5 => InstFormat::IFormat,
        6 => InstFormat::IFormat,
        7 => InstFormat::IFormat,
        8 => InstFormat::IFormat,
        9 => InstFormat::IFormat,
        10 => InstFormat::IFormat,
        11 => InstFormat::IFormat,
        12 => InstFormat::IFormat,
        13 => InstFormat::IFormat,
        14 => InstFormat::IFormat,
        15 => InstFormat::IFormat,
        16 => InstFormat::IFormat,
        17 => InstFormat::IFormat,
        18 => InstFormat::BFormat,
        19 => InstFormat::BFormat,
        20 => InstFormat::BFormat,
        21 => InstFormat::BFormat,
        22 => InstFormat::BFormat,
        23 => InstFormat::BFormat,
        24 => InstFormat::SFormat,
        25 => InstFormat::SFormat,
        26 => InstFormat::SFormat,
        27 => InstFormat::SFormat,
        28 => InstFormat::RShamtFormat,
        29 => InstFormat::RShamtFormat,
        30 => InstFormat::RShamtFormat,
        31 => InstFormat::RShamtFormat,
        32 => InstFormat::RShamtFormat,
        33 => InstFormat::RShamtFormat,
        34 => InstFormat::RFormat,
        35 => InstFormat::RFormat,
        36 => InstFormat::RFormat,
        37 => InstFormat::RFormat,
        38 => InstFormat::RFormat,
        39 => InstFormat::RFormat,
        40 => InstFormat::RFormat,
        41 => InstFormat::RFormat,
        42 => InstFormat::RFormat,
        43 => InstFormat::RFormat,
        44 => InstFormat::RFormat,
        45 => InstFormat::RFormat,
        46 => InstFormat::RFormat,
        47 => InstFormat::RFormat,
        48 => InstFormat::RFormat,
        49 => InstFormat::NoOperand,
        50 => InstFormat::NoOperand,
        51 => InstFormat::MFormat,
        52 => InstFormat::MFormat,
        53 => InstFormat::MFormat,
        54 => InstFormat::MFormat,
        55 => InstFormat::MFormat,
        56 => InstFormat::MFormat,
        57 => InstFormat::MFormat,
        58 => InstFormat::MFormat,
        59 => InstFormat::MFormat,
        60 => InstFormat::MFormat,
        61 => InstFormat::MFormat,
        62 => InstFormat::MFormat,
        63 => InstFormat::MFormat,
        64 => InstFormat::ALrFormat,
        65 => InstFormat::ALrFormat,
        66 => InstFormat::AFormat,
        67 => InstFormat::AFormat,
        68 => InstFormat::AFormat,
        69 => InstFormat::AFormat,
        70 => InstFormat::AFormat,
        71 => InstFormat::AFormat,
        72 => InstFormat::AFormat,
        73 => InstFormat::AFormat,
        74 => InstFormat::AFormat,
        75 => InstFormat::AFormat,
        76 => InstFormat::AFormat,
        77 => InstFormat::AFormat,
        78 => InstFormat::AFormat,
        79 => InstFormat::AFormat,
        80 => InstFormat::AFormat,
        81 => InstFormat::AFormat,
        82 => InstFormat::AFormat,
        83 => InstFormat::AFormat,
        84 => InstFormat::AFormat,
        85 => InstFormat::AFormat,
        86 => InstFormat::CiwFormat,
        87 => InstFormat::ClFormat,
        88 => InstFormat::ClFormat,
        89 => InstFormat::CsFormat,
        90 => InstFormat::CsFormat,
        91 => InstFormat::NoOperand,
        92 => InstFormat::NoOperand,
        93 => InstFormat::CjFormat,
        94 => InstFormat::CjFormat,
        95 => InstFormat::CiFormat,
        96 => InstFormat::CiFormat,
        97 => InstFormat::CiFormat,
        98 => InstFormat::CiFormat,
        99 => InstFormat::CiFormat,
        100 => InstFormat::CiFormat,
        101 => InstFormat::CiFormat,
        102 => InstFormat::CiFormat,
        103 => InstFormat::CbFormat,
        104 => InstFormat::CbFormat,
        105 => InstFormat::CbFormat,
        106 => InstFormat::CbFormat,
        107 => InstFormat::CbFormat,
        108 => InstFormat::CaFormat,
        109 => InstFormat::CaFormat,
        110 => InstFormat::CaFormat,
        111 => InstFormat::CaFormat,
        112 => InstFormat::CaFormat,
        113 => InstFormat::CaFormat,
        114 => InstFormat::CrFormat,
        115 => InstFormat::CrFormat,
        116 => InstFormat::CrFormat,
        117 => InstFormat::CrFormat,
        118 => InstFormat::CssFormat,
        119 => InstFormat::CssFormat,
        120 => InstFormat::NoOperand,
        121 => InstFormat::NoOperand,
        122 => InstFormat::OnlyRs1,
        123 => InstFormat::CsrFormat,
        124 => InstFormat::CsrFormat,
        125 => InstFormat::CsrFormat,
        126 => InstFormat::CsrUiFormat,
        127 => InstFormat::CsrUiFormat,
        128 => InstFormat::CsrUiFormat,
        129 => InstFormat::OnlyRs2,
        130 => InstFormat::OnlyRs1,
        131 => InstFormat::OnlyRd,
        132 => InstFormat::OnlyRd,
        133 => InstFormat::OnlyRd,
        134 => InstFormat::AFormat,
        135 => InstFormat::AFormat,
        136 => InstFormat::OnlyRd,
        137 => InstFormat::OnlyRd,
        138 => InstFormat::OnlyRd,
        139 => InstFormat::OnlyRd,
        140 => InstFormat::OnlyRd,
        141 => InstFormat::OnlyRd,
        142 => InstFormat::NoOperand,
        143 => InstFormat::NoOperand,
        144 => InstFormat::NoOperand,
        145 => InstFormat::RFormat,
        _ => panic!("harness: bad opcode id"),
    }
}

/// Name of the extension family of an opcode.
#[allow(unreachable_patterns)]
pub fn kind_of(o: &OpcodeKind) -> &'static str {
    match o {
        OpcodeKind::BaseI(_) => "BaseI",
        OpcodeKind::M(_) => "M",
        OpcodeKind::A(_) => "A",
        OpcodeKind::C(_) => "C",
        OpcodeKind::Zifencei(_) => "Zifencei",
        OpcodeKind::Zicboz(_) => "Zicboz",
        OpcodeKind::Zicsr(_) => "Zicsr",
        OpcodeKind::Zicfiss(_) => "Zicfiss",
        OpcodeKind::Zicntr(_) => "Zicntr",
        OpcodeKind::Priv(_) => "Priv",
        _ => "?",
    }
}
