#!/usr/bin/env python3
"""Generates harness/src/ops.rs: the numbering of raki's opcodes, their standard
mnemonics and the encoding format each one is expected to report."""
import os
T = {
 "BaseI": ("BaseIOpcode", [
  ("UFormat", "LUI AUIPC"), ("JFormat", "JAL"),
  ("IFormat", "JALR LB LH LW LBU LHU ADDI SLTI SLTIU XORI ORI ANDI LWU LD ADDIW"),
  ("BFormat", "BEQ BNE BLT BGE BLTU BGEU"),
  ("SFormat", "SB SH SW SD"),
  ("RShamtFormat", "SLLI SRLI SRAI SLLIW SRLIW SRAIW"),
  ("RFormat", "ADD SUB SLL SLT SLTU XOR SRL SRA OR AND ADDW SUBW SLLW SRLW SRAW"),
  ("NoOperand", "ECALL EBREAK")]),
 "M": ("MOpcode", [("MFormat", "MUL MULH MULHSU MULHU DIV DIVU REM REMU MULW DIVW DIVUW REMW REMUW")]),
 "A": ("AOpcode", [
  ("ALrFormat", "LR_W LR_D"),
  ("AFormat", "SC_W AMOSWAP_W AMOADD_W AMOXOR_W AMOAND_W AMOOR_W AMOMIN_W AMOMAX_W AMOMINU_W AMOMAXU_W "
              "SC_D AMOSWAP_D AMOADD_D AMOXOR_D AMOAND_D AMOOR_D AMOMIN_D AMOMAX_D AMOMINU_D AMOMAXU_D")]),
 "C": ("COpcode", [
  ("CiwFormat", "ADDI4SPN"), ("ClFormat", "LW LD"), ("CsFormat", "SW SD"),
  ("NoOperand", "NOP EBREAK"), ("CjFormat", "JAL J"),
  ("CiFormat", "ADDI LI ADDI16SP LUI ADDIW SLLI LWSP LDSP"),
  ("CbFormat", "SRLI SRAI ANDI BEQZ BNEZ"),
  ("CaFormat", "SUB XOR OR AND SUBW ADDW"),
  ("CrFormat", "JR MV JALR ADD"), ("CssFormat", "SWSP SDSP")]),
 "Zifencei": ("ZifenceiOpcode", [("NoOperand", "FENCE FENCE_I")]),
 "Zicboz": ("ZicbozOpcode", [("OnlyRs1", "CBO_ZERO")]),
 "Zicsr": ("ZicsrOpcode", [("CsrFormat", "CSRRW CSRRS CSRRC"), ("CsrUiFormat", "CSRRWI CSRRSI CSRRCI")]),
 "Zicfiss": ("ZicfissOpcode", [("OnlyRs2", "SSPUSH"), ("OnlyRs1", "SSPOPCHK"), ("OnlyRd", "SSRDP C_SSPUSH C_SSPOPCHK"),
  ("AFormat", "SSAMOSWAP_W SSAMOSWAP_D")]),
 "Zicntr": ("ZicntrOpcode", [("OnlyRd", "RDCYCLE RDTIME RDINSTRET RDCYCLE_H RDTIME_H RDINSTRET_H")]),
 "Priv": ("PrivOpcode", [("NoOperand", "MRET SRET WFI"), ("RFormat", "SFENCE_VMA")]),
}
def mnem(k, v):
    if k == "Zicntr": return v.replace("_H", "H").lower()
    m = v.lower().replace("_", ".")
    return "C." + m if k == "C" else m
rows = []
for k, (en, groups) in T.items():
    for f, names in groups:
        for v in names.split():
            w = 16 if k == "C" or v.startswith("C_SS") else 32
            rows.append((k, en, v, mnem(k, v), f, w))
o = ["// Generated by tools/gen_ops.py.", "use raki::*;", "",
 "pub struct Op { pub kind: &'static str, pub variant: &'static str, pub mnem: &'static str, pub width: u32 }", "",
 "pub const UNKNOWN: usize = usize::MAX;", "", "pub static OPS: &[Op] = &["]
for k, en, v, m, f, w in rows:
    o.append(f'    Op {{ kind: "{k}", variant: "{v}", mnem: "{m}", width: {w} }},')
o += ["];", "", "/// Number of an opcode; UNKNOWN for a variant this table does not list.",
 "#[allow(unreachable_patterns)]", "#[inline]", "pub fn id_of(o: &OpcodeKind) -> usize {", "    match o {"]
for i, (k, en, v, m, f, w) in enumerate(rows):
    o.append(f"        OpcodeKind::{k}({en}::{v}) => {i},")
o += ["        _ => UNKNOWN,", "    }", "}", "", "pub fn make(id: usize) -> OpcodeKind {", "    match id {"]
for i, (k, en, v, m, f, w) in enumerate(rows):
    o.append(f"        {i} => OpcodeKind::{k}({en}::{v}),")
o += ['        _ => panic!("harness: bad opcode id"),', "    }", "}", "", "pub fn format_of(id: usize) -> InstFormat {", "    match id {"]
for i, (k, en, v, m, f, w) in enumerate(rows):
    o.append(f"        {i} => InstFormat::{f},")
o += ['        _ => panic!("harness: bad opcode id"),', "    }", "}", "",
 "/// Name of the extension family of an opcode.", "#[allow(unreachable_patterns)]",
 "pub fn kind_of(o: &OpcodeKind) -> &'static str {", "    match o {"]
for k in T: o.append(f'        OpcodeKind::{k}(_) => "{k}",')
o += ['        _ => "?",', "    }", "}", ""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/ops.rs"), "w").write("\n".join(o))
print(len(rows), "opcodes")
