#!/usr/bin/env python3
"""Compares the reference model of the harness with the RISC-V disassembler of LLVM.

A development aid, not a check: it needs llvm-mc and a built harness (target/release/raki-pbt).
Prints the kinds of disagreement with an example each; the ones in EXPECTED are explained there.
"""
import collections, os, re, subprocess, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABI = "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
NUM = {n: i for i, n in enumerate(ABI)}

# (model, llvm) mnemonics that differ for a reason.
EXPECTED = {
    "counter": "LLVM has no counter mnemonics without aliases: rd* is csrrs rd, <csr>, zero",
    "slot": "the model, like raki, does not enforce constraints on compressed operand values alone, "
            "and names the slot where LLVM names the hint or rejects",
    "fence": "LLVM rejects fences with reserved fields or prints fence.tso; raki accepts every field",
    "shift": "LLVM disassembles shifts by 32 or more on RV32, which the specification reserves",
    "unimp": "LLVM prints csrrw zero, cycle, zero as unimp even without aliases",
    "extra": "LLVM also decodes instructions of extensions that cannot be switched off",
}


def llvm(isa, words):
    lines = "".join("[" + " ".join(f"0x{b:02x}" for b in w.to_bytes(width // 8, "little")) + "]\n" for width, w in words)
    p = subprocess.run(
        ["llvm-mc", "--disassemble", "-triple=" + ("riscv32" if isa == "rv32" else "riscv64"),
         "-mattr=+m,+a,+c,+zicsr,+zifencei,+zicboz,+experimental-zicfiss,+experimental-zimop,+experimental-zcmop",
         "-M", "no-aliases"], input=lines, capture_output=True, text=True)
    bad = {int(n) - 1 for n in re.findall(r"<stdin>:(\d+):\d+: warning: invalid instruction", p.stderr)}
    out = [l.strip() for l in p.stdout.splitlines() if l.strip() and not l.strip().startswith(".text")]
    it = iter(out)
    res = [None if i in bad else next(it) for i in range(len(words))]
    assert next(it, None) is None, "alignment"
    return res


def operands(text):
    """Registers in order, and the last plain number."""
    toks = re.findall(r"[a-z_][a-z0-9_]*|-?\d+", text)
    regs = [NUM[t] for t in toks if t in NUM]
    ints = [int(t) for t in toks if re.fullmatch(r"-?\d+", t)]
    return regs, ints[-1] if ints else None


def wanted(mnem, f):
    rd, rs1, rs2, imm = (f[k] for k in ("rd", "rs1", "rs2", "imm"))
    base = mnem.removeprefix("C.")
    if mnem.startswith("C."):
        if base in ("lwsp", "ldsp"):
            return [rd, 2], imm
        if base in ("swsp", "sdsp"):
            return [rs2, 2], imm
        if base in ("lw", "ld"):
            return [rd, rs1], imm
        if base in ("sw", "sd"):
            return [rs2, rs1], imm
        if base == "addi4spn":
            return [rd, 2], imm
        if base == "lui":
            return [rd], imm >> 12 & 0xFFFFF
        if base in ("addi", "addiw", "addi16sp", "srli", "srai", "slli", "andi"):
            return [rd], imm
        if base in ("sub", "xor", "or", "and", "subw", "addw", "add", "mv"):
            return [rd, rs2], None
        if base in ("jr", "jalr"):
            return [rs1], None
        if base in ("beqz", "bnez"):
            return [rs1], imm
        if base in ("nop", "ebreak"):
            return [], imm or None
        return [r for r in (rd,) if r is not None], imm
    if mnem.startswith("amo") or mnem.startswith("sc.") or mnem.startswith("ssamoswap"):
        return [rd, rs2, rs1], None
    if mnem.startswith("lr."):
        return [rd, rs1], None
    if re.fullmatch(r"s[bhwd]", mnem):
        return [rs2, rs1], imm
    if mnem.startswith("b") and f["rs2"] is not None:
        return [rs1, rs2], imm
    if mnem in ("sspush",):
        return [rs2], None
    if mnem in ("sspopchk", "cbo.zero"):
        return [rs1], None
    if mnem.startswith("fence"):
        return [], None
    if mnem.startswith("csr"):
        return [r for r in (rd, rs1) if r is not None], imm
    return [r for r in (rd, rs1, rs2) if r is not None], imm


def kind(isa, width, w, mnem, text):
    name = text.split()[0] if text else None
    if isa == "rv32" and mnem is None and name in ("slli", "srli", "srai", "c.slli", "c.srli", "c.srai"):
        return "shift" if int(text.split()[-1]) >= 32 else None
    if w == 0xC0001073 and name == "unimp":
        return "unimp"
    if mnem == "C.lui" and name == "c.lui" and text.split()[1] == "zero,":
        return "slot"
    if mnem and mnem.startswith("rd") and name == "csrrs":
        return "counter"
    if mnem in ("fence", "fence.i"):
        return "fence" if name in (None, mnem, "fence.tso", "fence") else None
    if width == 16 and mnem and (name is None or name != mnem.lower()):
        return "slot"
    if mnem is None and name and (name.startswith(("mop.", "c.mop", "c.ntl", "wrs.", "pause", "dret", "mnret", "sctrclr"))
                                  or name in ("uret", "unimp", "c.unimp", "hfence.vvma", "hfence.gvma")):
        return "extra"
    return None


def main():
    exe = os.path.join(root, "target/release/raki-pbt")
    odd = 0
    for isa in ("rv32", "rv64"):
        rows = subprocess.run([exe, "--dump", isa], capture_output=True, text=True, check=True).stdout.splitlines()
        words, models = [], []
        for r in rows:
            width, w, mnem, fields = r.split(" ", 3)
            f = {k: int(v) if (v := m) != "None" else None
                 for k, m in re.findall(r"(\w+): (?:Some\()?(-?\d+|None)", fields)}
            if (width == "32") != (int(w, 16) & 3 == 3):
                # Not of the announced length, which LLVM cannot be asked about.
                assert mnem == "-", r
                continue
            words.append((int(width), int(w, 16)))
            models.append((None if mnem == "-" else mnem, f))
        agree, kinds, bad = collections.Counter(), collections.Counter(), {}
        for (width, w), (mnem, f), text in zip(words, models, llvm(isa, words)):
            name = text.split()[0].replace(".aqrl", "").replace(".aq", "").replace(".rl", "") if text else None
            if mnem is None and text is None:
                agree["rejected by both"] += 1
                continue
            if mnem and text and mnem.lower() == name:
                regs, imm = operands(text.split(None, 1)[1] if " " in text or "\t" in text else "")
                if mnem.startswith("csr") and f["imm"] is None:
                    imm = None
                if (regs, imm) == wanted(mnem, f):
                    agree["decoded alike"] += 1
                    continue
            k = kind(isa, width, w, mnem, text)
            if k:
                kinds[k] += 1
            else:
                odd += 1
                bad.setdefault((mnem, name), (f"{w:#x}", f, text))
        print(isa, dict(agree), dict(kinds))
        for k, v in sorted(bad.items(), key=str):
            print("  UNEXPLAINED", k, v)
    sys.exit(1 if odd else 0)


main()
