"""Instruction tables transcribed from the RISC-V manuals.

Unprivileged ISA 20240411 (chapters RV32I, RV64I, Zifencei, Zicsr, Zicntr, M, A, C,
instruction listings), privileged ISA 20240411 (SRET, MRET, WFI, SFENCE.VMA), CMO
extension (CBO.ZERO) and the shadow-stack extension Zicfiss 1.0.

Nothing here is derived from the library: encodings, field positions, immediate
permutations and assembly templates come from the manuals. What is particular to the
library is how it *reports* operands (documented in DESIGN.md, "Reporting
conventions"), and that is limited to the operand slots named below.

Each instruction has
  ext, name     public kind
  width         16 or 32
  isas          widths on which it exists
  match         list of (hi, lo, value) fixed fields
  when          extra conditions: ("ne", hi, lo, value), ("nz", [bits]), ("in", hi, lo, values)
  rd, rs1, rs2  None, ("f", hi, lo), ("f3", hi, lo) (register 8 + field) or ("k", constant)
  imm           None or list of 32 entries, least significant first: bit number or None (zero)
  fmt           reported format
  mnem          standard mnemonic as the library spells it
  asm           operand template
  also          other operand templates that assemblers accept
"""

BOTH = ("Rv32", "Rv64")
R64 = ("Rv64",)
R32 = ("Rv32",)


class Inst:
    def __init__(self, **k):
        self.__dict__.update(k)

    @property
    def key(self):
        return (self.ext, self.name)


def bits(hi, lo):
    """Bit numbers of a field, least significant first."""
    return list(range(lo, hi + 1))


def imm_of(parts, signed):
    """parts: list of (dst_hi, dst_lo, src_hi, src_lo). Sign bit is the highest destination."""
    r = [None] * 32
    top = -1
    for dh, dl, sh, sl in parts:
        assert dh - dl == sh - sl
        for i in range(dh - dl + 1):
            assert r[dl + i] is None
            r[dl + i] = sl + i
        top = max(top, dh)
    if signed:
        for i in range(top + 1, 32):
            r[i] = r[top]
    return r


IMM_I = imm_of([(11, 0, 31, 20)], True)
IMM_S = imm_of([(11, 5, 31, 25), (4, 0, 11, 7)], True)
IMM_B = imm_of([(12, 12, 31, 31), (11, 11, 7, 7), (10, 5, 30, 25), (4, 1, 11, 8)], True)
IMM_J = imm_of([(20, 20, 31, 31), (19, 12, 19, 12), (11, 11, 20, 20), (10, 1, 30, 21)], True)
IMM_U = imm_of([(19, 0, 31, 12)], False)
IMM_FENCE = imm_of([(11, 0, 31, 20)], False)
IMM_SH5 = imm_of([(4, 0, 24, 20)], False)
IMM_SH6 = imm_of([(5, 0, 25, 20)], False)
IMM_Z = imm_of([(4, 0, 19, 15)], False)
IMM_AQRL = imm_of([(1, 0, 26, 25)], False)

RD, RS1, RS2 = ("f", 11, 7), ("f", 19, 15), ("f", 24, 20)
CSR = ("f", 31, 20)

TABLE = []


def add(ext, name, width, isas, match, rd=None, rs1=None, rs2=None, imm=None, fmt=None, mnem=None, asm=None, when=(), also=()):
    TABLE.append(
        Inst(
            ext=ext, name=name, width=width, isas=isas, match=list(match), when=list(when), rd=rd, rs1=rs1, rs2=rs2,
            imm=imm, fmt=fmt, also=list(also), mnem=mnem or name.lower().replace("_", "."), asm=asm,
        )
    )


def op(v):
    return (6, 0, v)


def f3(v):
    return (14, 12, v)


def f7(v):
    return (31, 25, v)


# --- RV32I / RV64I ---------------------------------------------------------------------
A_RRR = "rd, rs1, rs2"
A_RRI = "rd, rs1, imm"
A_LOAD = "rd, imm(rs1)"
A_STORE = "rs2, imm(rs1)"
A_BR = "rs1, rs2, imm"
A_RI = "rd, imm"

for n, o in (("LUI", 0b0110111), ("AUIPC", 0b0010111)):
    add("BaseI", n, 32, BOTH, [op(o)], rd=RD, imm=IMM_U, fmt="UFormat", asm=A_RI)
add("BaseI", "JAL", 32, BOTH, [op(0b1101111)], rd=RD, imm=IMM_J, fmt="JFormat", asm=A_RI)
add("BaseI", "JALR", 32, BOTH, [op(0b1100111), f3(0)], rd=RD, rs1=RS1, imm=IMM_I, fmt="IFormat", asm=A_LOAD, also=[A_RRI])
for n, f in (("BEQ", 0), ("BNE", 1), ("BLT", 4), ("BGE", 5), ("BLTU", 6), ("BGEU", 7)):
    add("BaseI", n, 32, BOTH, [op(0b1100011), f3(f)], rs1=RS1, rs2=RS2, imm=IMM_B, fmt="BFormat", asm=A_BR)
for n, f, w in (("LB", 0, BOTH), ("LH", 1, BOTH), ("LW", 2, BOTH), ("LBU", 4, BOTH), ("LHU", 5, BOTH), ("LWU", 6, R64), ("LD", 3, R64)):
    add("BaseI", n, 32, w, [op(0b0000011), f3(f)], rd=RD, rs1=RS1, imm=IMM_I, fmt="IFormat", asm=A_LOAD)
for n, f, w in (("SB", 0, BOTH), ("SH", 1, BOTH), ("SW", 2, BOTH), ("SD", 3, R64)):
    add("BaseI", n, 32, w, [op(0b0100011), f3(f)], rs1=RS1, rs2=RS2, imm=IMM_S, fmt="SFormat", asm=A_STORE)
for n, f in (("ADDI", 0), ("SLTI", 2), ("SLTIU", 3), ("XORI", 4), ("ORI", 6), ("ANDI", 7)):
    add("BaseI", n, 32, BOTH, [op(0b0010011), f3(f)], rd=RD, rs1=RS1, imm=IMM_I, fmt="IFormat", asm=A_RRI)
for n, f, hi in (("SLLI", 1, 0), ("SRLI", 5, 0), ("SRAI", 5, 0b010000)):
    # RV32: the shift amount is 5 bits and bit 25 belongs to the function code
    add("BaseI", n, 32, R32, [op(0b0010011), f3(f), (31, 26, hi), (25, 25, 0)], rd=RD, rs1=RS1, imm=IMM_SH5, fmt="RShamtFormat", asm=A_RRI)
    add("BaseI", n, 32, R64, [op(0b0010011), f3(f), (31, 26, hi)], rd=RD, rs1=RS1, imm=IMM_SH6, fmt="RShamtFormat", asm=A_RRI)
for n, f, h in (
    ("ADD", 0, 0), ("SUB", 0, 0x20), ("SLL", 1, 0), ("SLT", 2, 0), ("SLTU", 3, 0), ("XOR", 4, 0), ("SRL", 5, 0),
    ("SRA", 5, 0x20), ("OR", 6, 0), ("AND", 7, 0),
):
    add("BaseI", n, 32, BOTH, [op(0b0110011), f3(f), f7(h)], rd=RD, rs1=RS1, rs2=RS2, fmt="RFormat", asm=A_RRR)
add("BaseI", "ECALL", 32, BOTH, [(31, 0, 0x00000073)], fmt="NoOperand", asm="")
add("BaseI", "EBREAK", 32, BOTH, [(31, 0, 0x00100073)], fmt="NoOperand", asm="")
add("BaseI", "ADDIW", 32, R64, [op(0b0011011), f3(0)], rd=RD, rs1=RS1, imm=IMM_I, fmt="IFormat", asm=A_RRI)
for n, f, h in (("SLLIW", 1, 0), ("SRLIW", 5, 0), ("SRAIW", 5, 0x20)):
    add("BaseI", n, 32, R64, [op(0b0011011), f3(f), f7(h)], rd=RD, rs1=RS1, imm=IMM_SH5, fmt="RShamtFormat", asm=A_RRI)
for n, f, h in (("ADDW", 0, 0), ("SUBW", 0, 0x20), ("SLLW", 1, 0), ("SRLW", 5, 0), ("SRAW", 5, 0x20)):
    add("BaseI", n, 32, R64, [op(0b0111011), f3(f), f7(h)], rd=RD, rs1=RS1, rs2=RS2, fmt="RFormat", asm=A_RRR)

# --- FENCE (reserved fields of FENCE are ignored by the manual's rule) and FENCE.I -------
add("Zifencei", "FENCE", 32, BOTH, [op(0b0001111), f3(0)], rd=RD, rs1=RS1, imm=IMM_FENCE, fmt="NoOperand", mnem="fence", asm="")
add("Zifencei", "FENCE_I", 32, BOTH, [op(0b0001111), f3(1)], fmt="NoOperand", mnem="fence.i", asm="")

# --- M -----------------------------------------------------------------------------------
for i, n in enumerate(("MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU")):
    add("M", n, 32, BOTH, [op(0b0110011), f3(i), f7(1)], rd=RD, rs1=RS1, rs2=RS2, fmt="MFormat", asm=A_RRR)
for n, f in (("MULW", 0), ("DIVW", 4), ("DIVUW", 5), ("REMW", 6), ("REMUW", 7)):
    add("M", n, 32, R64, [op(0b0111011), f3(f), f7(1)], rd=RD, rs1=RS1, rs2=RS2, fmt="MFormat", asm=A_RRR)

# --- A -----------------------------------------------------------------------------------
A_AMO = "rd, rs2, (rs1)"
for suf, f, w in (("W", 2, BOTH), ("D", 3, R64)):
    add("A", "LR_" + suf, 32, w, [op(0b0101111), f3(f), (31, 27, 0b00010), (24, 20, 0)], rd=RD, rs1=RS1, imm=IMM_AQRL,
        fmt="ALrFormat", asm="rd, (rs1)")
    for n, c in (
        ("SC", 0b00011), ("AMOSWAP", 0b00001), ("AMOADD", 0b00000), ("AMOXOR", 0b00100), ("AMOAND", 0b01100),
        ("AMOOR", 0b01000), ("AMOMIN", 0b10000), ("AMOMAX", 0b10100), ("AMOMINU", 0b11000), ("AMOMAXU", 0b11100),
    ):
        add("A", n + "_" + suf, 32, w, [op(0b0101111), f3(f), (31, 27, c)], rd=RD, rs1=RS1, rs2=RS2, imm=IMM_AQRL,
            fmt="AFormat", asm=A_AMO)

# --- Zicntr: CSRRS rd, counter, x0 ---------------------------------------------------------
for n, c, w, m in (
    ("RDCYCLE", 0xC00, BOTH, "rdcycle"), ("RDTIME", 0xC01, BOTH, "rdtime"), ("RDINSTRET", 0xC02, BOTH, "rdinstret"),
    ("RDCYCLE_H", 0xC80, R32, "rdcycleh"), ("RDTIME_H", 0xC81, R32, "rdtimeh"), ("RDINSTRET_H", 0xC82, R32, "rdinstreth"),
):
    add("Zicntr", n, 32, w, [op(0b1110011), f3(2), (31, 20, c), (19, 15, 0)], rd=RD, fmt="OnlyRd", mnem=m, asm="rd")

# --- Zicsr -----------------------------------------------------------------------------------
for n, f in (("CSRRW", 1), ("CSRRS", 2), ("CSRRC", 3)):
    add("Zicsr", n, 32, BOTH, [op(0b1110011), f3(f)], rd=RD, rs1=RS1, rs2=CSR, fmt="CsrFormat", asm="rd, csr, rs1")
for n, f in (("CSRRWI", 5), ("CSRRSI", 6), ("CSRRCI", 7)):
    add("Zicsr", n, 32, BOTH, [op(0b1110011), f3(f)], rd=RD, rs2=CSR, imm=IMM_Z, fmt="CsrUiFormat", asm="rd, csr, imm")

# --- Zicboz ----------------------------------------------------------------------------------
add("Zicboz", "CBO_ZERO", 32, BOTH, [op(0b0001111), f3(2), (31, 20, 4), (11, 7, 0)], rs1=RS1, fmt="OnlyRs1", asm="rs1")

# --- Zicfiss ---------------------------------------------------------------------------------
add("Zicfiss", "SSPUSH", 32, BOTH, [op(0b1110011), f3(4), f7(0b1100111), (19, 15, 0), (11, 7, 0)], rd=("k", 0), rs1=("k", 0), rs2=RS2,
    fmt="OnlyRs2", asm="rs2", when=[("in", 24, 20, (1, 5))])
add("Zicfiss", "SSPOPCHK", 32, BOTH, [op(0b1110011), f3(4), (31, 20, 0b110011011100), (11, 7, 0)], rd=("k", 0), rs1=RS1,
    fmt="OnlyRs1", asm="rs1", when=[("in", 19, 15, (1, 5))])
add("Zicfiss", "SSRDP", 32, BOTH, [op(0b1110011), f3(4), (31, 20, 0b110011011100), (19, 15, 0)], rd=RD,
    fmt="OnlyRd", asm="rd", when=[("ne", 11, 7, 0)])
for suf, f, w in (("W", 2, BOTH), ("D", 3, R64)):
    add("Zicfiss", "SSAMOSWAP_" + suf, 32, w, [op(0b0101111), f3(f), (31, 27, 0b01001)], rd=RD, rs1=RS1, rs2=RS2, fmt="AFormat", asm=A_AMO)

# --- privileged --------------------------------------------------------------------------------
add("Priv", "SRET", 32, BOTH, [(31, 0, 0x10200073)], fmt="NoOperand", asm="")
add("Priv", "MRET", 32, BOTH, [(31, 0, 0x30200073)], fmt="NoOperand", asm="")
add("Priv", "WFI", 32, BOTH, [(31, 0, 0x10500073)], fmt="NoOperand", asm="")
add("Priv", "SFENCE_VMA", 32, BOTH, [op(0b1110011), f3(0), f7(0b0001001), (11, 7, 0)], rs1=RS1, rs2=RS2, fmt="RFormat", asm="rs1, rs2")

# --- C -------------------------------------------------------------------------------------------
RDP, RS1P, RS2P = ("f3", 4, 2), ("f3", 9, 7), ("f3", 4, 2)
CRD, CRS2 = ("f", 11, 7), ("f", 6, 2)


def c(name, isas, quad, funct3, match=(), **k):
    add("C", name, 16, isas, [(1, 0, quad), (15, 13, funct3)] + list(match), mnem="C." + name.lower(), **k)


CI_S = imm_of([(5, 5, 12, 12), (4, 0, 6, 2)], True)
CI_U = imm_of([(5, 5, 12, 12), (4, 0, 6, 2)], False)
C_LW = imm_of([(5, 3, 12, 10), (2, 2, 6, 6), (6, 6, 5, 5)], False)
C_LD = imm_of([(5, 3, 12, 10), (7, 6, 6, 5)], False)
C_J = imm_of([(11, 11, 12, 12), (4, 4, 11, 11), (9, 8, 10, 9), (10, 10, 8, 8), (6, 6, 7, 7), (7, 7, 6, 6), (3, 1, 5, 3), (5, 5, 2, 2)], True)
C_B = imm_of([(8, 8, 12, 12), (4, 3, 11, 10), (7, 6, 6, 5), (2, 1, 4, 3), (5, 5, 2, 2)], True)
CI_NZ = ("nz", [12, 6, 5, 4, 3, 2])

c("ADDI4SPN", BOTH, 0, 0, rd=RDP, fmt="CiwFormat", asm="rd, sp, imm", when=[("nz", bits(12, 5))],
  imm=imm_of([(5, 4, 12, 11), (9, 6, 10, 7), (2, 2, 6, 6), (3, 3, 5, 5)], False))
c("LW", BOTH, 0, 2, rd=RDP, rs1=RS1P, imm=C_LW, fmt="ClFormat", asm=A_LOAD)
c("LD", R64, 0, 3, rd=RDP, rs1=RS1P, imm=C_LD, fmt="ClFormat", asm=A_LOAD)
c("SW", BOTH, 0, 6, rs1=RS1P, rs2=RS2P, imm=C_LW, fmt="CsFormat", asm=A_STORE)
c("SD", R64, 0, 7, rs1=RS1P, rs2=RS2P, imm=C_LD, fmt="CsFormat", asm=A_STORE)

c("NOP", BOTH, 1, 0, [(11, 7, 0)], imm=CI_S, fmt="NoOperand", asm="")
c("ADDI", BOTH, 1, 0, rd=CRD, rs1=CRD, imm=CI_S, fmt="CiFormat", asm="rd, rd, imm", when=[("ne", 11, 7, 0)])
c("JAL", R32, 1, 1, imm=C_J, fmt="CjFormat", asm="imm")
c("ADDIW", R64, 1, 1, rd=CRD, rs1=CRD, imm=CI_S, fmt="CiFormat", asm="rd, rd, imm", when=[("ne", 11, 7, 0)])
c("LI", BOTH, 1, 2, rd=CRD, imm=CI_S, fmt="CiFormat", asm="rd, imm")
c("ADDI16SP", BOTH, 1, 3, [(11, 7, 2)], rd=CRD, rs1=CRD, fmt="CiFormat", asm="rd, rd, imm", when=[CI_NZ],
  imm=imm_of([(9, 9, 12, 12), (4, 4, 6, 6), (6, 6, 5, 5), (8, 7, 4, 3), (5, 5, 2, 2)], True))
c("LUI", BOTH, 1, 3, rd=CRD, fmt="CiFormat", asm="rd, imm", when=[("ne", 11, 7, 2), CI_NZ],
  imm=imm_of([(17, 17, 12, 12), (16, 12, 6, 2)], True))
for n, f in (("SRLI", 0), ("SRAI", 1)):
    c(n, R32, 1, 4, [(11, 10, f), (12, 12, 0)], rd=RS1P, rs1=RS1P, imm=CI_U, fmt="CbFormat", asm="rd, rd, imm")
    c(n, R64, 1, 4, [(11, 10, f)], rd=RS1P, rs1=RS1P, imm=CI_U, fmt="CbFormat", asm="rd, rd, imm")
c("ANDI", BOTH, 1, 4, [(11, 10, 2)], rd=RS1P, rs1=RS1P, imm=CI_S, fmt="CbFormat", asm="rd, rd, imm")
for n, hi, f, w in (("SUB", 0, 0, BOTH), ("XOR", 0, 1, BOTH), ("OR", 0, 2, BOTH), ("AND", 0, 3, BOTH), ("SUBW", 1, 0, R64), ("ADDW", 1, 1, R64)):
    c(n, w, 1, 4, [(11, 10, 3), (12, 12, hi), (6, 5, f)], rd=RS1P, rs1=RS1P, rs2=RS2P, fmt="CaFormat", asm="rd, rd, rs2")
c("J", BOTH, 1, 5, imm=C_J, fmt="CjFormat", asm="imm")
c("BEQZ", BOTH, 1, 6, rs1=RS1P, imm=C_B, fmt="CbFormat", asm="rs1, imm")
c("BNEZ", BOTH, 1, 7, rs1=RS1P, imm=C_B, fmt="CbFormat", asm="rs1, imm")

c("SLLI", R32, 2, 0, [(12, 12, 0)], rd=CRD, rs1=CRD, imm=CI_U, fmt="CiFormat", asm="rd, rd, imm")
c("SLLI", R64, 2, 0, rd=CRD, rs1=CRD, imm=CI_U, fmt="CiFormat", asm="rd, rd, imm")
c("LWSP", BOTH, 2, 2, rd=CRD, fmt="CiFormat", asm="rd, imm(sp)", when=[("ne", 11, 7, 0)],
  imm=imm_of([(5, 5, 12, 12), (4, 2, 6, 4), (7, 6, 3, 2)], False))
c("LDSP", R64, 2, 3, rd=CRD, fmt="CiFormat", asm="rd, imm(sp)", when=[("ne", 11, 7, 0)],
  imm=imm_of([(5, 5, 12, 12), (4, 3, 6, 5), (8, 6, 4, 2)], False))
c("JR", BOTH, 2, 4, [(12, 12, 0), (6, 2, 0)], rs1=CRD, rs2=("k", 0), fmt="CrFormat", asm="zero, 0(rs1)", when=[("ne", 11, 7, 0)])
c("MV", BOTH, 2, 4, [(12, 12, 0)], rd=CRD, rs2=CRS2, fmt="CrFormat", asm="rd, rs2", when=[("ne", 6, 2, 0)])
c("EBREAK", BOTH, 2, 4, [(12, 12, 1), (11, 7, 0), (6, 2, 0)], fmt="NoOperand", asm="")
c("JALR", BOTH, 2, 4, [(12, 12, 1), (6, 2, 0)], rs1=CRD, rs2=("k", 0), fmt="CrFormat", asm="ra, 0(rs1)", when=[("ne", 11, 7, 0)])
c("ADD", BOTH, 2, 4, [(12, 12, 1)], rd=CRD, rs1=CRD, rs2=CRS2, fmt="CrFormat", asm="rd, rd, rs2", when=[("ne", 6, 2, 0)])
c("SWSP", BOTH, 2, 6, rs2=CRS2, imm=imm_of([(5, 2, 12, 9), (7, 6, 8, 7)], False), fmt="CssFormat", asm="rs2, imm(sp)")
c("SDSP", R64, 2, 7, rs2=CRS2, imm=imm_of([(5, 3, 12, 10), (8, 6, 9, 7)], False), fmt="CssFormat", asm="rs2, imm(sp)")

# compressed shadow stack: the C.MOP.1 and C.MOP.5 encodings
add("Zicfiss", "C_SSPUSH", 16, BOTH, [(15, 0, 0x6081)], rd=("k", 1), fmt="NoOperand", asm="", mnem="c.sspush")
add("Zicfiss", "C_SSPOPCHK", 16, BOTH, [(15, 0, 0x6281)], rd=("k", 5), fmt="NoOperand", asm="", mnem="c.sspopchk")

ABI = (
    "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
)


class Spec:
    """The tables as decision diagrams over the word bits for one word length and ISA width."""

    def __init__(self, m, width, isa, var=lambda i: "w%d" % i):
        self.m, self.width, self.isa = m, width, isa
        self.w = [m.var(var(i)) for i in range(width)]
        self.insts = []
        total = 0
        for t in TABLE:
            if t.width == width and isa in t.isas:
                g = self.guard(t)
                # CSR reads of the counters are Zicntr instructions, the rest of CSRRS stays
                self.insts.append([t, g])
        zic = m.OR(*[g for t, g in self.insts if t.ext == "Zicntr"]) if width == 32 else 0
        for e in self.insts:
            if e[0].key == ("Zicsr", "CSRRS"):
                e[1] = m.DIFF(e[1], zic)
        # the table must be unambiguous
        for t, g in self.insts:
            assert m.AND(total, g) == 0, "overlapping encodings at %s" % t.name
            total = m.OR(total, g)
        self.valid = total

    def field(self, hi, lo):
        return self.w[lo:hi + 1]

    def eq(self, hi, lo, v):
        m = self.m
        return m.AND(*[self.w[lo + i] if v >> i & 1 else m.NOT(self.w[lo + i]) for i in range(hi - lo + 1)])

    def guard(self, t):
        m = self.m
        g = m.AND(*[self.eq(*x) for x in t.match])
        for cnd in t.when:
            if cnd[0] == "ne":
                g = m.DIFF(g, self.eq(*cnd[1:]))
            elif cnd[0] == "nz":
                g = m.AND(g, m.OR(*[self.w[i] for i in cnd[1]]))
            elif cnd[0] == "in":
                g = m.AND(g, m.OR(*[self.eq(cnd[1], cnd[2], v) for v in cnd[3]]))
            else:
                raise ValueError(cnd)
        return g

    def reg(self, r, n):
        """Value of a register slot as n bits, or None."""
        if r is None:
            return None
        if r[0] == "k":
            return [1 if r[1] >> i & 1 else 0 for i in range(n)]
        f = self.field(r[1], r[2])
        if r[0] == "f3":
            f = f + [1]
        return f + [0] * (n - len(f))

    def imm(self, i):
        if i is None:
            return None
        return [0 if b is None else self.w[b] for b in i]
