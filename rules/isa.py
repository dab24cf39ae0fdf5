"""LC-3 instruction format reference (taken from the ISA, not from the code)."""
from engine.terms import *

# variant, opcode, fields in declaration order: (kind, hi, lo); const bits: (hi, lo, value)
FMT = {
    "BR": (0b0000, [("cc", 11, 9), ("off", 8, 0)], []),
    "ADD": (0b0001, [("reg", 11, 9), ("reg", 8, 6), ("ior", 5, 0)], []),
    "LD": (0b0010, [("reg", 11, 9), ("off", 8, 0)], []),
    "ST": (0b0011, [("reg", 11, 9), ("off", 8, 0)], []),
    "JSR": (0b0100, [("jsr", 11, 0)], []),
    "AND": (0b0101, [("reg", 11, 9), ("reg", 8, 6), ("ior", 5, 0)], []),
    "LDR": (0b0110, [("reg", 11, 9), ("reg", 8, 6), ("off", 5, 0)], []),
    "STR": (0b0111, [("reg", 11, 9), ("reg", 8, 6), ("off", 5, 0)], []),
    "RTI": (0b1000, [], [(11, 0, 0)]),
    "NOT": (0b1001, [("reg", 11, 9), ("reg", 8, 6)], [(5, 0, 0b111111)]),
    "LDI": (0b1010, [("reg", 11, 9), ("off", 8, 0)], []),
    "STI": (0b1011, [("reg", 11, 9), ("off", 8, 0)], []),
    "JMP": (0b1100, [("reg", 8, 6)], [(11, 9, 0), (5, 0, 0)]),
    "LEA": (0b1110, [("reg", 11, 9), ("off", 8, 0)], []),
    "TRAP": (0b1111, [("uoff", 7, 0)], [(11, 8, 0)]),
}
BYOP = {v[0]: k for k, v in FMT.items()}


def sl(w, hi, lo):
    return mkbits(bits(w)[lo : hi + 1])


def ref_decode(ask, w):
    """('Err', name) or (variant, [field...]) ; field = ('reg', t3) ('off', t16) ('cc', t8) ('imm', t16) ('ireg', t3)"""
    op = sl(w, 15, 12)
    name = None
    for v in range(16):
        if v == 0b1101:
            continue
        if ask(eq(op, I(v, 4))):
            name = BYOP[v]
            break
    if name is None:
        return "Err", "IllegalOpcode"
    _, fs, cs = FMT[name]
    out = []
    for hi, lo, v in cs:
        if not ask(eq(sl(w, hi, lo), I(v, hi - lo + 1))):
            return "Err", "InvalidInstrFormat"
    for k, hi, lo in fs:
        if k == "reg":
            out.append(("reg", sl(w, hi, lo)))
        elif k == "off":
            out.append(("off", sext(sl(w, hi, lo), 16)))
        elif k == "uoff":
            out.append(("off", zext(sl(w, hi, lo), 16)))
        elif k == "cc":
            out.append(("cc", zext(sl(w, hi, lo), 8)))
        elif k == "ior":
            if ask(eq(sl(w, 5, 5), I(1, 1))):
                out.append(("imm", sext(sl(w, 4, 0), 16)))
            else:
                if not ask(eq(sl(w, 4, 3), I(0, 2))):
                    return "Err", "InvalidInstrFormat"
                out.append(("ireg", sl(w, 2, 0)))
        elif k == "jsr":
            if ask(eq(sl(w, 11, 11), I(1, 1))):
                out.append(("imm", sext(sl(w, 10, 0), 16)))
            else:
                if not ask(eq(sl(w, 10, 9), I(0, 2))) or not ask(eq(sl(w, 5, 0), I(0, 6))):
                    return "Err", "InvalidInstrFormat"
                out.append(("ireg", sl(w, 8, 6)))
    return name, out
