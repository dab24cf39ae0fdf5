"""C03: parsing returns exactly the written statements."""
from rules.parselib import *

EXPLAIN = ("The whole parser (token automata derived from the token type's attributes, lexer callbacks, statement parser) is interpreted over source texts enumerated over keywords in four letter cases, operand forms and "
           "notations, label placements, separators, comments, blank lines and line ends; the returned statements, their spans and label positions are compared with what was written. "
           "The statements of differently laid out texts are assembled abstractly and their images compared.")

CASES = (str.upper, str.lower, str.capitalize, lambda s: "".join(c.lower() if i % 2 == 0 else c.upper() for i, c in enumerate(s)))
REGS = (Reg(0), Reg(7, "r"), Reg(3), Reg(5, "r"), Reg(0, digits="04"))
NUMS = {"imm5": (("#", "15"), ("#-", "16"), ("", "3"), ("-", "2"), ("x", "a"), ("X", "F"), ("x-", "10"), ("X-", "1"), ("#", "007")),
        "off6": (("#", "31"), ("#-", "32"), ("", "0"), ("-", "1"), ("x", "1f"), ("x-", "20")),
        "pc9": (("#", "255"), ("#-", "256"), ("", "1"), ("-", "9"), ("x", "fF"), ("X-", "100")),
        "pc11": (("#", "1023"), ("#-", "1024"), ("x", "3FF"), ("x-", "400")),
        "u8": (("x", "25"), ("X", "ff"), ("#", "37"), ("", "0"), ("x", "0A")),
        "u16": (("x", "3000"), ("X", "fFfF"), ("#", "0"), ("", "65535")),
        "n16": (("#", "1"), ("", "65535"), ("x", "10"), ("", "2")),
        "any16": (("#", "0"), ("#-", "1"), ("x", "BEEF"), ("x-", "8000"), ("", "65535"), ("-", "32768"), ("X", "a"))}
LABELS = ("A", "LOOP", "loop", "_x", "_", "a1", "R", "Rx", "RX1", "r_", "x", "X", "xg", "Xylo", "XOR", "b", "BRx", "BRNX", "ADDX", "ADD1", "ANDY", "LDX", "NOPE", "HALTS", "END", "ORIG", "fill", "Label_9", "q" * 40, "PUT", "JS", "RETI", "x_1", "B52", "d\u00e9j\u00e0", "REG0", "R_0", "STRINGZ")
STRS = ("", "a", "Hello, World!", "; no comment", ".end", "a:b,c", "#5 x10 R3", "tab\\t", "nl\\n", "cr\\r", "q\\\"q", "b\\\\", "\\\\n", "z\\0z", "\\q", "\\u{41}", "'", "\u00e9\u4e2d", "\\\u00e9", "  spaces  ", "\\\\\\\"", "%s {}")


def alts(kind):
    """operands of a kind"""
    if kind == "reg":
        return REGS
    r = [Num(p, t) for p, t in NUMS.get(kind, ())]
    if kind == "imm5":
        r += [Reg(2), Reg(6, "r")]
    if kind in ("pc9", "pc11", "any16", "label"):
        r += [Lab(l) for l in LABELS[:12]]
    if kind == "str":
        r += [Str(s, unescape(s)) for s in STRS]
    return r


KW = list(SIG) + ["." + n for n in DIR]


def kinds_of(n):
    return DIR[n[1:]][1] if n[0] == "." else SIG[n][2]


def base(n, j=0):
    """the keyword with operands, variant j"""
    return [alts(k)[(j + i) % len(alts(k))] for i, k in enumerate(kinds_of(n))]


def st(n, j=0, **kw):
    return W(n, *base(n, j), **kw)


SEPS = (" ", ": ", ":", " : ", "\t", "\n", ":\n", "\r\n", " :\r\n", "\n\n", " ; c\n", ": ; c: d\n\t", "\n; L2 ADD\n \n", "\n\t")
TAILS = ("", " ", "\t \t", ";", "; c", " ;, : R1 #x .end \" ADD", "\t;\u00e9 ;; \t", ";\t\"unclosed")
NLS = ("\n", "\r\n", "\n\n", "\r\n\r\n", "\n \t\n", "\n; c\n", "\r\n;c\r\n\t\r\n", "\n\r\n;\n\n")
GAPS = (" ", "\t", "   ", " \t ")
COMMAS = (",", ", ", " ,", "\t,\t", "  ,   ")
HEADS = ("", "\n", " ", "\t\n", "; head\n", "\r\n", ";\r\n \n;x\n", "\n\n\n")
PROGS = (("ADD", "BR", ".FILL"), (".ORIG", "LEA", "HALT", ".STRINGZ", ".END"), ("NOP", "RET", "TRAP"), (".EXTERNAL", "JSR", "LDR", ".BLKW"), ("NOT",), ("PUTS", "STI"), ())


def items(tier):
    R = ("accept", "value", "span")
    D = Style()
    # keywords, operands
    for n in KW:
        for ci, c in enumerate(CASES):
            yield [st(n, ci, case=c)], D, "keyword|" + n
        ks = kinds_of(n)
        for i, k in enumerate(ks):
            for o in alts(k):
                b = base(n)
                b[i] = o
                yield [W(n, *b)], D, "operand|%s|%s" % (n, k)
    for l in "", " ", "\t; c", "\n", "\r\n", " \r\n", ";c\r\n":
        for c in CASES:
            yield [W("NOP", case=c)], Style(last=False, tail=l), "nop"
        yield [W("NOP"), W("NOP")], Style(nl=l if "\n" in l else l + "\n"), "nop"
        yield [W("NOP", labels=[("L", None)]), st("ADD")], Style(nl=l if "\n" in l else l + "\n"), "nop"
    # labels
    for l in LABELS:
        for s in (" ", ":", "\n"):
            yield [st("ADD", labels=[(l, s)])], D, "label"
        yield [st(".FILL", labels=[(l, ": ")]), W("BR", Lab(l)), W("JSR", Lab(l), labels=[("Z", " ")])], D, "label"
        yield [W("LD", Reg(1), Lab(l)), W(".FILL", Lab(l)), W(".EXTERNAL", Lab(l)), W("NOP", Lab(l))], D, "label"
    for a in SEPS:
        for n in ("ADD", ".FILL", "NOP", "HALT", ".STRINGZ"):
            for nl in ("\n", "\r\n"):
                yield [st("RET"), st(n, labels=[("A", a)]), st("NOT", labels=[("B", a)])], Style(nl=nl), "layout-label"
        for b in SEPS:
            yield [st("HALT", labels=[("A", a), ("B", b)]), st("AND", 1, labels=[("C", b), ("D", a)])], D, "layout-label"
            for c in SEPS if tier != "quick" else SEPS[::4]:
                yield [st("RET", labels=[("A", a), ("Bb", b), ("C1", c)])], D, "layout-label"
    # layout
    for pi, p in enumerate(PROGS):
        ws = [st(n, pi + i, labels=[("L%d" % i, None)] if i % 2 else []) for i, n in enumerate(p)]
        for nl in NLS:
            for t in TAILS:
                for h in HEADS if tier != "quick" else HEADS[::3]:
                    for last in (True, False):
                        yield ws, Style(nl=nl, tail=t, head=h, last=last), "layout"
        for g in GAPS:
            for c in COMMAS:
                for ind in ("", " ", "\t", "\t  "):
                    for ls in (" ", ":", "\n") if tier != "quick" else (" ",):
                        yield ws, Style(gap=g, comma=c, indent=ind, lsep=ls), "layout"
        for h in HEADS:
            for k in CASES:
                yield ws, Style(head=h, kw=k, last=False), "layout"
    # operators that need no blank
    for n, o in (("BR", [Num("#", "1")]), ("BR", [Num("-", "1")]), ("TRAP", [Num("#", "1")]), (".STRINGZ", [Str("a", "a")]), (".FILL", [Num("#-", "1")]), (".BLKW", [Num("#", "3")])):
        for t in ("", ";c", " "):
            yield [W(n, *o, labels=[("A", ":")])], Style(gap="", tail=t), "layout"
    # neighbours
    for i, a in enumerate(KW):
        for j, b in enumerate(KW):
            yield [st(a, j, labels=[("P", None)] if j % 3 == 0 else []), st(b, i, labels=[("Q", None)] if (i + j) % 2 else [])], Style(nl=NLS[(i + j) % len(NLS)], tail=TAILS[(i * 7 + j) % len(TAILS)], last=(i + j) % 3 != 0, gap=GAPS[j % 4], comma=COMMAS[i % 5]), "sequence"


def run(K):
    A = Asm(K.P)
    K.rule("accept", "a text in the grammar is parsed", 2000)
    K.rule("value", "parsing returns exactly the written statements: labels, instruction or directive, operands", 4000)
    K.rule("span", "the span of a statement covers its instruction or directive text and no other statement; labels start where they are written", 2000)

    def one(K, chunk):
        for ws, style, g in chunk:
            run_doc(K, A, ws, style, ("accept", "value", "span"), g)

    its = list(items(K.tier))
    K.pmap(one, [its[i::128] for i in range(128)])

    K.rule("image", "changing case, blanks, comments or line ends changes neither the memory image nor the label addresses", 100)
    progs = [
        [W(".ORIG", Num("x", "3000")), W("LEA", Reg(0), Lab("MSG"), labels=[("START", None)]), W("PUTS"), W("LD", Reg(1), Lab("NUM")), W("BRNZP", Lab("START"), labels=[("LP", None)]), W("JSR", Lab("SUB")),
         W("HALT"), W(".STRINGZ", Str("a;\\n", "a;\n"), labels=[("MSG", None)]), W(".FILL", Num("#-", "5"), labels=[("NUM", None)]), W(".FILL", Lab("LP")), W(".BLKW", Num("", "2")),
         W("ADD", Reg(1), Reg(2), Num("x", "f"), labels=[("SUB", None)]), W("RET"), W(".END")],
        [W(".ORIG", Num("X", "fdf0")), W("AND", Reg(1), Reg(2), Reg(3)), W(".EXTERNAL", Lab("EXT")), W(".FILL", Lab("EXT")), W("NOT", Reg(1), Reg(7), labels=[("A", None)]), W("NOP"), W(".END"),
         W(".ORIG", Num("", "0")), W("TRAP", Num("x", "Aa")), W("LDR", Reg(1), Reg(6), Num("#-", "32"), labels=[("B", None)]), W("BR", Lab("B")), W(".END")],
    ]
    sty = [Style(last=False)] + [Style(kw=k) for k in CASES] + [Style(nl=n) for n in NLS] + [Style(nl=n, tail=t) for n in ("\n", "\r\n") for t in TAILS] + [Style(lsep=x) for x in SEPS]
    sty += [Style(gap=g, comma=c, indent=i) for g in GAPS for c in COMMAS for i in ("", "\t")] + [Style(head=h, kw=k, nl=n) for h in HEADS for k in CASES[1:3] for n in ("\n", "\r\n")]

    def img(K, chunk):
        base_ = {}
        for pi, y in chunk:
            for dbg in (True, False) if y.nl.count("\n") == 1 else (False,):        # (blank lines split the line table into many runs)
                try:
                    if (pi, dbg) not in base_:
                        base_[pi, dbg] = result_of(K, A, progs[pi], Style(), "base", dbg)[1]
                    C, r = result_of(K, A, progs[pi], y, "program %d" % pi, dbg)
                except Limit as e:
                    K.undecided("image", "program %d: limit %s" % (pi, e))
                    continue
                b = base_[pi, dbg]
                K.judge("image", "image", None if r is None or b is None else r == b, lambda: "%s: %s assembles to %s, the same statements one per line to %s" % (C.where, C.text, r, b), "program %d" % pi)

    im = [(p, y) for p in range(len(progs)) for y in sty]
    K.pmap(img, [im[i::32] for i in range(32)])
