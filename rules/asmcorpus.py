"""Enumerated statement shapes for the assembler rules."""
import itertools
from rules.asmlib import *

o, p, q, n, v, w = [var(x, 16) for x in "opqnvw"]


def c16(x):
    return I(x, 16)


LETTERS = {
    "O": lambda k: orig(c16(0x4000)),
    "E": lambda k: end(),
    "N": lambda k: ins("NOT"),
    "A": lambda k: fill(v, "A"),
    "a": lambda k: ins("RET", None, "a"),
    "U": lambda k: ins("LD", "a"),
    "F": lambda k: fill("A"),
    "X": lambda k: ext("A"),
    "B": lambda k: end("A"),
    "Z": lambda k: blkw(c16(3)),
}


def word_prog(word, wrap=True):
    body = [LETTERS[c](i) for i, c in enumerate(word)]
    return [orig(c16(0x3000))] + body + [end()] if wrap else body


def structural(maxlen, raw):
    """every sequence over the statement alphabet, inside a block and (raw) on its own"""
    for L in range(0, maxlen + 1):
        for wd in itertools.product("OENAaUFXB", repeat=L):
            wd = "".join(wd)
            yield "x3000:" + wd, (lambda wd=wd: word_prog(wd))
    for L in range(0, raw + 1):
        for wd in itertools.product("OENAUFXB", repeat=L):
            wd = "".join(wd)
            yield "raw:" + wd, (lambda wd=wd: word_prog(wd, False))


def noimm(s):
    s.imm = False
    return s


def instructions(A):
    P = A.P
    for vv in P.types[A.instr]["v"]:
        nm = vv["n"].split("::")[-1]
        yield "instr:" + nm, (lambda nm=nm: [orig(o), ins(nm), end()])
        yield "instr-mid:" + nm, (lambda nm=nm: [orig(o), fill(w), ins(nm, None, "L"), fill("L"), end()])
        if nm in ("ADD", "AND"):
            yield "instr-reg:" + nm, (lambda nm=nm: [orig(o), noimm(ins(nm)), end()])
        if nm in PCO:
            yield "label-self:" + nm, (lambda nm=nm: [orig(o), ins(nm, "lOOp", "LooP"), end()])
            yield "label-fwd:" + nm, (lambda nm=nm: [orig(o), ins(nm, "B"), fill(v), fill(w, "B"), end()])
            yield "label-back:" + nm, (lambda nm=nm: [orig(o), fill(v, "b"), strz("xy"), ins(nm, "B"), end()])
            yield "label-gap:" + nm, (lambda nm=nm: [orig(c16(0x3000)), ins(nm, "B"), blkw(n), fill(v, "B"), end()])
            yield "label-gapback:" + nm, (lambda nm=nm: [orig(c16(0x3000)), fill(v, "B"), blkw(n), ins(nm, "B"), end()])
            yield "label-undef:" + nm, (lambda nm=nm: [orig(o), ins(nm, "B"), end()])
            yield "label-ext:" + nm, (lambda nm=nm: [orig(o), ext("B"), ins(nm, "b"), end()])
            yield "label-ext-after:" + nm, (lambda nm=nm: [orig(o), ins(nm, "b"), end(), ext("B")])
            yield "label-other-block:" + nm, (lambda nm=nm: [orig(o), ins(nm, "B"), end(), orig(p), fill(v, "B"), end()])


def layouts(A):
    for s in ("", "a", "hi\n\0e", "é€", "\x80"):
        yield "stringz:%r" % s, (lambda s=s: [orig(o), strz(s, "S"), fill("s", "T"), end()])
    sty = next((i for i, t in enumerate(A.P.types) if t and t.get("n") == "std::string::String"), None)
    sv = var("str", None, sty)
    yield "stringz:sym", lambda: [orig(o), strz(sv), end()]
    yield "stringz:sym2", lambda: [orig(c16(0x3000)), ins("LD", "T"), strz(sv, "S"), fill("T", "T"), fill("S"), end()]
    yield "blkw-1", lambda: [orig(o), blkw(n), end()]
    yield "blkw-2", lambda: [orig(o), fill(v, "X"), blkw(n, "Y"), fill(w, "Z"), fill("Y"), fill("Z"), end()]
    yield "blkw-3", lambda: [orig(c16(0x3000)), blkw(n, "Y"), blkw(p, "Z"), fill("Z"), end("TOP")]
    yield "blkw-k", lambda: [orig(o), blkw(c16(4), "Y"), blkw(c16(0x200), "Z"), ins("HALT", None, "W"), fill("W"), end()]
    yield "end-label", lambda: [orig(o), fill("LAST"), end("LAST")]
    yield "two-labels", lambda: [orig(o), fill("b"), ins("ADD", None, "A", "B"), end()]
    yield "same-label-twice", lambda: [orig(o), ins("ADD", None, "A", "a"), fill("A"), end()]
    yield "own-line", lambda: [orig(o), ins("RET", None, "A", "B", own_line=True, pre=2), fill("A"), end(pre=1)]
    yield "empty-block", lambda: [orig(o), end(), orig(o), fill(v), end()]
    yield "empty-in", lambda: [orig(o), fill(v), fill(w), end(), orig(p), end()]
    yield "empty-label", lambda: [orig(o), end("E"), orig(c16(0x3000)), fill("E"), end()]
    yield "ext-fill", lambda: [ext("X"), orig(o), fill("x"), fill("X", "Y"), end()]
    yield "ext-fill-late", lambda: [orig(o), fill("x"), fill("X", "Y"), end(), ext("X")]
    yield "ext-in-block", lambda: [orig(o), ext("X"), fill("x"), end(), ext("x")]
    yield "ext-two", lambda: [ext("X"), ext("Y"), orig(o), fill("y"), ins("NOT"), fill("X"), end()]
    yield "ext-def", lambda: [ext("X"), orig(c16(0x3000)), fill(v, "X"), end()]
    yield "def-ext", lambda: [orig(c16(0x3000)), fill(v, "X"), ext("X"), end()]
    yield "ext-unused", lambda: [ext("X"), orig(o), fill(v), end()]
    yield "ext-only", lambda: [ext("X")]
    yield "nothing", lambda: []
    yield "high-blkw", lambda: [orig(c16(0xFDFE)), blkw(n), end()]
    yield "high-fill", lambda: [orig(o), fill(v), fill(w), fill(v), end()]
    yield "io", lambda: [orig(c16(0xFE00)), fill(v), end()]
    yield "io-empty", lambda: [orig(c16(0xFE00)), end()]
    yield "top", lambda: [orig(c16(0xFFFF)), fill(v), end()]
    yield "top-label", lambda: [orig(c16(0xFFFF)), fill(v), end("L")]
    yield "wrap", lambda: [orig(c16(0xFFFF)), fill(v), fill(w), end()]
    yield "wrap-blkw", lambda: [orig(c16(0x3000)), blkw(n), blkw(p), end()]
    yield "low", lambda: [orig(c16(0)), fill(v, "A"), fill("A"), end()]
    yield "low-ext", lambda: [ext("A"), orig(c16(0)), fill(v, "A"), end()]


def two_blocks():
    for a in range(1, 4):
        for b in range(1, 4):
            yield "blocks:%d,%d" % (a, b), (lambda a=a, b=b: [orig(o)] + [fill(c16(i)) for i in range(a)] + [end(), orig(p)] + [fill(c16(16 + i)) for i in range(b)] + [end()])
    yield "blocks-blkw", lambda: [orig(o), blkw(c16(3)), end(), orig(p), blkw(c16(2)), fill(v), end()]
    yield "blocks-big", lambda: [orig(o), blkw(c16(0x100)), end(), orig(p), blkw(c16(2)), end()]
    yield "blocks-k,n", lambda: [orig(c16(0x4000)), fill(v), fill(w), end(), orig(p), blkw(n), end()]
    yield "blocks-n,k", lambda: [orig(p), blkw(n), end(), orig(c16(0x4000)), fill(v), fill(w), end()]
    for xs in itertools.permutations((0x3000, 0x4000, 0x5000)):
        yield "three:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), fill(c16(x), "L%x" % x), fill("l4000"), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x3001, 0x3004)):
        yield "three-c:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), fill(v), fill(w), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x3002, 0x3004)):
        yield "three-t:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), fill(v), fill(w), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x4000, 0x4001)):
        yield "three-f:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), fill(v), fill(w), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x4000, 0x4005)):
        yield "three-g:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), blkw(c16(0x10 if x == 0x4000 else 2)), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x4000, 0x4001, 0x5000)):
        yield "four:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), fill(v), fill(w), end()] for x in xs], []))
    for xs in itertools.permutations((0x3000, 0x3001, 0x5000)):
        yield "three-n:%s" % ",".join("%x" % x for x in xs), (lambda xs=xs: sum([[orig(c16(x)), blkw(c16(0x100 if x == 0x3000 else 1)), end()] for x in xs], []))
    yield "three-sym", lambda: [orig(o), fill(v), end(), orig(p), fill(w), end(), orig(q), fill(v), end()]


def corpus(A, tier="quick"):
    """(tag, program builder)"""
    out = list(instructions(A)) + list(layouts(A)) + list(two_blocks())
    d = {"small": 3, "quick": 4}.get(tier, 5)
    out += list(structural(d, d))
    return out


def labels():
    """label spellings, positions, duplicates, externals"""
    yield from styles()
    yield "l:one", lambda: [orig(o), ins("NOT", None, "Loop"), fill(v), end()]
    yield "l:many", lambda: [orig(o), ins("NOT", None, "Loop", "lOOp2", "A_b"), fill(v, "Z"), blkw(n), end()]
    yield "l:many2", lambda: [orig(o), fill(v, "Z"), blkw(n, "Buf"), fill(w, "after"), end("TOP")]
    yield "l:prefix", lambda: [orig(o), fill(v, "LO"), fill(v, "LOOP"), fill(v, "LOOPY"), fill("lo"), end()]
    yield "l:dup", lambda: [orig(o), fill(v, "One", "oNE"), fill("ONE"), end()]
    yield "l:dup-lines", lambda: [orig(o), fill(v, "x1y", "One", own_line=True, pre=1), fill("ONE", "two"), end()]
    yield "l:ext", lambda: [ext("Ext"), orig(o), fill(v, "a"), fill("EXT"), end()]
    yield "l:ext-late", lambda: [orig(o), fill(v, "a"), fill("EXT"), end(), ext("Ext"), ext("eXT")]
    yield "l:ext-two", lambda: [ext("foo"), ext("Bar"), orig(o), fill("BAR", "B2"), fill("Foo"), end()]
    yield "l:blocks", lambda: [orig(o), fill(v, "A1"), end(), orig(p), strz("hi", "A2"), fill(w, "A3"), end()]
    yield "l:blocks-back", lambda: [orig(c16(0x5000)), fill(v, "hi"), end("hiEnd"), orig(c16(0x3000)), fill(v, "lo"), end("loEnd")]
    yield "l:ext-labelled", lambda: [orig(o), fill(v, "a"), ext("E", "b"), fill("e", "c"), end()]
    yield "l:orig0", lambda: [orig(c16(0)), fill(v, "zero"), fill(w, "one"), end()]
    yield "l:nonascii", lambda: [orig(o), fill(v, "a\u0131"), fill(w, "b\u00e9"), end()]
    yield "l:same-addr", lambda: [orig(c16(0x3000)), end("E1"), orig(c16(0x3000)), fill(v, "S"), end("E2"), orig(c16(0x3001)), fill(w, "T"), end()]
    yield "l:many-ext", lambda: [ext("p"), ext("q"), ext("r"), orig(o), fill("R"), fill("q"), fill("P"), fill("Q"), end()]


def errors():
    """faulty programs whose labels have long, mixed-case spellings"""
    for k in ("ADD", "LD", "BR", "LEA", "JSR", "STI", "NOP"):
        yield "e:ext:" + k, lambda k=k: [orig(o, pre=1), fill(v, "here"), ins(k, "uart_Base" if k != "ADD" else None, "L2"), end(), ext("Uart_BASE")]
        yield "e:undef:" + k, lambda k=k: [orig(o), fill(v, "here"), ins(k, "no_where" if k != "ADD" else None), end()]
        yield "e:far:" + k, lambda k=k: [orig(o), ins(k, "distant" if k != "ADD" else None), blkw(n), fill(v, "Distant"), end()]
    yield "e:dup", lambda: [orig(o), fill(v, "twice"), fill(w, "x", "tWICE", own_line=True), end()]
    yield "e:dup-three", lambda: [orig(o), fill(v, "thrice"), fill(w, "Thrice"), fill(w, "tHRice"), end()]
    yield "e:dup-blocks", lambda: [orig(c16(0x3000)), fill(v, "twice"), end(), orig(c16(0x4000)), fill(w, "other", "TWICE"), end()]
    yield "e:dup-ext", lambda: [ext("shared"), orig(o), fill(w), fill(v, "Shared"), end()]
    yield "e:ext-dup", lambda: [orig(o), fill(w), fill(v, "Shared"), end(), ext("shared")]
    yield "e:outside", lambda: [fill(v, "loose", "stray", pre=2), orig(o), end()]
    yield "e:outside2", lambda: [orig(o), end(), ins("NOT", None, "loose")]
    yield "e:outside-dup", lambda: [orig(o), fill(v, "loose"), end(), ext("q", "loOse")]
    yield "e:ext-label", lambda: [ext("q", "label_on_external"), orig(o), end()]
    yield "e:undef-fill", lambda: [orig(o), fill("nothing"), fill("nix"), end()]


def lines():
    yield from styles()
    yield "n:comments", lambda: [orig(o, pre=2), fill(v, pre=1), fill(w), ins("NOT", pre=3), end(pre=1)]
    yield "n:own", lambda: [orig(o), fill(v, "A", "B", own_line=True), fill(w, "C"), ins("RET", None, "D", own_line=True), end("E", own_line=True)]
    yield "n:sizes", lambda: [orig(c16(0x3000)), blkw(c16(5)), strz("hey"), blkw(n), fill(v), end()]
    yield "n:sizes2", lambda: [orig(o), blkw(c16(5)), strz("hey"), fill(v), end()]
    yield "n:blocks", lambda: [orig(o), fill(v), fill(w), end(), orig(p, pre=1), fill(v), end()]
    yield "n:ext-mid", lambda: [orig(o), fill(v), ext("X"), fill(w), fill("X"), end()]
    yield "n:ext-last", lambda: [orig(o), fill(v), ext("X"), end(), orig(p), ext("Y"), fill("y"), end()]
    yield "n:down", lambda: [orig(c16(0x5000)), fill(v), fill(w), end(), orig(c16(0x3000)), fill(v), ins("NOT"), end()]
    yield "n:adjacent", lambda: [orig(c16(0x3000)), fill(v), fill(w), end(), orig(c16(0x3002)), fill(v), ins("NOT"), end()]
    yield "n:empty", lambda: [orig(o), end(), orig(p), end(), orig(q), fill(v), end()]
    yield "n:first-line", lambda: [orig(o), fill(v), end()]
    yield "n:many", lambda: [orig(o)] + [fill(c16(i)) for i in range(9)] + [end()]
    yield "n:long-blocks", lambda: sum([[orig(c16(x))] + [fill(c16(i)) for i in range(4)] + [end()] for x in (0x4000, 0x3000, 0x3800)], [])


STYLES = [("crlf", dict(nl="\r\n")), ("final-newline", dict(tail="")), ("blank-tail", dict(tail="\n \n")), ("flush-left", dict(indent="", tail="")),
          ("head", dict(head="\n\n; h\u00e9ad\u2192\n")), ("crlf-head", dict(nl="\r\n", head="\r\n", tail="\r\n"))]


def styles():
    """one program in several source layouts"""
    for nm, k in STYLES:
        yield "s:" + nm, lambda k=k: styled([ext("Ext"), orig(o), fill(v, "First", own_line=True), ins("NOT", None, "lab"), fill("ext", pre=1), blkw(n), end("last")], **k)
        yield "s2:" + nm, lambda k=k: styled([orig(o), fill(v), fill(w, "B"), end(), orig(p, pre=1), strz("hey", "S"), fill("b"), end()], **k)
