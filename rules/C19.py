"""C19: object files from arbitrary bytes or text never make the library panic."""
from rules.serlib import *
from rules.loadlib import Obj
from rules.simlib import Sim
from engine.terms import bits, mkbits

EXPLAIN = ("Panic-site analysis of the two readers over streams enumerated by structure (every chunk kind and section, declared lengths that are exact, short, long and huge, missing and repeated parts, truncation at every byte or "
           "line, odd numbers and characters; payload bytes symbolic). Every object file a reader accepts on an abstract path is written in both formats, linked with assembled files on either side, and loaded into an "
           "arbitrary machine; no abstract path may reach a panic.")


# ------------------------------------------------------------------ binary streams
class Bin:
    def __init__(self):
        self.n = 0

    def sym(self, k=1):
        self.n += 1
        return [var("b%d_%d" % (self.n, i), 8) for i in range(k)]

    @staticmethod
    def le(v, k):
        return [I(v >> (8 * i) & 255, 8) for i in range(k)]


def raw(b):
    return [I(x, 8) for x in b]


MAGIC = b"obj\x21\x10\x00\x01"


def chunks(B):
    """single chunks: (tag, bytes)"""
    out = []
    for a in (0, 0x3000, 0xFDFF, 0xFE00, 0xFFFE, 0xFFFF):
        for d, n in ((0, 0), (1, 1), (2, 2), (3, 3), (3, 2), (2, 3), (0xFFFF, 1)):
            out.append(("block x%04X %d/%d" % (a, d, n), [I(0, 8)] + B.le(a, 2) + B.le(d, 2) + [x for i in range(n) for x in [I((255, 0, 7)[i % 3], 8)] + B.sym(2)]))
    out.append(("block flag", [I(0, 8)] + B.le(0x3000, 2) + B.le(1, 2) + B.sym(3)))
    for nm in (b"A", b"Ab1", b"", "\u00e9".encode(), b"\xff", b"\xc3", b"a b|\n"):
        for d in {len(nm), 0, len(nm) + 1, 1 << 63, (1 << 64) - 1, 1 << 32}:
            for src in (0, (1 << 64) - 1, 1 << 63) if d == len(nm) else (5,):
                for e in (0, 1, 255) if d == len(nm) and src == 0 else (1,):
                    out.append(("label %r len %d src %d ext %d" % (nm, d, src, e), [I(1, 8)] + B.sym(2) + [I(e, 8)] + B.le(src, 8) + B.le(d, 8) + raw(nm)))
            out.append(("rel %r len %d" % (nm, d), [I(4, 8)] + B.sym(2) + B.le(d, 8) + raw(nm)))
            out.append(("src %r len %d" % (nm, d), [I(3, 8)] + B.le(d, 8) + raw(nm)))
    for l in (0, 3, (1 << 64) - 1, (1 << 64) - 2, 1 << 63):
        for d, n in ((0, 0), (1, 1), (2, 2), (3, 3), (2, 1), (1, 2), (0xFFFF, 1)):
            out.append(("line %d %d/%d" % (l, d, n), [I(2, 8)] + B.le(l, 8) + B.le(d, 2) + B.sym(2 * n)))
    out.append(("line equal", [I(2, 8)] + B.le(1, 8) + B.le(2, 2) + B.le(0x3000, 2) * 2))
    out.append(("line falling", [I(2, 8)] + B.le(1, 8) + B.le(2, 2) + B.le(0x3001, 2) + B.le(0x3000, 2)))
    for k in (5, 6, 0x7F, 0xFF):
        out.append(("kind %d" % k, [I(k, 8)] + B.sym(2)))
    out.append(("kind any", B.sym(6)))
    return out


def lab(a, n, e=0, src=0):
    return [I(1, 8)] + Bin.le(a, 2) + [I(e, 8)] + Bin.le(src, 8) + Bin.le(len(n), 8) + raw(n)


def rel(a, n):
    return [I(4, 8)] + Bin.le(a, 2) + Bin.le(len(n), 8) + raw(n)


def blk(a, *ws):
    return [I(0, 8)] + Bin.le(a, 2) + Bin.le(len(ws), 2) + [x for w in ws for x in ([I(0, 8)] * 3 if w is None else [I(255, 8)] + ([mkbits(bits(w)[:8]), mkbits(bits(w)[8:])] if isinstance(w, T) else Bin.le(w, 2)))]


def lin(l, *ads):
    return [I(2, 8)] + Bin.le(l, 8) + Bin.le(len(ads), 2) + [x for a in ads for x in Bin.le(a, 2)]


def src(t):
    return [I(3, 8)] + Bin.le(len(t), 8) + raw(t)


BIG = (1 << 64) - 1


def binaries(tier):
    """(tag, bytes)"""
    for k in range(len(MAGIC) + 1):
        yield "header %d bytes" % k, raw(MAGIC[:k])
        yield "header", raw(MAGIC[:k]) + [var("hb", 8)] + raw(MAGIC[k + 1:])
    B = Bin()
    H = raw(MAGIC)
    for t, c in chunks(B):
        yield t, H + c
        for k in (1, 2, 3, 4, 5, 8, 11, 12, 13, 19, 20):
            if k < len(c):
                yield t + " cut", H + c[:k]
    v, w = var("w1", 16), var("w2", 16)
    full = [blk(0x3000, v, None, w), lab(0x3000, b"A", 0, 3), lab(0, b"EXT", 1, 9), lin(1, 0x3000, 0x3001), src(b".orig x3000\nA .fill 1\n"), rel(0x3002, b"EXT")]
    yield "full", H + sum(full, [])
    for i in range(len(full)):
        yield "without chunk %d" % i, H + sum(full[:i] + full[i + 1:], [])
        yield "twice chunk %d" % i, H + sum(full[:i] + [full[i]] * 2 + full[i + 1:], [])
        yield "only chunk %d" % i, H + full[i]
    yield "reversed", H + sum(full[::-1], [])
    fb = H + sum(full, [])
    for k in range(len(H), len(fb)) if tier != "quick" else range(len(H), len(fb), 3):
        yield "cut at %d" % k, fb[:k]
    # pending relocations pointing anywhere, with and without their block or label
    for a in (0, 0x2FFF, 0x3000, 0x3001, 0x3002, 0xFDFF, 0xFE00, 0xFFFF):
        for bs in ([], [(0x3000, v)], [(0x3000, v, None)], [(0xFFFF, v, w)], [(0xFFFE, v)], [(0x3000,)], [(0, v)], [(0x2000, v), (0x3001, w)]):
            for ls in ([lab(0, b"EXT", 1)], [lab(0x3000, b"EXT", 0)], [lab(0xFFFF, b"EXT", 0)], [lab(5, b"Q", 1)]):
                yield "relocation", H + sum([blk(*b) for b in bs], []) + sum(ls, []) + rel(a, b"EXT")
    # blocks that wrap, overlap, touch
    shapes = [(0xFFFF, v, w), (0xFFFF, v), (0, v), (0xFE00, v), (0x3000, v, w), (0x3001, v), (0x3000,), (0x3001,), (0xFFFE, v, None, w), (0xFDFF, None, v)]
    for a in shapes:
        yield "blocks", H + blk(*a)
        for b in shapes:
            yield "blocks", H + blk(*a) + blk(*b)
            yield "blocks", H + blk(*a) + blk(*b) + lab(0xFFFF, b"EXT", 1, BIG)
    # debug tables that do not match each other
    for l in (0, 1, 5, 1 << 31, BIG, BIG - 1, BIG - 2):
        for ads in ((), (0x3000,), (0x3000, 0x3001), (0xFFFF,)):
            for t in (None, b"", b"x", b"a\nb\n", b"\n\n", "\u00e9\n".encode()):
                yield "lines", H + lin(l, *ads) + (src(t) if t is not None else [])
                if l in (0, BIG):
                    yield "lines", H + blk(0x3000, v) + lab(0x3000, b"L", 0, l) + (src(t) if t is not None else []) + lin(l, *ads) + lin(3, 0x2000)
    for a, n, b in ((BIG - 1, 2, BIG), (BIG - 1, 1, BIG), (BIG - 2, 3, BIG - 1), (BIG - 3, 2, BIG - 1), (BIG, 1, BIG), (BIG, 2, 0)):
        yield "line ends", H + lin(a, *range(0x3000, 0x3000 + n)) + lin(b, 0x4000)
        yield "line ends", H + lin(b, 0x4000, 0x4001) + lin(a, *range(0x3000, 0x3000 + n)) + src(b"\n")
    for s in (0, 1, 3, 1 << 63, BIG, BIG - 1):
        for n in (b"EXT", b"Longer_Label", "\u00e9\u00e9".encode()):
            for t in (None, b"", b"ab\ncd", "\u4e2d".encode()):
                yield "label position", H + lab(0, n, 1, s) + lab(7, b"Z", 0, s) + (src(t) if t is not None else [])


# ------------------------------------------------------------------ texts
TEXT = """LC-3 OBJ FILE

.TEXT
3000
3
1234
????
ABCD
5000
1
0000

.SYMBOL
ADDR | EXT | LABEL
3000 |   0 | A
0000 |   1 | EXT

.LINKER_INFO
ADDR | LABEL
3002 | EXT

.DEBUG
# DEBUG SYMBOLS FOR LC3TOOLS

LABEL | INDEX
A     | 3
EXT   | 9
====================
LINE | ADDR | SOURCE
0    | ???? | .orig x3000\\n
1    | 3000 | A .fill 1\\n
2    | 3001 | .blkw 1\\n
====================
"""
FIELDS = ("", "0", "x", "FFFF", "10000", "-1", "+1", "????", "99999999999999999999", "18446744073709551615", "18446744073709551614", "9223372036854775808", "65535", "65536", "\u00e9", "\u00e9\u00e9", "+FFF", " ", "|", " | ", "=", "====", "#", ".", ".TEXT", ".DEBUG", "\\", "\\u{", "\\u{110000}", "\\u{d800}", "\\x", "\\777", "\\8", "\\q", "\u2003", "\t")


def texts19(tier):
    L = TEXT.split("\n")
    yield "full", TEXT
    for k in range(len(L)):
        j = "\n".join
        yield "cut after line %d" % k, j(L[:k])
        yield "without line %d" % k, j(L[:k] + L[k + 1:])
        yield "twice line %d" % k, j(L[:k] + [L[k]] * 2 + L[k + 1:])
        yield "from line %d" % k, j(L[:1] + L[k:])
        if k + 1 < len(L):
            yield "swapped %d" % k, j(L[:k] + [L[k + 1], L[k]] + L[k + 2:])
        for f in FIELDS:
            yield "line %d is %r" % (k, f), j(L[:k] + [f] + L[k + 1:])
        cols = L[k].split(" | ")
        if len(cols) > 1:
            for c in range(len(cols)):
                yield "line %d without column %d" % (k, c), j(L[:k] + [" | ".join(cols[:c] + cols[c + 1:])] + L[k + 1:])
                for f in FIELDS:
                    yield "line %d column %d %r" % (k, c, f), j(L[:k] + [" | ".join(cols[:c] + [f] + cols[c + 1:])] + L[k + 1:])
        for m in (1, 3, 7):
            yield "line %d cut" % k, j(L[:k] + [L[k][:m]] + L[k + 1:])
    H = "LC-3 OBJ FILE\n"
    D = "===="
    lt_, tt = "LABEL | INDEX\nA | 3", "LINE | ADDR | SOURCE\n0 | 3000 | a\\n\n1 | ???? | b"
    for parts in itertools.product(("", D, lt_, tt), repeat=3 if tier == "quick" else 4):
        yield "debug section", H + ".DEBUG\n" + "\n".join(parts)
        yield "debug section", H + ".SYMBOL\nADDR | EXT | LABEL\n0000 | 1 | A\n.DEBUG\n" + "\n".join(parts)
    secs = [".TEXT\nFFFF\n2\n0000\n????", ".TEXT\nFE00\n1\n1234", ".TEXT\n3000\n0", ".TEXT", ".TEXT\n3000", ".TEXT\n3000\n1", ".SYMBOL", ".SYMBOL\nADDR | EXT | LABEL", ".SYMBOL\nADDR | EXT | LABEL\nFFFF | 1 | EXT", ".LINKER_INFO\nADDR | LABEL\nFFFF | EXT", ".LINKER_INFO\nADDR | LABEL\n3000 | Q",
            ".LINKER_INFO", ".DEBUG", ".DEBUG\n" + D, ".DEBUG\n" + D + "\n" + D, ".DEBUG\nLABEL | INDEX\nZ | 18446744073709551615\n" + D, ".DEBUG\n%s\n%s\n%s" % (D, tt, D), ".DEBUG\n%s\nLINE | ADDR | SOURCE\n0 | FFFF | \\u{4e2d}\n%s" % (D, D), ".FOO", "."]
    for a in secs:
        yield "sections", H + a
        for b in secs:
            yield "sections", H + a + "\n" + b + "\n"
    for t in ("", "\n", " ", "#", "LC-3", "LC-3 OBJ FILE", "LC-3 OBJ FILE\r\n", "# c\n\nLC-3 OBJ FILE\n\n", "x" + H, H + "x", "\ufeff" + H, H + "\x00", H + ".TEXT\r\n3000\r\n1\r\n0000\r\n", H + "\u2028"):
        yield "head", t


# ------------------------------------------------------------------ rules
class Use:
    """what is done with an accepted object file"""

    def __init__(self, K, A):
        self.K, self.A, self.P = K, A, A.P
        self.S = Sim(self.P)
        self.F = [Fmt(self.P, n) for n in ("BinaryFormat", "TextFormat")]
        self.link = self.P.fn("ObjectFile::link")
        self.load = self.P.fn("Simulator::load_obj_file")

    PROGS = [lambda: [ext("EXT"), ext("A"), orig(oc(0x4000)), fill("EXT", "B"), fill("A"), end()], lambda: [orig(oc(0x3001)), fill(oc(7), "EXT"), end("Q")], lambda: [orig(oc(0xFDFF)), fill(oc(7), "EXT"), fill("A", "A") if False else end()], lambda: []]

    def prepare(self, X, s):
        """the assembled files to link with, in one state"""
        out = [(s, [])]
        for i, p in enumerate(self.PROGS):
            dbg = i % 2 == 0
            prog = p()
            text = self.A.layout(prog)
            f = self.P.fn("asm::assemble_debug" if dbg else "asm::assemble")
            nxt = []
            for s1, os in out:
                for s2, r in call(X, s1, f, self.A.ast(prog), *([lit(text)] if dbg else []))[0]:
                    vi = X.variant(s2, r)
                    if vi is not None and self.P.vname(r.ty, vi) == "Ok":
                        nxt.append((s2, os + [r.args[2]]))
            out = nxt[:1]
        return out[0] if out else (s, [])

    def panics(self, rule, ps, what, tag):
        K, P = self.K, self.P
        for p in ps:
            if not zone_unsat(p.st):
                K.judge(rule, "%s:%s" % (p.fn["def"].split("::", 1)[-1][:80], p.kind), False if sure(p.st) else None, lambda: "%s: %s can panic (%s)" % (P.loc(p.fn, p.line), what, p.kind), tag)

    def all(self, X, s, o, mates, tag, what, deep):
        K, P = self.K, self.P
        for F in self.F:
            rs, ps = F.write(X, s, o)
            self.panics("reserialize", ps, "writing (%s) the object file read from %s" % (F.name, what), tag)
            K.ok("reserialize", tag)
        for i, m in enumerate(mates if deep else mates[:2]):
            for a, b in ((o, m), (m, o)):
                rs, ps = call(X, s, self.link, a, b)
                self.panics("link", ps, "linking the object file read from %s %s program %d" % (what, "before" if a is o else "after", i), tag)
                K.ok("link", tag)
        rs, ps = call(X, s, self.link, o, o)
        self.panics("link", ps, "linking the object file read from %s with itself" % what, tag)
        st = s.copy()
        args = []
        for i in range(2):
            ty = self.load["locals"][1 + i]
            if i == 0:
                sim = var("sim", None, P.types[ty]["e"])
                args.append(mk("ref", (X.heap(st, sim), ()), None, ty))
            else:
                args.append(mk("ref", (X.heap(st, o), ()), None, ty))
        rs, ps = call(X, st, self.load, *args)
        self.panics("load", ps, "loading the object file read from %s" % what, tag)
        K.ok("load", tag)


def run(K):
    P = K.P
    A = Asm(P)
    K.rule("read", "reading the stream panics on no path", 300)
    K.rule("reserialize", "an accepted object file is written in both formats without a panic", 100)
    K.rule("link", "an accepted object file is linked with assembled files, on either side, without a panic", 200)
    K.rule("load", "an accepted object file is loaded without a panic", 50)
    FB, FT = Fmt(P, "BinaryFormat"), Fmt(P, "TextFormat")
    u8 = P.tyname.get("u8")

    def one(K, chunk):
        U = Use(K, A)
        for kind, tag, data in chunk:
            try:
                X = Interp(P, {})
                prepare(X)
                X.hash_sample = 1
                F = FB if kind == "binary" else FT
                s, _ = X.start(F.de)
                if kind == "binary":
                    ty = P.types[F.de["locals"][1]]["e"]
                    v = mk("arr", tuple(data), None, ty)
                    what = "bytes (%s)" % tag
                else:
                    v = mk("strc", (data.encode(),))
                    what = "the text (%s) `%s`" % (tag, data[-90:].encode("unicode_escape").decode())
                rs, ps = F.read(X, s, v)
                K.saw(X)
                U.panics("read", ps, "reading %s" % what, tag)
                K.ok("read", tag)
                n = 0
                for s1, r in rs:
                    if zone_unsat(s1):
                        continue
                    k, o = opt_of(X, s1, r)
                    if k is None:
                        K.undecided("read", tag + ": result not resolved")
                    if k != "Some":
                        continue
                    n += 1
                    if n > 4 and K.tier == "quick":
                        break
                    s2, mates = U.prepare(X, s1)
                    U.all(X, s2, o, mates, tag, what, K.tier != "quick" or n == 1)
            except Limit as e:
                K.undecided("read", "%s: limit %s" % (tag, e))

    its = [("binary", t, d) for t, d in binaries(K.tier)] + [("text", t, d) for t, d in texts19(K.tier)]
    K.pmap(one, [its[i::160] for i in range(160)])
