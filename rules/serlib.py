"""Object file formats: write an object file abstractly, read the result back abstractly, compare."""
from rules.linklib import *
from rules.parselib import Doc, LX, worst
from engine import models as M_


Link.unroll_max = 2000


class Fmt:
    def __init__(self, P, name):
        self.P, self.name = P, name
        fs = [f for f in P.fns_like("serialize") if name in f["name"]], [f for f in P.fns_like("deserialize") if name in f["name"]]
        self.ser, self.de = fs[0][0] if fs[0] else None, fs[1][0] if fs[1] else None
        self.where = P.loc(self.ser, self.ser["line"]) if self.ser else "?"
        self.dwhere = P.loc(self.de, self.de["line"]) if self.de else "?"

    def write(self, X, s, obj):
        return call(X, s, self.ser, X.vref(obj))

    def read(self, X, s, v):
        return call(X, s, self.de, X.vref(v))


def diff(X, s, a, b, ty, path=""):
    """[(path, verdict)]: verdict True / False / None for every part of two values of one type"""
    P = X.P
    t = P.types[ty]
    n = t["n"]
    if a is b:
        return []
    a, b = M_.deref_all(X, s, a) if a.op in ("ref", "str") else a, M_.deref_all(X, s, b) if b.op in ("ref", "str") else b
    if a is b:
        return []
    if n.endswith("String") or t["k"] == "str":
        x, y = raw_of(X, s, a), raw_of(X, s, b)
        return [(path, None if x is None or y is None else x == y)]
    if "Map<" in n and len(t.get("a") or ()) >= 2:
        ka, kb = M_.map_keys(X, s, a), M_.map_keys(X, s, b)
        if ka is None or kb is None:
            return [(path, None)]
        if len(ka) != len(kb):
            return [(path + " (entries)", False)]
        out = []
        for k in ka:
            va, da = map_find(X, s, a, k)
            vb, db = map_find(X, s, b, k)
            if not da or not db:
                return [(path, None)]
            if vb is None or va is None:
                return [(path + " (keys)", False)]
            out += diff(X, s, va, vb, t["a"][1], path)
        return out
    if n.startswith("std::vec::Vec<"):
        la, lb = s.resolve(X.length(s, a)), s.resolve(X.length(s, b))
        if not isc(la) or not isc(lb):
            q = same(X, s, la, lb)
            return [(path + " (length)", False if q is False else None)]
        if cv(la) != cv(lb):
            return [(path + " (length)", False)]
        e = M_.ety_of(X, ty)
        return [x for i in range(cv(la)) for x in diff(X, s, X.elem(s, a, M_.c64(i), e), X.elem(s, b, M_.c64(i), e), e, path)]
    if a.w is not None and b.w is not None:
        return [(path, same(X, s, a, b))]
    if t["k"] in ("adt", "tuple"):
        vi = 0
        if t["k"] == "adt" and t["ak"] == "enum":
            va, vb = X.variant(s, a), X.variant(s, b)
            if va is None or vb is None:
                return [(path, None)]
            if va != vb:
                return [(path + " (%s/%s)" % (P.vname(ty, va), P.vname(ty, vb)), False)]
            vi = va
        fs = t["v"][vi]["f"] if t["k"] == "adt" else [("%d" % i, x) for i, x in enumerate(t["f"])]
        return [x for i, f in enumerate(fs) for x in diff(X, s, X.fld(a, vi, i, f[1]), X.fld(b, vi, i, f[1]), f[1], path + ("." if path else "") + f[0] if t["k"] == "adt" and t["ak"] != "enum" and not f[0].isdigit() else path)]
    return [(path, None)]


def same(X, s, a, b):
    if a is b:
        return True
    a, b = s.resolve(a), s.resolve(b)
    if isc(a) and isc(b):
        return cv(a) == cv(b)
    return zone_decide(s, eq(a, b))


def raw_of(X, s, a):
    a = M_.deref_all(X, s, a)
    if a.op in ("str", "strc") and isinstance(a.args[0], bytes):
        return a.args[0]
    n = pystr(X, s, a)
    return None if n is None else n.encode()


def prepare(X):
    X.unroll = X.marks = True
    X.unroll_max = 4000
    X.maxpaths = 3000
    X.hash_sample = HASH_ORDERS


def sure(s):
    return not s.widened() and not zone_unsat(s)


def feas(X, s):
    return sure(s)


def excerpt(v):
    r = v.args[0] if v.op in ("strc", "str") and isinstance(v.args[0], bytes) else None
    return "" if r is None else r.decode("utf8", "replace")


CAP = 24
HASH_ORDERS = 3      # orders of a hash map that are followed


def roundtrip(K, F, X, s, obj, tag, what):
    """writes obj, reads it back; judges rejection, panics and every part of the object"""
    P = F.P
    prepare(X)
    oty = obj.ty if obj.ty is not None else P.adt("ObjectFile")
    ws, ps = F.write(X, s, obj)
    for p in ps:
        K.judge("written", "panic|write", False if sure(p.st) else None, lambda: "%s: writing the object file of %s panics (%s)" % (P.loc(p.fn, p.line), what, p.kind), tag)
    if not ws and not ps:
        K.undecided("written", tag + ": no outcome of writing")
    k = 1 + len(ws) // CAP if K.tier == "quick" else 1
    for s1, v in ws[::k]:          # (orders of the label map: a sample of them in the quick tier)
        K.ok("written", tag)
        rs, ps = F.read(X, s1, v)
        for p in ps:
            K.judge("accepted", "panic|read", False if sure(p.st) else None, lambda: "%s: reading the written object file of %s back panics (%s)" % (P.loc(p.fn, p.line), what, p.kind), tag)
        if not rs and not ps:
            K.undecided("accepted", tag + ": no outcome of reading")
        for s2, r in rs:
            if zone_unsat(s2):
                continue
            k, o = opt_of(X, s2, r)
            K.judge("accepted", "rejected", None if k is None else True if k == "Some" else False if sure(s2) else None,
                    lambda: "%s: the object file of %s is written (%s) as something the reader (%s) rejects" % (F.dwhere, what, F.where, F.dwhere), tag)
            if k != "Some":
                continue
            ds = diff(X, s2, obj, o, oty)
            bad = sorted({p for p, q in ds if q is False})
            unk = sorted({p for p, q in ds if q is None})
            if bad:
                for p in bad:
                    K.judge("equal", "differs|" + p, False if sure(s2) else None, lambda: "%s / %s: the object file of %s reads back with a different %s" % (F.where, F.dwhere, what, p or "value"), tag)
            else:
                K.judge("equal", "differs", None if unk else True, lambda: "", tag)
                if unk:
                    K.undecided("equal", "%s: %s not resolved" % (tag, ", ".join(unk)))


# ------------------------------------------------------------------ object files
def fixed(prog):
    """the program with sizes made concrete; None if it holds a symbolic string"""
    for x in prog:
        if x.kind == "blkw" and (not isc(x.arg) or cv(x.arg) > 400):
            x.arg = oc(3 if not isc(x.arg) else 20)
        if x.kind == "stringz" and not isinstance(x.arg, str):
            return None
    return prog


def singles(A, tier):
    yield from (it for it in list(layouts(A)) + list(labels()) + list(lines()) + list(two_blocks()))
    for w in (0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0x8000, 0xFFFF):
        yield "word:%x" % w, lambda w=w: [orig(oc(0x3000)), fill(oc(w)), end()]
        if w < 0xFE00:
            yield "addr:%x" % w, lambda w=w: [ext("E"), orig(oc(w)), fill("L", "L"), fill("E"), blkw(oc(2), "M"), fill(va), end("T")]
    for k in (1, 2, 9, 10, 11):
        yield "nlab:%d" % k, lambda k=k: [orig(oc(0x10))] + [fill(oc(i), *(["l%d" % i] if i < 5 else [])) for i in range(k)] + [end()]
        yield "nblk:%d" % k, lambda k=k: [s for i in range(k) for s in (orig(oc(0x3000 - 0x100 * i)), fill(oc(i)), end())]
    for k in (1, 5, 6, 25):
        yield "lablen:%d" % k, lambda k=k: [ext("e" * k), orig(oc(0x3000)), fill("e" * k), fill(va, "Ab_9"), end("z" * k)]
        yield "deep:%d" % k, lambda k=k: [orig(oc(0x3000), pre=k), fill(va, "A", pre=k), end("B", pre=k)]
    yield "long:strz", lambda: [orig(oc(0x3000)), strz("y" * 299 + "\n", "S"), fill("S"), end("E")]
    yield "long:head", lambda: styled([ext("E1"), orig(oc(0x3000)), fill(va, "A"), fill("E1", "B"), end("E")], head="; " + "x" * 300 + "\n")
    yield "long:blkw", lambda: [orig(oc(0x3000)), blkw(oc(300)), fill(va, "A"), end()]
    for nm, t in (("e\u0301", "combining"), ("\u00e9", "accent"), ("\u4e2d\u6587", "wide"), ("\u0130x", "dotted")):
        yield "labch:" + t, lambda nm=nm: [ext("q" + nm), orig(oc(0x3000)), fill("q" + nm), fill(va, nm if nm[0] != "e" else "a"), end()]


COMMENTS = ("\"quoted\" 'single'", "back\\slash \\n \\", "tab\tin", "bell\x07 esc\x1b nul\x00 del\x7f", "caf\u00e9 \u4e2d \U0001F600 \u200b\u2028\ufeff", "| a | b |", " | 0000 | X", "# hash", ".DEBUG", "====", "\\u{41} \\x41 \\101", "\\\r", "trailing  \t ", "LC-3 OBJ FILE", "????", "\u00a0nbsp\u3000",
            "\\'\\\"", "\x85\x1c\x0b\x0c", "{} {0} %s", "\u0301", "\ue000 \uf000", "a" * 300)
PROG = ".orig x3000\nA LD R0, B\nB .fill A\n.stringz \"x\"\n.end\n"


def texts():
    """source texts: (tag, [texts])"""
    for i, c in enumerate(COMMENTS):
        yield "comment", [".orig x3000 ;%s\nA .fill B ; %s\n;%s\nB .blkw 2\n.end ;%s" % (c, c, c, c)]
        yield "comment", [";%s\n.orig x3000\n.fill 1\n.end\n;%s\n" % (c, c)]
        yield "comment", ["; %s\r\n.orig x3000\r\nL .fill 1;%s\r\n.end\r\n" % (c, c)]
    for t in ("a\\\"b", "\\\\", "\\t\\n\\r\\0", "\u00e9\u4e2d", "'", "tab\there", " | ", "", "#", "\\\\n", "\x01\x7f", "\\e"):
        yield "string", [".orig x3000\nS .stringz \"%s\"\nT .fill S\n.end\n" % t]
    for b in ("\n", "\n\n\n", " \n\t\n", "\r\n", "\r\n\r\n \r\n", "\t", " ", "\n ;\n"):
        yield "blank", [b + PROG]
        yield "blank", [PROG + b]
        yield "blank", [PROG.rstrip("\n") + b]
        yield "blank", [PROG.replace("\n", "\n" + b)]
        yield "blank", [PROG.replace("\n", "  " + ("\r\n" if b.startswith("\r") else "\n") + b)]
    yield "nothing", [""]
    for b in ("\n", " ", ";", ";\n", "\r\n", "\n\n", " \n", "; only a comment", ";a\n;b", "\t\r\n"):
        yield "nothing", [b]
    for n in ("\n", "\r\n"):
        yield "ext", [(".external X\n.external Y\n.orig x3000\nA .fill X\n.fill Y\n.fill x\n.end\n").replace("\n", n)]
        yield "ext", [(".orig x3000\n.fill X\n.external X\n.fill X\n.end").replace("\n", n)]
        yield "ext", [(".orig x3000\nA .fill X\n.end\n.external X\n.external A2\n").replace("\n", n)]
        yield "blocks", [(".orig x5000\nA .fill 1\n.end\n.orig x3000\nB .blkw 3\n.stringz \"q\\\"\"\n.end\n\n.orig 0\nC .fill C\n.end\n").replace("\n", n)]
        yield "blocks", [(".orig x5000\n.end\n.orig x3000\n.fill -1\n.end\n.orig x3001\nE .end").replace("\n", n)]
        yield "labels", [("A\nB\n;c\nC: .orig x3000\n" if False else ".orig x3000\nA\nB:\n ; c\nC: add r0,r0,1\n\n\nD\n.end\n").replace("\n", n)]
        yield "labels", [(".orig x3000\n\u00e9t\u00e9 .fill \u00e9t\u00e9\n_ .fill _\n.end\n").replace("\n", n)]
        yield "link", [(".external A\n.orig x3000\nB .fill A\n.end").replace("\n", n), (".orig x4000\nA .fill 7 ; \"\\\t\n.end\n").replace("\n", n)]
        yield "link", [(".orig x4000\nA .fill 7\n.end").replace("\n", n), (".external A ;\u00e9\n.external Z\n.orig x3000\nB .fill A\n.fill Z\n.end").replace("\n", n)]
    yield "link", ["", ".orig x3000\n.fill 1\n.end"]
    yield "link", [".orig x3000\n.fill 1\n.end\n\n ", "\n\n"]
    yield "link", [".orig x3000\n.fill 1\n.end\r\n", ";\r", ".orig x4000\n.fill 1\n.end"]


class Text:
    """object files of literal texts: every file parsed and assembled (with debug symbols or not), then linked left to right"""

    def __init__(self, A, ts, debug):
        self.A, P = A, A.P
        self.X = X = Interp(P, {})
        prepare(X)
        st, _ = X.start(P.fn("parse::parse_ast"))
        self.what = " ++ ".join("`%s`" % t[:120].encode("unicode_escape").decode() for t in ts) + (" (debug symbols)" if debug else "")
        sts = [(st, None)]
        for t in ts:
            nxt = []
            ref_ = LX.as_ref(X, mk("strc", (t.encode(),)))
            for s, prev in sts:
                for s1, r in call(X, s, "parse::parse_ast", ref_)[0]:
                    for s2, r2 in self.good(s1, r, "asm::assemble_debug" if debug else "asm::assemble", [ref_] if debug else []):
                        nxt += [(s2, r2)] if prev is None else [(s3, o) for s3, o in self.oks(call(X, s2, P.fn("ObjectFile::link"), prev, r2)[0])]
            sts = nxt
        self.sts = sts

    def oks(self, rs):
        for s, r in rs:
            vi = self.X.variant(s, r)
            if vi is not None and self.X.P.vname(r.ty, vi) == "Ok":
                yield s, self.X.fld(r, vi, 0, self.X.P.types[r.ty]["v"][vi]["f"][0][1])

    def good(self, s, r, f, extra):
        for s1, ast in self.oks([(s, r)]):
            yield from self.oks(call(self.X, s1, self.X.P.fn(f), ast, *extra)[0])


def items(A, tier):
    """(kind, tag, builder, tree, debug)"""
    out = []
    for g, b in singles(A, tier):
        for dbg in (True, False):
            out.append(("prog", g, lambda b=b: [b()], 0, dbg))
    for gs, n in ((list(pairs()) + list(layouts2()), 2), (list(triples()) + list(layouts3()), 3)):
        for g, b in gs:
            ts = trees(n)
            for t in ts if n == 2 else ts[::5] if tier == "quick" else ts:
                for dbg in (True, False):
                    out.append(("link", g, b, t, dbg))
    for g, b in pairs():
        out += [("link", g, b, (0, 1), [True, False]), ("link", g, b, (0, 1), [False, True])]
    for g, ts in texts():
        for dbg in (True, False):
            out.append(("text", "text:" + g, ts, None, dbg))
    return out


def judge_format(K, name):
    A = Asm(K.P)
    F = Fmt(K.P, name)
    K.rule("written", "writing an object file of the assembler or linker does not panic", 100)
    K.rule("accepted", "what is written is accepted by the reader", 100)
    K.rule("equal", "and gives an equal object file: blocks, labels, flags, label positions, relocations, line table, source text and line starts", 100)

    def one(K, chunk):
        for kind, g, b, t, dbg in chunk:
            tag = "%s%s%s" % (g, "" if t in (0, None) else " " + tname(t), ",nodebug" if dbg is False else "")
            try:
                if kind == "text":
                    L = Text(A, b, dbg)
                    K.saw(L.X)
                    for s, o in L.sts:
                        roundtrip(K, F, L.X, s, o, tag, L.what)
                    continue
                progs = b()
                progs = [fixed(p) for p in progs]
                if any(p is None for p in progs):
                    continue
                L = Link(A, progs, dbg, g)
                K.saw(L.X)
                L.X.hash_sample = HASH_ORDERS
                for s, objs, Rs in L.sts:
                    out = [(s, objs[0], None)] if t == 0 else [(q, o, e) for p, o, e in L.link(s, t, objs) if o is not None for q, _ in explore(p, lambda ask: merged(Rs, ask))]
                    for s2, o, e in out[::1 + len(out) // 12] if K.tier == "quick" else out:
                        if o is not None and not zone_unsat(s2):
                            roundtrip(K, F, L.X, s2, o, tag, "[%s]%s%s" % (L.text[:160], "" if t == 0 else " linked " + tname(t), "" if dbg is False else " (debug symbols)" if dbg is True else " (debug symbols of one)"))
            except Limit as e:
                K.undecided("accepted", "%s: limit %s" % (tag, e))

    its = items(A, K.tier)
    K.pmap(one, [its[i::96] for i in range(96)])
