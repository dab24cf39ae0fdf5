"""C36: printed statements reparse to the same statement."""
from itertools import product
from rules.parselib import *
from rules.C03 import LABELS

EXPLAIN = ("Every statement form (each instruction and directive, register and immediate forms, offset and label operands, with and without labels; operand fields symbolic) is printed by the interpreted Display code to a text of "
           "literal pieces and symbolic numbers; the interpreted parser runs over that text (a printed number stands for every spelling of its value) and the statement it returns is compared with the printed one. "
           "String literals are enumerated over every allowed character and over sequences of the characters with a meaning in literals.")

ASCII = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\r", "\0"]
SPECIAL = ['"', "\\", "\n", "\t", "\r", "\0", "n", "t", "r", "0", "u", "{", "}", "x", "'", ";", " ", "a", "%"]


def strings(tier):
    yield from [""] + ASCII
    yield from map("".join, product(SPECIAL, repeat=2))
    yield from map("".join, product(SPECIAL[:8] if tier == "quick" else SPECIAL, repeat=3))
    if tier != "quick":
        yield from map("".join, product(SPECIAL[:10], repeat=4))
        yield from map("".join, product(ASCII, repeat=2))
    yield from ("".join(ASCII), "a" * 65534, '"' * 20 + "b" * 65000, "\0" * 10 + "b" * 65520, "\\" * 30, '"' * 30, "say \"hi\"; .end\r\n", "\\u{41}", "C:\\new\\table\\0")


class Shape(St):
    pass


def shapes(A):
    """[(tag, St, variant choice)]"""
    P = A.P
    for v in P.types[A.instr]["v"]:
        n = v["n"]
        if n in PCO:
            for arg in (None, "L", "_a1", "Xg"):
                yield n, ins(n, arg)
        elif n in ("ADD", "AND"):
            for imm in (True, False):
                s = ins(n)
                s.imm = imm
                yield n, s
        else:
            yield n, ins(n)
    for n in ("orig", "fill", "blkw"):
        yield n, St(n, var("v", 16))
    for l in LABELS:
        yield "fill", fill(l)
        yield "external", ext(l)
        yield "BR", ins("BR", l)
        yield "NOP", ins("NOP", l)
    yield "end", end()


def display(X, st, v):
    """[(state, text)] of printing a statement value"""
    P = X.P
    f = next((g for g in P.fns.values() if g["local"] and "blocks" in g and g["def"].endswith("Stmt as std::fmt::Display>::fmt")), None)
    if f is None:
        raise Limit("no Display of Stmt")
    loc = X.heap(st, M.lit_term(b""))
    F = mk("fmtr", (mk("ref", (loc, ()), None, None), M.NOSPEC))
    np = len(X.panics)
    rs, ps = call(X, st, f, X.vref(v), mk("ref", (X.heap(st, F), ()), None, None))
    return [(s, X.load(s, loc, ()), r) for s, r in rs], ps


def same_val(X, s, a, b, ty, d=0):
    """three-valued: the values are equal, source positions left aside"""
    P = X.P
    t = P.types[ty]
    n = t["n"]
    a, b = M.deref_all(X, s, a) if a.op in ("ref", "str") else a, M.deref_all(X, s, b) if b.op in ("ref", "str") else b
    if a is b:
        return True
    if n.endswith("String") or t["k"] == "str":
        x, y = pystr(X, s, a), pystr(X, s, b)
        return None if x is None or y is None else x == y
    if n.startswith("std::vec::Vec<"):
        la, lb = s.resolve(X.length(s, a)), s.resolve(X.length(s, b))
        if not isc(la) or not isc(lb):
            return None
        if cv(la) != cv(lb):
            return False
        e = M.ety_of(X, ty)
        return worst([same_val(X, s, X.elem(s, a, M.c64(i), e), X.elem(s, b, M.c64(i), e), e, d + 1) for i in range(cv(la))])
    if a.w is not None and b.w is not None:
        return same(X, s, a, b)
    if t["k"] == "adt" and t["ak"] == "enum" and not any(v["f"] for v in t["v"]):
        return same(X, s, X.discr(a, 64), X.discr(b, 64))
    if t["k"] in ("adt", "tuple"):
        if t["k"] == "adt" and t["ak"] == "enum":
            va, vb = X.variant(s, a), X.variant(s, b)
            if va is None or vb is None:
                return None
            if va != vb:
                return False
            vi = va
        else:
            vi = 0
        fs = t["v"][vi]["f"] if t["k"] == "adt" else [("", x) for x in t["f"]]
        isl = n.endswith("::Label")
        return worst([same_val(X, s, X.fld(a, vi, i, f[1]), X.fld(b, vi, i, f[1]), f[1], d + 1) for i, f in enumerate(fs)
                      if not P.types[f[1]]["n"].startswith("std::ops::Range") and not (isl and P.width(f[1]) == 64)])
    return None


def text_of(t):
    out = ""
    for p in LX.pieces_of(t) or ():
        out += p.args[0].decode("utf8", "replace") if p.op == "strc" else "<%s digits of %s>" % ("hex" if p.args[1] == 16 else "decimal", show(p.args[0]))
    return out.encode("unicode_escape").decode()[:200]


def reparse(X, s, text):
    """[(state, ok, [statements] | error)], panics"""
    P = X.P
    f = P.fn("parse::parse_ast")
    X.unroll = True
    for p in LX.pieces_of(text):
        if p.op == "dig":
            n = mk("len", (p,), 64)
            atom_maxbits[n] = 40
            s.assume(eq(n, M.c64(0)), False)
    rs, ps = call(X, s, f, LX.as_ref(X, text))
    out = []
    for s2, r in rs:
        vi = X.variant(s2, r)
        ok = None if vi is None else P.vname(r.ty, vi) == "Ok"
        v = X.fld(r, vi, 0, P.types[r.ty]["v"][vi]["f"][0][1]) if vi is not None else None
        out.append((s2, ok, v))
    return out, ps


def run(K):
    P = K.P
    A = Asm(P)
    K.rule("reparse", "the printed text of a statement parses", 200)
    K.rule("same", "and gives the statement that was printed", 200)
    where = None

    def judge(K, tag, st):
        X = Interp(P, {})
        s0, _ = X.start(P.fn("parse::parse_ast"))
        A.layout([st])
        v = A.stmtv(st, 0)
        if st.kind == "blkw":
            s0.assume(eq(st.arg, I(0, 16)), False)
        if st.name == "BR":      # the parser gives no empty condition
            s0.assume(eq(st.form.ref[0], I(0, 3)), False)
        where = "src/ast/asm.rs"
        ts, ps = display(X, s0, v)
        K.saw(X)
        for p in ps:
            K.judge("reparse", "print-panic|" + tag, False if not p.st.widened() and feasible(p.st) else None, lambda: "%s: printing the statement %s panics (%s)" % (P.loc(p.fn, p.line), tag, p.kind), tag)
        for s, t, _ in ts:
            ds = LX.to_digits(X, s, t)
            if ds is None or any(LX.pieces_of(t2) is None for _, t2 in ds):
                K.undecided("reparse", "%s: printed text not resolved: %s" % (tag, show(t)[:100]))
                continue
            for s1, t2 in ds:
                if zone_unsat(s1):
                    continue
                out, ps = reparse(X, s1, t2)
                sure = lambda q: False if not q.widened() and feasible(q) else None
                for p in ps:
                    K.judge("reparse", "panic|" + tag, sure(p.st), lambda: "%s: parsing the printed statement %s panics (%s)" % (P.loc(p.fn, p.line), text_of(t2), p.kind), tag)
                if not out and not ps:
                    K.undecided("reparse", "%s: no outcome" % tag)
                for s2, ok, r in out:
                    if ok is not True:
                        K.judge("reparse", "rejected|" + tag, None if ok is None else sure(s2), lambda: "%s: the statement prints as %s, which does not parse" % (P.loc(disp, disp["line"]), text_of(t2)), tag)
                        continue
                    ss = stmts_of(X_C(X, P), s2, r)
                    if ss is None:
                        K.undecided("same", tag + ": statement count")
                        continue
                    if len(ss) != 1:
                        K.judge("same", "count|" + tag, sure(s2), lambda: "%s: the statement prints as %s, which parses to %d statements" % (P.loc(disp, disp["line"]), text_of(t2), len(ss)), tag)
                        continue
                    K.ok("reparse", tag)
                    q = same_val(X, s2, ss[0], v, A.stmt)
                    K.judge("same", "differs|" + tag, sure(s2) if q is False else q, lambda: "%s: the statement prints as %s, which parses to %s" % (P.loc(disp, disp["line"]), text_of(t2), show(ss[0])[:300]), tag)

    disp = next((g for g in P.fns.values() if g["local"] and "blocks" in g and g["def"].endswith("Stmt as std::fmt::Display>::fmt")), None)
    if disp is None:
        K.undecided("reparse", "no Display of Stmt")
        return

    def one(K, chunk):
        for tag, st in chunk:
            try:
                judge(K, tag, st)
            except Limit as e:
                K.undecided("reparse", "%s: limit %s" % (tag, e))

    its = []
    for i, (tag, s) in enumerate(shapes(A)):
        its.append((tag, s))
    for lb in (("A",), ("L1", "L2"), ("_", "x", "R"), ("loop", "LOOP1")):
        for tag, s in shapes(A):
            if tag not in ("fill", "external") or s.arg is not None and not isinstance(s.arg, str):
                s.labels = lb
                its.append((tag, s))
    for l in LABELS:
        its += [("labels", ins("RET", None, l)), ("labels", fill(var("v", 16), l, "Z")), ("labels", end(l))]
    for v in strings(K.tier):
        its.append(("stringz", strz(v)))
    its += [("stringz", strz("a\"b", "L")), ("stringz", strz("", "L", "M"))]
    K.pmap(one, [its[i::64] for i in range(64)])


class X_C:
    def __init__(self, X, P):
        self.X, self.P = X, P
