"""C35: bounded offsets accept exactly the representable values."""
import re
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine.judge import same, feasible, witnesses, Bad
from rules.simlib import agg

EXPLAIN = ("Offset::new, new_trunc and get are summarised per width N (1-16) and backing integer as bit-provenance terms of a symbolic value and compared with "
           "sign/zero extension of the low N bits; acceptance is compared with equality to that extension.")


def extend(x, n, signed):
    lo = trunc(x, n) if n < 16 else x
    return (sext(lo, 16) if signed else zext(lo, 16)) if n < 16 else x


def run(K):
    P = K.P
    K.rule("new_trunc", "truncating creation holds the sign/zero extension of the low N bits", 30)
    K.rule("new-accept", "checked creation accepts only values equal to the extension of their low N bits", 30)
    K.rule("new-reject", "checked creation rejects only values that differ from the extension of their low N bits", 30)
    K.rule("new-value", "an accepted offset holds the value itself", 30)
    K.rule("get", "get returns the held value", 1)
    x = var("x", 16)
    seen = {}
    for f in P.fns.values() if isinstance(P.fns, dict) else P.fns:
        if not re.search(r"ast::Offset::<OFF, N>::(new|new_trunc|get)$|ast::Offset<OFF, N>::(new|new_trunc|get)$|ast::Offset::(new|new_trunc|get)$", f["def"]):
            continue
        kind = f["def"].rsplit("::", 1)[-1]
        # the instance: from the (argument or result) Offset type
        txt = " ".join(P.types[l]["n"] for l in [f["locals"][0]] + f["locals"][1:2] if isinstance(l, int))
        m = re.search(r"Offset<(u16|i16), (\d+)>", txt)
        if not m:
            continue
        sg, N = m.group(1) == "i16", int(m.group(2))
        if (kind, sg, N) in seen or not 1 <= N <= 16:
            continue
        seen[(kind, sg, N)] = f
    for (kind, sg, N), f in sorted(seen.items(), key=lambda k: k[0]):
        inst = "Offset<%s, %d>::%s" % ("i16" if sg else "u16", N, kind)
        where = P.loc(f, f["line"])
        want = extend(x, N, sg)
        X = Interp(P)
        try:
            if kind == "get":
                st = State()
                oty = P.pointee(f["locals"][1]) if hasattr(P, "pointee") else X.pointee(f["locals"][1])
                loc = X.heap(st, agg(P, oty, 0, x))
                outs = X.exec_fn(f, [mk("ref", (loc, ()), None, None)], st)
            else:
                outs = X.exec_fn(f, [x], State())
        except Limit as e:
            K.undecided({"get": "get", "new": "new-accept"}.get(kind, "new_trunc"), "%s: %s" % (inst, e))
            continue
        K.saw(X)
        rule = {"get": "get", "new": "new-value"}.get(kind, "new_trunc")
        for p in X.panics:
            K.judge(rule, "panic %s" % ("i16" if sg else "u16"), False if feasible(p.st) else True, lambda: "%s can panic (%s) (%s)" % (inst, p.kind, where))
        key = "i16" if sg else "u16"
        for s, r in outs:
            if kind == "get":
                K.judge("get", key, same(X, s, r, x), lambda: "%s returns %s (%s)" % (inst, show(r), where), inst)
                continue
            if kind == "new_trunc":
                v = X.fld(r, 0, 0, P.types[r.ty]["v"][0]["f"][0][1])
                K.judge("new_trunc", key, same(X, s, v, want), lambda: "%s(x) holds %s, expected %s (%s)" % (inst, show(s.resolve(v)), show(want), where), inst)
                continue
            vi = X.variant(s, r)
            if vi is None:
                K.undecided("new-accept", "%s: result unknown" % inst)
                continue
            if vi == 0:
                o = r.args[2]
                v = X.fld(o, 0, 0, P.types[o.ty]["v"][0]["f"][0][1])
                K.judge("new-value", key, same(X, s, v, x), lambda: "%s(x) holds %s instead of x (%s)" % (inst, show(v), where), inst)
                K.judge("new-accept", key, same(X, s, x, want), lambda: "%s accepts values that do not fit: x and the extension %s of its low %d bits differ on the accepting path (%s); e.g. %s" % (inst, show(want), N, where, example(s, x, want, True)), inst)
            else:
                K.judge("new-reject", key, never_equal(s, x, want), lambda: "%s rejects representable values (%s); e.g. %s" % (inst, where, example(s, x, want, False)), inst)


def never_equal(st, x, y):
    """True if x = y is impossible on the path"""
    c = st.decide(eq(st.resolve(x), st.resolve(y)))
    if c is False:
        return True
    s = st.copy()
    if not s.assume(eq(s.resolve(x), s.resolve(y)), True):
        return True
    if c is True:
        return False if feasible(st) else True
    for V in witnesses(s, n=20, extra=((eq(x, y), True),), ts=(x, y)):
        try:
            if V.ev(x) == V.ev(y):
                return False
        except Bad:
            return None
    return None


def example(st, x, y, differ):
    for V in witnesses(st, n=200, tries=600, ts=(x, y)):
        try:
            if (V.ev(x) != V.ev(y)) == differ:
                return "x%04X" % V.ev(x)
        except Bad:
            return "?"
    return "?"
