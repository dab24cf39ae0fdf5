"""C15: initialization tracking of words is sound."""
import itertools
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine.judge import same, feasible, witnesses, Bad
from rules.simlib import agg

EXPLAIN = ("Each word operation is summarised per path over symbolic data and init masks; a second summary is taken with the uninitialized data bits replaced by "
           "arbitrary other bits, and no result bit marked initialized may differ (per-bit truth tables over the bit provenance; non-interference of the uninitialized bits).")
ASSUME = ["AddAssign/SubAssign on u16/i16 are additions of a fully initialized constant"]
M = (1 << 16) - 1
OPS = [("Add", "add", 2), ("Sub", "sub", 2), ("BitAnd", "bitand", 2), ("Not", "not", 1)]


def bitfn(t, i, val):
    """value of bit i of t under a valuation of leaf bits (val: dict, missing -> KeyError)"""
    o = t.op
    if o in ("and", "or", "xor"):
        a, b = bitfn(t.args[0], i, val), bitfn(t.args[1], i, val)
        return a & b if o == "and" else a | b if o == "or" else a ^ b
    b = bits(t)[i]
    if b in (0, 1):
        return b
    a, k, n = b
    if a is not t and (a.op in ("and", "or", "xor")):
        return bitfn(a, k, val) ^ int(n)
    return val[(a, k)] ^ int(n)


def leaves(t, i, out):
    o = t.op
    if o in ("and", "or", "xor"):
        leaves(t.args[0], i, out)
        leaves(t.args[1], i, out)
        return
    b = bits(t)[i]
    if b in (0, 1):
        return
    if b[0] is not t and b[0].op in ("and", "or", "xor"):
        return leaves(b[0], b[1], out)
    out.add((b[0], b[1]))


def bits_differ(st, mask, a, b):
    """None if some bit cannot be decided, [] if mask -> a == b on every bit, else the bits that differ in the truth table"""
    mask, a, b = st.resolve(mask), st.resolve(a), st.resolve(b)
    if a is b or (isc(mask) and cv(mask) == 0):
        return []
    bad = []
    known = [(k.args[0], k.args[1]) for k, v in st.facts.items() if k.op == "eq" and v is True and k.args[0].w == a.w]
    known = [(x, y) for x, y in known if isc(y) and x.op in ("and", "or", "xor")]
    for i in range(a.w):
        ls = set()
        for t in (mask, a, b):
            leaves(t, i, ls)
        for x, _ in known:
            leaves(x, i, ls)
        ls = sorted(ls, key=lambda x: (x[0].id, x[1]))
        if len(ls) > 10:
            return None
        for v in itertools.product((0, 1), repeat=len(ls)):
            val = dict(zip(ls, v))
            if any(bitfn(x, i, val) != (cv(y) >> i) & 1 for x, y in known):
                continue
            if bitfn(mask, i, val) and bitfn(a, i, val) != bitfn(b, i, val):
                bad.append(i)
                break
    return bad


def concrete(st, mask, a, b, n=60):
    """a valuation satisfying the facts where a bit of mask is set on which a and b differ"""
    for V in witnesses(st, n=n, tries=600, ts=(mask, a, b)):
        try:
            if V.ev(mask) & (V.ev(a) ^ V.ev(b)):
                return {"mask": V.ev(mask), "a": V.ev(a), "b": V.ev(b)}
        except Bad:
            return None
    return None


def word(P, W, d, i):
    return agg(P, W, 0, d, i)


def run(K):
    P = K.P
    W = P.adt("Word")
    fs = [f[0] for f in P.types[W]["v"][0]["f"]]
    di, ii = fs.index("data"), fs.index("init")

    def parts(X, w):
        return X.fld(w, 0, di, P.types[W]["v"][0]["f"][di][1]), X.fld(w, 0, ii, P.types[W]["v"][0]["f"][ii][1])

    K.rule("non-interference", "no result bit marked initialized depends on an uninitialized operand bit", 12)
    K.rule("full", "fully initialized operands give a fully initialized result with the wrapping value", 4)
    K.rule("assign", "compound assignments store the result of the operation (with a fully initialized constant for u16/i16)", 5)
    K.rule("constructors", "constructors and set() mark exactly the stored value initialized; is_init means all bits", 5)
    D, Iv, U = [var("d%d" % i, 16) for i in range(2)], [var("i%d" % i, 16) for i in range(2)], [var("u%d" % i, 16) for i in range(2)]
    wty = lambda d, i: word(P, W, *((d, i) if di == 0 else (i, d)))
    ref = {"Add": lambda a, b: add(a, b), "Sub": lambda a, b: sub(a, b), "BitAnd": and_, "Not": lambda a: not_(a)}

    for tr, m, n in OPS:
        f = P.fn("<lc3_ensemble::sim::mem::Word as std::ops::%s>::%s" % (tr, m))
        if f is None:
            K.undecided("non-interference", "%s not found" % tr)
            continue
        where = P.loc(f, f["line"])
        # full operands
        X = Interp(P)
        st = State()
        out = X.exec_fn(f, [wty(D[k], I(M, 16)) for k in range(n)], st)
        K.saw(X)
        want = ref[tr](*D[:n])
        for s, r in out:
            d, i = parts(X, r)
            K.judge("full", "%s init" % tr, same(X, s, i, I(M, 16)), lambda: "%s of fully initialized words has init mask %s (%s)" % (tr, show(i), where), tr)
            K.judge("full", "%s value" % tr, same(X, s, d, want), lambda: "%s of fully initialized words gives %s, expected %s (%s)" % (tr, show(d), show(want), where), tr)
        for p in X.panics:
            K.judge("full", "%s panic" % tr, False if feasible(p.st) else True, lambda: "%s can panic: %s" % (tr, p.kind))
        # two copies
        X = Interp(P)
        out = X.exec_fn(f, [wty(D[k], Iv[k]) for k in range(n)], State())
        K.saw(X)
        for p in X.panics:
            K.judge("non-interference", "%s panic" % tr, False if feasible(p.st) else True, lambda: "%s can panic: %s" % (tr, p.kind))
        # the value itself: wrapping result whatever the masks
        for s, r in out:
            d, _ = parts(X, r)
            K.judge("full", "%s data" % tr, same(X, s, d, want), lambda: "%s gives data %s, expected %s (%s)" % (tr, show(d), show(want), where), tr)
        for s, r in out:
            d1, i1 = parts(X, r)
            s0 = s.copy()
            E = [or_(and_(D[k], Iv[k]), and_(U[k], not_(Iv[k]))) for k in range(n)]
            E = [s0.resolve(e) for e in E]
            # initialized words keep their data in the second copy
            for k in range(n):
                if isc(s0.resolve(Iv[k])) and cv(s0.resolve(Iv[k])) == M:
                    E[k] = s0.resolve(D[k])
            X2 = Interp(P)
            X2.nheap = X.nheap + 1000
            for s2, r2 in X2.exec_fn(f, [wty(E[k], s0.resolve(Iv[k])) for k in range(n)], s0):
                d2, i2 = parts(X2, r2)
                bad = bits_differ(s2, i1, d1, d2)
                if bad == []:
                    K.ok("non-interference", "%s: init %s" % (tr, show(s2.resolve(i1))[:60]))
                    continue
                if not feasible(s2):
                    K.ok("non-interference", "%s infeasible" % tr)
                    continue
                w = concrete(s2, i1, d1, d2)
                if w is None:
                    K.undecided("non-interference", "%s: init %s data %s / %s" % (tr, show(i1), show(d1), show(d2)))
                else:
                    K.violation("non-interference", tr, "%s reports result bits as initialized that depend on uninitialized operand bits: init mask %s, data %s (%s); e.g. init x%04X while the data changes from x%04X to x%04X with the uninitialized bits"
                                % (tr, show(i1), show(d1), where, w["mask"], w["a"], w["b"]))
    # compound assignments
    for tr, m, base in (("AddAssign", "add_assign", "Add"), ("SubAssign", "sub_assign", "Sub"), ("BitAndAssign", "bitand_assign", "BitAnd")):
        bm = dict((a, b) for a, b, _ in OPS)[base]
        fb = P.fn("<lc3_ensemble::sim::mem::Word as std::ops::%s>::%s" % (base, bm))
        for targ in ("", "<u16>", "<i16>"):
            f = P.fn("<lc3_ensemble::sim::mem::Word as std::ops::%s%s>::%s" % (tr, targ, m))
            if f is None or fb is None:
                continue
            X = Interp(P)
            st = State()
            loc = X.heap(st, wty(D[0], Iv[0]))
            rhs = wty(D[1], Iv[1]) if not targ else D[1]
            rw = rhs if not targ else wty(D[1], I(M, 16))
            for s, _ in X.exec_fn(f, [mk("ref", (loc, ()), None, None), rhs], st):
                got = X.load(s, loc, ())
                X2 = Interp(P)
                X2.nheap = X.nheap + 1000
                for s2, w2 in X2.exec_fn(fb, [wty(D[0], Iv[0]), rw], s.copy()):
                    K.judge("assign", "%s%s" % (tr, targ), same(X2, s2, got, w2), lambda: "%s%s stores %s, %s gives %s (%s)" % (tr, targ, show(got), base, show(w2), P.loc(f, f["line"])), tr + targ)
            for p in X.panics:
                K.judge("assign", "%s%s panic" % (tr, targ), False if feasible(p.st) else True, lambda: "%s can panic" % tr)
            K.saw(X)
    # constructors
    for name in ("<lc3_ensemble::sim::mem::Word as std::convert::From<u16>>::from", "<lc3_ensemble::sim::mem::Word as std::convert::From<i16>>::from", "lc3_ensemble::sim::mem::Word::new_init"):
        f = P.fn(name)
        if f is None:
            continue
        X = Interp(P)
        for s, r in X.exec_fn(f, [D[0]], State()):
            d, i = parts(X, r)
            K.judge("constructors", name.split("mem::")[-1], same(X, s, wty(d, i), wty(D[0], I(M, 16))), lambda: "%s gives %s" % (name, show(r)), name)
    f = P.fn("mem::Word::set")
    if f is not None:
        X = Interp(P)
        st = State()
        loc = X.heap(st, wty(D[0], Iv[0]))
        for s, r in X.exec_fn(f, [mk("ref", (loc, ()), None, None), D[1]], st):
            got = X.load(s, loc, ())
            K.judge("constructors", "set", same(X, s, got, wty(D[1], I(M, 16))), lambda: "Word::set stores %s" % show(got), "set")
    for name, want in (("is_init", eq(Iv[0], I(M, 16))), ("get", D[0])):
        f = P.fn("mem::Word::" + name)
        if f is not None:
            X = Interp(P)
            st = State()
            loc = X.heap(st, wty(D[0], Iv[0]))
            for s, r in X.exec_fn(f, [mk("ref", (loc, ()), None, None)], st):
                K.judge("constructors", name, same(X, s, r, want), lambda: "Word::%s is %s, expected %s" % (name, show(r), show(want)), name)
    f = P.fn("mem::Word::clear_init")
    if f is not None:
        X = Interp(P)
        st = State()
        loc = X.heap(st, wty(D[0], Iv[0]))
        for s, r in X.exec_fn(f, [mk("ref", (loc, ()), None, None)], st):
            got = X.load(s, loc, ())
            K.judge("constructors", "clear_init", same(X, s, got, wty(D[0], I(0, 16))), lambda: "clear_init leaves %s" % show(got), "clear_init")
