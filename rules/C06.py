"""C06: decode/encode are exact inverses and accept exactly the canonical encodings."""
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine.judge import same, feasible
from rules.reflib import explore
from rules.isa import *

EXPLAIN = ("decode and encode are summarised as bit-provenance terms per path; each decode path is compared with the ISA "
           "format table, and the two summaries are composed in both directions and compared with the identity.")


def field_cmp(X, P, st, fty, val, ref):
    """compare a SimInstr field value with the reference field"""
    kind, t = ref
    ft = P.types[fty]
    if kind == "reg":
        return same(X, st, zext(t, 64), X.discr(val, 64))
    if kind == "cc":
        return same(X, st, val, t)
    if kind == "off":
        return same(X, st, X.fld(val, 0, 0, ft["v"][0]["f"][0][1]), t)
    # ImmOrReg
    vi = X.variant(st, val)
    if vi is None:
        return None
    vn = P.vname(fty, vi)
    if (vn == "Imm") != (kind == "imm"):
        return False if feasible(st) else None
    inner = ft["v"][vi]["f"][0][1]
    return field_cmp(X, P, st, inner, X.fld(val, vi, 0, inner), ("off" if kind == "imm" else "reg", t))


def instr_cmp(X, P, st, ity, val, ref):
    name, fs = ref
    vi = X.variant(st, val)
    if vi is None:
        return None, "variant"
    vn = P.vname(ity, vi)
    if vn != name:
        return (False if feasible(st) else None), "decoded as %s instead of %s" % (vn, name)
    fl = P.types[ity]["v"][vi]["f"]
    if len(fl) != len(fs):
        return None, "field count"
    for i, (f, r) in enumerate(zip(fl, fs)):
        q = field_cmp(X, P, st, f[1], X.fld(val, vi, i, f[1]), r)
        if q is not True:
            return q, "field %d of %s is %s, ISA says %s" % (i, vn, X.fld(val, vi, i, f[1]), r[1])
    return True, vn


def sym_instr(X, P, ity):
    """one symbolic value per instruction form, all fields within their representable range"""
    def mkreg(ty, n):
        return mk("enumof", (var(n, 3),), None, ty)

    def mkoff(ty, n):
        t = P.types[ty]
        N = int(t["n"].split(",")[-1].strip(" >"))
        bt = t["v"][0]["f"][0][1]
        v = var(n, N)
        v = sext(v, 16) if P.signed(bt) else zext(v, 16)
        return mk("agg", (t["n"], 0, v), None, ty)

    def one(ty, n):
        t = P.types[ty]
        nm = t["n"]
        if t["k"] == "uint":
            return [zext(var(n, 3), 8)]
        if nm.endswith("Reg") and t["ak"] == "enum":
            return [mkreg(ty, n)]
        if "Offset<" in nm and "ImmOrReg" not in nm:
            return [mkoff(ty, n)]
        out = []
        for vi, v in enumerate(t["v"]):
            ft = v["f"][0][1]
            for x in one(ft, n + str(vi)):
                out.append(mk("agg", (nm, vi, x), None, ty))
        return out

    res = []
    for vi, v in enumerate(P.types[ity]["v"]):
        combos = [[]]
        for i, f in enumerate(v["f"]):
            combos = [c + [x] for c in combos for x in one(f[1], "%s_%d" % (v["n"], i))]
        for c in combos:
            res.append((v["n"].split("::")[-1], mk("agg", (P.types[ity]["n"], vi) + tuple(c), None, ity)))
    return res


def run(K):
    P = K.P
    K.rule("decode-table", "every decode path agrees with the ISA format table (accepted words, error kind, fields)", 16)
    K.rule("encode-decode", "decode(encode(i)) = i for every representable instruction form", 15)
    K.rule("decode-encode", "encode(decode(w)) = w on every accepting decode path", 15)
    dec, enc = P.fn("SimInstr::decode"), P.fn("SimInstr::encode")
    ity = P.adt("SimInstr")
    X = Interp(P)
    rs = X.run(dec)
    K.saw(X)
    w = None
    st0, vs = X.start(dec)
    w = vs[0]
    loc = P.loc(dec, 0)
    for st, r in rs:
        for s2, ref in explore(st, lambda ask: ref_decode(ask, w)):
            desc = "%s word bits %s" % (ref[0], dict(s2.bk.get(w, {})))
            vi = X.variant(s2, r)
            if vi is None:
                K.undecided("decode-table", "result variant unknown")
                continue
            if ref[0] == "Err":
                if vi == 0:
                    got = X.variant(s2, r.args[2])
                    K.judge("decode-table", "reject %s" % ref[1], False if feasible(s2) else True,
                            "decode accepts a word the ISA format rejects (%s): decoded as %s under bits %s; in %s" % (ref[1], P.vname(ity, got) if got is not None else "?", wordpat(s2, w), dec["def"]))
                else:
                    e = r.args[2]
                    ev = X.variant(s2, e)
                    nm = P.vname(e.ty, ev) if ev is not None else None
                    K.judge("decode-table", "errkind %s" % ref[1], None if nm is None else nm == ref[1] or (False if feasible(s2) else True),
                            "decode reports %s for words %s, expected %s" % (nm, wordpat(s2, w), ref[1]))
                continue
            if vi == 1:
                K.judge("decode-table", "accept %s" % ref[0], False if feasible(s2) else True,
                        "decode rejects canonical %s words %s" % (ref[0], wordpat(s2, w)))
                continue
            q, why = instr_cmp(X, P, s2, ity, r.args[2], ref)
            K.judge("decode-table", "fields %s" % ref[0], q, "decode of words %s: %s" % (wordpat(s2, w), why), "%s %s" % (ref[0], wordpat(s2, w)))
        if X.variant(st, r) == 0:
            s3 = st.copy()
            loc_ = X.heap(s3, r.args[2])
            X2 = Interp(P)
            X2.nheap = X.nheap + 1000
            out = X2.exec_fn(enc, [mk("ref", (loc_, ()), None, None)], s3)
            K.saw(X2)
            for s4, e in out:
                K.judge("decode-encode", "reencode %s" % P.vname(ity, X.variant(st, r.args[2]) or 0), same(X2, s4, e, w),
                        "encode(decode(w)) = %s differs from w on words %s" % (e, wordpat(st, w)), wordpat(st, w))
            if X2.panics and any(feasible(p.st) for p in X2.panics):
                K.violation("decode-encode", "panic", "re-encoding a decoded instruction can panic: %s" % (X2.panics[0].info,))
    for name, val in sym_instr(X, P, ity):
        X2 = Interp(P)
        st = State()
        loc_ = X2.heap(st, val)
        out = X2.exec_fn(enc, [mk("ref", (loc_, ()), None, None)], st)
        for p in X2.panics:
            if feasible(p.st):
                K.violation("encode-decode", "panic %s" % name, "encoding %s can panic: %s" % (val, p.info))
        for s, e in out:
            X3 = Interp(P)
            back = X3.exec_fn(dec, [e], s)
            K.saw(X3)
            if not back:
                K.undecided("encode-decode", name)
            for s2, r in back:
                if X3.variant(s2, r) != 0:
                    K.judge("encode-decode", "roundtrip %s" % name, False if feasible(s2) else True, "decode rejects encode(%s) = %s" % (val, e), str(e))
                    continue
                q = same(X3, s2, r.args[2], val)
                K.judge("encode-decode", "roundtrip %s" % name, q, "decode(encode(%s)) = %s" % (val, r.args[2]), str(e))


def wordpat(st, w):
    k = st.bk.get(w, {})
    b = bits(st.resolve(w))
    return "".join("01"[x] if x in (0, 1) else "x" for x in reversed(b))
