"""Comparison of abstract values under a path's facts.

same(): True  - identical canonical form (after substituting everything the path knows)
        False - the canonical forms differ and a valuation of the opaque atoms that satisfies every
                recorded fact of the path tells them apart (terms are interpreted, nothing is run)
        None  - not decided (never reported as a violation)"""
import random
from .terms import *
from . import terms


class Bad(Exception):
    pass


class Valuation:
    def __init__(self, st, rnd, pool):
        self.st, self.rnd, self.pool = st, rnd, pool
        self.val = {}
        self.memo = {}

    def reset_memo(self):
        self.memo = {}

    def obj(self, t):
        o = t.op
        if o == "ite":
            return self.obj(t.args[1] if self.ev(t.args[0]) else t.args[2])
        if o == "select":
            return self.elem(t.args[0], self.ev(t.args[1]))
        if o == "fld":
            c = self.obj(t.args[0])
            if isinstance(c, T) and c.op == "agg":
                k = t.args[2] + 2
                if k < len(c.args):
                    x = c.args[k]
                    return self.obj(x) if x.w is None else ("int", self.ev(x))
            return ("fld", c, t.args[1], t.args[2])
        if o in ("discr", "len", "app", "deref"):
            return (o,) + tuple(self.okey(x) for x in t.args)
        return t

    def okey(self, x):
        if isinstance(x, T):
            if x.w is not None:
                return self.ev(x)
            return self.obj(x)
        return x

    def elem(self, base, i):
        while True:
            o = base.op
            if o == "store":
                if self.ev(base.args[1]) == i:
                    return self.obj(base.args[2]) if base.args[2].w is None else ("int", self.ev(base.args[2]))
                base = base.args[0]
            elif o == "arr":
                if i < len(base.args):
                    x = base.args[i]
                    return self.obj(x) if x.w is None else ("int", self.ev(x))
                raise Bad()
            elif o == "ite":
                base = base.args[1] if self.ev(base.args[0]) else base.args[2]
            elif o == "sub":
                i = i + self.ev(base.args[1])
                base = base.args[0]
            elif o == "rep":
                x = base.args[0]
                return self.obj(x) if x.w is None else ("int", self.ev(x))
            elif o == "agg" and len(base.args) == 3:
                base = base.args[2]
            elif o in ("push", "concat", "splice", "mapped"):
                raise Bad()
            else:
                b = self.obj(base) if o in ("fld", "select") else base
                if isinstance(b, T) and b is not base:
                    base = b
                    continue
                return ("sel", b, i)

    def env(self, t):
        o = t.op
        if t.w is None:
            raise Bad()
        key = None
        if o in ("select", "fld"):
            r = self.obj(t)
            if isinstance(r, tuple) and r[0] == "int":
                return r[1] & ((1 << t.w) - 1)
            key = r
        elif o == "discr":
            c = self.obj(t.args[0])
            if isinstance(c, T) and c.op == "agg":
                return terms.discr_of(c) & ((1 << t.w) - 1) if c.ty is not None else c.args[1]
            if isinstance(c, T) and c.op == "enumof":
                return self.ev(c.args[0]) & ((1 << t.w) - 1)
            key = ("discr", c)
        elif o in ("len", "app", "deref"):
            key = (o,) + tuple(self.okey(x) for x in t.args)
        else:
            key = t
        v = self.val.get(key)
        if v is None:
            v = self.pick(t)
            self.val[key] = v
        self.keys.setdefault(key, t)
        self.used.append(key)
        return v & ((1 << t.w) - 1)

    def pick(self, t):
        st, rnd = self.st, self.rnd
        lo, hi = st.rng(t) if st is not None else (0, (1 << t.w) - 1)
        n = terms.atom_maxbits.get(t)
        if n is not None:
            hi = min(hi, (1 << n) - 1)
        if t.w == 1 and st is not None and t in st.facts:
            return int(st.facts[t])
        r = rnd.random()
        if r < 0.45 and self.pool:
            v = rnd.choice(self.pool)
            if not lo <= v <= hi:
                v = rnd.randint(lo, hi)
        elif r < 0.55:
            v = lo
        elif r < 0.65:
            v = hi
        elif r < 0.75:
            v = rnd.randint(lo, min(hi, lo + 8))
        else:
            v = rnd.randint(lo, hi)
        bk = st.bk.get(t) if st is not None else None
        if bk:
            for i, b in bk.items():
                v = (v & ~(1 << i)) | (b << i)
        return v

    def ev(self, t):
        return evalt(t, self.env, self.memo)


def consts(ts, acc):
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
            return
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "int":
            acc.add(t.args[0])
        elif t.op == "lin":
            c = t.args[0]
            acc.add(c)
            acc.add((-c) & ((1 << t.w) - 1))
            go(t.args[1])
        else:
            go(t.args)

    for t in ts:
        go(t)
    return acc


def witnesses(st, extra=(), n=12, tries=400, seed=1, ts=()):
    """yield valuations satisfying the path facts (and the extra (term, bool) constraints)"""
    rnd = random.Random(seed)
    facts = [(k, v) for k, v in st.facts.items() if k.op != "inset" and k.w == 1]
    insets = [(k, v) for k, v in st.facts.items() if k.op == "inset"]
    facts += list(extra)
    pool = set([0, 1, 0xFFFF, 0x7FFF, 0x8000])
    for c in consts([f for f, _ in facts] + list(ts), set()):
        pool.update((c, c + 1, max(c - 1, 0)))
    ivs = [(k, v) for k, v in st.iv.items() if isinstance(k, T)]
    pool = sorted(pool)
    found = 0
    for attempt in range(tries):
        V = Valuation(st, rnd, pool)
        V.keys, V.used = {}, []
        ok = False
        try:
            for rep in range(40):
                V.memo = {}
                bad = None
                for f, val in facts:
                    V.used = []
                    if bool(V.ev(f)) != val:
                        V.memo2 = None
                        bad = list(V.used)
                        if not bad:
                            # memoised: recompute to find the atoms
                            V.memo = {}
                            V.ev(f)
                            bad = list(V.used)
                        break
                if bad is None:
                    for f, val in insets:
                        V.used = []
                        if V.ev(f.args[0]) not in f.args[1]:
                            bad = list(V.used)
                            break
                if bad is None:
                    for k, (lo, hi) in ivs:
                        V.used = []
                        if k.w is not None and not lo <= V.ev(k) <= hi:
                            bad = list(V.used)
                            if not bad:
                                V.memo = {}
                                V.ev(k)
                                bad = list(V.used)
                            break
                if bad is None:
                    ok = True
                    break
                if not bad:
                    break
                k = rnd.choice(bad)
                V.val[k] = V.pick(V.keys[k])
        except Bad:
            return
        if ok:
            V.memo = {}
            yield V
            found += 1
            if found >= n:
                return
        if attempt > 60 and not found:
            return


def feasible(st, **k):
    for _ in witnesses(st, n=1, **k):
        return True
    return False


def resolve_deep(st, t, memo=None):
    if memo is None:
        memo = {}
    if t.w is not None:
        return st.resolve(t)
    if t.op == "agg":
        return mk("agg", t.args[:2] + tuple(resolve_deep(st, x, memo) for x in t.args[2:]), None, t.ty)
    if t.op == "arr":
        return mk("arr", tuple(resolve_deep(st, x, memo) for x in t.args), None, t.ty)
    if t.op == "store":
        return mk("store", (resolve_deep(st, t.args[0]), st.resolve(t.args[1]), resolve_deep(st, t.args[2])), None, t.ty)
    if t.op == "enumof":
        return mk("enumof", (st.resolve(t.args[0]),), None, t.ty)
    return t


def ite_conds(t, out, seen, d=0):
    if not isinstance(t, T) or t in seen or d > 12 or len(out) > 3:
        return
    seen.add(t)
    if t.op == "ite":
        out.append(t)
    def go(a):
        if isinstance(a, T):
            ite_conds(a, out, seen, d + 1)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    for a in t.args:
        go(a)


def scalar_same(st, a, b, depth=0):
    r = scalar_same_(st, a, b)
    if r is None and depth < 5 and a.w == b.w:
        out = []
        ite_conds(a, out, set())
        ite_conds(b, out, set())
        for t in out:
            c = t.args[0]
            res = []
            for v in (True, False):
                s2 = st.copy()
                if s2.decide(c) is (not v) or not s2.assume(c, v):
                    continue
                m = {t: t.args[1] if v else t.args[2]}
                res.append(scalar_same(s2, subst(a, m), subst(b, m), depth + 1))
            if False in res:
                return False
            if all(x is True for x in res):
                return True
            break
    return r


WID = {}


def widened(t):
    """variables of t that stand for what a loop summary left open"""
    r = WID.get(t)
    if r is None:
        acc = set()
        if t.op == "var":
            if str(t.args[0]).startswith("w:"):
                acc.add(t.args[0])
        else:
            def go(a):
                if isinstance(a, T):
                    acc.update(widened(a))
                elif isinstance(a, tuple):
                    for y in a:
                        go(y)
            for a in t.args:
                go(a)
        r = WID[t] = frozenset(acc)
    return r


def scalar_same_(st, a, b):
    if a is b:
        return True
    if a.w != b.w:
        return None
    x, y = st.resolve(a), st.resolve(b)
    if x is y:
        return True
    if a.w == 1:
        p, q = st.decide(x), st.decide(y)
        if p is not None and q is not None and p == q:
            return True
    else:
        if st.decide(eq(x, y)) is True:
            return True
        df = [(p, q) for p, q in zip(bits(x), bits(y)) if p != q]
        if len(df) <= 16:
            for p, q in df:
                c = eq(mkbits((p,)), mkbits((q,)))
                if st.decide(c) is not True:
                    break
            else:
                return True
    n = 0
    wa, wb = widened(x), widened(y)
    for V in witnesses(st, ts=(x, y)):
        try:
            if V.ev(x) != V.ev(y):
                # a value a loop summary left open may not be one the loop reaches
                return False if wa == wb else None
            n += 1
        except Bad:
            return None
    return None


def weak_equal(st, a, b, n=12):
    """no valuation found that tells them apart"""
    return scalar_same(st, a, b) is not False


def same(X, st, a, b, arrlen=None):
    """compare two values of the same type"""
    if a is b:
        return True
    if a.w is not None and b.w is not None:
        return scalar_same(st, a, b)
    if a.op == "enumof" or b.op == "enumof" or a.op == "agg" and len(a.args) == 2 and a.args[0] != "tuple" or b.op == "agg" and len(b.args) == 2:
        try:
            return scalar_same(st, X.discr(a, 64), X.discr(b, 64))
        except Exception:
            return None
    if a.op == "agg" and b.op == "agg":
        if a.args[1] != b.args[1]:
            return False if feasible(st) else None
        if len(a.args) != len(b.args):
            return None
        r = True
        for x, y in zip(a.args[2:], b.args[2:]):
            q = same(X, st, x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    t = a.ty if a.ty is not None else b.ty
    if t is not None:
        tt = X.P.types[t]
        if tt["k"] == "array" and tt["len"] is not None and tt["len"] <= 64:
            a1, b1 = (x if x.op == "arr" else norm_store(X, st, x) for x in (a, b))
            if a1.op == "arr" and b1.op == "arr" and len(a1.args) == len(b1.args):
                return same(X, st, mk("agg", ("tuple", 0) + a1.args), mk("agg", ("tuple", 0) + b1.args))
            if a1 is b1:
                return True
            # element-wise under valuations
            for V in witnesses(st, ts=(a1, b1)):
                try:
                    for i in range(tt["len"]):
                        p, q = V.elem(a1, i), V.elem(b1, i)
                        if p != q and not objeq(X, V, p, q):
                            return False
                except Bad:
                    return None
            return None
        if tt["k"] == "adt" and tt["ak"] == "struct":
            x, y = X.expand(a), X.expand(b)
            if x.op == "agg" and y.op == "agg":
                return same(X, st, x, y)
    if resolve_deep(st, a) is resolve_deep(st, b):
        return True
    return None


def norm_store(X, st, t):
    """canonical form of a chain of element writes under the path's facts"""
    ch = []
    b = t
    while b.op == "store":
        ch.append((st.resolve(b.args[1]), b.args[2]))
        b = b.args[0]
    ch.reverse()
    if b.op != "arr" and b.ty is not None and any(isc(i) for i, _ in ch) and all(isc(i) for i, _ in ch):
        b = X.expand(b)
    out = b
    for i, v in ch:
        out = X.store_elem(st, out, i, resolve_deep(st, v) if v.w is None or v.op != "int" else v)
    return out


def objeq(X, V, p, q):
    """equality of evaluated element objects"""
    if isinstance(p, tuple) and p[0] == "int" and isinstance(q, tuple) and q[0] == "int":
        return p[1] == q[1]

    def fields(o):
        if isinstance(o, T) and o.op == "agg":
            return [V.obj(x) if x.w is None else ("int", V.ev(x)) for x in o.args[2:]]
        return None

    fp, fq = fields(p), fields(q)
    if fp is None and fq is None:
        return p == q
    if fp is None:
        fp = [("fldv", p, i) for i in range(len(fq))]
    if fq is None:
        fq = [("fldv", q, i) for i in range(len(fp))]
    for i, (x, y) in enumerate(zip(fp, fq)):
        xs, ys = x, y
        if isinstance(xs, tuple) and xs[0] == "fldv":
            xs = _fv(V, xs, y)
        if isinstance(ys, tuple) and ys[0] == "fldv":
            ys = _fv(V, ys, x)
        if xs != ys:
            return False
    return True


def _fv(V, f, other):
    # value of field i of an opaque object: look it up in the valuation
    key = ("fld", f[1], 0, f[2])
    v = V.val.get(key)
    if v is None:
        v = V.rnd.randint(0, 65535)
        V.val[key] = v
    return ("int", v & 0xFFFF)
