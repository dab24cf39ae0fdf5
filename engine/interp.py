"""Abstract interpreter over the dumped MIR.

Abstract state: store (location -> value term), facts about terms (known booleans, unsigned
intervals, known bits) and the list of events on the current trace.  Traces are partitioned on
undecided branches, loops that are not statically decided are abstracted by a havoc-widening
fixpoint; library functions are replaced by models (models.py) or by their own MIR."""
import sys
from . import terms
from .terms import *
from .terms import _nb

sys.setrecursionlimit(20000)


SEQOPS = ("arr", "push", "concat", "rep", "mempty", "minsert", "mremove", "splice", "strc")


class Limit(Exception):
    pass


class SpecAbort(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "iv", "bk", "ev", "tags")

    def __init__(self):
        self.store, self.facts, self.iv, self.bk, self.ev, self.tags = {}, {}, {}, {}, None, ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.iv = dict(self.iv)
        s.bk = dict(self.bk)
        s.ev = self.ev
        s.tags = self.tags
        return s

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        x = self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def widened(self):
        """the path runs through a loop abstracted by a fixpoint (its values are an over-approximation)"""
        x = self.ev
        while x is not None:
            if x[1][0] in ("loop", "approx", "opaque"):
                return True
            x = x[0]
        return False

    def events_since(self, marker):
        out = []
        x = self.ev
        while x is not None and x is not marker:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    # ---------------------------------------------------------- numeric knowledge
    def resolve(self, t):
        """substitute everything that is known to be constant"""
        if t.op == "int" or t.w is None:
            return t
        f = self.facts.get(t)
        if f is not None and t.w == 1:
            return I(int(f), 1)
        m = {}
        for a in atoms(t):
            if a is t and a.w is None:
                continue
            i = self.iv.get(a)
            if i is not None and i[0] == i[1]:
                m[a] = I(i[0], a.w)
                continue
            if a.w == 1:
                f = self.facts.get(a)
                if f is not None:
                    m[a] = I(int(f), 1)
                    continue
            k = self.bk.get(a)
            if k:
                b = list(bits(a))
                for i2, v in k.items():
                    b[i2] = v
                m[a] = mkbits(b)
        if m:
            t = self._sub(t, m)
        i = self.iv.get(t)
        if i is not None and i[0] == i[1]:
            return I(i[0], t.w)
        return t

    def _sub(self, t, m):
        return subst(t, m)

    def rng(self, t, d=0):
        w = t.w
        full = (0, (1 << w) - 1)
        if t.op == "int":
            return (t.args[0], t.args[0])
        lo, hi = full
        i = self.iv.get(t)
        if i is not None:
            lo, hi = i
        if d > 6:
            return lo, hi
        if t.op in ("len",):
            hi = min(hi, (1 << 63) - 1)
        elif t.op == "lin":
            c, ps = t.args
            a, b = c, c
            ok = True
            for x, k in ps:
                if k >= 1 << (w - 1):
                    k -= 1 << w
                r = self.rng(x, d + 1)
                if k > 0:
                    a, b = a + k * r[0], b + k * r[1]
                else:
                    a, b = a + k * r[1], b + k * r[0]
            n = a >> w
            if b >> w == n:
                lo, hi = max(lo, a - (n << w)), min(hi, b - (n << w))
            elif len(ps) == 1:
                pass
        elif t.op == "ite":
            r1, r2 = self.rng(t.args[1], d + 1), self.rng(t.args[2], d + 1)
            lo, hi = max(lo, min(r1[0], r2[0])), min(hi, max(r1[1], r2[1]))
        elif t.op == "udiv":
            r1, r2 = self.rng(t.args[0], d + 1), self.rng(t.args[1], d + 1)
            if r2[0] > 0:
                lo, hi = max(lo, r1[0] // r2[1]), min(hi, r1[1] // r2[0])
        elif t.op == "urem":
            r1, r2 = self.rng(t.args[0], d + 1), self.rng(t.args[1], d + 1)
            if r2[0] > 0:
                hi = min(hi, r2[1] - 1, r1[1])
        elif t.op == "mul":
            r1, r2 = self.rng(t.args[0], d + 1), self.rng(t.args[1], d + 1)
            if r1[1] * r2[1] < 1 << w:
                lo, hi = max(lo, r1[0] * r2[0]), min(hi, r1[1] * r2[1])
        elif t.op == "tab":
            rs = [self.rng(v, d + 1) for _, v in t.args[1]]
            if rs:
                lo, hi = max(lo, min(r[0] for r in rs)), min(hi, max(r[1] for r in rs))
        else:
            b = bits(t)
            if t.op == "bits" and b[0] not in (0, 1) and b[0][0].w > w and b[0][1] == 0:
                # the low bits of one value (zero above): its own range when that fits
                x0 = b[0][0]
                n = 0
                while n < w and b[n] == (x0, n, False):
                    n += 1
                if all(y == 0 for y in b[n:]):
                    r = self.rng(x0, d + 1)
                    if r[1] < 1 << n:
                        lo, hi = max(lo, r[0]), min(hi, r[1])
            l = h = 0
            for j, x in enumerate(b):
                if x == 1:
                    l |= 1 << j
                    h |= 1 << j
                elif x != 0:
                    k = self.bk.get(x[0])
                    k = k.get(x[1]) if k else None
                    if k is None:
                        h |= 1 << j
                    elif k ^ int(x[2]):
                        l |= 1 << j
                        h |= 1 << j
            lo, hi = max(lo, l), min(hi, h)
            if t.op == "bits":
                # zero/sign extension or slice of one atom with a known interval
                n = known_zero_high(t)
                if 0 < n < w:
                    c = mkbits(t.args[:n])
                    if c is not t:
                        r = self.rng(c, d + 1)
                        lo, hi = max(lo, r[0]), min(hi, r[1])
        return (lo, hi) if lo <= hi else full

    def srng(self, t):
        w = t.w
        h = 1 << (w - 1)
        if t.op == "int":
            return sv(t), sv(t)
        i = self.iv.get(("s", t))
        n = sign_core(t)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if n < w and t.op == "bits":
            c = mkbits(t.args[:n])
            i2 = self.iv.get(("s", c))
            if i2:
                lo, hi = max(lo, i2[0]), min(hi, i2[1])
        if i:
            lo, hi = max(lo, i[0]), min(hi, i[1])
        r = self.rng(t)
        if r[1] < h:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        elif r[0] >= h:
            lo, hi = max(lo, r[0] - (1 << w)), min(hi, r[1] - (1 << w))
        if t.op == "lin":
            c, ps = t.args
            a = b = c if c < h else c - (1 << w)
            for x, k in ps:
                if k >= h:
                    k -= 1 << w
                r = self.srng(x)
                if k > 0:
                    a, b = a + k * r[0], b + k * r[1]
                else:
                    a, b = a + k * r[1], b + k * r[0]
            if -h <= a and b < h:
                lo, hi = max(lo, a), min(hi, b)
        return (lo, hi) if lo <= hi else (-h, h - 1)

    def decide(self, c):
        """truth value of a boolean term or None"""
        if c.op == "int":
            return bool(c.args[0])
        f = self.facts.get(c)
        if f is not None:
            return f
        o, a = c.op, c.args
        if o == "bnot":
            r = self.decide(a[0])
            return None if r is None else not r
        if o == "band":
            x = self.decide(a[0])
            if x is False:
                return False
            y = self.decide(a[1])
            if y is False:
                return False
            if x and y:
                return True
            return None
        if o == "bxor":
            x, y = self.decide(a[0]), self.decide(a[1])
            if x is not None and y is not None:
                return x ^ y
            return None
        if o == "ite":
            x = self.decide(a[0])
            if x is not None:
                return self.decide(a[1] if x else a[2])
            p, q = self.decide(a[1]), self.decide(a[2])
            if p is not None and p == q:
                return p
            return None
        if o == "ovf":
            return self.ovf(*a)
        if o in ("eq", "lt", "slt") and a[0].w is not None:
            x, y = self.resolve(a[0]), self.resolve(a[1])
            if x is not a[0] or y is not a[1]:
                c2 = {"eq": eq, "lt": lt, "slt": slt}[o](x, y)
                if c2 is not c:
                    return self.decide(c2)
            if o == "slt":
                r1, r2 = self.srng(x), self.srng(y)
                if r1[1] < r2[0]:
                    return True
                if r1[0] >= r2[1]:
                    return False
                return None
            r1, r2 = self.rng(x), self.rng(y)
            if o == "lt":
                if r1[1] < r2[0]:
                    return True
                if r1[0] >= r2[1]:
                    return False
                if self.facts.get(lt(y, x)):
                    return False
                if self.facts.get(eq(x, y)):
                    return False
                r = self.lt_chain(x, y)
                if r is not None:
                    return r
                return None
            if r1[1] < r2[0] or r2[1] < r1[0]:
                return False
            if r1[0] == r1[1] == r2[0] == r2[1]:
                return True
            if isc(y):
                ns = self.iv.get(("n", x))
                if ns and cv(y) in ns:
                    return False
            if self.facts.get(lt(x, y)) or self.facts.get(lt(y, x)):
                return False
            s1, s2 = self.srng(x), self.srng(y)
            if s1[1] < s2[0] or s2[1] < s1[0]:
                return False
            return None
        if o == "eq":
            return None
        r = self.resolve(c)
        if r.op == "int":
            return bool(r.args[0])
        if r is not c:
            return self.decide(r)
        return None

    def lt_chain(self, x, y):
        """x < y from recorded order facts: x = a + c, a < y known, ..."""
        # x < y with y = x' + k handled: y - x constant and no overflow
        d = sub(y, x)
        if isc(d):
            k = cv(d)
            h = 1 << (x.w - 1)
            if 0 < k < h:
                # y = x + k ; true if x + k does not wrap
                if self.rng(x)[1] + k < 1 << x.w:
                    return True
            elif k >= h:
                k = (1 << x.w) - k  # x = y + k
                if self.rng(y)[1] + k < 1 << x.w:
                    return False
        return None

    def ovf(self, op, sg, a, b):
        w = a.w
        if sg:
            r1, r2 = self.srng(a), self.srng(b)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            r1, r2 = self.rng(a), self.rng(b)
            lo, hi = 0, (1 << w) - 1
        if op == "Add":
            x, y = r1[0] + r2[0], r1[1] + r2[1]
        elif op == "Sub":
            x, y = r1[0] - r2[1], r1[1] - r2[0]
            if not sg:
                q = self.decide(lt(a, b))
                if q is not None:
                    return q
        else:
            ps = [p * q for p in r1 for q in r2]
            x, y = min(ps), max(ps)
        if x >= lo and y <= hi:
            return False
        if y < lo or x > hi:
            return True
        return None

    def assume(self, c, val=True):
        """returns False if contradictory"""
        if c.op == "int":
            return bool(c.args[0]) == val
        d = self.decide(c)
        if d is not None:
            if d != val:
                return False
            self.facts[c] = val
            return True
        o, a = c.op, c.args
        if o == "bnot":
            return self.assume(a[0], not val)
        self.facts[c] = val
        if o == "ovf" and a[0] == "Add" and not a[1]:
            # carry out of an unsigned sum: the sum is below both operands
            x = add(a[2], a[3])
            return self.assume(lt(x, a[2]), val) and self.assume(lt(x, a[3]), val)
        if o == "band":
            if val:
                return self.assume(a[0], True) and self.assume(a[1], True)
            if self.decide(a[0]) is True:
                return self.assume(a[1], False)
            if self.decide(a[1]) is True:
                return self.assume(a[0], False)
            return True
        if o == "bxor":
            for x, y in (a, a[::-1]):
                d = self.decide(x)
                if d is not None:
                    return self.assume(y, val ^ d)
            return True
        if o == "bits":  # one bit
            b = a[0]
            v = int(val) ^ int(b[2])
            self.bk = dict(self.bk)
            k = dict(self.bk.get(b[0], {}))
            k[b[1]] = v
            self.bk[b[0]] = k
            return True
        if o in ("eq", "lt", "slt") and a[0].w is not None:
            x, y = a
            if o == "eq":
                if val:
                    if isc(y):
                        self._setc(x, cv(y))
                    else:
                        r1, r2 = self.rng(x), self.rng(y)
                        self._iv(x, r2[0], r2[1])
                        self._iv(y, r1[0], r1[1])
                elif isc(y):
                    v = cv(y)
                    r = self.rng(x)
                    if r[0] == v:
                        self._iv(x, v + 1, r[1])
                    elif r[1] == v:
                        self._iv(x, r[0], v - 1)
                    k = ("n", x)
                    self.iv[k] = self.iv.get(k, frozenset()) | {v}
            elif o == "lt":
                r1, r2 = self.rng(x), self.rng(y)
                if val:
                    self._iv(x, r1[0], r2[1] - 1)
                    self._iv(y, r1[0] + 1, r2[1])
                else:
                    self._iv(x, r2[0], r1[1])
                    self._iv(y, r2[0], r1[1])
            else:
                r1, r2 = self.srng(x), self.srng(y)
                if val:
                    self._siv(x, r1[0], r2[1] - 1)
                    self._siv(y, r1[0] + 1, r2[1])
                else:
                    self._siv(x, r2[0], r1[1])
                    self._siv(y, r2[0], r1[1])
        return True

    def _setc(self, x, v):
        if x.op == "bits":
            for i, b in enumerate(x.args):
                if b not in (0, 1):
                    k = dict(self.bk.get(b[0], {}))
                    k[b[1]] = ((v >> i) & 1) ^ int(b[2])
                    self.bk[b[0]] = k
        self.iv[x] = (v, v)

    def _iv(self, x, lo, hi):
        if x.op == "int" or lo > hi:
            return
        r = self.rng(x)
        lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi:
            return
        self.iv[x] = (lo, hi)
        if lo == hi:
            self._setc(x, lo)
        if x.op == "lin":
            c, ps = x.args
            if len(ps) == 1 and ps[0][1] == 1:
                # x = a + c : a in [lo-c, hi-c] if that range does not wrap
                w = x.w
                a, b = (lo - c) % (1 << w), (hi - c) % (1 << w)
                if a <= b and b - a == hi - lo:
                    self._iv(ps[0][0], a, b)
        elif x.op == "bits":
            n = known_zero_high(x)
            if 0 < n < x.w:
                c = mkbits(x.args[:n])
                if c is not x:
                    self._iv(c, lo, hi)

    def _siv(self, x, lo, hi):
        if x.op == "int" or lo > hi:
            return
        r = self.srng(x)
        lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi:
            return
        self.iv[("s", x)] = (lo, hi)
        if x.op == "bits":
            n = sign_core(x)
            if n < x.w:
                self.iv[("s", mkbits(x.args[:n]))] = (lo, hi)
        if lo == hi:
            self._setc(x, lo & ((1 << x.w) - 1))


class Exit:
    def __init__(self, kind, st, fn, line, info, stack):
        self.kind, self.st, self.fn, self.line, self.info, self.stack = kind, st, fn, line, info, stack


class Frame:
    __slots__ = ("f", "n", "parent", "line", "addr")

    def __init__(self, f, n, parent):
        self.f, self.n, self.parent = f, n, parent
        self.line = 0


class Interp:
    def __init__(self, P, hooks=None, max_paths=20000, max_depth=60):
        self.bounded, self.truncated = None, 0
        self.maxpaths = 40
        self.known_keys = {}
        self.P = P
        self.hooks = hooks or {}
        self.panics = []
        self.opaque = {}
        self.imprecise = {}
        self.loops = {}
        self.nframe = 0
        self.nheap = 0
        self.nloop = 0
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.paths = 0
        self.steps = 0
        self.visited = set()
        self.spec = 0
        self.spec_decided = False
        self.analysed = {}
        self.inline_deny = set()
        self.max_steps = 6000000
        self.join_tables = True
        terms.discr_of = self._dof
        from . import models

        self.models = models.MODELS
        self.prefix_models = models.PREFIX

    def _dof(self, v):
        t = self.P.types[v.ty]
        return int(t["v"][v.args[1]]["d"])

    # ---------------------------------------------------------- values
    def sym(self, name, ty):
        t = self.P.types[ty]
        if t["k"] == "tuple":
            return mk("agg", ("tuple", 0) + tuple(self.sym("%s.%d" % (name, i), x) for i, x in enumerate(t["f"])), None, ty)
        v = var(name, self.P.width(ty), ty)
        self._typed(v)
        return v

    def fresh(self, name, ty):
        if ty is None:
            return fresh(name)
        t = self.P.types[ty]
        if t["k"] == "tuple":
            return mk("agg", ("tuple", 0) + tuple(self.fresh("%s.%d" % (name, i), x) for i, x in enumerate(t["f"])), None, ty)
        if t["k"] == "fndef" or t["k"] == "closure" and not t["up"]:
            return self.P.zst(ty)
        v = fresh(name, self.P.width(ty), ty)
        self._typed(v)
        return v

    def _typed(self, v):
        if v.ty is not None and self.P.types[v.ty]["k"] == "char":
            atom_maxbits.setdefault(v, 21)
        return v

    def fld(self, v, vi, i, fty):
        if v.op == "agg":
            k = i + 2
            if v.args[1] != vi and vi is not None and v.args[1] is not None:
                return self.fresh("badvariant", fty)
            if k < len(v.args):
                return v.args[k]
            return self.fresh("nofield", fty)
        if v.op == "ite":
            a, b = self.fld(v.args[1], vi, i, fty), self.fld(v.args[2], vi, i, fty)
            if a is b:
                return a
            if a.op not in ("fld",) or b.op not in ("fld",):
                return mk("ite", (v.args[0], a, b), a.w, fty) if a.w is None else ite(v.args[0], a, b)
        if v.op in SEQOPS or v.ty is not None and self.modelled(v.ty):
            # the inside of a modelled collection is not represented: an unmodelled library function looks at it
            raise Limit("unmodelled collection operation on %s" % show(v)[:80])
        t = mk("fld", (v, vi, i), self.P.width(fty), fty)
        return self._typed(t)

    def modelled(self, ty):
        c = self.P.__dict__.setdefault("_modelled", {})
        if ty not in c:
            t = self.P.types[ty]
            c[ty] = t["k"] == "adt" and t.get("adt", "").startswith(("std::collections::", "std::vec::Vec", "std::string::String", "alloc::"))
        return c[ty]

    def discr(self, v, w):
        if v.op == "agg":
            ty = self.P.types[v.ty] if v.ty is not None else None
            d = int(ty["v"][v.args[1]]["d"]) if ty and ty["k"] == "adt" else v.args[1]
            return I(d, w)
        if v.op == "ite":
            return ite(v.args[0], self.discr(v.args[1], w), self.discr(v.args[2], w))
        if v.op == "enumof":  # discriminant term given
            return zext(v.args[0], w)
        t = mk("discr", (v,), w)
        if t not in atom_maxbits and v.ty is not None:
            ty = self.P.types[v.ty]
            if ty["k"] == "adt" and ty["ak"] == "enum":
                ds = [int(x["d"]) for x in ty["v"]]
                if ds and min(ds) >= 0:
                    atom_maxbits[t] = max(1, max(ds).bit_length())
        return t

    def variant(self, st, v):
        """variant index if decided on this path"""
        if v.op == "agg":
            return v.args[1]
        ty = self.P.types[v.ty]
        if v.op == "enumof":
            r = st.resolve(v.args[0])
            if isc(r):
                for i, x in enumerate(ty["v"]):
                    if int(x["d"]) & ((1 << r.w) - 1) == cv(r):
                        return i
            return None
        for w in (64, 8, 16, 32):
            d = mk("discr", (v,), w)
            r = st.resolve(d)
            if r.op == "int":
                for i, x in enumerate(ty["v"]):
                    if int(x["d"]) & ((1 << w) - 1) == cv(r):
                        return i
        return None

    def expand(self, v, vi=0):
        if v.op == "agg" or v.ty is None:
            return v
        t = self.P.types[v.ty]
        if t["k"] == "adt" and t["v"]:
            fs = t["v"][vi]["f"]
            return mk("agg", (t["n"], vi) + tuple(self.fld(v, vi, i, x[1]) for i, x in enumerate(fs)), None, v.ty)
        if t["k"] == "tuple":
            return mk("agg", ("tuple", 0) + tuple(self.fld(v, 0, i, x) for i, x in enumerate(t["f"])), None, v.ty)
        if t["k"] == "closure":
            return mk("agg", (t["n"], 0) + tuple(self.fld(v, 0, i, x) for i, x in enumerate(t["up"])), None, v.ty)
        if t["k"] == "array" and t["len"] is not None and t["len"] <= 64:
            return mk("arr", tuple(self.elem(None, v, I(i, 64), t["e"]) for i in range(t["len"])), None, v.ty)
        return v

    # ---------------------------------------------------------- sequences
    def length(self, st, v):
        o = v.op
        if o == "arr":
            return I(len(v.args), 64)
        if o == "strc":
            return I(len(v.args[0]), 64)
        if o == "sub":
            return sub(v.args[2], v.args[1])
        if o == "store":
            return self.length(st, v.args[0])
        if o == "push":
            return add(self.length(st, v.args[0]), I(1, 64))
        if o == "concat":
            return add(self.length(st, v.args[0]), self.length(st, v.args[1]))
        if o == "rep":
            return v.args[1]
        if o in ("mapped", "sorted"):
            return self.length(st, v.args[0])
        if o == "resized":
            return v.args[1]
        if o == "scat":
            n = I(0, 64)
            for p in v.args:
                n = add(n, self.length(st, p))
            return n
        if v.ty is not None:
            t = self.P.types[v.ty]
            if t["k"] == "array" and t["len"] is not None:
                return I(t["len"], 64)
        t = mk("len", (v,), 64)
        atom_maxbits.setdefault(t, 63)
        return t

    def elem(self, st, v, idx, ety):
        o = v.op
        if o == "arr" and isc(idx):
            if cv(idx) < len(v.args):
                return v.args[cv(idx)]
            return self.fresh("oob", ety)
        if o == "arr" and v.args and all(x is v.args[0] for x in v.args):
            return v.args[0]
        if o == "strc" and isc(idx) and cv(idx) < len(v.args[0]):
            return I(v.args[0][cv(idx)], 8)
        if o == "sub":
            return self.elem(st, v.args[0], add(v.args[1], idx), ety)
        if o == "rep":
            return v.args[0]
        if o == "store":
            c = eq(v.args[1], idx)
            d = st.decide(c) if st is not None else (bool(cv(c)) if isc(c) else None)
            if d is True:
                return v.args[2]
            if d is False:
                return self.elem(st, v.args[0], idx, ety)
        if o == "splice" and isc(idx) and isc(v.args[1]) and isc(v.args[2]):
            lo, hi = cv(v.args[1]), cv(v.args[2])
            if lo <= cv(idx) < hi:
                return self.elem(st, v.args[3], I(cv(idx) - lo, 64), ety)
            return self.elem(st, v.args[0], idx, ety)
        if o == "push":
            n = self.length(st, v.args[0])
            if st is not None and st.decide(lt(idx, n)) is True:
                return self.elem(st, v.args[0], idx, ety)
            c = eq(n, idx)
            d = st.decide(c) if st is not None else (bool(cv(c)) if isc(c) else None)
            if d is True:
                return v.args[1]
            if d is False:
                return self.elem(st, v.args[0], idx, ety)
        if o == "concat":
            n = self.length(st, v.args[0])
            d = st.decide(lt(idx, n)) if st is not None else None
            if d is True:
                return self.elem(st, v.args[0], idx, ety)
            if d is False:
                return self.elem(st, v.args[1], sub(idx, n), ety)
        if o == "mapped" and v.args[1] is not None:
            src, ev, r = v.args[0], v.args[1], v.args[2]
            return subst(r, {ev: self.elem(st, src, idx, ev.ty)})
        t = mk("select", (v, idx), self.P.width(ety) if ety is not None else None, ety)
        return self._typed(t)

    # ---------------------------------------------------------- locations
    def deref_loc(self, t, ety=None):
        """value of reference/pointer type -> (loc, path)"""
        while t.op == "ptr" or t.op == "transmute" and t.args[0].op in ("ref", "ptr", "transmute"):
            if t.op == "ptr":
                ety = ety or self.P.types[t.ty].get("e")
            t = t.args[0]
        if t.op == "ref":
            return t.args
        if t.op == "str":
            return (("val", mk("strc", t.args)), ())
        if t.op == "agg" and t.ty is not None:
            # transparent pointer wrappers (Box, Unique, NonNull, ...)
            for x in t.args[2:]:
                if x.op in ("ref", "ptr", "str") or x.op == "transmute" and x.args[0].op in ("ref", "ptr") or x.op == "agg" and len(x.args) > 2 or x.op in ("fld", "var") and x.w is None:
                    return self.deref_loc(x, ety)
        if t.op == "val":
            return (("val", t.args[0]), ())
        if ety is None and t.ty is not None:
            ety = self.pointee(t.ty)
        return (("deref", t, ety), ())

    def pointee(self, ty):
        t = self.P.types[ty]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        return None

    def init(self, loc):
        k = loc[0]
        if k == "deref":
            t = loc[1]
            ety = loc[2]
            if t.op == "var" and t.args[0].startswith("&"):
                r = var("*" + t.args[0][1:], self.P.width(ety) if ety is not None else None, ety)
                return self._typed(r)
            r = mk("deref", (t,), self.P.width(ety) if ety is not None else None, ety)
            return self._typed(r)
        if k == "val":
            return loc[1]
        if k == "calloc":
            return self.P.const_alloc(loc)
        if k == "static":
            return var("static:" + loc[1], None, loc[2])
        return None

    def get(self, st, loc):
        v = st.store.get(loc)
        if v is None:
            v = self.init(loc)
            if v is None:
                return mk("undef", (loc,), None, None)
            if loc[0] != "val":
                st.store[loc] = v
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == "f":
            if v.op == "undef":
                return self.fresh("undef", p[3])
            return self.fld(v, p[1], p[2], p[3])
        if k == "i":
            return self.elem(st, v, p[1], p[2])
        if k == "s":
            return self.subslice(st, v, p[1], p[2])
        if k == "k":
            from . import models

            return models.map_value(self, st, v, p[1], p[2])
        if k == "m":  # pseudo: whatever the model says
            return p[1](self, st, v)
        raise Exception("proj %s" % (p,))

    def subslice(self, st, v, a, b):
        if isc(a) and cv(a) == 0 and b is self.length(st, v):
            return v
        if v.op == "arr" and isc(a) and isc(b) and cv(a) <= cv(b) <= len(v.args):
            return mk("arr", v.args[cv(a) : cv(b)], None, None)
        if v.op == "strc" and isc(a) and isc(b) and cv(a) <= cv(b) <= len(v.args[0]):
            return mk("strc", (v.args[0][cv(a) : cv(b)],), None, v.ty)
        if v.op in ("scat", "dig"):
            from . import lexer

            r = lexer.subtext(self, st, v, a, b)
            if r is not None:
                return r
        if v.op == "sub":
            return mk("sub", (v.args[0], add(v.args[1], a), add(v.args[1], b)), None, v.ty)
        return mk("sub", (v, a, b), None, v.ty)

    def load(self, st, loc, path):
        v = self.get(st, loc)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def upd(self, st, v, path, nv):
        if not path:
            return nv
        p = path[0]
        k = p[0]
        if k == "f":
            vi, i = p[1], p[2]
            if v.op != "agg":
                if v.ty is None or v.op == "undef":
                    # unknown container: build lazily
                    fs = {i: nv if len(path) == 1 else self.upd(st, fresh("u", None, p[3]), path[1:], nv)}
                    return mk("agg", ("?", vi) + tuple(fs.get(j, mk("undef", (("x",),), None, None)) for j in range(i + 1)), None, None)
                v = self.expand(v, vi)
                if v.op != "agg":
                    return fresh("imprecise", v.w, v.ty)
            a = list(v.args)
            while len(a) <= i + 2:
                a.append(mk("undef", (("x",),), None, None))
            a[i + 2] = self.upd(st, a[i + 2], path[1:], nv)
            return mk("agg", tuple(a), None, v.ty)
        if k == "i":
            idx, ety = p[1], p[2]
            nv2 = nv if len(path) == 1 else self.upd(st, self.elem(st, v, idx, ety), path[1:], nv)
            return self.store_elem(st, v, idx, nv2)
        if k == "k":
            from . import models

            old = models.map_value(self, st, v, p[1], p[2])
            return models.map_set(self, st, v, p[1], self.upd(st, old, path[1:], nv))
        if k == "s":
            a, b = p[1], p[2]
            if len(path) > 1 and path[1][0] == "i":
                q = ("i", add(a, path[1][1]), path[1][2])
                return self.upd(st, v, (q,) + path[2:], nv)
            if len(path) > 1 and path[1][0] == "s":
                q = ("s", add(a, path[1][1]), add(a, path[1][2]))
                return self.upd(st, v, (q,) + path[2:], nv)
            return mk("splice", (v, a, b, nv), None, v.ty)
        if k == "m":
            return p[2](self, st, v, path[1:], nv)
        raise Exception("upd %s" % (p,))

    def store_elem(self, st, v, idx, nv):
        if v.op not in ("arr", "store") and v.ty is not None:
            t = self.P.types[v.ty]
            if t["k"] == "array" and t["len"] is not None and t["len"] <= 64:
                v = self.expand(v)
        if v.op == "arr" and isc(idx) and cv(idx) < len(v.args):
            a = list(v.args)
            a[cv(idx)] = nv
            return mk("arr", tuple(a), None, v.ty)
        if v.op == "store" and v.args[1] is idx:
            v = v.args[0]
        return mk("store", (v, idx, nv), None, v.ty)

    def save(self, st, loc, path, nv):
        if not path:
            st.store[loc] = nv
            return
        st.store[loc] = self.upd(st, self.get(st, loc), path, nv)

    def ref(self, loc, path, ty=None):
        return mk("ref", (loc, tuple(path)), None, None)

    def vref(self, v):
        """reference to an immutable temporary holding v"""
        if v.op == "strc":
            return mk("str", v.args, None, None)
        return mk("ref", (("val", v), ()), None, None)

    def heap(self, st, v):
        self.nheap += 1
        loc = ("heap", self.nheap)
        st.store[loc] = v
        return loc

    # ---------------------------------------------------------- places
    def place_ty(self, fr, pl):
        ty = fr.f["locals"][pl[0]]
        for e in pl[1:]:
            k = e[0]
            t = self.P.types[ty]
            if k == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                else:
                    ty = t["box"] if t.get("box") is not None else None
            elif k == "f":
                ty = e[2]
            elif k in ("i", "c"):
                ty = t["e"]
            elif k == "o":
                ty = e[1]
            if ty is None:
                return None
        return ty

    def place(self, st, fr, pl):
        loc, path = ("l", fr.n, pl[0]), ()
        ty = fr.f["locals"][pl[0]]
        vi = 0
        for e in pl[1:]:
            k = e[0]
            t = self.P.types[ty] if ty is not None else {"k": "?"}
            if k == "*":
                v = self.load(st, loc, path)
                ety = t["e"] if t["k"] in ("ref", "ptr") else None
                loc, path = self.deref_loc(v, ety)
                ty = ety
                vi = 0
            elif k == "f":
                if t["k"] == "adt" and t["ak"] == "union":
                    path = path + (("f", 0, 0, e[2]),)
                else:
                    path = path + (("f", vi, e[1], e[2]),)
                ty = e[2]
                vi = 0
            elif k == "d":
                vi = e[1]
            elif k == "i":
                idx = self.load(st, ("l", fr.n, e[1]), ())
                ty = t.get("e")
                path = self._ipath(path, idx, ty)
            elif k == "c":
                off, fromend = e[1], e[3]
                ty = t.get("e")
                if fromend:
                    n = self.length(st, self.load(st, loc, path))
                    idx = sub(n, I(off, 64))
                else:
                    idx = I(off, 64)
                path = self._ipath(path, idx, ty)
            elif k == "s":
                a, b, fromend = I(e[1], 64), I(e[2], 64), e[3]
                if fromend:
                    n = self.length(st, self.load(st, loc, path))
                    b = sub(n, b)
                path = path + (("s", a, b),)
            elif k == "o":
                ty = e[1]
        return loc, path

    def _ipath(self, path, idx, ety):
        if path and path[-1][0] == "s":
            return path[:-1] + (("i", add(path[-1][1], idx), ety),)
        return path + (("i", idx, ety),)

    # ---------------------------------------------------------- operands / rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            loc, path = self.place(st, fr, o[1])
            v = self.load(st, loc, path)
            if v.op == "undef":
                ty = self.place_ty(fr, o[1])
                v = self.zst_or_fresh(ty)
            return v
        if k == "k":
            ty, al = o[1], o[2]
            if al is None:
                return self.P.zst(ty)
            if al == "?":
                return self.fresh("const", ty)
            if isinstance(al, dict):
                return self.P.decode(ty, al)
            return self.fresh("const", ty)
        if k == "rt":
            return FALSE
        raise Exception("operand " + str(o))

    def zst_or_fresh(self, ty):
        if ty is None:
            return fresh("undef")
        t = self.P.types[ty]
        l = t.get("l")
        if t["k"] in ("fndef",) or t["k"] == "closure" and not t["up"] or t["k"] == "tuple" and not t["f"]:
            return self.P.zst(ty)
        if t["k"] == "adt" and t["ak"] == "struct" and l and l.get("size") == 0:
            return self.P.zst(ty)
        return self.fresh("undef", ty)

    def operand_ty(self, fr, o):
        if o[0] == "k":
            return o[1]
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        return None

    def scalar(self, v, ty):
        if v.w is not None:
            return v
        w = self.P.width(ty) if ty is not None else None
        if w is None:
            w = 64
        if v.op == "rawint":
            return I(v.args[0], w)
        return mk("scal", (v,), w)

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        P = self.P
        if k in ("cp", "mv", "k", "rt"):
            return self.operand(st, fr, rv)
        if k in ("ref", "addr"):
            loc, path = self.place(st, fr, rv[1])
            if loc[0] == "val" and not path and loc[1].op == "strc":
                return mk("str", loc[1].args, None, None)
            if loc[0] == "deref" and not path:
                # reborrow of a symbolic reference keeps its identity
                v = st.store.get(loc)
                if v is None:
                    pass
            return mk("ref", (loc, path), None, None)
        if k == "bin" or k == "chk":
            ty = self.operand_ty(fr, rv[2])
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            op = rv[1]
            r = self.binop(st, op, a, b, ty, self.operand_ty(fr, rv[3]), dty if k == "bin" else None)
            if k == "chk":
                sg = P.signed(ty)
                a, b = self.scalar(a, ty), self.scalar(b, ty)
                o = ovf(op, sg, a, b)
                d = st.ovf(op, sg, a, b)
                if d is not None:
                    o = I(int(d), 1)
                return mk("agg", ("tuple", 0, r, o), None, dty)
            return r
        if k == "un":
            a = self.operand(st, fr, rv[2])
            ty = self.operand_ty(fr, rv[2])
            if rv[1] == "Not":
                return not_(self.scalar(a, ty))
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                t = P.types[ty]
                if t["k"] in ("ref", "ptr") and P.types[t["e"]]["k"] not in ("slice", "str", "dyn"):
                    return mk("agg", ("tuple", 0), None, dty)
                loc, path = self.deref_loc(a, t.get("e"))
                return self.length(st, self.load(st, loc, path))
            return self.fresh("un", dty)
        if k == "discr":
            loc, path = self.place(st, fr, rv[1])
            v = self.load(st, loc, path)
            w = P.width(dty) or 64
            if v.op == "undef":
                return self.fresh("discr", dty)
            if v.ty is None and v.op != "agg":
                ty = self.place_ty(fr, rv[1])
                if v.op == "var":
                    v = mk(v.op, v.args, v.w, ty)
            return self.discr(v, w)
        if k == "len":
            loc, path = self.place(st, fr, rv[1])
            return self.length(st, self.load(st, loc, path))
        if k == "agg":
            kind, ty, vi, ops = rv[1], rv[2], rv[3], rv[4]
            vs = tuple(self.operand(st, fr, o) for o in ops)
            t = P.types[ty] if ty is not None else None
            if kind == "array":
                return mk("arr", vs, None, dty)
            if kind == "tuple":
                return mk("agg", ("tuple", 0) + vs, None, dty)
            if kind == "adt":
                return mk("agg", (t["n"], vi or 0) + vs, None, ty)
            if kind == "closure":
                return mk("agg", (t["n"], 0) + vs, None, ty)
            if kind == "rawptr":
                return vs[0]
            return self.fresh("agg", dty)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return mk("arr", (v,) * n, None, dty)
            return mk("rep", (v, I(n, 64) if isinstance(n, int) else self.fresh("n", None)), None, dty)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.operand_ty(fr, rv[2]), rv[3])
        if k == "tls":
            return self.fresh("tls", dty)
        return self.fresh("rv", dty)

    def binop(self, st, op, a, b, ty, bty, dty):
        P = self.P
        if a.w is None or b.w is None:
            t = P.types[ty] if ty is not None else {"k": "?"}
            if t["k"] in ("ptr", "ref", "fnptr") or t["k"] == "adt":
                if op == "Eq":
                    return TRUE if a is b else mk("eq", (a, b), 1)
                if op == "Ne":
                    return FALSE if a is b else bnot(mk("eq", (a, b), 1))
                if op == "Offset":
                    return mk("ptroff", (a, b), None, ty)
                return self.fresh("ptrop", dty) if dty is not None else fresh("ptrop")
            if op == "Offset":
                return mk("ptroff", (a, b), None, ty)
            if t["k"] == "tuple":
                return I(1 if op in ("Eq", "Le", "Ge") else 0, 1)
            a, b = self.scalar(a, ty), self.scalar(b, bty)
        sg = ty is not None and P.signed(ty)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "BitAnd":
            return and_(a, b) if a.w > 1 else band(a, b)
        if op == "BitOr":
            return or_(a, b) if a.w > 1 else bor(a, b)
        if op == "BitXor":
            return xor_(a, b) if a.w > 1 else bxor(a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return ne(a, b)
        if op in ("Lt", "Gt", "Le", "Ge"):
            f = slt if sg else lt
            if op == "Lt":
                return f(a, b)
            if op == "Gt":
                return f(b, a)
            if op == "Le":
                return bnot(f(b, a))
            return bnot(f(a, b))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            b = st.resolve(b)
            n = b
            if isc(b):
                n = I(cv(b) % a.w, 64)
            if op.startswith("Shl"):
                return shl(a, n)
            return ashr(a, n) if sg else lshr(a, n)
        if op in ("Div", "Rem"):
            if isc(a) and isc(b) and cv(b):
                if sg:
                    q = abs(sv(a)) // abs(sv(b))
                    if (sv(a) < 0) != (sv(b) < 0):
                        q = -q
                    return I(q if op == "Div" else sv(a) - q * sv(b), a.w)
                return I(cv(a) // cv(b) if op == "Div" else cv(a) % cv(b), a.w)
            if isc(b) and not sg:
                k = cv(b)
                if k and k & (k - 1) == 0:
                    n = k.bit_length() - 1
                    return lshr(a, I(n, a.w)) if op == "Div" else and_(a, I(k - 1, a.w))
            return mk(("s" if sg else "u") + op.lower(), (a, b), a.w)
        if op == "Cmp":
            l = slt(a, b) if sg else lt(a, b)
            e = eq(a, b)
            return mk("enumof", (ite(l, I(255, 8), ite(e, I(0, 8), I(1, 8))),), None, dty)
        return self.fresh("bin" + op, dty)

    def cast(self, st, kind, v, fty, tty):
        P = self.P
        ft, tt = P.types[fty] if fty is not None else {"k": "?"}, P.types[tty]
        if kind == "IntToInt":
            w = P.width(tty)
            v = self.scalar(v, fty)
            if ft["k"] == "int":
                return sext(v, w)
            return zext(v, w)
        if kind.startswith("PointerCoercion(ReifyFn") or kind.startswith("PointerCoercion(Clos"):
            return v
        if kind in ("PtrToPtr", "BoxDerefTransmute") or kind.startswith("PointerCoercion"):
            return self.ptrcast(v, tty)
        if kind == "Transmute":
            fw, tw = P.width(fty) if fty is not None else None, P.width(tty)
            if fw is not None and tw is not None:
                return zext(self.scalar(v, fty), tw)
            if fty == tty:
                return v
            if tt["k"] in ("ptr", "ref"):
                if ft["k"] in ("int", "uint"):
                    return mk("rawptr", (v,), None, tty)
                # peel
                return self.ptrcast(v, tty)
            if ft["k"] in ("int", "uint") and tt["k"] == "array" and P.width(tt["e"]) == 8:
                return mk("arr", tuple(trunc(lshr(v, I(8 * i, 64)), 8) for i in range(tt["len"])), None, tty)
            if ft["k"] == "array" and tw is not None and P.width(ft["e"]) == 8:
                v2 = self.expand(v)
                if v2.op == "arr" and len(v2.args) * 8 == tw:
                    return mkbits(sum((bits(x) for x in v2.args), ()))
                e = ft["e"]
                return mkbits(sum((bits(self.elem(st, v, I(i, 64), e)) for i in range(ft["len"])), ()))
            if tt["k"] == "adt" and tt["ak"] == "struct" and len(tt["v"][0]["f"]) == 1:
                return mk("agg", (tt["n"], 0, self.cast(st, "Transmute", v, fty, tt["v"][0]["f"][0][1])), None, tty)
            if ft["k"] == "adt" and ft["ak"] == "struct" and len(ft["v"][0]["f"]) == 1:
                return self.cast(st, "Transmute", self.fld(v, 0, 0, ft["v"][0]["f"][0][1]), ft["v"][0]["f"][0][1], tty)
            return mk("transmute", (v,), tw, tty)
        return self.fresh("cast", tty)

    def ptrcast(self, v, tty):
        while v.op == "ptr":
            v = v.args[0]
        if v.op in ("ref", "str"):
            return v
        if v.op == "agg":
            for x in v.args[2:]:
                if x.op in ("ref", "ptr", "str", "agg") and not (x.op == "agg" and len(x.args) == 2):
                    return self.ptrcast(x, tty)
                if x.op in ("fld", "var", "deref", "select") and x.w is None:
                    return mk("ptr", (x,), None, tty)
            return v
        # symbolic wrapper: NonNull<T> etc. -> raw pointer
        return mk("ptr", (v,), None, tty)

    # ---------------------------------------------------------- execution
    def new_frame(self, f, parent):
        self.nframe += 1
        return Frame(f, self.nframe, parent)

    def depth(self, fr):
        n = 0
        while fr is not None:
            n += 1
            fr = fr.parent
        return n

    def stack(self, fr):
        out = []
        while fr is not None:
            out.append((fr.f["def"], self.P.loc(fr.f, fr.line) if fr.line else "?"))
            fr = fr.parent
        return out

    def exec_fn(self, f, args, st, parent=None):
        """-> list of (state, return value)"""
        fr = self.new_frame(f, parent)
        if self.depth(fr) > self.max_depth:
            raise Limit("inlining depth at " + f["def"])
        self.analysed[f["def"]] = self.analysed.get(f["def"], 0) + 1
        argc = f["argc"]
        if "{closure" in f["def"] and len(args) == argc == 2 and args[1].op == "agg" and args[1].args[0] == "tuple":
            pt = self.P.types[f["locals"][2]]
            n = len(args[1].args) - 2
            if pt["k"] != "tuple" and n == 1 or pt["k"] == "tuple" and n == 1 and len(pt["f"]) != 1:
                args = [args[0], args[1].args[2]]
        if len(args) != argc:
            # rust-call ABI: (self, (a, b)) -> self, a, b  or spread
            if len(args) and args[-1].op == "agg" and args[-1].args[0] == "tuple" and len(args) - 1 + len(args[-1].args) - 2 == argc:
                args = list(args[:-1]) + list(args[-1].args[2:])
            else:
                raise Limit("arity %s: %d vs %d" % (f["def"], len(args), argc))
        elif f.get("spread"):
            pass
        for i, a in enumerate(args):
            st.store[("l", fr.n, i + 1)] = a
        rets = []
        st_facts = dict(st.iv)
        self.exec_blocks(fr, st, 0, None, rets)
        n = fr.n
        out = []
        for s in rets:
            v = s.store.get(("l", n, 0))
            if v is None:
                v = self.zst_or_fresh(f["locals"][0])
            for k in [k for k in s.store if k[0] == "l" and k[1] == n]:
                del s.store[k]
            out.append((s, v))
        if len(out) >= 3 and self.join_tables:
            out = self.join(out, st_facts)
        return out

    def join(self, outs, base):
        """lossless join of table-like results: the exits differ only in one scrutinee's value"""
        groups = {}
        order = []
        for s, v in outs:
            news = frozenset(k for k, x in s.iv.items() if isinstance(k, T) and x[0] == x[1] and base.get(k) != x and k.op not in ("lin",))
            key = (id(s.ev) if s.ev is not None else 0, self._shape(v))
            groups.setdefault(key, []).append((s, v, news))
            if key not in order:
                order.append(key)
        res = []
        for key in order:
            g = groups[key]
            if len(g) < 3:
                res += [(s, v) for s, v, _ in g]
                continue
            t = None
            for cand in g[0][2]:
                if all(cand in n for _, _, n in g) and len({s.iv[cand][0] for s, _, _ in g}) == len(g):
                    t = cand
                    break
            if t is None or any(s.store != g[0][0].store for s, _, _ in g):
                res += [(s, v) for s, v, _ in g]
                continue
            tab = [(s.iv[t][0], v) for s, v, _ in g]
            tab.sort(key=lambda x: x[0])
            v = self._mergev(t, tab)
            if v is None:
                res += [(s, v) for s, v, _ in g]
                continue
            s0 = g[0][0]
            s = s0.copy()
            s.facts = {k: x for k, x in s0.facts.items() if all(q.facts.get(k) == x for q, _, _ in g)}
            s.iv = {k: x for k, x in s0.iv.items() if all(q.iv.get(k) == x for q, _, _ in g)}
            s.bk = {}
            for k, x in s0.bk.items():
                y = {i: b for i, b in x.items() if all(q.bk.get(k, {}).get(i) == b for q, _, _ in g)}
                if y:
                    s.bk[k] = y
            lo, hi = tab[0][0], tab[-1][0]
            if not (lo == 0 and hi == (1 << t.w) - 1):
                s.iv[t] = (lo, hi)
            if hi - lo + 1 != len(tab):
                s.facts[mk("inset", (t, tuple(c for c, _ in tab)), 1)] = True
            res.append((s, v))
        return res

    def _shape(self, v):
        if v.op == "agg" and len(v.args) == 2 and v.ty is not None and v.args[0] != "tuple":
            return ("leaf", v.args[0])
        if v.op == "agg":
            return ("agg",) + v.args[:2] + tuple(self._shape(x) for x in v.args[2:])
        if v.op == "int":
            return ("int", v.w)
        return v.id

    def _mergev(self, t, tab):
        v0 = tab[0][1]
        if all(v is v0 for _, v in tab):
            return v0
        if v0.op == "agg" and len(v0.args) == 2 and v0.ty is not None:
            ds = [(c, self._dof(v)) for c, v in tab]
            if all(c == d for c, d in ds):
                return mk("enumof", (t,), None, v0.ty)
            w = 8 if max(d for _, d in ds) < 256 and min(d for _, d in ds) >= 0 else 64
            return mk("enumof", (mk("tab", (t, tuple((c, I(d, w)) for c, d in ds)), w),), None, v0.ty)
        if v0.op == "agg":
            kids = []
            for i in range(2, len(v0.args)):
                k = self._mergev(t, [(c, v.args[i]) for c, v in tab])
                if k is None:
                    return None
                kids.append(k)
            return mk("agg", v0.args[:2] + tuple(kids), None, v0.ty)
        if v0.op == "int":
            if all(c == cv(v) for c, v in tab):
                return zext(t, v0.w) if t.w <= v0.w else trunc(t, v0.w)
            return mk("tab", (t, tuple((c, v) for c, v in tab)), v0.w)
        return None

    def exec_blocks(self, fr, st, bb, within, rets):
        """within: None or (head, blocks). returns (backs, exits)"""
        loops = self.P.loops(fr.f)
        backs, exits = [], []
        work = [(st, bb, True)]
        npath = 0
        while work:
            st, bb, first = work.pop()
            if within is not None and not first:
                if bb == within[0]:
                    backs.append(st)
                    continue
                if bb not in within[1]:
                    exits.append((st, bb))
                    continue
            if bb in loops and not (within is not None and bb == within[0] and first):
                for s2, b2 in self.do_loop(fr, st, bb, loops[bb]):
                    work.append((s2, b2, False))
                continue
            npath += 1
            self.paths += 1
            if len(work) > self.max_paths:
                raise Limit("paths in " + fr.f["def"])
            for s2, b2 in self.exec_block(fr, st, bb, rets, within):
                work.append((s2, b2, False))
        return backs, exits

    def set_place(self, st, fr, pl, v):
        loc, path = self.place(st, fr, pl)
        self.save(st, loc, path, v)

    def exec_block(self, fr, st, bb, rets, within):
        f = fr.f
        stmts, term = f["blocks"][bb]
        self.visited.add((f["id"], bb))
        self.steps += len(stmts) + 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        for s in stmts:
            k = s[0]
            if k == "=":
                fr.line = s[3]
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], dty)
                self.set_place(st, fr, s[1], v)
            elif k == "sd":
                loc, path = self.place(st, fr, s[1])
                v = self.load(st, loc, path)
                ty = self.place_ty(fr, s[1])
                t = self.P.types[ty]
                if v.op == "agg" and v.args[1] == s[2]:
                    pass
                elif not t["v"][s[2]]["f"]:
                    self.save(st, loc, path, mk("agg", (t["n"], s[2]), None, ty))
                elif v.op == "agg" and v.args[0] in ("?",):
                    self.save(st, loc, path, mk("agg", (t["n"], s[2]) + v.args[2:], None, ty))
                else:
                    self.save(st, loc, path, mk("agg", (t["n"], s[2]) + tuple(self.fresh("sd", x[1]) for x in t["v"][s[2]]["f"]), None, ty))
            elif k == "assume":
                pass
        k = term[0]
        if k == "goto":
            return [(st, term[1])]
        if k == "ret":
            rets.append(st)
            return []
        if k in ("unreach", "resume"):
            return []
        if k == "sw":
            return self.switch(fr, st, term, within)
        if k == "drop":
            return self.drop(fr, st, term)
        if k == "assert":
            fr.line = term[6]
            if term[3] == "other":  # compiler-inserted pointer sanity checks
                return [(st, term[5])]
            c = self.operand(st, fr, term[1])
            ok = c if term[2] else bnot(c)
            d = st.decide(ok)
            if d is True:
                return [(st, term[5])]
            # operands are evaluated for the report
            ops = []
            for o in term[4]:
                try:
                    ops.append(self.operand(st, fr, o))
                except Exception:
                    ops.append(None)
            s2 = st.copy()
            if d is None:
                s2.assume(ok, False)
            self.panic(fr, s2, "assert:" + term[3], (ok, tuple(ops)), d is False)
            if d is False:
                return []
            if not st.assume(ok, True):
                return []
            return [(st, term[5])]
        if k == "call":
            fr.line = term[6]
            return self.call(fr, st, term)
        raise Exception("term " + str(term))

    def panic(self, fr, st, kind, info, definite=False):
        self.panics.append(Exit(kind, st, fr.f, fr.line, info, self.stack(fr)))

    def switch(self, fr, st, term, within):
        fr.line = term[4]
        ty = self.operand_ty(fr, term[1])
        d = self.scalar(self.operand(st, fr, term[1]), ty)
        r = st.resolve(d)
        outs = None
        if within is not None and self.spec:
            outs = any(b not in within[1] for b in self.P.succs(term))
        if isc(r):
            v = cv(r)
            if outs:
                self.spec_decided = True
            for x, b in term[2]:
                if int(x) & ((1 << r.w) - 1) == v:
                    return [(st, b)]
            return [(st, term[3])]
        res = []
        conds = []
        for x, b in term[2]:
            conds.append((eq(d, I(int(x), d.w)), b))
        unre = self.is_unreachable(fr.f, term[3])
        live = []
        for c, b in conds:
            q = st.decide(c)
            if q is False:
                continue
            if q is True:
                if outs:
                    self.spec_decided = True
                return [(st, b)]
            live.append((c, b))
        if unre and len(live) == 1:
            st.assume(live[0][0], True)
            return [(st, live[0][1])]
        for i, (c, b) in enumerate(live):
            s2 = st.copy()
            if s2.assume(c, True):
                res.append((s2, b))
        if not unre:
            ok = True
            for c, b in live:
                if not st.assume(c, False):
                    ok = False
                    break
            if ok:
                res.append((st, term[3]))
        return res

    def is_unreachable(self, f, bb):
        b = f["blocks"][bb]
        return b[1][0] == "unreach" and not b[0]

    def drop(self, fr, st, term):
        return [(st, term[2])]

    # ---------------------------------------------------------- calls
    def call(self, fr, st, term):
        _, fty, fop, args, dest, target, line = term
        P = self.P
        ft = P.types[fty] if fty is not None else {"k": "?"}
        vs = [self.operand(st, fr, a) for a in args]
        retty = self.place_ty(fr, dest) if dest is not None else None
        if ft["k"] == "fndef":
            inst = ft.get("i")
            fn = P.fns.get(inst) if inst is not None else None
            name = fn["def"] if fn else ft["def"]
            ga = (fn["a"] if fn else None) or ft.get("a")
        else:
            fv = self.operand(st, fr, fop)
            if fv.op == "fnitem":
                ft = P.types[fv.args[0]]
                fn = P.fns.get(ft.get("i"))
                name = fn["def"] if fn else ft["def"]
                ga = ft.get("a")
            else:
                fn, name, ga = None, "<fnptr>", None
        res = self.invoke(fr, st, fn, name, vs, retty, ga)
        if target is None:
            return []
        out = []
        for s, v in res:
            self.set_place(s, fr, dest, v)
            out.append((s, target))
        return out

    def invoke(self, fr, st, fn, name, vs, retty, ga=None):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, fr, vs, retty, fn)
            if r is not None:
                return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, vs, retty, fn)
            if r is not None:
                return r
        else:
            for p, m in self.prefix_models:
                if name.startswith(p):
                    r = m(self, st, fr, vs, retty, fn)
                    if r is not None:
                        return r
                    break
        if fn is not None and fn["kind"] == "virtual":
            st.emit("dyn", name, tuple(vs))
            v = self.fresh("dyn:" + name.split("::")[-1], retty) if retty is not None else fresh("dyn")
            return [(st, v)]
        if fn is not None and "blocks" in fn and name not in self.inline_deny:
            if self.recursive(fr, fn):
                return self.do_opaque(fr, st, name, vs, retty)
            return self.exec_fn(fn, vs, st, fr)
        if fn is not None or "(" not in name:
            from . import models

            r = models.ctor(self, st, fr, vs, retty, fn if fn is not None else {"def": name})
            if r is not None:
                return r
        return self.do_opaque(fr, st, name, vs, retty)

    def recursive(self, fr, fn):
        n = 0
        while fr is not None:
            if fr.f["id"] == fn["id"]:
                n += 1
            fr = fr.parent
        return n >= 3

    def do_opaque(self, fr, st, name, vs, retty):
        self.opaque[name] = self.opaque.get(name, 0) + 1
        st.emit("opaque", name, tuple(vs), self.P.loc(fr.f, fr.line))
        for v in vs:
            self.havoc_ref(st, v, name)
        r = self.fresh("ret:" + name.split("::")[-1], retty) if retty is not None else fresh("ret")
        return [(st, r)]

    def havoc_ref(self, st, v, name):
        # only &mut arguments can be written; the reference value does not know: the caller checks the type
        if v.op == "ref" and v.args[0][0] in ("l", "heap") or v.op == "ref" and v.args[0][0] == "deref":
            loc, path = v.args
            cur = self.load(st, loc, path)
            if cur.op in ("int",):
                return
            self.imprecise[name] = self.imprecise.get(name, 0) + 1

    def call_value(self, fr, st, f, args, retty=None):
        """call a closure / fn item value (possibly behind references) with argument terms"""
        P = self.P
        self_arg = f
        v = f
        while True:
            if v.op == "ref":
                v = self.load(st, *v.args)
            elif v.op == "agg" and v.args[0].startswith(("std::boxed::Box", "alloc::boxed::Box")):
                v = self.load(st, *self.deref_loc(v))
            else:
                break
        if v.op == "fnitem":
            ft = P.types[v.args[0]]
            fn = P.fns.get(ft.get("i"))
            name = fn["def"] if fn else ft["def"]
            if retty is None and " -> " in ft["n"]:
                # items without a body (constructors) carry their return type in the signature only
                retty = P.tyname.get(ft["n"].split(" -> ", 1)[1].rsplit(" {", 1)[0])
            return self.invoke(fr, st, fn, name, list(args), retty)
        t = P.types[v.ty] if v.ty is not None else None
        if t and t["k"] == "closure":
            fn = P.fns.get(t["i"])
            if fn is None or "blocks" not in fn:
                return self.do_opaque(fr, st, t["n"], list(args), retty)
            h = self.hooks.get(fn["def"])
            # closure bodies take self by ref or by value
            st0 = P.types[fn["locals"][1]]
            if st0["k"] in ("ref", "ptr"):
                if f.op == "ref":
                    sa = f
                    while True:
                        x = self.load(st, *sa.args)
                        if x.op == "ref":
                            sa = x
                        else:
                            break
                else:
                    loc = self.heap(st, v)
                    sa = mk("ref", (loc, ()), None, None)
            else:
                sa = v
            if h is not None:
                r = h(self, st, fr, [sa] + list(args), retty, fn)
                if r is not None:
                    return r
            return self.exec_fn(fn, [sa] + list(args), st, fr)
        st.emit("callval", v, tuple(args))
        return [(st, self.fresh("callval", retty) if retty is not None else fresh("callval"))]

    # ---------------------------------------------------------- loops
    def live_at(self, f, bb):
        """locals live at block entry (address-taken locals are always live)"""
        key = ("live", f["id"])
        L = self.P._cfg.get(key)
        if L is None:
            bl = f["blocks"]
            n = len(bl)
            use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
            addr = set()

            def pu(pl, u, d):
                if pl[0] not in d:
                    u.add(pl[0])
                for e in pl[1:]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def ou(o, u, d):
                if o[0] in ("cp", "mv"):
                    pu(o[1], u, d)

            def ru(r, u, d):
                k = r[0]
                if k in ("cp", "mv"):
                    pu(r[1], u, d)
                elif k in ("ref", "addr"):
                    pu(r[1], u, d)
                    if not any(e[0] == "*" for e in r[1][1:]):
                        addr.add(r[1][0])
                elif k in ("bin", "chk"):
                    ou(r[2], u, d)
                    ou(r[3], u, d)
                elif k in ("un", "cast"):
                    ou(r[2], u, d)
                elif k in ("discr", "len"):
                    pu(r[1], u, d)
                elif k == "repeat":
                    ou(r[1], u, d)
                elif k == "agg":
                    for o in r[4]:
                        ou(o, u, d)

            for i, (ss, t) in enumerate(bl):
                u, d = use[i], deff[i]
                for s in ss:
                    if s[0] == "=":
                        ru(s[2], u, d)
                        if len(s[1]) == 1:
                            d.add(s[1][0])
                        else:
                            pu(s[1], u, d)
                    elif s[0] == "sd":
                        pu(s[1], u, d)
                k = t[0]
                if k == "sw":
                    ou(t[1], u, d)
                elif k == "assert":
                    ou(t[1], u, d)
                    for o in t[4]:
                        ou(o, u, d)
                elif k == "call":
                    ou(t[2], u, d)
                    for o in t[3]:
                        ou(o, u, d)
                    if t[4] is not None:
                        if len(t[4]) == 1:
                            d.add(t[4][0])
                        else:
                            pu(t[4], u, d)
                elif k == "ret":
                    u.add(0)
            live = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in self.P.succs(bl[i][1]):
                        o |= live[s]
                    x = use[i] | (o - deff[i])
                    if x != live[i]:
                        live[i] = x
                        ch = True
            L = (live, addr)
            self.P._cfg[key] = L
        return L[0][bb] | L[1]

    def do_loop(self, fr, st, head, blocks):
        if self.bounded is not None:
            outs, cur = [], [st]
            for it in range(self.bounded):
                nxt = []
                for s in cur:
                    b, e = self.exec_blocks(fr, s, head, (head, blocks), None)
                    outs += e
                    nxt += b
                cur = nxt
                if not cur:
                    return outs
            self.truncated += len(cur)
            return outs
        # 1. concrete unrolling, only while the trip is decided
        snap = (len(self.panics), dict(self.opaque), dict(self.imprecise))
        old_spec, old_dec = self.spec, self.spec_decided
        self.spec += 1
        try:
            cur = [st.copy()]
            outs = []
            ok = True
            for it in range(getattr(self, "unroll_max", 90)):
                nxt = []
                for s in cur:
                    self.spec_decided = False
                    b, e = self.exec_blocks(fr, s, head, (head, blocks), None)
                    outs += e
                    if b and not self.spec_decided:
                        ok = False
                        break
                    nxt += b
                cur = nxt
                if not ok or len(cur) > self.maxpaths:
                    ok = False
                    break
                if not cur:
                    break
            else:
                ok = False
        except SpecAbort:
            ok = False
        finally:
            self.spec = old_spec
            self.spec_decided = old_dec
        if ok:
            return outs
        del self.panics[snap[0] :]
        self.opaque, self.imprecise = snap[1], snap[2]
        # 2. havoc-widening
        if self.spec:
            raise SpecAbort()

        def body(s):
            b, e = self.exec_blocks(fr, s, head, (head, blocks), None)
            return b, e

        live = self.live_at(fr.f, head)
        for k in [k for k in st.store if k[0] == "l" and k[1] == fr.n and k[2] not in live]:
            del st.store[k]
        return self.fix_loop(fr, st, body, ("loop", fr.f["def"], head, fr.line))

    def widen(self, st, a, b, name, wid, ty=None):
        if a is b or a in wid:
            return a
        if a.op == "agg" or b.op == "agg":
            x, y = a, b
            if x.op != "agg" and y.op == "agg" and self.is_struct(y):
                x = self.expand(x)
            if y.op != "agg" and x.op == "agg" and self.is_struct(x):
                y = self.expand(y)
            if x.op == "agg" and y.op == "agg" and x.args[:2] == y.args[:2] and len(x.args) == len(y.args):
                return mk("agg", x.args[:2] + tuple(self.widen(st, p, q, "%s.%d" % (name, i), wid) for i, (p, q) in enumerate(zip(x.args[2:], y.args[2:]))), None, x.ty or y.ty)
        if a.op == "arr" and b.op == "arr" and len(a.args) == len(b.args):
            return mk("arr", tuple(self.widen(st, p, q, "%s.%d" % (name, i), wid) for i, (p, q) in enumerate(zip(a.args, b.args))), None, a.ty)
        if a.op == "it" and b.op == "it":
            from . import models

            r = models.widen_iter(self, st, a, b, name, wid)
            if r is not None:
                return r
        t2 = a.ty if a.ty is not None else b.ty if b.ty is not None else ty
        w = a.w if a.w is not None else b.w
        v = fresh("w:" + name, w, t2)
        self._typed(v)
        wid[v] = (a, b)
        return v

    def is_struct(self, v):
        if v.args[0] == "tuple":
            return True
        if v.ty is None:
            return False
        t = self.P.types[v.ty]
        return t["k"] == "closure" or t["k"] == "adt" and t["ak"] == "struct"

    def locname(self, fr, loc):
        if loc[0] == "l":
            f = fr
            while f is not None:
                if f.n == loc[1]:
                    for nm, pl in f.f["names"]:
                        if pl and pl[0] == loc[2] and len(pl) == 1:
                            return nm
                    return "%s_%d" % (f.f["def"].split("::")[-1], loc[2])
                f = f.parent
        return str(loc[0]) if loc[0] != "deref" else "*" + show(loc[1])

    def fix_loop(self, fr, st, body, key):
        self.nloop += 1
        lid = self.nloop
        H = st
        wid = {}
        saved_spec = self.spec
        for rnd in range(12):
            marker = (H.ev, ("loop", lid))
            np = len(self.panics)
            h = H.copy()
            h.ev = marker
            self.spec = 0
            backs, exits = body(h.copy())
            self.spec = saved_spec
            # compare
            new = {}
            for b in backs:
                for loc, hv in H.store.items():
                    bv = b.store.get(loc)
                    cur = new.get(loc, hv)
                    if bv is None or bv is cur:
                        continue
                    ty = None
                    if loc[0] == "l":
                        f2 = fr
                        while f2 is not None and f2.n != loc[1]:
                            f2 = f2.parent
                        if f2:
                            ty = f2.f["locals"][loc[2]]
                    x = self.widen(h, cur, bv, self.locname(fr, loc), wid, ty)
                    if x is not cur:
                        new[loc] = x
                for loc, bv in b.store.items():
                    # locations first touched inside the loop
                    if loc not in H.store and loc[0] not in ("l", "heap", "val"):
                        iv = self.init(loc)
                        if iv is not None and bv is not iv:
                            new.setdefault(loc, None)
                            x = self.widen(h, iv, bv, self.locname(fr, loc), wid)
                            new[loc] = x
            if not new:
                self.loops[lid] = {"key": key, "H": h, "entry": st, "backs": backs, "exits": exits, "marker": marker, "wid": wid,
                                   "fn": fr.f, "line": fr.line}
                return exits
            del self.panics[np:]
            H = H.copy()
            H.store.update(new)
        raise Limit("no fixpoint for loop in %s" % (key,))

    # ---------------------------------------------------------- entry
    def start(self, f, names=None, st=None, args=None):
        """symbolic arguments for f"""
        st = st or State()
        vs = []
        nm = {}
        for n, pl in f["names"]:
            if pl and len(pl) == 1 and 1 <= pl[0] <= f["argc"]:
                nm[pl[0]] = n
        for i in range(f["argc"]):
            ty = f["locals"][i + 1]
            t = self.P.types[ty]
            n = nm.get(i + 1, "arg%d" % i)
            if args and i in args:
                vs.append(args[i])
            elif t["k"] == "ref":
                vs.append(var("&" + n, None, ty))
            else:
                vs.append(self.sym(n, ty))
        return st, vs

    def run(self, f, args=None, st=None):
        st, vs = self.start(f, st=st, args=args)
        rets = self.exec_fn(f, vs, st, None)
        return rets
