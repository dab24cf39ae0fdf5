"""Hash-consed value-numbering terms with linear (mod 2^w) and bit-provenance normal forms."""
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ("op", "args", "w", "ty", "id", "_bits", "h")

    def __repr__(self):
        return show(self)


def mk(op, args, w=None, ty=None):
    k = (op, args, w, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.w, t.ty = op, args, w, ty
        t.id = next(_ctr)
        t._bits = None
        t.h = hash(k)
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "…"
    o = t.op
    if o == "int":
        return str(t.args[0]) if t.w != 1 else ("false", "true")[t.args[0]]
    if o == "var":
        return str(t.args[0])
    if o == "lin":
        c, ps = t.args
        s = "+".join((show(a, d + 1) if k == 1 else "%d*%s" % (k if k < 1 << (t.w - 1) else k - (1 << t.w), show(a, d + 1))) for a, k in ps)
        if c:
            cc = c if c < 1 << (t.w - 1) else c - (1 << t.w)
            s += "%+d" % cc
        return "(" + s + ")"
    if o == "bits":
        out = []
        bs = t.args
        i = len(bs) - 1
        while i >= 0:
            b = bs[i]
            if b in (0, 1):
                j = i
                while j >= 0 and bs[j] in (0, 1):
                    j -= 1
                out.append("0b" + "".join(str(x) for x in reversed(bs[j + 1 : i + 1])))
                i = j
            else:
                a, k, n = b
                j = i - 1
                if j >= 0 and bs[j] == b:
                    while j >= 0 and bs[j] == b:
                        j -= 1
                    out.append("%s%s[%d]^%d" % ("~" if n else "", show(a, d + 1), k, i - j))
                else:
                    while j >= 0 and bs[j] not in (0, 1) and bs[j][0] is a and bs[j][2] == n and bs[j][1] == k - (i - j):
                        j -= 1
                    out.append("%s%s[%d:%d]" % ("~" if n else "", show(a, d + 1), k, k - (i - j) + 1))
                i = j
        return "{" + ",".join(out) + "}"
    if o == "agg":
        return "%s{%s}" % (t.args[0], ",".join(show(x, d + 1) for x in t.args[1:]))
    if o == "fld":
        return "%s.%s%s" % (show(t.args[0], d + 1), "" if t.args[1] is None else "v%s." % (t.args[1],), t.args[2])
    if o == "ref":
        return "&%s%s" % (t.args[0], "".join("." + str(p) for p in t.args[1]))
    return "%s(%s)" % (o, ",".join(show(x, d + 1) for x in t.args))


def I(v, w):
    return mk("int", (v & ((1 << w) - 1),), w)


TRUE = I(1, 1)
FALSE = I(0, 1)


def var(name, w=None, ty=None):
    return mk("var", (name,), w, ty)


_fresh = itertools.count()


def fresh(name, w=None, ty=None):
    return mk("var", ("%s#%d" % (name, next(_fresh)),), w, ty)


def isc(t):
    return t.op == "int"


def cv(t):
    return t.args[0]


def sv(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ---------------------------------------------------------------- bits
# known upper bounds of opaque atoms: function set by the interpreter (type knowledge)
atom_maxbits = {}


def bits(t):
    if t._bits is not None:
        return t._bits
    if t.op == "int":
        b = tuple((t.args[0] >> i) & 1 for i in range(t.w))
    elif t.op == "bits":
        b = t.args
    elif t.op == "bnot":
        b = (_nb(bits(t.args[0])[0]),)
    else:
        n = atom_maxbits.get(t, t.w)
        b = tuple((t, i, False) if i < n else 0 for i in range(t.w))
    t._bits = b
    return b


def mkbits(bs):
    bs = tuple(bs)
    w = len(bs)
    v = 0
    for i, b in enumerate(bs):
        if b == 1:
            v |= 1 << i
        elif b != 0:
            break
    else:
        return I(v, w)
    f = next(b for b in bs if b not in (0, 1))
    a = f[0]
    if a.w == w and bits(a) == bs:
        return a
    if w == 1 and f[2]:
        return bnot(mkbits(((a, f[1], False),)))
    if w == 1 and a.op == "lin" and f[1] == a.w - 1:
        c, ps = lin(a)
        if c == 0 and len(ps) == 1 and ps[0][1] == (1 << a.w) - 1 and bits(ps[0][0])[-1] == 0:
            return bnot(eq(ps[0][0], I(0, a.w)))        # sign of -x with x not negative
    return mk("bits", bs, w)


def known_zero_high(t):
    b = bits(t)
    n = len(b)
    while n > 0 and b[n - 1] == 0:
        n -= 1
    return n


def zext(t, w):
    if t.w == w:
        return t
    if t.w > w:
        return trunc(t, w)
    return mkbits(bits(t) + (0,) * (w - t.w))


def sext(t, w):
    if t.w == w:
        return t
    if t.w > w:
        return trunc(t, w)
    b = bits(t)
    return mkbits(b + (b[-1],) * (w - t.w))


def trunc(t, w):
    if t.w == w:
        return t
    if t.op == "lin":
        c, ps = t.args
        r = I(c, w)
        for a, k in ps:
            r = add(r, mulc(trunc(a, w), k))
        return r
    if t.op == "mul":
        return mul(trunc(t.args[0], w), trunc(t.args[1], w))
    return mkbits(bits(t)[:w])


# ---------------------------------------------------------------- linear
def lin(t):
    if t.op == "int":
        return t.args[0], ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def mklin(c, d, w):
    m = (1 << w) - 1
    ps = tuple(sorted(((a, k & m) for a, k in d.items() if k & m), key=lambda x: x[0].id))
    c &= m
    if not ps:
        return I(c, w)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    if len(ps) == 1 and ps[0][1] == 1 and ps[0][0].op == "bits" and c:
        # only the constant upper part of a bit vector is affected
        bs = ps[0][0].args
        tz = (c & -c).bit_length() - 1
        if all(b in (0, 1) for b in bs[tz:]):
            v = (sum(b << i for i, b in enumerate(bs[tz:])) + (c >> tz)) & ((1 << (w - tz)) - 1)
            return mkbits(tuple(bs[:tz]) + tuple((v >> i) & 1 for i in range(w - tz)))
    return mk("lin", (c, ps), w)


def add(a, b, sign=1):
    w = a.w
    if b.op == "int" and b.args[0] == 0:
        return a
    ca, pa = lin(a)
    cb, pb = lin(b)
    d = dict(pa)
    for x, k in pb:
        d[x] = d.get(x, 0) + sign * k
    return mklin(ca + sign * cb, d, w)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, p = lin(a)
    return mklin(c * k, {x: y * k for x, y in p}, a.w)


def mul(a, b):
    if isc(a):
        return mulc(b, cv(a))
    if isc(b):
        return mulc(a, cv(b))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), a.w)


def neg(a):
    return mulc(a, -1)


# ---------------------------------------------------------------- bitwise
def _nb(b):
    if b in (0, 1):
        return 1 - b
    return (b[0], b[1], not b[2])


def not_(a):
    if a.w == 1:
        return bnot(a)
    return mkbits(_nb(b) for b in bits(a))


def _bw(op, a, b):
    if a.w == 1:
        return {"and": band, "or": bor, "xor": bxor}[op](a, b)
    x, y = bits(a), bits(b)
    out = []
    for p, q in zip(x, y):
        if op == "and":
            if p == 0 or q == 0:
                r = 0
            elif p == 1:
                r = q
            elif q == 1:
                r = p
            elif p == q:
                r = p
            elif p == _nb(q):
                r = 0
            else:
                r = None
        elif op == "or":
            if p == 1 or q == 1:
                r = 1
            elif p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = p
            elif p == _nb(q):
                r = 1
            else:
                r = None
        else:
            if p in (0, 1) and q in (0, 1):
                r = p ^ q
            elif p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == 1:
                r = _nb(q)
            elif q == 1:
                r = _nb(p)
            elif p == q:
                r = 0
            elif p == _nb(q):
                r = 1
            else:
                r = None
        if r is None:
            if a.id > b.id:
                a, b = b, a
            return mk(op, (a, b), a.w)
        out.append(r)
    return mkbits(out)


def and_(a, b):
    return _bw("and", a, b)


def or_(a, b):
    return _bw("or", a, b)


def xor_(a, b):
    return _bw("xor", a, b)


def shl(a, n):
    if isc(n):
        k = cv(n)
        if k >= a.w:
            return I(0, a.w)
        if a.op == "lin":
            return mulc(a, 1 << k)
        b = bits(a)
        return mkbits((0,) * k + b[: a.w - k])
    return mk("shl", (a, n), a.w)


def lshr(a, n):
    if isc(n):
        k = cv(n)
        if k >= a.w:
            return I(0, a.w)
        b = bits(a)
        return mkbits(b[k:] + (0,) * k)
    return mk("lshr", (a, n), a.w)


def ashr(a, n):
    if isc(n):
        k = min(cv(n), a.w - 1)
        b = bits(a)
        return mkbits(b[k:] + (b[-1],) * k)
    return mk("ashr", (a, n), a.w)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.op == "int":
        return I(1 - a.args[0], 1)
    if a.op == "bnot":
        return a.args[0]
    return mk("bnot", (a,), 1)


def band(a, b):
    if isc(a):
        return b if cv(a) else FALSE
    if isc(b):
        return a if cv(b) else FALSE
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("band", (a, b), 1)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if isc(a):
        return bnot(b) if cv(a) else b
    if isc(b):
        return bnot(a) if cv(b) else a
    if a is b:
        return FALSE
    return mk("bxor", (a, b), 1)


def _zext_core(t):
    """If t is a zero extension of an atom x (or a prefix of bits), return the narrow term."""
    if t.op != "bits":
        return None
    n = known_zero_high(t)
    if n == t.w or n == 0:
        return None
    return mkbits(t.args[:n])


def signfit(x, y):
    """x == its own low N bits sign-extended, written as a range condition; None if y has another shape"""
    if y.op != "bits":
        return None
    w, bs = y.w, y.args
    top = bs[-1]
    if top in (0, 1) or top[2] or top[1] != w - 1 or bs[0] in (0, 1):
        return None
    base, j = top[0], bs[0][1]
    if not 0 < j < w or any(b in (0, 1) or b[0] is not base or b[2] or b[1] != min(i + j, w - 1) for i, b in enumerate(bs)):
        return None
    if mulc(x, 1 << j) is not base:
        return None
    n = w - j
    return lt(add(x, I(1 << (n - 1), w)), I(1 << n, w))


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return I(int(cv(a) == cv(b)), 1)
    if isc(a):
        a, b = b, a
    if a.w == 1:
        if isc(b):
            return a if cv(b) else bnot(a)
        return bnot(bxor(a, b))
    if a.w is not None and b.w is not None and a.w == b.w:
        if isc(b):
            if a.op == "ite" and _const_ite(a, 0):
                return _ite_eq(a, b)
            if a.op == "and" and cv(b) == 0:
                r = _and_zero(a)
                if r is not None:
                    return r
        if a.op == "lin" or b.op == "lin":
            r = signfit(a, b) or signfit(b, a)
            if r is not None:
                return r
            d = sub(a, b)
            if isc(d):
                return I(int(cv(d) == 0), 1)
            c, ps = lin(d)
            if len(ps) == 1 and ps[0][1] in (1, (1 << a.w) - 1):
                k = ps[0][1]
                r = (-c if k == 1 else c) & ((1 << a.w) - 1)
                return eq(ps[0][0], I(r, a.w))
            # canonical: first coeff positive orientation
            return mk("eq", (mklin(0, dict(ps), a.w), I(-c, a.w)), 1) if ps[0][1] == 1 else mk(
                "eq", (mulc(mklin(0, dict(ps), a.w), -1), I(c, a.w)), 1)
        ba, bb = bits(a), bits(b)
        for p, q in zip(ba, bb):
            if (p in (0, 1) and q in (0, 1) and p != q) or (p not in (0, 1) and q == _nb(p)):
                return FALSE
        if isc(b) and a.op == "bits":
            # drop known-equal bits
            keep = [(p, q) for p, q in zip(ba, bb) if p not in (0, 1)]
            seen = {}
            nk = []
            for p, q in keep:
                key = (p[0], p[1])
                val = q ^ int(p[2])
                if key in seen:
                    if seen[key] != val:
                        return FALSE
                    continue
                seen[key] = val
                nk.append(((p[0], p[1], False), val))
            n2 = sorted(nk, key=lambda x: (x[0][0].id, x[0][1]))
            if len(n2) == 1:
                bt = mkbits((n2[0][0],))
                return bt if n2[0][1] else bnot(bt)
            t2 = mkbits(p for p, _ in n2)
            v2 = sum(v << i for i, (_, v) in enumerate(n2))
            if t2.w != a.w or t2 is not a:
                return mk("eq", (t2, I(v2, t2.w)), 1)
            return mk("eq", (a, b), 1)
        if not isc(b) and (a.op == "bits" or b.op == "bits"):
            # drop identical bits
            keep = [(p, q) for p, q in zip(ba, bb) if p != q]
            if len(keep) < a.w:
                return eq(mkbits(p for p, _ in keep), mkbits(q for _, q in keep))
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = band(r, eq(x, y))
        return r
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), 1)


def _const_ite(t, d):
    if isc(t):
        return True
    if d > 4 or t.op != "ite":
        return False
    return _const_ite(t.args[1], d + 1) and _const_ite(t.args[2], d + 1)


def _ite_eq(t, b):
    if isc(t):
        return I(int(cv(t) == cv(b)), 1)
    c = t.args[0]
    return bor(band(c, _ite_eq(t.args[1], b)), band(bnot(c), _ite_eq(t.args[2], b)))


def _and_zero(t):
    """(x & y) == 0 as a conjunction over the bits that can be one"""
    x, y = bits(t.args[0]), bits(t.args[1])
    ps = []
    for p, q in zip(x, y):
        if p == 0 or q == 0:
            continue
        ps.append((p, q))
    if len(ps) > 8:
        return None

    def one(b):
        return I(b, 1) if b in (0, 1) else mkbits((b,))

    r = TRUE
    for p, q in ps:
        r = band(r, bnot(band(one(p), one(q))))
    return r


def ne(a, b):
    return bnot(eq(a, b))


def lt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return I(int(cv(a) < cv(b)), 1)
    if isc(b):
        if cv(b) == 0:
            return FALSE
        if cv(b) == 1:
            return eq(a, I(0, a.w))
        za = _zext_core(a)
        if za is not None:
            if cv(b) >= 1 << za.w:
                return TRUE
            return lt(za, I(cv(b), za.w))
    if isc(a):
        if cv(a) == (1 << a.w) - 1:
            return FALSE
        if cv(a) == 0:
            return ne(b, a)
        zb = _zext_core(b)
        if zb is not None:
            if cv(a) >= (1 << zb.w) - 1:
                return FALSE
            return lt(I(cv(a), zb.w), zb)
        # c < b  <=>  !(b < c+1)
        return bnot(lt(b, I(cv(a) + 1, a.w)))
    na, nb = known_zero_high(a), known_zero_high(b)
    n = max(na, nb)
    if n < a.w and n > 0 and a.op in ("bits",) and b.op in ("bits",):
        return lt(mkbits(bits(a)[:n]), mkbits(bits(b)[:n]))
    return mk("lt", (a, b), 1)


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return I(int(sv(a) < sv(b)), 1)
    ba, bb = bits(a), bits(b)
    if ba[-1] == 0 and bb[-1] == 0:
        return lt(a, b)
    if isc(b) and cv(b) == 0:
        return mkbits([ba[-1]])
    if isc(a):
        if sv(a) == -1:
            return bnot(slt(b, I(0, b.w)))
        if sv(a) == (1 << (a.w - 1)) - 1:
            return FALSE
        return bnot(slt(b, I(sv(a) + 1, a.w)))
    # strip common sign extension
    na = sign_core(a)
    nb = sign_core(b)
    n = max(na, nb)
    if n < a.w and not (a.op not in ("bits", "int") or b.op not in ("bits", "int")):
        return slt(mkbits(ba[:n]), mkbits(bb[:n]))
    return mk("slt", (a, b), 1)


def sign_core(t):
    b = bits(t)
    n = len(b)
    while n > 1 and b[n - 2] == b[n - 1]:
        n -= 1
    return n


def le(a, b):
    return bnot(lt(b, a))


def sle(a, b):
    return bnot(slt(b, a))


def bit_eq1(x):
    return x


def ite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if a.w == 1 and isc(a) and isc(b):
        return c if cv(a) else bnot(c)
    if c.op == "bnot":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), a.w, a.ty)


def app(name, args, w=None, ty=None):
    return mk("app", (name,) + tuple(args), w, ty)


def atoms(t, acc=None, seen=None):
    """opaque leaves of a scalar term"""
    if acc is None:
        acc, seen = set(), set()
    if not isinstance(t, T) or t in seen:
        return acc
    seen.add(t)
    if t.op in ("var", "fld", "discr", "app", "select", "deref", "len", "elem"):
        acc.add(t)
        return acc
    if t.op == "bits":
        for b in t.args:
            if b not in (0, 1):
                atoms(b[0], acc, seen)
        return acc
    if t.op == "lin":
        for a, _ in t.args[1]:
            atoms(a, acc, seen)
        return acc
    for a in t.args:
        if isinstance(a, T):
            atoms(a, acc, seen)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    atoms(x, acc, seen)
    return acc


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T) or t in seen:
        return seen
    seen.add(t)

    def go(a):
        if isinstance(a, T):
            subterms(a, seen)
        elif isinstance(a, tuple):
            for x in a:
                go(x)

    for a in t.args:
        go(a)
    return seen


def subst(t, m, memo=None):
    """rebuild t with atoms replaced (m: T -> T), re-normalising"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o in ("int", "var"):
        r = t
    elif o == "lin":
        r = I(a[0], t.w)
        for x, k in a[1]:
            r = add(r, mulc(subst(x, m, memo), k))
    elif o == "bits":
        out = []
        ch = False
        for b in a:
            if b in (0, 1):
                out.append(b)
            else:
                n = subst(b[0], m, memo)
                if n is b[0]:
                    out.append(b)
                else:
                    ch = True
                    nb = bits(n)[b[1]]
                    out.append(_nb(nb) if b[2] else nb)
        r = mkbits(out) if ch else t
    else:
        na = tuple(subst(x, m, memo) for x in a)
        if na == a:
            r = t
        else:
            r = rebuild(o, na, t)
    memo[t] = r
    return r


def rebuild(o, a, t):
    f = {"mul": mul, "and": and_, "or": or_, "xor": xor_, "shl": shl, "lshr": lshr, "ashr": ashr, "bnot": bnot,
         "band": band, "bxor": bxor, "eq": eq, "lt": lt, "slt": slt, "ite": ite}.get(o)
    if f:
        return f(*a)
    if o == "udiv" and isc(a[0]) and isc(a[1]) and cv(a[1]):
        return I(cv(a[0]) // cv(a[1]), t.w)
    if o == "urem" and isc(a[0]) and isc(a[1]) and cv(a[1]):
        return I(cv(a[0]) % cv(a[1]), t.w)
    if o == "tab" and isc(a[0]):
        for k, v in a[1]:
            if k == cv(a[0]):
                return v
    if o == "discr" and a[0].op == "agg":
        return I(a[0].args[0][2] if False else discr_of(a[0]), t.w)
    return mk(o, a, t.w, t.ty)


discr_of = None  # set by interp


# ---------------------------------------------------------------- interpretation of terms under a valuation
def ovf(op, sg, a, b):
    """overflow condition of a checked operation"""
    if not sg and op == "Sub":
        return lt(a, b)
    if not sg and op == "Add":
        if isc(b):
            return lt(I((1 << a.w) - 1 - cv(b), a.w), a)
        if isc(a):
            return lt(I((1 << b.w) - 1 - cv(a), b.w), b)
    return mk("ovf", (op, sg, a, b), 1)


def evalt(t, env, memo):
    """interpret a scalar term; opaque atoms take their value from env (callable)"""
    r = memo.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    w = t.w
    m = (1 << w) - 1 if w else None

    def s(x, ww):
        return x - (1 << ww) if x >> (ww - 1) else x

    if o == "int":
        r = a[0]
    elif o == "lin":
        r = a[0]
        for x, k in a[1]:
            r += k * evalt(x, env, memo)
        r &= m
    elif o == "bits":
        r = 0
        for i, b in enumerate(a):
            if b == 1:
                r |= 1 << i
            elif b != 0:
                v = (evalt(b[0], env, memo) >> b[1]) & 1
                r |= (v ^ int(b[2])) << i
    elif o == "ovf":
        op, sg, x, y = a
        ww = x.w
        u, v = evalt(x, env, memo), evalt(y, env, memo)
        if sg:
            u, v = s(u, ww), s(v, ww)
        q = u + v if op == "Add" else u - v if op == "Sub" else u * v
        r = int(not (-(1 << (ww - 1)) <= q < 1 << (ww - 1)) if sg else not 0 <= q < 1 << ww)
    elif o == "mul":
        r = (evalt(a[0], env, memo) * evalt(a[1], env, memo)) & m
    elif o == "and":
        r = evalt(a[0], env, memo) & evalt(a[1], env, memo)
    elif o == "or":
        r = evalt(a[0], env, memo) | evalt(a[1], env, memo)
    elif o == "xor":
        r = evalt(a[0], env, memo) ^ evalt(a[1], env, memo)
    elif o == "shl":
        r = (evalt(a[0], env, memo) << min(evalt(a[1], env, memo), 200)) & m
    elif o == "lshr":
        r = evalt(a[0], env, memo) >> min(evalt(a[1], env, memo), 200)
    elif o == "ashr":
        r = (s(evalt(a[0], env, memo), w) >> min(evalt(a[1], env, memo), 200)) & m
    elif o == "bnot":
        r = 1 - evalt(a[0], env, memo)
    elif o == "band":
        r = evalt(a[0], env, memo) & evalt(a[1], env, memo)
    elif o == "bxor":
        r = evalt(a[0], env, memo) ^ evalt(a[1], env, memo)
    elif o == "eq" and a[0].w is not None and a[1].w is not None:
        r = int(evalt(a[0], env, memo) == evalt(a[1], env, memo))
    elif o == "lt":
        r = int(evalt(a[0], env, memo) < evalt(a[1], env, memo))
    elif o == "slt":
        r = int(s(evalt(a[0], env, memo), a[0].w) < s(evalt(a[1], env, memo), a[1].w))
    elif o == "ite":
        r = evalt(a[1] if evalt(a[0], env, memo) else a[2], env, memo)
    elif o == "udiv":
        d = evalt(a[1], env, memo)
        r = evalt(a[0], env, memo) // d if d else 0
    elif o == "urem":
        d = evalt(a[1], env, memo)
        r = evalt(a[0], env, memo) % d if d else 0
    elif o == "tab":
        k = evalt(a[0], env, memo)
        r = None
        for kk, v in a[1]:
            if kk == k:
                r = evalt(v, env, memo)
        if r is None:
            r = env(t)
    elif o == "popcnt":
        r = bin(evalt(a[0], env, memo)).count("1")
    else:
        r = env(t)
    memo[t] = r
    return r
