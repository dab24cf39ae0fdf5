"""Difference constraints (zones) over the comparison facts of a path: x + a <= y + b between terms that do not wrap."""
from .terms import *
from .terms import _zext_core


def split(t):
    """(variable part | None, constant)"""
    if isc(t):
        return None, cv(t)
    if t.op == "lin":
        c, ps = lin(t)
        m = 1 << t.w
        base = mklin(0, dict(ps), t.w)
        return base, c if c < m // 2 else c - m
    return t, 0


def atomwise(st, t):
    """t with its known atoms substituted (but not replaced by what the path recorded for t itself)"""
    if t.op != "lin":
        return st.resolve(t)
    c, ps = lin(t)
    r = I(c, t.w)
    for a, k in ps:
        r = add(r, mulc(st.resolve(a), k))
    return r


def zone_unsat(st, limit=60, depth=0):
    """True if the path's comparison facts are contradictory as integer difference constraints"""
    if _contradictory(st, limit):
        return True
    if depth < 3:
        # not (a and b): one of them is false
        for k, v in st.facts.items():
            if k.op == "band" and v is False and all(st.decide(x) is not False for x in k.args):
                for x in k.args:
                    s = st.copy()
                    if s.assume(x, False) and not zone_unsat(s, limit, depth + 1):
                        return False
                return True
    return False


def _contradictory(st, limit):
    if any(k.op == "bits" for k in st.facts):
        # a value unlike a constant whose bits are all known to be the constant's
        for k, v in st.facts.items():
            if v is False and k.op == "eq" and isc(k.args[1]) and k.args[0].w is not None and k.args[0].w <= 16:
                n = cv(k.args[1])
                for i, b in enumerate(bits(k.args[0])):
                    d = b if b in (0, 1) else st.decide(mkbits((b,)))
                    if d is None or bool(d) != bool(n >> i & 1):
                        break
                else:
                    return True
    facts = [(k, v) for k, v in st.facts.items() if k.op in ("lt", "eq") and k.args[0].w is not None and k.args[0].w == k.args[1].w]
    if not facts or len(facts) > 400:
        return False
    bound = {}
    for rnd in range(4):
        r = one_round(st, facts, bound, limit)
        if r is True:
            return True
        if r is None:
            return False
    return False


def zone_decide(st, c):
    """st.decide, and where that does not know, by contradiction in the zone domain"""
    d = st.decide(c)
    if d is not None:
        return d
    for v in (True, False):
        s = st.copy()
        if not s.assume(c, v) or zone_unsat(s):
            return not v
    return None


def one_round(st, facts, bound, limit):
    """True: contradictory; None: nothing more to gain; False: the bounds got tighter"""
    E = {}
    seen = set()
    wrapped = [False]
    neq = []

    def edge(x, y, c):
        # value(y) - value(x) <= c
        k = (x, y)
        if k not in E or E[k] > c:
            E[k] = c

    def rng(t):
        lo, hi = st.rng(t)
        b = bound.get(t)
        return (max(lo, b[0]), min(hi, b[1])) if b else (lo, hi)

    def own(b):
        if b not in seen:
            seen.add(b)
            lo, hi = rng(b)
            edge(0, b, hi)
            edge(b, 0, -lo)

    def node(t):
        """(node, constant) with value(t) = value(node) + constant"""
        b, c = split(t)
        if b is None:
            return 0, c
        if b.op == "lin":
            pv = pivot.get((b.w, lin(b)[1]))
            if pv:
                b, c = add(b, I(pv % (1 << b.w), b.w)), c - pv
        lo, hi = rng(b)
        if c and not (0 <= lo + c and hi + c < (1 << t.w)):
            # the sum itself is a variable of its own
            wrapped[0] = True
            own(b)
            own(t)
            return t, 0
        if b.op == "bits":
            # a zero-extended narrower value is that value
            k = _zext_core(b)
            if k is not None and k is not b:
                n, c2 = node(k)
                return n, c + c2
        own(b)
        return b, c

    def exact(t):
        """like node, but a sum that may wrap only stands for itself"""
        return node(t)

    # multi-atom sums: relative to the smallest offset in use
    pivot = {}
    for k, v in facts:
        for t in k.args:
            t = atomwise(st, t)
            if t.op == "lin":
                c, ps = lin(t)
                if len(ps) > 1:
                    m = 1 << t.w
                    c = c if c < m // 2 else c - m
                    key = (t.w, ps)
                    pivot[key] = min(pivot.get(key, c), c)

    for k, v in facts:
        a, b = atomwise(st, k.args[0]), atomwise(st, k.args[1])
        if k.op == "lt":
            # big >= small as machine words: big = small + (big - small) without wrapping
            big, small = (b, a) if v else (a, b)
            D = sub(big, small)
            c, ps = lin(D)
            if isc(D) or not c and len(ps) == 1 and ps[0][1] == 1:
                lo, hi = (cv(D), cv(D)) if isc(D) else rng(D)
                p, q = exact(big), exact(small)
                edge(q[0], p[0], hi + q[1] - p[1])
                edge(p[0], q[0], -lo - q[1] + p[1])
        if k.op == "eq":
            if a.op == "lin" and isc(b):
                # move the atoms with a negative sign to the other side
                c, ps = lin(a)
                m = 1 << a.w
                neg = [p for p in ps if p[1] > m // 2]
                K0 = b
                if neg:
                    n = mklin(0, {p[0]: m - p[1] for p in neg}, a.w)
                    a, b = add(a, n), n
                    c = cv(K0) if cv(K0) < m // 2 else cv(K0) - m
                    lo, hi = rng(a)
                    l2, h2 = rng(b)
                    if (0 <= lo - c and hi - c < m) or not (0 <= l2 + c and h2 + c < m):
                        a = sub(a, K0)
                    else:
                        b = add(b, K0)
            p, q = node(a), node(b)
            if not v:
                neq.append((p[0], q[0], p[1] - q[1]))       # p + p1 != q + q1
                continue
            edge(p[0], q[0], p[1] - q[1])
            edge(q[0], p[0], q[1] - p[1])
        else:
            p, q = node(a), node(b)
            if v:       # a + pc < b + qc
                edge(q[0], p[0], q[1] - p[1] - 1)
            else:       # b + qc <= a + pc
                edge(p[0], q[0], p[1] - q[1])
    nodes = {x for k in E for x in k}
    if len(nodes) > limit:
        return None
    dist = {x: 0 for x in nodes}
    for it in range(len(nodes) + 1):
        ch = False
        for (x, y), c in E.items():
            if dist[x] + c < dist[y]:
                dist[y] = dist[x] + c
                ch = True
        if not ch:
            break
    else:
        return True
    if neq and len(nodes) <= 24:
        # not equal and ordered: strictly ordered
        ns = list(nodes)
        inf = 1 << 70
        D = {x: {y: E.get((x, y), 0 if x is y else inf) for y in ns} for x in ns}

        def close(zs):
            for z in zs:
                dz = D[z]
                for x in ns:
                    c = D[x][z]
                    if c < inf:
                        dx = D[x]
                        for y in ns:
                            if c + dz[y] < dx[y]:
                                dx[y] = c + dz[y]
        close(ns)
        for _ in range(12):
            ch = False
            for x, y, c in neq:
                if x not in D or y not in D:
                    continue
                # value(y) - value(x) != c
                if D[x][y] == c:
                    D[x][y] = c - 1
                    E[(x, y)] = c - 1
                    ch = True
                elif D[y][x] == -c:
                    D[y][x] = -c - 1
                    E[(y, x)] = -c - 1
                    ch = True
                else:
                    continue
                close((x, y))
            if any(D[x][x] < 0 for x in ns):
                return True
            if not ch:
                break
    if not wrapped[0]:
        return None
    # tighten the bounds of every node from the constraints
    better = False
    up, dn = {0: 0}, {0: 0}
    for _ in range(len(nodes)):
        ch = False
        for (x, y), c in E.items():
            if x in up and (y not in up or up[x] + c < up[y]):
                up[y] = up[x] + c
                ch = True
            if y in dn and (x not in dn or dn[y] + c < dn[x]):
                dn[x] = dn[y] + c
                ch = True
        if not ch:
            break
    for x in nodes:
        if x == 0:
            continue
        lo, hi = rng(x)
        l2, h2 = max(lo, -dn.get(x, -lo)), min(hi, up.get(x, hi))
        if l2 > lo or h2 < hi:
            bound[x] = (l2, h2)
            better = True
    return False if better else None
