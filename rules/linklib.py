"""Abstract runs of assemble + link over sets of files, with a reference linker."""
from rules.asmlib import *
from rules.asmcorpus import *
from itertools import permutations
from engine import models as _m


class Out:
    """one outcome of a link tree: state, references of the leaves, Ok object | None, error value"""

    def __init__(self, s, Rs, obj, err):
        self.s, self.Rs, self.obj, self.err = s, Rs, obj, err


class Link:
    unroll_max = 90      # longest loop followed turn by turn while assembling

    def __init__(self, A, progs, debug, tag, start=None):
        """assembles the programs one after the other in one abstract state"""
        self.A, self.P, self.progs, self.tag = A, A.P, progs, tag
        self.debug = debug if isinstance(debug, (list, tuple)) else [debug] * len(progs)
        P = A.P
        self.f = P.fn("ObjectFile::link")
        self.where = P.loc(self.f, self.f["line"])
        self.X = X = Interp(P, {})
        X.maxpaths = 3000
        X.unroll_max = self.unroll_max
        self.srcs = [A.layout(p) for p in progs]
        self.text = "  ++  ".join(" / ".join(l.strip() for l in s.split("\n") if l.strip() and not l.startswith(";")) for s in self.srcs)
        st, vs = X.start(start or self.f)
        self.vs = vs
        for p in progs:
            for x in p:
                if x.kind == "blkw" and not isc(x.arg):
                    st.assume(eq(x.arg, I(0, 16)), False)
        sts = [(st, [], [])]
        for prog, dbg, src in zip(progs, self.debug, self.srcs):
            f = P.fn("asm::assemble_debug" if dbg else "asm::assemble")
            nxt = []
            for s, objs, Rs in sts:
                args = [A.ast(prog)] + ([lit(src)] if dbg else [])
                for s2, r in call(X, s, f, *args)[0]:
                    vi = X.variant(s2, r)
                    if vi is None or P.vname(r.ty, vi) != "Ok":
                        continue
                    for s3, R in explore(s2, lambda ask: reference(A, prog, ask)):
                        if not zone_unsat(s3) and not R.errs and not R.open and not R.amb:
                            nxt.append((s3, objs + [r.args[2]], Rs + [R]))
            sts = nxt
        self.sts = sts
        self.panics = []

    cond, sure, same = Case.cond, Case.sure, Case.same
    objfld = Case.objfld

    def link(self, s, tree, objs):
        """[(state, Ok object | None, error)] of linking along the tree"""
        X, P = self.X, self.P
        if isinstance(tree, int):
            return [(s, objs[tree], None)]
        out = []
        for s1, a, e in self.link(s, tree[0], objs):
            if a is None:
                out.append((s1, None, e))
                continue
            for s2, b, e2 in self.link(s1, tree[1], objs):
                if b is None:
                    out.append((s2, None, e2))
                    continue
                rs, ps = call(X, s2, self.f, a, b)
                self.panics += ps
                for s3, r in rs:
                    vi = X.variant(s3, r)
                    if vi is None:
                        out.append((s3, None, None))
                    elif P.vname(r.ty, vi) == "Ok":
                        out.append((s3, r.args[2], None))
                    else:
                        out.append((s3, None, r.args[2]))
        return out

    def outcomes(self, tree):
        for s, objs, Rs in self.sts:
            for s2, o, e in self.link(s, tree, objs):
                for s3, M in explore(s2, lambda ask: merged(Rs, ask)):
                    if not zone_unsat(s3):
                        yield s3, o, e, Rs, M


def leaves(t):
    return [t] if isinstance(t, int) else leaves(t[0]) + leaves(t[1])


def tname(t):
    return chr(65 + t) if isinstance(t, int) else "(%s+%s)" % (tname(t[0]), tname(t[1]))


def trees(n):
    """every order and grouping of n files"""
    def shapes(xs):
        if len(xs) == 1:
            return [xs[0]]
        return [(l, r) for k in range(1, len(xs)) for l in shapes(xs[:k]) for r in shapes(xs[k:])]
    return [t for p in permutations(range(n)) for t in shapes(list(p))]


class Merged:
    pass


def merged(Rs, ask):
    """what the properties demand of linking these files"""
    M = Merged()
    M.overlap, M.conflict = False, []
    bl = [(i, b) for i, R in enumerate(Rs) for b in R.blocks if b[3]]
    for x in range(len(bl)):
        for y in range(x):
            if bl[x][0] != bl[y][0] and ask(lt(bl[x][1][0], bl[y][1][1])) and ask(lt(bl[y][1][0], bl[x][1][1])):
                M.overlap = True
    M.labels = {}
    for i, R in enumerate(Rs):
        for u, e in R.labels.items():
            m = M.labels.get(u)
            if m is None or m[1]:
                if m is None or not e[1]:
                    M.labels[u] = [e[0], e[1], i, e]
            elif not e[1] and not ask(eq(m[0], e[0])):
                M.conflict.append(u)
    M.blocks = [b for _, b in bl]
    return M


def judge_link(K, L, tree, R1, R2, R3, R4):
    """C20: success, image, labels, pending relocations"""
    X, P = L.X, L.P
    nt = "%s %s" % (L.tag, tname(tree))
    for s, o, e, Rs, M in L.outcomes(tree):
        bad = M.overlap or bool(M.conflict)
        why = ("overlapping blocks" if M.overlap else "") + (" conflicting labels %s" % M.conflict if M.conflict else "")
        if o is None and e is None:
            K.undecided(R1, nt + ": link result not resolved")
            continue
        if o is None:
            K.judge(R1, "rejected", True if bad else False if L.sure(s) else None,
                    lambda: "%s: linking %s of [%s] fails although the blocks are disjoint and no label conflicts (%s)" % (L.where, tname(tree), L.text, L.cond(s)), nt)
            continue
        K.judge(R1, "accepted", True if not bad else False if L.sure(s) else None,
                lambda: "%s: linking %s of [%s] succeeds with %s (%s)" % (L.where, tname(tree), L.text, why, L.cond(s)), nt)
        if bad:
            continue
        image(K, L, tree, nt, s, o, Rs, M, R2)
        k, sym = sym_of(L, s, o)
        if k != "Some":
            K.judge(R3, "no-table", None if k is None else False if L.sure(s) and M.labels else None, lambda: "%s: linking %s of [%s] gives a file without symbol table" % (L.where, tname(tree), L.text), nt)
            continue
        for s2, d in [(s, labelmap(L, s, sym))]:
            if d is None:
                K.undecided(R3, nt + ": label names not resolved")
                continue
            for u, m in M.labels.items():
                if len(d.get(u, [])) != 1:
                    K.judge(R3, "missing", False if L.sure(s2) else None, lambda: "%s: linking %s of [%s], the label %s is listed %d times" % (L.where, tname(tree), L.text, u, len(d.get(u, []))), nt)
                    continue
                _, a, x = d[u][0]
                K.judge(R3, "address", L.same(s2, a, m[0]), lambda: "%s: linking %s of [%s], the label %s maps to %s instead of %s (%s)" % (L.where, tname(tree), L.text, u, show(a)[:60], show(m[0])[:60], L.cond(s2)), nt)
                K.judge(R3, "external", L.same(s2, x, TRUE if m[1] else FALSE), lambda: "%s: linking %s of [%s], the label %s has external = %s" % (L.where, tname(tree), L.text, u, show(x)[:40]), nt)
            for u in d:
                if u not in M.labels:
                    K.judge(R3, "foreign", False if L.sure(s2) else None, lambda: "%s: linking %s of [%s] lists the label %s no file defines or declares" % (L.where, tname(tree), L.text, u), nt)
        rels(K, L, tree, nt, s, o, Rs, M, R4)
    report_panics(K, L, tree, R1, nt)


def report_panics(K, L, tree, rule, nt):
    for p in L.panics:
        if not zone_unsat(p.st):
            K.judge(rule, "panic", False if L.sure(p.st) else None, lambda: "%s: linking %s of [%s] can panic (%s)" % (L.P.loc(p.fn, p.line), tname(tree), L.text, p.kind), nt)
    L.panics = []


def image(K, L, tree, nt, s, o, Rs, M, rule):
    X, P = L.X, L.P
    m, _ = L.objfld(o, "block_map")
    ks = _m.map_keys(X, s, m) if m is not None else None
    if ks is None:
        K.undecided(rule, nt + ": block map not resolved")
        return
    if len(ks) != len(M.blocks):
        K.judge(rule, "blocks", False if L.sure(s) else None, lambda: "%s: linking %s of [%s] gives %d blocks instead of %d (%s)" % (L.where, tname(tree), L.text, len(ks), len(M.blocks), L.cond(s)), nt)
        return
    C = Named(L, tree, nt)
    for R in Rs:
        R2 = Ref()
        R2.words = dict(R.words)
        for lc, u, k in R.fills:
            R2.words[k] = M.labels[u][0]
        for b in R.blocks:
            if not b[3]:
                continue
            w, dec = map_find(X, s, m, b[0])
            if not dec:
                K.undecided(rule, nt + ": block not resolved")
            elif w is None:
                K.judge(rule, "block-start", False if L.sure(s) else None, lambda: "%s: linking %s of [%s], no block at %s" % (L.where, tname(tree), L.text, show(b[0])), nt)
            else:
                judge_words(K, rule, C, s, R2, b, w)


class Named:
    """context for the shared word judge: wording of a link instance"""

    def __init__(self, L, tree, nt):
        self.X, self.P, self.where, self.tag = L.X, L.P, L.where, nt
        self.text = "%s: %s" % (tname(tree), L.text)

    cond, sure, same = Case.cond, Case.sure, Case.same


def mapfld(C, s, sym, want):
    """(term, key type, value type) of the map field of a symbol table whose key and value types satisfy want"""
    X, P = C.X, C.P
    v = _m.deref_all(X, s, sym)
    v = X.expand(v)
    ty = v.ty if v.ty is not None else P.adt("SymbolTable")
    for i, f in enumerate(P.types[ty]["v"][0]["f"]):
        a = P.types[f[1]].get("a") or []
        if "Map<" in P.types[f[1]]["n"] and len(a) >= 2 and want(a[0], a[1]):
            return X.fld(v, 0, i, f[1]), a[0], a[1]
    return None, None, None


def relmap(C, s, sym):
    """relocation map: addresses to names"""
    P = C.P
    return mapfld(C, s, sym, lambda k, v: P.width(k) == 16 and "String" in P.types[v]["n"])[0]


def labelmap(C, s, sym):
    """{UPPER: [(name, address, external)]} read off the label map, None if not resolved"""
    X, P = C.X, C.P
    m, kt, vt = mapfld(C, s, sym, lambda k, v: "String" in P.types[k]["n"] and P.types[v]["k"] == "adt")
    ks = _m.map_keys(X, s, m) if m is not None else None
    if ks is None:
        return None
    fs = P.types[vt]["v"][0]["f"]
    ia = [i for i, f in enumerate(fs) if P.width(f[1]) == 16]
    ix = [i for i, f in enumerate(fs) if P.types[f[1]]["n"] == "bool"]
    if len(ia) != 1 or len(ix) != 1:
        return None
    d = {}
    for k in ks:
        n = pystr(X, s, k)
        v, dec = map_find(X, s, m, k)
        if n is None or not dec or v is None:
            return None
        d.setdefault(upper(n), []).append((n, X.fld(v, 0, ia[0], fs[ia[0]][1]), X.fld(v, 0, ix[0], fs[ix[0]][1])))
    return d


def rels(K, L, tree, nt, s, o, Rs, M, rule):
    X, P = L.X, L.P
    k, sym = sym_of(L, s, o)
    m = relmap(L, s, sym)
    ks = _m.map_keys(X, s, m) if m is not None else None
    if ks is None:
        K.undecided(rule, nt + ": relocation map not resolved")
        return
    want = [(lc, u) for R in Rs for lc, u, _k in R.fills if M.labels[u][1]]
    n = 0
    for lc, u in want:
        w, dec = map_find(X, s, m, lc)
        if not dec:
            K.undecided(rule, nt + ": relocation entry not resolved")
            continue
        n += w is not None
        nm = pystr(X, s, w) if w is not None else None
        K.judge(rule, "pending", None if w is not None and nm is None else True if w is not None and upper(nm) == u else False if L.sure(s) else None,
                lambda: "%s: linking %s of [%s], the word at %s has %s as pending relocation instead of %s" % (L.where, tname(tree), L.text, show(lc), nm, u), nt)
    K.judge(rule, "count", True if len(ks) == len(want) else False if L.sure(s) else None,
            lambda: "%s: linking %s of [%s] leaves %d pending relocations instead of %d" % (L.where, tname(tree), L.text, len(ks), len(want)), nt)


# ------------------------------------------------------------------ file sets
def oc(x):
    return I(x, 16)


oa, ob, od, oe = (var("o" + c, 16) for c in "ABCD")
va, vb, vd, ve = (var("v" + c, 16) for c in "ABCD")
na, nb = var("nA", 16), var("nB", 16)


def pairs():
    """sets of two files, origins symbolic"""
    yield "def-ext", lambda: [[orig(oa), fill(va, "L"), end()], [ext("l"), orig(ob), fill(vb), fill("L"), end()]]
    yield "plain", lambda: [[orig(oa), fill(va, "A1"), end()], [orig(ob), fill(vb, "B1"), fill("b1"), end()]]
    yield "same-label", lambda: [[orig(oa), fill(va, "L"), end()], [orig(ob), fill(vb), fill(vb, "l"), end()]]
    yield "both-ext", lambda: [[ext("L"), orig(oa), fill("L"), end()], [orig(ob), fill(vb), fill("l"), end(), ext("l")]]
    yield "end-label", lambda: [[orig(oa), fill(va), end("L")], [ext("L"), orig(ob), fill("L", "M"), fill("M"), end()]]
    yield "end-clash", lambda: [[orig(oa), fill(va), end("L")], [orig(ob), fill(vb, "L"), end()]]
    yield "blkw", lambda: [[orig(oa), blkw(oc(7), "buf"), fill(va), end()], [ext("buf"), orig(ob), fill("BUF"), end()]]
    yield "blkw-n", lambda: [[orig(oc(0x3000)), blkw(na, "buf"), fill(va), end()], [ext("buf"), orig(oc(0x4000)), fill("BUF"), end()]]
    yield "blkw-n2", lambda: [[orig(oc(0x3000)), blkw(na), end()], [orig(ob), blkw(oc(1000)), end()]]
    yield "blkw-big", lambda: [[orig(oc(0)), blkw(oc(0xFE00)), end()], [orig(ob), fill(vb), end()]]
    yield "blkw2", lambda: [[orig(oa), blkw(oc(0x6800)), end()], [orig(ob), blkw(oc(0x7000)), end()]]
    yield "two-blocks", lambda: [[orig(oc(0x3000)), fill(va, "L"), end(), orig(oc(0x5000)), fill(va), end()], [ext("L"), orig(ob), fill("L"), fill(vb), end()]]
    yield "two-blocks2", lambda: [[orig(oc(0x3000)), fill(va, "L"), end(), orig(oc(0x3002)), fill("M"), end(), ext("M")], [ext("L"), orig(oc(0x3001)), fill("L"), end(), orig(ob), fill(vb, "M"), end()]]
    yield "cross", lambda: [[ext("M"), orig(oa), fill("M", "L"), end()], [ext("L"), orig(ob), fill("L", "M"), end()]]
    yield "multi-use", lambda: [[ext("M"), ext("N"), orig(oa), fill("M"), fill("N"), fill("M"), end()], [orig(ob), fill(vb, "M"), end()]]
    yield "unused-ext", lambda: [[ext("M"), orig(oa), fill(va), end()], [orig(ob), fill(vb, "M"), end()]]
    yield "empty-block", lambda: [[orig(oa), end("L")], [ext("L"), orig(ob), fill("L"), end()]]
    yield "no-block", lambda: [[ext("L")], [orig(ob), fill(vb, "L"), fill("l"), end()]]
    yield "strz", lambda: [[orig(oa), strz("hi", "msg"), end()], [ext("MSG"), orig(ob), fill("msg"), strz(""), end()]]
    yield "local-fill", lambda: [[orig(oa), fill(va), fill("L", "L"), end()], [orig(ob), fill("L", "L"), end()]]
    yield "zero", lambda: [[orig(oc(0)), fill(va, "L"), end()], [ext("L"), orig(ob), fill("L"), end()]]
    yield "top", lambda: [[orig(oc(0xFDFF)), fill(va, "L"), end("T")], [ext("T"), ext("L"), orig(oc(0xFDFD)), fill("L"), fill("T"), end()]]
    yield "far-use", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), blkw(oc(300)), fill("L"), end()], [orig(ob), fill(vb, "L"), end()]]
    yield "instr", lambda: [[orig(oc(0x3000)), ins("LD", "P"), ins("LDI", "P"), fill("X", "P"), end(), ext("X")], [orig(oc(0x3003)), blkw(oc(2), "X"), end()]]


def triples():
    """sets of three files, origins concrete or one of them symbolic"""
    yield "def-two-uses", lambda: [[orig(oa), fill(va, "L"), end()], [ext("L"), orig(oc(0x4000)), fill("L"), end()], [orig(oc(0x5000)), fill("l", "M"), end(), ext("L")]]
    yield "ring", lambda: [[ext("B"), orig(oc(0x3000)), fill("B", "A"), end()], [ext("C"), orig(oc(0x3001)), fill("C", "B"), end()], [ext("A"), orig(oc(0x3002)), fill("A", "C"), end()]]
    yield "def-ext-def", lambda: [[orig(oc(0x3000)), fill(va, "L"), end()], [ext("L"), orig(oc(0x4000)), fill("L"), end()], [orig(oc(0x5000)), fill(vd), fill(vd, "l"), end()]]
    yield "never", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [ext("L"), orig(oc(0x4000)), fill("L"), end()], [ext("l"), ext("M"), orig(oc(0x5000)), fill(vd, "N"), fill("M"), end()]]
    yield "middle", lambda: [[orig(oc(0x3000)), fill(va), end(), orig(oc(0x3004)), fill(va), end()], [orig(ob), fill(vb), end()], [orig(oc(0x3002)), fill(vd), end()]]
    yield "same-addr", lambda: [[orig(oc(0x3000)), fill(va), end("L")], [orig(oc(0x3001)), fill(vb, "L"), end()], [ext("L"), orig(oc(0x3002)), fill("L"), end()]]
    yield "two-ext", lambda: [[ext("X"), ext("Y"), orig(oc(0x3000)), fill("X"), fill("Y"), end()], [orig(oc(0x4000)), fill(vb, "X"), end()], [orig(oc(0x5000)), fill(vd, "Y"), end()]]


def quads():
    yield "chain", lambda: [[ext("B"), orig(oc(0x3000)), fill("B", "A"), end()], [ext("C"), orig(oc(0x3001)), fill("C", "B"), end()], [ext("D"), orig(oc(0x3002)), fill("D", "C"), end()], [ext("A"), orig(oc(0x3003)), fill("A", "D"), end()]]
    yield "one-def", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [ext("L"), orig(oc(0x3001)), fill("L"), end()], [orig(oc(0x3002)), fill(vd, "L"), end()], [ext("l"), orig(oc(0x3003)), fill("L"), end()]]


def layouts2():
    """two files with unequal line counts, blank lines, comments, label-only lines"""
    yield "lay:long-first", lambda: [[orig(oc(0x3000), pre=3), fill(va, "first", pre=2), fill(va), end("over", pre=1)], [orig(oc(0x4000)), fill(vb, "second"), end()]]
    yield "lay:long-second", lambda: [[orig(oc(0x3000)), fill(va, "a"), end()], [ext("a"), orig(oc(0x4000), pre=4), fill(vb, "lbl", "other", own_line=True), fill("a", "z", pre=1), end("last")]]
    yield "lay:blocks", lambda: [[orig(oc(0x5000)), fill(va, "p"), end(), orig(oc(0x3000), pre=1), fill(va, "q"), end()], [orig(oc(0x4000)), fill(vb, "r"), end(), orig(oc(0x2000)), fill(vb, "s"), ins("NOT"), end()]]
    yield "lay:ext-use", lambda: [[ext("data"), orig(oc(0x3000)), fill("data", "ptr"), end()], [orig(oc(0x4000), pre=1), strz("abc", "str"), fill(vb, "Data"), end()]]
    yield "lay:ext-only", lambda: [[ext("one"), ext("two")], [orig(oc(0x4000)), fill(vb, "two"), fill(vb, "one"), end()]]


    for (na_, ka), (nb_, kb) in zip(STYLES, STYLES[1:] + STYLES[:1]):
        yield "sty:%s+%s" % (na_, nb_), lambda ka=ka, kb=kb: [styled([ext("far"), orig(oc(0x3000)), fill(va, "first"), fill("far", "uses"), end()], **ka), styled([orig(oc(0x4000)), fill(vb, "second", own_line=True), fill(vb, "FAR"), end()], **kb)]
    yield "sty:empty", lambda: [styled([], tail=""), [orig(oc(0x4000)), fill(vb, "second"), end()]]
    yield "sty:empty2", lambda: [[orig(oc(0x4000)), fill(vb, "second"), end()], styled([], tail="\n\n")]


def layouts3():
    yield "sty:three", lambda: [styled([orig(oc(0x3000)), fill(va, "alpha"), end()], tail=""), styled([orig(oc(0x4000)), fill(vb, "beta"), end()], tail="\n"), styled([ext("alpha"), orig(oc(0x5000)), fill("alpha", "gamma"), end()], tail="")]
    yield "lay:three", lambda: [[orig(oc(0x3000), pre=2), fill(va, "alpha"), end()], [orig(oc(0x4000)), fill(vb, "be"), fill(vb), end(pre=1)], [ext("be"), orig(oc(0x2000)), fill("be", "gamma_long", pre=3), end()]]
    yield "lay:three-ext", lambda: [[ext("x1"), orig(oc(0x3000)), fill("x1"), end()], [ext("X1"), orig(oc(0x4000)), fill("x1", "k"), end()], [orig(oc(0x5000), pre=1), fill(vd, "X1"), end()]]


def judge_debug(K, L, tree):
    """C22"""
    X, P = L.X, L.P
    nt = "%s %s" % (L.tag, tname(tree))
    for s, o, e, Rs, M in L.outcomes(tree):
        if o is None or M.overlap or M.conflict:
            continue
        k, sym = sym_of(L, s, o)
        if k != "Some":
            K.judge("source", "no-table", None if k is None else False if L.sure(s) else None, lambda: "%s: linking %s of [%s] gives a file without symbol table" % (L.where, tname(tree), L.text), nt)
            continue
        for s1, r in call(X, s, "asm::SymbolTable::source_info", sym)[0]:
            k, si = opt_of(X, s1, r)
            if k != "Some":
                K.judge("source", "no-source", None if k is None else False if L.sure(s1) else None, lambda: "%s: linking %s of [%s] drops the source" % (L.where, tname(tree), L.text), nt)
                continue
            for s2, t in call(X, s1, "asm::SourceInfo::source", si)[0]:
                src = _m.deref_all(X, s2, t)
                raw = src.args[0] if src.op in ("str", "strc") and isinstance(src.args[0], bytes) else None
                if raw is None:
                    K.undecided("source", nt + ": combined source not resolved")
                    continue
                K.ok("source", nt)
                lines_of(K, L, tree, nt, s2, sym, si, Rs, raw)
                spans_of(K, L, tree, nt, s2, sym, M, raw)
    report_panics(K, L, tree, "source", nt)


def lines_of(K, L, tree, nt, s, sym, si, Rs, raw):
    X, P = L.X, L.P
    for i, R in enumerate(Rs):
        text = L.srcs[i].split("\n")
        for ln, ad in R.lines.items():
            want = text[ln].strip()
            for s2, r in call(X, s, "asm::SymbolTable::rev_lookup_line", sym, ad)[0]:
                k, a = opt_of(X, s2, r)
                a = s2.resolve(a) if k == "Some" else None
                if k is None or k == "Some" and not isc(a):
                    K.undecided("line", nt + ": rev_lookup_line not resolved")
                    continue
                if k == "None":
                    K.judge("line", "missing", False if L.sure(s2) else None,
                            lambda: "%s: after linking %s of [%s], the address of `%s` has no source line (%s)" % (L.where, tname(tree), L.text, want, L.cond(s2)), nt)
                    continue
                # the text the crate reads for that line
                for s3, r3 in call(X, s2, "asm::SourceInfo::read_line", si, a)[0]:
                    k3, t3 = opt_of(X, s3, r3)
                    got = pystr(X, s3, t3) if k3 == "Some" else None
                    if k3 is None or k3 == "Some" and got is None:
                        K.undecided("line", nt + ": line text not resolved")
                    else:
                        K.judge("line", "text", True if got == want else False if L.sure(s3) else None,
                                lambda: "%s: after linking %s of [%s], the address of `%s` is reported on line %d, which reads %r" % (L.where, tname(tree), L.text, want, cv(a), got), nt)


def spans_of(K, L, tree, nt, s, sym, M, raw):
    X, P = L.X, L.P
    for u, m in M.labels.items():
        for s2, r in call(X, s, "asm::SymbolTable::get_label_source", sym, lit(u))[0]:
            k, a = opt_of(X, s2, r)
            rg = range_of(X, s2, a) if k == "Some" else None
            if k is None or k == "Some" and rg is None:
                K.undecided("span", nt + ": get_label_source not resolved")
                continue
            got = raw[rg[0]:rg[1]].decode("utf8", "replace") if rg is not None else None
            K.judge("span", "text", True if got is not None and upper(got) == u else False if L.sure(s2) else None,
                    lambda: "%s: after linking %s of [%s], the span of the label %s reads %r in the combined source" % (L.where, tname(tree), L.text, u, got), nt)


# ------------------------------------------------------------------ C21
def ext_files():
    """single files with external references; the declaration before, between and after the uses, outside and inside blocks"""
    use = lambda a, *l: fill(a, *l)
    for nm, mk_ in (("flush-left", lambda: styled([ext("L"), orig(oa), use("L"), end()], indent="")),
                    ("before", lambda: [ext("Ext"), orig(oa), use("ext"), end()]),
                    ("after", lambda: [orig(oa), use("EXT"), end(), ext("Ext")]),
                    ("inside", lambda: [orig(oa), fill(va), ext("Ext"), use("Ext"), end()]),
                    ("inside-after", lambda: [orig(oa), use("Ext"), fill(va), ext("Ext"), end()]),
                    ("between", lambda: [orig(oa), use("Ext"), end(), ext("ext"), orig(oc(0x5000)), use("eXT", "other"), end()]),
                    ("declared-twice", lambda: [ext("Ext"), orig(oa), use("Ext"), end(), ext("EXT")]),
                    ("two", lambda: [ext("P"), orig(oa), use("Q"), use("p"), use("q"), end(), ext("Q")]),
                    ("with-locals", lambda: [orig(oa), fill("here", "here"), use("Far", "ptr"), fill("ptr"), end(), ext("FAR")]),
                    ("one-unused", lambda: [ext("U"), ext("V"), orig(oa), use("v"), end()]),
                    ("after-sized", lambda: [orig(oa), strz("abc"), blkw(oc(3)), use("Ext"), end(), ext("Ext")])):
        yield nm, mk_


def ext_links():
    """an external reference and a file that defines it; concrete origins, so that the result can be loaded"""
    yield "far-use", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), blkw(oc(300)), fill("L"), end()], [orig(oc(0x4000)), fill(vb, "L"), end()]]
    yield "flush-left", lambda: [styled([ext("L"), orig(oc(0x3000)), fill("L"), end()], indent=""), [orig(oc(0x4000)), fill(vb, "L"), end()]]
    yield "one", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), fill(va), end()], [orig(oc(0x4000)), fill(vb), fill(vb, "L"), end()]]
    yield "after", lambda: [[orig(oc(0x3000)), fill(va), fill("l"), end(), ext("L")], [orig(oc(0x2FFE)), fill(vb), fill(vb, "L"), end()]]
    yield "inside", lambda: [[orig(oc(0x3000)), fill("l"), ext("L"), fill("L"), end()], [orig(oc(0)), fill(vb, "L"), end()]]
    yield "end-label", lambda: [[orig(oc(0x3000)), fill("l"), ext("L"), end()], [orig(oc(0x4000)), fill(vb), end("L")]]
    yield "mutual", lambda: [[ext("M"), orig(oc(0x3000)), fill("M", "L"), end()], [ext("L"), orig(oc(0x4000)), fill(vb), fill("L", "M"), end()]]
    yield "blocks", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end(), orig(oc(0x5000)), fill("l"), end()], [orig(oc(0x4000)), blkw(oc(2), "buf"), strz("x", "L"), end()]]
    yield "part", lambda: [[ext("L"), ext("N"), orig(oc(0x3000)), fill("L"), fill("N"), end()], [orig(oc(0x4000)), fill(vb, "L"), end()]]
    yield "other", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [orig(oc(0x4000)), fill(vb, "M"), end()]]
    yield "both-ext", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [orig(oc(0x4000)), fill("L", "M"), end(), ext("l")]]
    yield "symbolic", lambda: [[ext("L"), orig(oa), fill("L"), end()], [orig(ob), fill(vb), fill(vb, "L"), end()]]


def ext_triples():
    yield "chain", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [orig(oc(0x3001)), fill("L", "K"), end(), ext("L")], [orig(oc(0x4000)), fill(vd, "L"), end()]]
    yield "two-defs", lambda: [[ext("L"), ext("M"), orig(oc(0x3000)), fill("L"), fill("M"), end()], [orig(oc(0x3800)), fill(vb, "M"), end()], [orig(oc(0x4000)), fill(vd, "L"), end()]]
    yield "never", lambda: [[ext("L"), orig(oc(0x3000)), fill("L"), end()], [orig(oc(0x3001)), fill("L", "K"), end(), ext("L")], [ext("l"), orig(oc(0x4000)), fill(vd, "N"), end()]]


def load(L, s, obj):
    """[(state, 'Ok' | error kind | None)] of loading the object file into a machine"""
    X, P = L.X, L.P
    f = P.fn("Simulator::load_obj_file")
    out = []
    np = len(X.panics)
    for s2, r in X.exec_fn(f, [L.vs[0], X.vref(obj)], s.copy()):
        if zone_unsat(s2):
            continue
        v = X.variant(s2, r)
        if v is None:
            out.append((s2, None))
        elif P.vname(r.ty, v) == "Ok":
            out.append((s2, "Ok"))
        else:
            e = X.fld(r, v, 0, P.types[r.ty]["v"][v]["f"][0][1])
            k = X.variant(s2, e)
            out.append((s2, P.vname(e.ty, k) if k is not None and e.ty is not None else None))
    L.panics += X.panics[np:]
    return out


def judge_external(K, L, tree):
    """C21"""
    X, P = L.X, L.P
    nt = "%s %s" % (L.tag, tname(tree))
    for s, o, e, Rs, M in L.outcomes(tree):
        if o is None or M.overlap or M.conflict:
            continue
        pend = sorted({u for R in Rs for _, u, _k in R.fills if M.labels[u][1]})
        # definitions in files assembled without debug symbols that declare no external
        lost = [i for i, R in enumerate(Rs) if not L.debug[i] and not any(e_[1] for e_ in R.labels.values())]
        resolved = {u for R in Rs for _, u, _k in R.fills if not M.labels[u][1]} - set(pend)
        for s2, k in load(L, s, o) if pend else []:
            if k is None:
                K.undecided("load", nt + ": result of the load not resolved")
            else:
                K.judge("load", "loaded" if k == "Ok" else "kind", True if k == "UnresolvedExternal" else False if L.sure(s2) else None,
                        lambda: "%s: loading %s of [%s], whose references to %s are unresolved, gives %s" % (P.loc(P.fn("Simulator::load_obj_file"), P.fn("Simulator::load_obj_file")["line"]), tname(tree), L.text, ", ".join(pend), k), nt)
        m, _ = L.objfld(o, "block_map")
        for i, R in enumerate(Rs):
            for lc, u, k in R.fills:
                if not R.labels[u][1] or M.labels[u][1]:
                    continue
                d = M.labels[u]
                key = "definer-without-table" if d[2] in lost else "word"
                w = word_at(L, s, m, R, lc)
                if w is None:
                    K.undecided("resolve", nt + ": word not resolved")
                    continue
                K.judge("resolve", key, L.same(s, w, d[0]),
                        lambda: "%s: after linking %s of [%s], the word at %s that refers to %s is %s instead of %s%s" % (L.where, tname(tree), L.text, show(lc), u, show(w)[:60], show(d[0])[:60], " (the definition is in a file assembled without debug symbols and without externals)" if key != "word" else ""), nt)
    report_panics(K, L, tree, "load", nt)


def word_at(L, s, m, R, lc):
    """value of the initialised word at lc of the block it lies in, None if not resolved"""
    X, P = L.X, L.P
    for b in R.blocks:
        d = s.resolve(sub(lc, b[0]))
        if not isc(d) or not b[3]:
            continue
        w, dec = map_find(X, s, m, b[0])
        if not dec or w is None:
            continue
        n = s.resolve(X.length(s, w))
        if not isc(n) or cv(d) >= cv(n):
            continue
        oty = P.types[w.ty]["a"][0] if w.ty is not None else None
        e = X.elem(s, w, I(cv(d), 64), oty)
        q = X.variant(s, e)
        if q is None or e.ty is not None and P.vname(e.ty, q) != "Some":
            return None
        return X.fld(e, q, 0, None if e.ty is None else P.types[e.ty]["v"][q]["f"][0][1])
    return None


def clashes():
    """pairs whose link fails"""
    yield "same-start", lambda: [[orig(oa), fill(va), end()], [orig(oa), fill(vb), end()]]
    yield "overlap", lambda: [[orig(oa), fill(va), fill(va), end()], [orig(ob), fill(vb), end()]]
    yield "label", lambda: [[orig(oc(0x3000)), fill(va, "Twice"), end()], [orig(oc(0x4000)), fill(vb), fill(vb, "tWICE"), end()]]
    yield "labels", lambda: [[orig(oc(0x3000)), fill(va, "one", "two"), end()], [orig(oc(0x4000)), fill(vb, "ONE", "Two"), end()]]
    yield "ext-clash", lambda: [[ext("q"), orig(oc(0x3000)), fill("q", "dup"), end()], [orig(oc(0x4000)), fill(vb, "q"), fill(vb, "dup"), end()]]


def judge_link_errors(K, L, tree):
    """C26: spans of link errors can be queried"""
    X, P = L.X, L.P
    nt = "link:%s %s" % (L.tag, tname(tree))
    ety = P.adt("AsmErr")
    fi, sty = next((i, f[1]) for i, f in enumerate(P.types[ety]["v"][0]["f"]) if P.types[f[1]]["n"].endswith("ErrSpan"))
    for s, o, e, Rs, M in L.outcomes(tree):
        if e is None:
            continue
        judge_err_queries(K, L, s, X.fld(e, 0, fi, sty), nt, "the error of linking %s of [%s]" % (tname(tree), L.text))


def judge_err_queries(K, C, s, sp, nt, what):
    X, P = C.X, C.P
    for q in ("first", "iter"):
        rs, ps = call(X, s, "err::ErrSpan::" + q, X.vref(sp))
        for p in ps:
            if not zone_unsat(p.st):
                K.judge("query", q + "-panic", False if C.sure(p.st) else None, lambda: "%s: querying the spans (%s) of %s can panic (%s)" % (P.loc(p.fn, p.line), q, what, p.kind), nt)
        if not ps:
            K.ok("query", nt)
        if q == "iter":
            for s2, r in rs:
                np = len(X.panics)
                items = drain(X, s2, r)
                K.judge("query", "iter-drain", None if items is None else True, "", nt)
