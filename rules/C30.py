"""C30: reset restores a fresh machine and keeps the configuration."""
from rules.loadlib import *
from engine.judge import same, feasible

EXPLAIN = ("reset is interpreted from an arbitrary machine and its result compared, field by field and through the public queries, with the machine the constructor builds from the same "
           "flags (generator outputs are functions of the seed; the memory array is represented by its generator draws; the OS load is one abstract operation).")
ASSUME = ["the OS load depends only on the machine it is given (C29)", "StdRng is deterministic"]
LOAD = CR + "sim::Simulator::load_obj_file"


def hooks(P, S):
    def load(X, st, fr, a, retty, fn):
        M = Mem(X, S)
        l, p = X.deref_loc(a[0])
        sim = X.load(st, l, p)
        # the load turns the memory into a function of what it was
        i, ft = S.fidx(S.ty, "mem")
        mv = X.fld(sim, 0, i, ft)
        bt = P.types[ft]["v"][0]["f"][0][1]
        if P.types[bt].get("box"):
            ml = X.deref_loc(X.fld(X.fld(mv, 0, 0, bt), 0, 0, P.types[bt]["v"][0]["f"][0][1]), P.types[bt]["a"][0])
            old = X.load(st, *ml)
            X.save(st, ml[0], ml[1], mk("app", ("osloaded", old), None, P.types[bt]["a"][0]))
        st.emit("osload", a[1])
        return [(st, result(P, retty, True, P.zst(P.unit)))]

    def gba(X, st, fr, a, retty, fn):
        # the array is represented by the first word its filler yields
        w = P.types[fn["locals"][1]]["e"]
        g = next((g for g in P.fns.values() if g["def"].endswith("WordFiller>::generate") and "blocks" in g and P.types[g["locals"][1]].get("e") == w), None)
        if g is None:
            raise Limit("word filler")
        ety = P.types[retty]["a"][0] if P.types[retty].get("box") else retty
        out = []
        for s, r in X.exec_fn(g, [a[0]], st, fr):
            v = mk("app", ("genmem", r), None, ety)
            if P.types[retty].get("box"):
                loc = X.heap(s, v)
                v = agg(P, retty, 0, mk("ref", (loc, ()), None, P.types[retty]["v"][0]["f"][0][1]), P.zst(P.unit))
            out.append((s, v))
        return out

    def ior(X, st, fr, a, retty, fn):
        st.emit("ioreset")
        return [(st, P.zst(P.unit))]

    return {LOAD: load, CR + "sim::mem::WordFiller::generate_boxed_array": gba,
            "<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::io_reset": ior}


FIELDS = (("reg_file", "registers"), ("pc", "PC"), ("psr", "PSR"), ("saved_sp", "saved stack pointer"), ("instructions_run", "instruction count"))
KEPT = (("flags", "flags"), ("breakpoints", "breakpoints"), ("mcr", "MCR handle"), ("ireg_mmap", "internal-register mappings"), ("device_handler", "attached devices"))


def flagcfgs(P, fty):
    """flag values with a deterministic strategy; other flags symbolic"""
    fs = P.types[fty]["v"][0]["f"]
    for name in ("Known", "Seeded"):
        for df in (FALSE, TRUE):
            out = []
            for f in fs:
                if f[0] == "machine_init":
                    out.append(enumv(P, f[1], name, var("strategy", 16 if name == "Known" else 64)))
                elif f[0] == "debug_frames":
                    out.append(df)
                else:
                    out.append(var("flag." + f[0], P.width(f[1]), f[1]))
            yield "%s, debug_frames=%s" % (name, "on" if df is TRUE else "off"), agg(P, fty, 0, *out)


def queries(K, X, s, sim, f):
    """results of a public query on a value"""
    s2 = s.copy()
    loc = X.heap(s2, sim)
    return X.exec_fn(f, [mk("ref", (loc, ()), None, f["locals"][1])], s2)


def mentions(t, x, memo=None):
    """x occurs in t"""
    memo = {} if memo is None else memo
    if t is x:
        return True
    if id(t) in memo:
        return False
    memo[id(t)] = 1
    return any(mentions(y, x, memo) for y in subterms(t))


def subterms(t):
    out = []

    def go(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for y in a:
                go(y)

    for a in t.args:
        go(a)
    return out


def kept(X, s, a, st, b):
    """a (after) against b (before): True same, False definitely another value, None unknown"""
    if a is b:
        return True
    r = same2(X, st, b, s, a)
    if r is not None:
        return r
    d = deep(X, s, a)
    if b.op in ("fld", "var", "app"):
        # the old value is an unconstrained input: a value that does not depend on it differs for some machine
        if not mentions(d, b) and not any(mentions(k, b) for k in s.facts):
            return False
    return None


def newalloc(X, v, d=0):
    """the pointer v (through Arc and friends) is one the analysed code allocated"""
    if v.op == "ref":
        return v.args[0][0] == "heap"
    if v.op == "agg" and d < 4:
        return any(newalloc(X, x, d + 1) for x in v.args[2:] if x.w is None)
    return False


def run(K):
    P = K.P
    S = Sim(P)
    f, g = P.fn("Simulator::reset"), P.fn("Simulator::new")
    where = P.loc(f, f["line"])
    R1, R2 = "fresh", "kept"
    K.rule(R1, "after reset every listed part of the machine is what the constructor builds from the same flags", 20)
    K.rule(R2, "reset keeps flags, breakpoints, MCR handle, internal-register mappings and devices", 12)
    H = hooks(P, S)
    fty = S.fidx(S.ty, "flags")[1]
    qs = [(n, P.fn("Simulator::" + n)) for n in ("hit_halt", "hit_breakpoint")]
    for tag, fl in flagcfgs(P, fty):
        # reference: a new machine
        Y = Interp(P, H)
        st, vs = Y.start(g)
        news = [x for x in Y.exec_fn(g, [fl], st) if feasible(x[0])]
        K.saw(Y)
        X = Interp(P, H)
        st, vs = X.start(f)
        sl = X.deref_loc(vs[0])
        s0 = with_fields(X, X.load(st, *sl), {"flags": fl})
        X.save(st, sl[0], sl[1], s0)
        outs = X.exec_fn(f, vs, st)
        K.saw(X)
        if len(news) != 1:
            K.undecided(R1, "%s: construction has %d paths" % (tag, len(news)))
            continue
        sn, new = news[0]
        for p in X.panics:
            K.undecided(R1, "reset may panic: %s" % p.kind)
        for s, r in outs:
            if not feasible(s):
                K.undecided(R1, tag + ": path without a witness")
                continue
            s1 = X.load(s, *sl)

            def cmp(what, a, b, sa=s, sb=sn, rule=R1):
                K.judge(rule, what, same2(X, sa, a, sb, b), lambda: "%s: after reset (%s) the %s is %s, a new machine has %s" % (where, tag, what, show(a)[:120], show(b)[:120]), tag)

            for n, what in FIELDS:
                i, ft = S.fidx(S.ty, n)
                if i is None:
                    K.undecided(R1, "no field " + n)
                    continue
                cmp(what, X.fld(s1, 0, i, ft), Y.fld(new, 0, i, ft))
            M = Mem(X, S)
            ma, mb = M.array(s, S.get(X, s1, "mem")), Mem(Y, S).array(sn, S.get(Y, new, "mem"))
            if ma is None or mb is None:
                K.undecided(R1, "memory not resolved")
            elif same2(X, s, ma, sn, mb) is True:
                K.ok(R1, "memory " + tag)
            else:
                # outside the OS image the load changes nothing: compare what lies under it
                while ma.op == "app" and ma.args[0] == "osloaded" and mb.op == "app" and mb.args[0] == "osloaded":
                    ma, mb = ma.args[1], mb.args[1]
                for a in (0x3000, 0x4000, 0xFDFF, 0xFE00, 0xFFFF):
                    cmp("memory word x%04X" % a, M.at(s, ma, a), M.at(sn, mb, a))
            for n, q in qs:
                for sa, a in queries(K, X, s, s1, q):
                    for sb, b in queries(K, Y, sn, new, q):
                        if feasible(sa) and feasible(sb):
                            cmp(n + "()", a, b, sa, sb)
                        else:
                            K.undecided(R1, n)
            fa, fb = S.get(X, s1, "frame_stack"), S.get(Y, new, "frame_stack")
            for n in ("len", "frames"):
                q = P.fn("FrameStack::" + n)
                for sa, a in queries(K, X, s, fa, q):
                    for sb, b in queries(K, Y, sn, fb, q):
                        if feasible(sa) and feasible(sb):
                            cmp("frame_stack.%s()" % n, a, b, sa, sb)
                        else:
                            K.undecided(R1, n)
            for n, what in KEPT:
                i, ft = S.fidx(S.ty, n)
                if i is None:
                    K.undecided(R2, "no field " + n)
                    continue
                a, b = X.fld(s1, 0, i, ft), X.fld(s0, 0, i, ft)
                K.judge(R2, what, False if n == "mcr" and newalloc(X, a) else kept(X, s, a, st, b), lambda: "%s: reset (%s) replaces the %s: %s instead of the previous %s" % (where, tag, what, show(a)[:120], show(b)[:80]), tag)


def same2(X, sa, a, sb, b):
    """compare values living in two states (pointers followed in their own state)"""
    if a is b:
        return True
    a, b = deep(X, sa, a), deep(X, sb, b)
    if a is b:
        return True
    try:
        return same(X, sa, a, b)
    except Limit:
        return None


def deep(X, s, v, d=0):
    """heap references replaced by the values they point to"""
    if d > 6 or v.w is not None:
        return s.resolve(v) if v.w is not None else v
    if v.op == "ref":
        loc, path = v.args
        if loc[0] in ("heap", "calloc", "loc", "const"):
            try:
                x = X.load(s, loc, path)
            except Exception:
                return v
            return mk("refto", (deep(X, s, x, d + 1),), None, None)
        return v
    if v.op == "agg":
        return mk("agg", v.args[:2] + tuple(deep(X, s, x, d + 1) for x in v.args[2:]), None, v.ty)
    if v.op == "arr" and len(v.args) <= 64:
        return mk("arr", tuple(deep(X, s, x, d + 1) for x in v.args), None, v.ty)
    return v
