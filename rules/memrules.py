"""Contract of Simulator::read_mem / write_mem: access check, dispatch, mirroring, observer."""
from engine.terms import *
from engine.interp import Interp, State
from engine.judge import same, feasible
from engine import models
from rules.reflib import explore
from rules.simlib import *

USER, IO = 0x3000, 0xFE00
DH = "<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::"


def hooks(P):
    def rd(X, st, fr, a, retty, fn):
        v = X.fresh("devr", retty)
        st.emit("dev_rd", a[1], a[2], v)
        return [(st, v)]

    def wr(X, st, fr, a, retty, fn):
        v = X.fresh("devw", retty)
        st.emit("dev_wr", a[1], a[2], v)
        return [(st, v)]

    return {DH + "io_read": rd, DH + "io_write": wr}


def flat_stores(X, st, t):
    out = []
    while t.op == "store":
        out.append((t.args[1], t.args[2]))
        t = t.args[0]
    return t, out[::-1]


class MemCheck:
    def __init__(self, K, which):
        self.K, self.P, self.which = K, K.P, which
        P = self.P
        self.S = S = Sim(P)
        self.f = P.fn("Simulator::" + which)
        self.X = X = Interp(P, hooks(P))
        st, vs = X.start(self.f)
        self.loc = X.deref_loc(vs[0])
        self.s0 = X.load(st, *self.loc)
        self.addr, self.data, self.ctx = vs[1], (vs[2] if which == "write_mem" else None), vs[-1]
        self.paths = X.exec_fn(self.f, vs, st, None)
        K.saw(X)

    def memarr(self, st, s):
        """the 65536-word array value"""
        X, S = self.X, self.S
        m = S.get(X, s, "mem")
        fty = self.P.types[m.ty]["v"][0]["f"][0][1]
        b = X.fld(m, 0, 0, fty)
        return b

    def mem_value(self, st, s):
        X = self.X
        b = self.memarr(st, s)
        t = self.P.types[b.ty]
        ety = None
        if t.get("box"):
            ety = t["a"][0]
            b = X.fld(b, 0, 0, t["v"][0]["f"][0][1])
        l, p = X.deref_loc(b, ety)
        return X.load(st, l, p)

    def c(self, n):
        return self.S.get(self.X, self.ctx, n)

    def run(self):
        """yields (aspect, key, result, text)"""
        X, S, P = self.X, self.S, self.P
        w = self.which
        base_mem = None
        for st0, ret in self.paths:
            for st, ref in explore(st0, self.ref):
                for r in self.cmp(st, st0, ret, ref):
                    if r[2] is None and not feasible(st):
                        continue
                    if r[2] is False and not feasible(st):
                        continue
                    yield r
        for p in X.panics:
            yield "panic", "%s:%s" % (w, p.kind), (False if feasible(p.st) else True), "%s can panic: %s at %s" % (w, p.info, P.loc(p.fn, p.line))

    def ref(self, ask):
        """dict describing the expected behaviour"""
        X, S, P = self.X, self.S, self.P
        a = self.addr
        r = {"ret": "Ok", "dev": [], "regs": {}, "observer": None, "store": None, "value": None, "atom": [], "cls": None}
        user = not ask(lt(a, I(USER, 16))) and ask(lt(a, I(IO, 16)))
        io = not user and not ask(lt(a, I(IO, 16)))
        r["cls"] = "user" if user else "io" if io else "system"
        if not ask(self.c("privileged")) and not user:
            r["ret"] = "AccessViolation"
            return r
        track = ask(self.c("track_access"))
        write = self.which == "write_mem"
        uninit = False
        if write:
            strict = ask(self.c("strict"))
            full = ask(eq(S.get(X, self.data, "init"), I(0xFFFF, 16)))
            uninit = strict and not full
            d = S.get(X, self.data, "data")
        if io:
            if uninit:
                r["ret"] = "StrictIOSetUninit"
                return r
            mm = S.get(X, self.s0, "ireg_mmap")
            if ask(models.map_has(X, ask.st, mm, a)):
                i, vty = S.fidx(S.ty, "ireg_mmap")
                mt = P.types[vty]
                rty = P.adt("InternalRegister")
                iv = models.map_value(X, ask.st, mm, a, rty)
                for vi, v in enumerate(P.types[rty]["v"]):
                    if ask(eq(X.discr(iv, 64), I(int(v["d"]), 64))):
                        r["ireg"] = v["n"].split("::")[-1]
                        break
                r["io"] = "ireg"
                r["store"] = "any"
            else:
                r["io"] = "dev"
                r["dev"] = [("dev_wr", a, d)] if write else [("dev_rd", a, self.c("io_effects"))]
                r["store"] = "any"
            return r
        if write:
            if uninit:
                r["ret"] = "StrictMemSetUninit"
                return r
            r["store"] = self.data
        r["observer"] = track
        return r

    def cmp(self, st, st0, ret, ref):
        X, S, P, w = self.X, self.S, self.P, self.which
        a = self.addr
        cls = "%s:%s:%s" % (w, ref["cls"], ref["ret"])
        vi = X.variant(st, ret)
        if vi is None:
            yield "result", cls, None, "unknown result"
            return
        got = "Ok"
        if vi == 1:
            e = ret.args[2]
            ev = X.variant(st, e)
            got = P.vname(e.ty, ev) if ev is not None else None
        asp = "access" if "AccessViolation" in (got, ref["ret"]) else "strict" if "Strict" in str(got) + ref["ret"] else "result"
        yield asp, cls + ":result", got == ref["ret"] or (None if got is None else False), "%s of a %s address (%s) returns %s, expected %s" % (w, ref["cls"], self.where(st), got, ref["ret"])
        if got != ref["ret"]:
            return
        fin = X.load(st, *self.loc)
        ev = st.events()
        dev = [e for e in ev if e[0] in ("dev_rd", "dev_wr")]
        # device traffic
        if len(dev) != len(ref["dev"]):
            yield ("access" if asp == "access" else "dispatch"), cls + ":device", False, "%s (%s): device accesses %s, expected %s" % (w, self.where(st), [d[0] for d in dev], [d[0] for d in ref["dev"]])
            return
        for g, r in zip(dev, ref["dev"]):
            if g[0] != r[0]:
                yield "dispatch", cls + ":device", False, "%s: device %s instead of %s" % (w, g[0], r[0])
                continue
            yield "dispatch", cls + ":device-addr", same(X, st, g[1], r[1]), "%s: device address %s, expected %s" % (w, show(g[1]), show(r[1]))
            yield ("dispatch" if g[0] == "dev_wr" else "effects"), cls + ":device-arg", same(X, st, g[2], r[2]), "%s: device argument %s, expected %s" % (w, show(g[2]), show(r[2]))
        # memory
        m0, m1 = self.mem_value(State(), self.s0), self.mem_value(st, fin)
        b, ch = flat_stores(X, st, m1)
        if b is not m0:
            yield "memory", cls + ":memory", None, "memory value not understood: %s" % show(m1)[:200]
            return
        for i, v in ch:
            q = same(X, st, i, zext(a, 64))
            yield ("access" if ref["ret"] == "AccessViolation" else "memory"), cls + ":memory-index", q, "%s changes the word at %s, not at the accessed address" % (w, show(i))
        if ref["store"] is None:
            if ch:
                old = X.elem(st, m0, zext(a, 64), S.W)
                q = same(X, st, ch[-1][1], old)
                yield ("access" if ref["ret"] == "AccessViolation" else "memory"), cls + ":memory-kept", q, "%s (%s, returns %s) changes memory" % (w, self.where(st), got)
            else:
                yield ("access" if ref["ret"] == "AccessViolation" else "memory"), cls + ":memory-kept", True, ""
        elif ref["store"] != "any":
            nv = X.elem(st, m1, zext(a, 64), S.W)
            q = same(X, st, nv, ref["store"])
            yield "memory", cls + ":memory-set", q, "%s of a %s address leaves %s in memory, expected the written word" % (w, ref["cls"], show(nv))
        elif ref.get("io") == "dev" and w == "write_mem":
            acc = dev[0][3]
            d = st.decide(acc)
            if d is False:
                yield "dispatch", cls + ":unowned-write", (True if not ch else same(X, st, ch[-1][1], X.elem(st, m0, zext(a, 64), S.W))), "a write no device accepted changes memory"
            elif d is None and ch:
                yield "dispatch", cls + ":unowned-write", False, "memory is written whether or not a device accepted the write"
            else:
                yield "dispatch", cls + ":unowned-write", True, ""
        # value read
        if w == "read_mem" and got == "Ok":
            rv = ret.args[2]
            if ref["cls"] != "io":
                yield "value", cls + ":value", same(X, st, rv, X.elem(st, m0, zext(a, 64), S.W)), "read of %s returns %s, expected the memory word" % (ref["cls"], show(rv))
            elif ref["io"] == "dev":
                dv = dev[0][3]
                some = st.decide(eq(X.discr(dv, 64), I(1, 64)))
                if some:
                    yield "dispatch", cls + ":value", same(X, st, S.get(X, rv, "data", S.W), X.fld(dv, 1, 0, P.types[dv.ty]["v"][1]["f"][0][1])), "device read returns %s, expected the device's value" % show(rv)
                elif some is False:
                    yield "dispatch", cls + ":value-none", same(X, st, rv, X.elem(st, m0, zext(a, 64), S.W)), "read of an unowned port returns %s" % show(rv)
                else:
                    yield "dispatch", cls + ":value", None, "device answer not tested"
            else:
                rn = ref.get("ireg")
                dat = S.get(X, rv, "data", S.W)
                exp = self.ireg_value(st, rn, ev)
                yield "dispatch", cls + ":ireg-read:%s" % rn, (same(X, st, dat, exp) if exp is not None else None), "read of the mapped %s register returns %s, expected %s" % (rn, show(dat), exp)
        # architectural registers
        tgt = ref.get("ireg") if (w == "write_mem" and got == "Ok" and ref.get("io") == "ireg") else None
        for n in ("pc", "psr", "saved_sp", "reg_file", "flags", "breakpoints", "ireg_mmap", "frame_stack", "instructions_run", "mcr"):
            x0, x1 = S.get(X, self.s0, n), S.get(X, fin, n)
            if (n, tgt) in (("pc", "PC"), ("psr", "PSR"), ("saved_sp", "SavedSP")):
                d = S.get(X, self.data, "data")
                if n == "pc":
                    q = same(X, st, x1, d)
                elif n == "saved_sp":
                    q = same(X, st, S.get(X, x1, "data", S.W), d)
                else:
                    p = X.fld(x1, 0, 0, P.types[x1.ty]["v"][0]["f"][0][1])
                    bs, db = bits(st.resolve(p)), bits(st.resolve(d))
                    q = True
                    for i in (15, 10, 9, 8):
                        if bs[i] != db[i]:
                            q = same(X, st, mkbits((bs[i],)), mkbits((db[i],)))
                            if q is not True:
                                break
                yield "dispatch", cls + ":ireg-write:%s" % tgt, q, "write to the mapped %s register stores %s" % (tgt, show(x1))
            else:
                q = same(X, st, x0, x1)
                yield ("access" if ref["ret"] == "AccessViolation" else "effects"), cls + ":unchanged:%s" % n, q, "%s (%s) changes %s to %s" % (w, self.where(st), n, show(x1)[:200])
        at = [e for e in ev if e[0] == "astore"]
        if tgt == "MCR":
            d = S.get(X, self.data, "data")
            q = None
            if len(at) == 1:
                q = same(X, st, at[0][3], mkbits((bits(d)[15],)))
            elif not at:
                q = False
            yield "dispatch", cls + ":ireg-write:MCR", q, "write to the mapped MCR stores %s" % (show(at[0][3]) if at else "nothing")
        else:
            yield "effects", cls + ":mcr", True if not at else False, "%s changes the MCR (%s)" % (w, self.where(st))
        # observer
        for r in self.obs(st, fin, ref, cls, got):
            yield r

    def where(self, st):
        lo, hi = st.rng(self.addr)
        return "x%04X..x%04X" % (lo, hi)

    def ireg_value(self, st, rn, ev):
        X, S, P = self.X, self.S, self.P
        g = lambda n: S.get(X, self.s0, n)
        if rn == "PC":
            return g("pc")
        if rn == "PSR":
            return X.fld(g("psr"), 0, 0, P.types[g("psr").ty]["v"][0]["f"][0][1])
        if rn == "SavedSP":
            return S.get(X, g("saved_sp"), "data", S.W)
        if rn == "MCR":
            ld = [e for e in ev if e[0] == "aload"]
            if len(ld) == 1:
                return mkbits((0,) * 15 + (bits(ld[0][3])[0],))
        return None

    def query(self, st, o, addr):
        """[(state, (read, written, modified))] as get_mem_accesses + AccessSet report them"""
        P = self.P
        g = P.fn("AccessObserver::get_mem_accesses")
        fs = [P.fn("AccessSet::" + n) for n in ("read", "written", "modified")]
        X = Interp(P)
        st0, vs = X.start(g)
        out = []
        for s, v in X.exec_fn(g, [mk("ref", (("val", o), ()), None, vs[0].ty), addr], st.copy(), None):
            acc = [(s, ())]
            for f in fs:
                nxt = []
                _, ws = X.start(f)
                av = mk("ref", (("val", v), ()), None, ws[0].ty) if P.types[ws[0].ty]["k"] == "ref" else v
                for s1, t in acc:
                    for s2, b in X.exec_fn(f, [av], s1, None):
                        nxt.append((s2, t + (b,)))
                acc = nxt
            out += acc
        self.K.saw(X)
        return out

    def obs(self, st, fin, ref, cls, got):
        """access sets of the accessed and of another address, through the public queries"""
        X, S, P, w = self.X, self.S, self.P, self.which
        o0, o1 = S.get(X, self.s0, "observer"), S.get(X, fin, "observer")
        other = var("other_addr", 16)
        s9 = st.copy()
        if s9.assume(eq(other, self.addr), False):
            for s, q0 in self.query(s9, o0, other):
                for s1, q1 in self.query(s, o1, other):
                    r = [same(X, s1, x, y) for x, y in zip(q0, q1)]
                    if False in r and not feasible(s1):
                        continue
                    yield "observer", cls + ":observer-key", False if False in r else None if None in r else True, "%s records an access at another address" % w
        if ref["cls"] == "io":
            return
        NM = ("READ", "WRITTEN", "MODIFIED")
        mem0 = self.mem_value(State(), self.s0)
        for s, q0 in self.query(st, o0, self.addr):
            for s1, q1 in self.query(s, o1, self.addr):
                if ref["observer"] is not True or got != "Ok":
                    for n, x, y in zip(NM, q0, q1):
                        yield "observer", cls + ":untracked", same(X, s1, x, y), "%s (%s, result %s, tracking %s) changes the recorded %s flag of the address from %s to %s" % (w, self.where(s1), got, ref["observer"], n, show(x), show(y))
                    continue
                if w == "read_mem":
                    yield "observer", cls + ":read-recorded", same(X, s1, q1[0], TRUE), "a tracked read of %s is not recorded as READ" % self.where(s1)
                    for i in (1, 2):
                        yield "observer", cls + ":read-keeps:%s" % NM[i], same(X, s1, q1[i], q0[i]), "a tracked read changes the %s flag" % NM[i]
                    continue
                old = X.elem(s1, mem0, zext(self.addr, 64), S.W)
                chg = ne(S.get(X, old, "data"), S.get(X, self.data, "data"))
                yield "observer", cls + ":write-recorded", same(X, s1, q1[1], TRUE), "a tracked write of %s is not recorded as WRITTEN" % self.where(s1)
                yield "observer", cls + ":read-kept", same(X, s1, q1[0], q0[0]), "a tracked write changes the READ flag"
                s2 = s1.copy()
                if s2.assume(chg, True) and feasible(s2):
                    yield "observer", cls + ":modified", same(X, s2, q1[2], TRUE), "a tracked write that changes the value is not recorded as MODIFIED"
                s3 = s1.copy()
                same_word = band(bnot(chg), eq(S.get(X, old, "init"), S.get(X, self.data, "init")))
                if s3.assume(same_word, True) and feasible(s3):
                    yield "observer", cls + ":unmodified", same(X, s3, q1[2], q0[2]), "a write that leaves the word as it was is recorded as MODIFIED"
