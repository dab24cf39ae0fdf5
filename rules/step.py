"""Abstract summary of one simulator step and its comparison with the LC-3 reference."""
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine.judge import same, feasible, witnesses
from rules.reflib import explore
from rules.simlib import *
from rules.isa import ref_decode, FMT


class Mismatch(Exception):
    def __init__(self, what, text, res=False):
        self.what, self.text, self.res = what, text, res


class RefErr(Exception):
    def __init__(self, name):
        self.name = name


def step_hooks(P, S):
    H = boundary(P, S)
    ctr = [0]

    def selfv(X, st, a):
        return X.load(st, *X.deref_loc(a))

    def err(name, retty):
        ety = P.types[retty]["v"][1]["f"][0][1]
        return mk("agg", (P.types[ety]["n"], P.variant_idx(ety, name)), None, ety)

    def rd(X, st, fr, a, retty, fn):
        ctr[0] += 1
        wty = P.types[retty]["v"][0]["f"][0][1]
        w = X.fresh("m%d" % ctr[0], wty)
        me = selfv(X, st, a[0])
        st.emit("rd", a[1], a[2], w, S.get(X, me, "psr"), P.loc(fr.f, fr.line))
        priv = S.get(X, a[2], "privileged")
        out = [(st, result(P, retty, True, w))]
        s2 = st.copy()
        if s2.assume(priv, False):
            s2.emit("fail", "AccessViolation")
            out.append((s2, result(P, retty, False, err("AccessViolation", retty))))
        return out

    def wr(X, st, fr, a, retty, fn):
        ctx = a[3]
        me = selfv(X, st, a[0])
        st.emit("wr", a[1], a[2], ctx, S.get(X, me, "psr"), P.loc(fr.f, fr.line))
        out = []
        s2 = st.copy()
        if s2.assume(S.get(X, ctx, "privileged"), False):
            s2.emit("fail", "AccessViolation")
            out.append((s2, result(P, retty, False, err("AccessViolation", retty))))
        s3 = st.copy()
        bad = band(S.get(X, ctx, "strict"), ne(S.get(X, a[2], "init"), I(0xFFFF, 16)))
        if s3.assume(bad, True):
            s3.emit("fail", "StrictMemSetUninit")
            out.append((s3, result(P, retty, False, err("StrictMemSetUninit", retty))))
        if st.assume(bad, False):
            out.append((st, result(P, retty, True, P.zst(P.unit))))
        return out

    H[CR + "sim::Simulator::read_mem"] = rd
    H[CR + "sim::Simulator::write_mem"] = wr

    def push(X, st, fr, a, retty, fn):
        st.emit("fpush", a[1], a[2], a[3], X.load(st, *X.deref_loc(a[4])) if len(a) > 4 else None)
        return [(st, P.zst(P.unit))]
    H[CR + "sim::frame::FrameStack::push_frame"] = push

    def dev(tag):
        def h(X, st, fr, a, retty, fn):
            v = X.fresh(tag, retty)
            st.emit("dev", tag, P.loc(fr.f, fr.line))
            return [(st, v)]
        return h
    D = "<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::"
    for n in ("io_read", "io_write", "io_reset"):
        H[D + n] = dev(n)
    return H


class Path:
    __slots__ = ("st", "ret", "final", "events", "mem", "frames", "polls")


def summarise(K, strict):
    """paths of Simulator::step with the given strict flag"""
    P = K.P
    S = Sim(P)
    f = P.fn("Simulator::step") or P.fn("Simulator::step_in")
    X = Interp(P, step_hooks(P, S))
    st, vs = X.start(f)
    loc = X.deref_loc(vs[0])
    s0 = X.load(st, *loc)
    st.assume(S.path(X, s0, "flags", "strict"), strict)
    rets = X.exec_fn(f, vs, st, None)
    K.saw(X)
    out = []
    for s, r in rets:
        p = Path()
        p.st, p.ret = s, r
        p.final = X.load(s, *loc)
        p.events = s.events()
        p.mem = [e for e in p.events if e[0] in ("rd", "wr", "fail")]
        p.frames = [e for e in p.events if e[0] in ("fpush", "fpop")]
        p.polls = [i for i, e in enumerate(p.events) if e[0] == "poll"]
        out.append(p)
    return X, S, s0, f, out


class Ref:
    """the LC-3 machine; consumes the path's memory events to learn loaded values"""

    def __init__(self, X, S, s0, p, ask):
        self.X, self.S, self.P, self.p, self.ask = X, S, X.P, p, ask
        self.st = ask.st
        g = lambda *n: S.path(X, s0, *n)
        self.pc = g("pc")
        self.pc0 = self.pc
        self.psr = X.fld(g("psr"), 0, 0, self.P.types[g("psr").ty]["v"][0]["f"][0][1])
        rf = g("reg_file")
        self.rfty = rf.ty
        self.regs = X.fld(rf, 0, 0, self.P.types[rf.ty]["v"][0]["f"][0][1])
        self.saved = g("saved_sp")
        self.real, self.ign = g("flags", "use_real_traps"), g("flags", "ignore_privilege")
        self.strict = g("flags", "strict")
        self.count = g("instructions_run")
        self.prefetch = True
        self.i = 0
        self.ev = list(p.mem)
        self.frames = []
        self.kind = "?"
        self.phase = "fetch"
        self.writes = 0

    # ---- data view of words
    def data(self, w):
        return self.S.get(self.X, w, "data", self.S.W)

    def reg(self, idx):
        return self.X.elem(self.st, self.regs, zext(idx, 64) if idx.w != 64 else idx, self.S.W)

    def setreg(self, idx, data):
        idx = zext(idx, 64) if idx.w != 64 else idx
        self.regs = self.X.store_elem(self.st, self.regs, idx, self.S.word(data, I(0xFFFF, 16)))

    def privileged(self):
        return not self.ask(self.bit(15))

    def bit(self, i):
        return mkbits([bits(self.psr)[i]]) if bits(self.psr)[i] in (0, 1) else mkbits((bits(self.psr)[i],))

    def prio(self):
        return mkbits(bits(self.psr)[8:11])

    def setcc(self, v):
        n = self.ask(slt(v, I(0, 16)))
        z = False if n else self.ask(eq(v, I(0, 16)))
        self.psr = mkbits((int(not n and not z), int(z), int(n)) + bits(self.psr)[3:])

    # ---- memory
    def nxt(self, kind, addr):
        ev = self.ev
        if self.i < len(ev) and ev[self.i][0] == kind and same(self.X, self.st, ev[self.i][1], addr) is not True:
            # independent accesses of the same kind may come in either order
            j = self.i + 1
            while j < len(ev) and ev[j][0] == kind:
                if same(self.X, self.st, ev[j][1], addr) is True:
                    ev.insert(self.i, ev.pop(j))
                    break
                j += 1
        if self.i >= len(ev) or ev[self.i][0] != kind:
            got = "nothing" if self.i >= len(ev) else "%s %s" % (ev[self.i][0], show(ev[self.i][1]) if len(ev[self.i]) > 1 and isinstance(ev[self.i][1], T) else "")
            raise Mismatch("%s:%s" % (self.kind, kind), "%s: expected a %s of %s, the code does: %s" % (self.kind, {"rd": "read", "wr": "write"}[kind], show(addr), got))
        e = ev[self.i]
        q = same(self.X, self.st, e[1], addr)
        if q is not True:
            raise Mismatch("%s:%s-addr" % (self.kind, kind), "%s: %s address is %s, expected %s (%s)" % (self.kind, kind, show(e[1]), show(addr), e[-1]), q)
        ctx = e[2] if kind == "rd" else e[3]
        pv = bor(bnot(self.bit(15)) if not isc(self.bit(15)) else bnot(self.bit(15)), self.ign)
        q = same(self.X, self.st, self.S.get(self.X, ctx, "privileged"), pv)
        if q is not True:
            raise Mismatch("%s:%s-priv" % (self.kind, kind), "%s: access privilege is %s, expected %s (%s)" % (self.kind, self.S.get(self.X, ctx, "privileged"), pv, e[-1]), q)
        self.i += 1
        return e

    def failed(self):
        ev = self.ev
        if self.i < len(ev) and ev[self.i][0] == "fail":
            n = ev[self.i][1]
            self.i += 1
            raise RefErr(n)

    def rd(self, addr):
        e = self.nxt("rd", addr)
        self.failed()
        return e[3]

    def wr(self, addr, data):
        e = self.nxt("wr", addr)
        q = same(self.X, self.st, self.data(e[2]), data)
        if q is not True:
            raise Mismatch("%s:wr-data" % self.kind, "%s: value written is %s, expected %s (%s)" % (self.kind, show(self.data(e[2])), show(data), e[-1]), q)
        self.failed()

    # ---- control
    def setpc(self, a):
        self.pc = a

    def swap_sp(self):
        r6 = I(6, 64)
        old = self.reg(r6)
        self.regs = self.X.store_elem(self.st, self.regs, r6, self.saved)
        self.saved = old

    def enter(self, vect, prio, kind):
        """trap, exception or interrupt entry through the vector table"""
        if not self.ask(self.real):
            for v, n in ((0x25, "Halt"), (0x100, "PrivilegeViolation"), (0x101, "IllegalOpcode"), (0x102, "AccessViolation")):
                if self.ask(eq(vect, I(v, 16))):
                    self.pc = self.pc0
                    self.prefetch = True
                    raise RefErr(n)
        if not self.privileged():
            self.swap_sp()
        old = self.psr
        self.psr = mkbits(bits(self.psr)[:15] + (0,))
        sp = self.data(self.reg(I(6, 64)))
        self.setreg(I(6, 64), sub(sp, I(2, 16)))
        self.wr(sub(sp, I(1, 16)), old)
        self.wr(sub(sp, I(2, 16)), self.pc)
        self.psr = mkbits((0, 1, 0) + bits(self.psr)[3:])
        if prio is not None:
            self.psr = mkbits(bits(self.psr)[:8] + bits(prio)[:3] + bits(self.psr)[11:])
        a = self.data(self.rd(vect))
        self.frames.append(("fpush", self.callsite(), vect, kind, self.regs))
        self.setpc(a)

    def callsite(self):
        return self.pc0

    def call(self, addr):
        self.setreg(I(7, 64), self.pc)
        self.frames.append(("fpush", self.pc0, addr, "Subroutine", self.regs))
        self.setpc(addr)

    # ---- one step
    def inner(self):
        X, P, S = self.X, self.P, self.S
        pt = None
        pv = var("poll")
        # the polled request
        for e in self.p.events:
            if e[0] == "poll":
                pt = e[1]
                break
        if pt is None:
            raise Mismatch("poll", "device interrupts are not polled before the instruction")
        ow = 64
        self.kind = "interrupt"
        if self.ask(eq(X.discr(pt, ow), I(1, ow))):
            self.pending = True
            it = P.types[pt.ty]["v"][1]["f"][0][1]
            iv = X.fld(pt, 1, 0, it)
            kf = P.types[it]["v"][0]["f"][0][1]
            kv = X.fld(iv, 0, 0, kf)
            vi = P.variant_idx(kf, "Vectored")
            if self.ask(eq(X.discr(kv, ow), I(int(P.types[kf]["v"][vi]["d"]), ow))):
                fs = P.types[kf]["v"][vi]["f"]
                vect = prio = None
                for i, f in enumerate(fs):
                    if f[0] == "vect":
                        vect = X.fld(kv, vi, i, f[1])
                    if f[0] == "priority":
                        prio = X.fld(kv, vi, i, f[1])
                if self.ask(lt(zext(self.prio(), 8), prio)):
                    self.kind = "interrupt-entry"
                    self.phase = "int"
                    self.enter(add(I(0x100, 16), zext(vect, 16)), prio, "Interrupt")
                    self.taken = True
                    return
            else:
                raise RefErr("Interrupt")
        self.kind = "fetch"
        w = self.data(self.rd(self.pc))
        self.phase = "decode"
        self.kind = "decode"
        name, fs = ref_decode(self.ask, w)
        if name == "Err":
            self.kind = "bad-instruction"
            raise RefErr(fs)
        self.kind = name
        self.phase = "exec"
        self.pc = add(self.pc, I(1, 16))
        self.prefetch = False
        ask = self.ask

        def opnd(f):
            return f[1] if f[0] in ("imm", "off") else self.data(self.reg(f[1]))

        if name == "BR":
            cc = trunc(fs[0][1], 3)
            if not ask(eq(and_(cc, mkbits(bits(self.psr)[:3])), I(0, 3))):
                self.setpc(add(self.pc, fs[1][1]))
        elif name in ("ADD", "AND"):
            a, b = self.data(self.reg(fs[1][1])), opnd(fs[2])
            r = add(a, b) if name == "ADD" else and_(a, b)
            self.setreg(fs[0][1], r)
            self.setcc(r)
        elif name == "NOT":
            r = not_(self.data(self.reg(fs[1][1])))
            self.setreg(fs[0][1], r)
            self.setcc(r)
        elif name in ("LD", "LDI", "LDR"):
            if name == "LDR":
                ea = add(self.data(self.reg(fs[1][1])), fs[2][1])
            else:
                ea = add(self.pc, fs[1][1])
            if name == "LDI":
                ea = self.data(self.rd(ea))
            v = self.data(self.rd(ea))
            self.setreg(fs[0][1], v)
            self.setcc(v)
        elif name in ("ST", "STI", "STR"):
            if name == "STR":
                ea = add(self.data(self.reg(fs[1][1])), fs[2][1])
            else:
                ea = add(self.pc, fs[1][1])
            if name == "STI":
                ea = self.data(self.rd(ea))
            self.wr(ea, self.data(self.reg(fs[0][1])))
        elif name == "LEA":
            self.setreg(fs[0][1], add(self.pc, fs[1][1]))
        elif name == "JSR":
            if fs[0][0] == "imm":
                self.call(add(self.pc, fs[0][1]))
            else:
                self.call(self.data(self.reg(fs[0][1])))
        elif name == "JMP":
            self.setpc(self.data(self.reg(fs[0][1])))
            if ask(eq(fs[0][1], I(7, 3))):
                self.frames.append(("fpop",))
        elif name == "RTI":
            if not (self.privileged() or ask(self.ign)):
                raise RefErr("PrivilegeViolation")
            sp = self.data(self.reg(I(6, 64)))
            pc = self.data(self.rd(sp))
            psr = self.data(self.rd(add(sp, I(1, 16))))
            self.setreg(I(6, 64), add(sp, I(2, 16)))
            self.setpc(pc)
            self.psr = psr
            if not self.privileged():
                self.swap_sp()
            self.frames.append(("fpop",))
        elif name == "TRAP":
            self.enter(fs[0][1], None, "Trap")
        self.count = add(self.count, I(1, 64))

    def run(self):
        """'Ok' | error name"""
        self.taken = False
        try:
            self.inner()
            return "Ok"
        except RefErr as e:
            n = e.name
        if not self.ask(self.real):
            return n
        v = {"Halt": 0x25, "PrivilegeViolation": 0x100, "IllegalOpcode": 0x101, "InvalidInstrFormat": 0x101, "AccessViolation": 0x102}.get(n)
        if v is None:
            return n
        self.exc = n
        self.kind = "exception(%s) after %s" % (n, self.kind)
        try:
            self.enter(I(v, 16), None, "Trap")
            return "Ok"
        except RefErr as e:
            return e.name


def sl_bit(t, i):
    b = bits(t)[i]
    return I(b, 1) if b in (0, 1) else mkbits((b,))


def retname(X, P, st, r):
    """'Ok' or error name of a Result<(), StepBreak|SimErr>"""
    vi = X.variant(st, r)
    if vi is None:
        return None
    if vi == 0:
        return "Ok"
    e = r.args[2]
    for _ in range(3):
        vi = X.variant(st, e)
        if vi is None:
            return None
        n = P.vname(e.ty, vi)
        if n == "Err":
            e = X.fld(e, vi, 0, P.types[e.ty]["v"][vi]["f"][0][1])
            continue
        return n
    return None


def erase_init(S, X, t):
    """array/word value with initialization masks erased"""
    o = t.op
    if o == "store":
        return mk("store", (erase_init(S, X, t.args[0]), t.args[1], erase_init(S, X, t.args[2])), None, t.ty)
    if o == "arr":
        return mk("arr", tuple(erase_init(S, X, x) for x in t.args), None, t.ty)
    if t.ty is not None and t.ty == S.W or o == "agg" and t.args[0].endswith("Word"):
        return S.word(S.get(X, t, "data", S.W), I(0, 16))
    return t


def compare(X, S, s0, p, aspects, limit=256):
    """yields (reference, state, aspect, key, result, text) for one path"""
    last = None
    for it in compare_(X, S, s0, p, aspects, limit):
        if it[4] is None:
            if last is None or last[0] is not it[1]:
                last = (it[1], not feasible(it[1]))
            if last[1]:
                continue
        yield it


def compare_(X, S, s0, p, aspects, limit=256):
    P = X.P
    for st, (R, out, mm) in explore(p.st, lambda ask: run_ref(X, S, s0, p, ask), limit):
        R.got = R.out = None
        if mm is not None:
            # an expected effect is absent or different on this path
            res = mm.res
            if res is False and not feasible(st):
                continue
            yield R, st, "effects", mm.what, res, mm.text
            continue
        got = retname(X, P, st, p.ret)
        kind = R.kind
        R.got, R.out = got, out
        if got is None:
            yield R, st, "result", kind, None, "result not resolved"
            continue
        if got != out:
            if not feasible(st):
                continue
            yield R, st, "result", kind + ":result", False, "%s: step returns %s, the ISA reference gives %s" % (kind, got, out)
            continue
        yield R, st, "result", kind + ":result", True, ""
        if R.i != len(p.mem):
            e = p.mem[R.i]
            if feasible(st):
                yield R, st, "effects", kind + ":extra", False, "%s: extra %s of %s (%s)" % (kind, e[0], show(e[1]) if isinstance(e[1], T) else e[1], e[-1])
            continue
        yield R, st, "effects", kind + ":mem", True, ""
        g = lambda *n: S.path(X, p.final, *n)
        psr = X.fld(g("psr"), 0, 0, P.types[g("psr").ty]["v"][0]["f"][0][1])
        rf = g("reg_file")
        regs = X.fld(rf, 0, 0, P.types[rf.ty]["v"][0]["f"][0][1])
        pcres = same(X, st, g("pc"), R.pc)
        if out == "Ok":
            yield R, st, "pc", kind + ":pc", pcres, "%s: PC becomes %s, expected %s" % (kind, show(g("pc")), show(R.pc))
        else:
            # the faulting address, as the public query computes it from the final state
            for r, a, t in fault_addr(X, p, st, R.pc0):
                yield R, st, "faultpc", kind + ":fault-address" + a, r, "%s (%s): %s" % (kind, out, t)
            yield R, st, "pc", kind + ":pc", True if pcres is True else None, "pc after error"
        yield R, st, "psr", kind + ":psr", same(X, st, psr, R.psr), "%s: PSR becomes %s, expected %s" % (kind, show(psr), show(R.psr))
        yield R, st, "priv", kind + ":privilege", same(X, st, sl_bit(psr, 15), sl_bit(R.psr, 15)), "%s: privilege bit becomes %s, expected %s" % (kind, show(sl_bit(psr, 15)), show(sl_bit(R.psr, 15)))
        for e in p.events:
            if e[0] == "dev":
                yield R, st, "io", kind + ":direct-device", False if feasible(st) else True, "%s: device %s called outside of read_mem/write_mem (%s)" % (kind, e[1], e[2])
        yield R, st, "saved_sp", kind + ":saved_sp", same(X, st, R.data(g("saved_sp")), R.data(R.saved)), "%s: saved SP becomes %s, expected %s" % (kind, show(g("saved_sp")), show(R.saved))
        yield R, st, "regs", kind + ":regs", same(X, st, erase_init(S, X, regs), erase_init(S, X, R.regs)), "%s: register file becomes %s, expected %s" % (kind, show(erase_init(S, X, regs)), show(erase_init(S, X, R.regs)))
        yield R, st, "count", kind + ":count", same(X, st, g("instructions_run"), R.count), "%s (%s): instruction counter becomes %s, expected %s" % (kind, out, show(g("instructions_run")), show(R.count))
        yield R, st, "mem", kind + ":mem", same(X, st, g("mem"), S.path(X, s0, "mem")), "%s: memory is changed other than through write_mem" % kind
        yield R, st, "observer", kind + ":observer-kept", same(X, st, g("observer"), S.path(X, s0, "observer")), "%s: the access record is changed other than through tracked accesses" % kind
        for e in p.mem:
            if e[0] in ("rd", "wr"):
                c = e[2] if e[0] == "rd" else e[3]
                yield R, st, "observer", kind + ":%s-tracked" % e[0], same(X, st, S.get(X, c, "track_access"), TRUE), "%s: the program's %s of %s is not tracked (%s)" % (kind, e[0], show(e[1]), e[-1])
                if e[0] == "rd":
                    yield R, st, "io", kind + ":io-effects", same(X, st, S.get(X, c, "io_effects"), TRUE), "%s: the program's read of %s has no device effects (%s)" % (kind, show(e[1]), e[-1])
        for n in ("flags", "breakpoints", "ireg_mmap", "mcr", "pause_condition", "alloca"):
            yield R, st, "config", kind + ":kept:%s" % n, same(X, st, g(n), S.path(X, s0, n)), "%s: the step changes %s" % (kind, n)
        # frames
        ok, txt = cmp_frames(X, S, st, p.frames, R.frames)
        yield R, st, "frames", kind + ":frames", ok, "%s (%s): %s" % (kind, out, txt)


def fault_addr(X, p, st, want):
    """(result, suffix, text) of Simulator::prefetch_pc evaluated abstractly on the final state"""
    P = X.P
    f = P.fn("Simulator::prefetch_pc")
    if f is None:
        return [(None, "", "prefetch_pc not found")]
    X2 = Interp(P)
    try:
        st2, vs = X2.start(f)
        st2 = st.copy()
        outs = X2.exec_fn(f, [mk("ref", (("val", p.final), ()), None, vs[0].ty)], st2, None)
    except Limit as e:
        return [(None, "", str(e))]
    out = [((False if feasible(q.st) else None), ":panic", "querying the faulting address panics: %s at %s" % (q.info, P.loc(q.fn, q.line))) for q in X2.panics]
    for s3, v in outs:
        out.append((same(X2, s3, v, want), "", "prefetch_pc() is %s, expected %s" % (show(v), show(want))))
    return out


def cmp_frames(X, S, st, got, ref):
    if len(got) != len(ref):
        return (False if feasible(st) else True), "frame stack operations are %s, expected %s" % ([g[0] for g in got], [r[0] for r in ref])
    for g, r in zip(got, ref):
        if g[0] != r[0]:
            return (False if feasible(st) else True), "frame stack operation %s, expected %s" % (g[0], r[0])
        if g[0] == "fpush":
            q = same(X, st, g[1], r[1])
            if q is not True:
                return q, "caller address recorded is %s, expected %s" % (show(g[1]), show(r[1]))
            q = same(X, st, g[2], r[2])
            if q is not True:
                return q, "callee recorded is %s, expected %s" % (show(g[2]), show(r[2]))
            vi = X.variant(st, g[3])
            n = X.P.vname(g[3].ty, vi) if vi is not None else None
            if n is None:
                return None, "frame type unknown"
            if n == r[3] and n != "Interrupt" and g[4] is not None:
                # register arguments are those of the machine at the call (R7 holds the link, R6 may be switched on trap entry)
                rv = X.fld(g[4], 0, 0, X.P.types[g[4].ty]["v"][0]["f"][0][1])
                for i in range(7 if n == "Subroutine" else 6):
                    q = same(X, st, S.get(X, X.elem(st, rv, I(i, 64), S.W), "data", S.W), S.get(X, X.elem(st, r[4], I(i, 64), S.W), "data", S.W))
                    if q is not True:
                        return q, "the frame's arguments are taken from R%d = %s" % (i, show(X.elem(st, rv, I(i, 64), S.W)))
            if n != r[3]:
                return (False if feasible(st) else True), "frame type %s, expected %s" % (n, r[3])
    return True, ""


def run_ref(X, S, s0, p, ask):
    R = Ref(X, S, s0, p, ask)
    try:
        return R, R.run(), None
    except Mismatch as m:
        return R, None, m
