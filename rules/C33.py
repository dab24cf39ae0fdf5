"""C33: keyboard and display deliver bytes exactly once under lock contention."""
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine import models
from engine.judge import same, feasible
from rules.devrules import *

EXPLAIN = ("The readiness protocol (read the status register until ready, then access the data register) is followed abstractly over the device functions for buffers of 0-3 "
           "symbolic bytes and every combination of the buffer lock being free, poisoned or held by another thread at each register access and each interrupt poll, and the delivered "
           "and accepted bytes are compared with the queue.")
ASSUME = ["a lock held by another thread makes try_write/try_read/try_lock fail and blocking acquisitions wait until it is free"]
KBSR, KBDR, DSR, DDR = 0xFE00, 0xFE02, 0xFE04, 0xFE06
MODES = ("free", "poisoned", "held")


class LockMode:
    """try_* answers of the buffer lock during one register access"""

    def __init__(self, P):
        self.mode = "free"
        self.P = P
        self.kinds = {}
        for n, k in (("std::sync::RwLock::<T>::try_write", "try_write"), ("std::sync::RwLock::<T>::try_read", "try_read"), ("std::sync::Mutex::<T>::try_lock", "try_lock"),
                     ("std::sync::RwLock::<T>::write", "write"), ("std::sync::RwLock::<T>::read", "read"), ("std::sync::Mutex::<T>::lock", "lock")):
            self.kinds[n] = self.hook(models._lock(k), k)

    def hook(self, model, kind):
        def h(X, st, fr, a, retty, fn):
            if self.content is not None:
                pass
            outs = model(X, st, fr, a, retty, fn)
            keep = []
            for s, r in outs:
                vi = X.variant(s, r)
                if vi == 0:
                    m = "free"
                else:
                    e = r.args[2]
                    m = "poisoned" if not kind.startswith("try") or P_variant(self.P, e) == "Poisoned" else "held"
                want = self.mode if kind.startswith("try") or self.mode != "held" else "free"
                if m == want:
                    keep.append((s, r))
            if kind.startswith("try") is False and self.mode == "held":
                for s, _ in keep:
                    s.emit("waited", fn["def"])
            return keep
        return h
    content = None


def P_variant(P, e):
    return P.vname(e.ty, e.args[1]) if e.op == "agg" and e.ty is not None else None


class DevModel:
    """a BufferedKeyboard / BufferedDisplay value with a buffer of known length"""

    def __init__(self, K, name, data):
        P = self.P = K.P
        self.K, self.name = K, name
        self.LM = LockMode(P)
        self.X = Interp(P, dict(self.LM.kinds))
        self.ty = P.adt(name)
        self.f = {}
        for m in ("io_read", "io_write", "io_reset", "poll_interrupt"):
            self.f[m] = P.fn("<%ssim::device::%s::%s as %s>::%s" % (CR, "keyboard" if "Key" in name else "display", name, CR + "sim::device::ExternalDevice", m))
        self.data = data

    def ready(self):
        return all(self.f.values()) and self.ty is not None

    def start(self):
        """(state, device location, buffer location)"""
        X, P = self.X, self.P
        st = State()
        f = self.f["io_read"]
        loc = X.heap(st, X.sym("device", self.ty))
        # where is the buffer?
        self.LM.mode = "free"
        where = None
        for m, a in (("io_read", [I(KBSR if "Key" in self.name else DSR, 16), TRUE]), ("io_reset", [])):
            g = self.f[m]
            for s, r in X.exec_fn(g, [mk("ref", (loc, ()), None, g["locals"][1])] + a, st.copy()):
                for e in s.events():
                    if e[0] == "lock":
                        where = e[2]
        if where is None:
            raise Limit("the device takes no lock")
        self.buf = where
        b = X.load(st, where, ())
        st.store[where] = mk("arr", tuple(self.data), None, b.ty)
        # a new device has interrupts disabled or enabled: unknown
        return st, loc

    def call(self, st, loc, m, mode, *args):
        self.LM.mode = mode
        g = self.f[m]
        return self.X.exec_fn(g, [mk("ref", (loc, ()), None, g["locals"][1])] + list(args), st.copy())

    def buffer(self, st):
        return flat_seq(self.X, st, st.store[self.buf])


def opt(X, st, r, P):
    """(known?, value or None)"""
    vi = X.variant(st, r)
    if vi is None:
        return False, None
    return True, X.fld(r, 1, 0, P.types[r.ty]["v"][1]["f"][0][1]) if vi == 1 else None


def kbd_rules(K):
    P = K.P
    R1, R2, R3 = "keyboard-delivery", "keyboard-status", "keyboard-queue"
    K.rule(R1, "after KBSR reads ready, the next KBDR read delivers exactly the oldest queued byte and removes it", 10)
    K.rule(R2, "KBSR reads ready whenever the lock is free and bytes are queued, and never when the queue is empty or cannot be looked at", 6)
    K.rule(R3, "nothing but an effectful KBDR read takes bytes from the queue", 8)
    for n in range(0, 4):
        bs = [var("byte%d" % i, 8) for i in range(n)]
        D = DevModel(K, "BufferedKeyboard", bs)
        if not D.ready():
            K.undecided(R1, "keyboard functions not found")
            return
        X = D.X
        st0, loc = D.start()

        def q_same(st, want, what, key, rule):
            got = D.buffer(st)
            if got is None:
                K.undecided(rule, "%s: queue %s" % (what, show(st.store[D.buf])))
                return False
            ok = len(got) == len(want) and all(same(X, st, a, b) is True for a, b in zip(got, want))
            if not ok and len(got) == len(want) and not any(same(X, st, a, b) is False for a, b in zip(got, want)):
                K.undecided(rule, what)
                return False
            K.judge(rule, key, ok or not feasible(st), lambda: "%s leaves the queue as %s, expected %s" % (what, [show(x) for x in got], [show(x) for x in want]), what)
            return ok

        def others(st, left):
            """operations between instructions, none of which may take a byte"""
            for m in MODES:
                for what, key, a in (("a read of KBSR", "io_read", (I(KBSR, 16), var("eff", 1))), ("a KBDR read without effects", "io_read", (I(KBDR, 16), FALSE)),
                                     ("an interrupt poll", "poll_interrupt", ()), ("a write to KBSR", "io_write", (I(KBSR, 16), var("w", 16))), ("a write to KBDR", "io_write", (I(KBDR, 16), var("w", 16)))):
                    for s, r in D.call(st, loc, key, m, *a):
                        if any(e[0] == "waited" for e in s.events()) and m == "held":
                            continue
                        if "KBSR" in what and "read" in what:
                            continue
                        q_same(s, left, "%s (lock %s)" % (what, m), what.replace(" ", "_"), R3)

        def status(st, m):
            """(state, ready) after reading KBSR"""
            out = []
            for s, r in D.call(st, loc, "io_read", m, I(KBSR, 16), TRUE):
                k, v = opt(X, s, r, P)
                if not k:
                    K.undecided(R2, "KBSR reads %s" % show(r))
                    continue
                if v is None:
                    K.judge(R2, "none", not feasible(s), "KBSR cannot be read (lock %s)" % m)
                    continue
                b = bits(s.resolve(v))[15]
                if b not in (0, 1):
                    K.undecided(R2, "KBSR reads %s (lock %s, %d bytes queued)" % (show(s.resolve(v)), m, len(D.buffer(s) or ())))
                    continue
                out.append((s, b == 1))
            return out
        # status
        left = bs
        cur = st0
        for m in MODES:
            for s, rdy in status(cur, m):
                if m != "held":
                    K.judge(R2, "free:%s" % ("queued" if n else "empty"), rdy == (n > 0) or not feasible(s), "KBSR reads %s with %d bytes queued (lock %s)" % ("ready" if rdy else "not ready", n, m), (n, m))
                elif not n:
                    K.judge(R2, "held:empty", (not rdy) or not feasible(s), "KBSR reads ready although the queue is empty (lock held by another thread)", m)
        # a queue that runs empty while the status is read under contention must not be announced: the status may not rest on a guess
        others(st0, bs)
        # protocol
        frontier = [(st0, 0)]
        for rnd in range(n):
            nxt = {}
            for st, k in frontier:
                want = bs[k]
                for m1 in MODES:
                    for s, rdy in status(st, m1):
                        if not rdy:
                            continue
                        for mp in MODES + (None,):
                            ss = [(s, None)] if mp is None else D.call(s, loc, "poll_interrupt", mp)
                            for s1, _ in ss:
                                for m2 in MODES:
                                    for s2, r in D.call(s1, loc, "io_read", m2, I(KBDR, 16), TRUE):
                                        kn, v = opt(X, s2, r, P)
                                        what = "KBSR ready (lock %s), then KBDR read (lock %s)" % (m1, m2)
                                        if not kn:
                                            K.undecided(R1, "%s: %s" % (what, show(r)))
                                            continue
                                        if v is None:
                                            key = "kbdr-contended" if m2 == "held" else "nothing"
                                            K.judge(R1, key, not feasible(s2), "%s: the read delivers nothing (the program sees the stale memory word instead of the queued byte) (%s)" % (what, P.loc(D.f["io_read"], D.f["io_read"]["line"])), what)
                                            continue
                                        K.judge(R1, "value", same(X, s2, v, zext(want, 16)), lambda: "%s delivers %s, expected the oldest byte %s" % (what, show(s2.resolve(v)), show(want)), what)
                                        if m2 == "held":
                                            continue
                                        # the byte is gone exactly once: deliver the rest with the lock free
                                        rest = bs[k + 1:]
                                        kk = tuple(show(x) for x in (D.buffer(s2) or ())) + (show(X.load(s2, loc, ())),)
                                        nxt.setdefault(kk, (s2, k + 1))
            frontier = list(nxt.values())
            for s, k in frontier:
                if k < n:
                    for s1, rdy in status(s, "free"):
                        K.judge(R2, "remaining", rdy or not feasible(s1), "KBSR reads not ready although %d bytes are still to be delivered" % (n - k))
                else:
                    for s1, rdy in status(s, "free"):
                        K.judge(R1, "extra", (not rdy) or not feasible(s1), "KBSR still reads ready after all %d queued bytes were delivered" % n)
                others(s, bs[k:])
        K.saw(X)
        for p in X.panics:
            K.judge(R1, "panic", not feasible(p.st), "a keyboard register access can panic (%s)" % p.kind)


def dsp_rules(K):
    P = K.P
    R1, R2, R3 = "display-delivery", "display-status", "display-output"
    K.rule(R1, "after DSR reads ready, a DDR write appends exactly its low byte to the buffer", 6)
    K.rule(R2, "DSR reads ready whenever the lock is free and never while the buffer is locked by another thread", 3)
    K.rule(R3, "nothing but a DDR write changes the buffer", 6)
    for n in range(0, 3):
        bs = [var("shown%d" % i, 8) for i in range(n)]
        D = DevModel(K, "BufferedDisplay", bs)
        if not D.ready():
            K.undecided(R1, "display functions not found")
            return
        X = D.X
        st0, loc = D.start()

        def status(st, m):
            out = []
            for s, r in D.call(st, loc, "io_read", m, I(DSR, 16), TRUE):
                k, v = opt(X, s, r, P)
                if not k:
                    K.undecided(R2, "DSR reads %s" % show(r))
                    continue
                b = 0 if v is None else bits(s.resolve(v))[15]
                if b not in (0, 1):
                    K.undecided(R2, "DSR reads %s (lock %s)" % (show(s.resolve(v)), m))
                    continue
                out.append((s, b == 1))
            return out

        def compare(rule, key, st, want, what):
            got = D.buffer(st)
            if got is None:
                K.undecided(rule, "%s: buffer %s" % (what, show(st.store[D.buf])))
                return
            res = None if len(got) == len(want) else False
            if res is None:
                rs = [same(X, st, a, b) for a, b in zip(got, want)]
                res = False if False in rs else None if None in rs else True
            K.judge(rule, key, True if res is False and not feasible(st) else res, lambda: "%s leaves the display buffer as %s, expected %s (%s)" % (what, [show(x) for x in got], [show(x) for x in want], P.loc(D.f["io_write"], D.f["io_write"]["line"])), what)

        for m in MODES:
            for s, rdy in status(st0, m):
                if m != "held":
                    K.judge(R2, "free", rdy or not feasible(s), "DSR reads not ready although the buffer is free (lock %s)" % m, m)
                compare(R3, "status", s, bs, "a DSR read (lock %s)" % m)
                if not rdy:
                    continue
                for m2 in MODES:
                    ch = var("char", 16)
                    for s2, r in D.call(s, loc, "io_write", m2, I(DDR, 16), ch):
                        what = "DSR ready (lock %s), then DDR written (lock %s)" % (m, m2)
                        # once the lock is free again
                        for s3, _ in D.call(s2, loc, "poll_interrupt", "free"):
                            for s4, _ in status(s3, "free"):
                                contended = m2 == "held" or m == "held"
                                got = D.buffer(s4)
                                lost = contended and got is not None and len(got) == n
                                key = "ddr-contended" if lost and m2 == "held" and m != "held" else "written"
                                compare(R1, key, s4, bs + [trunc(ch, 8)], what)
                                # and a second byte follows in order
                                if m2 == "free" and m == "free":
                                    c2 = var("char2", 16)
                                    for s5, _ in D.call(s4, loc, "io_write", "free", I(DDR, 16), c2):
                                        compare(R1, "order", s5, bs + [trunc(ch, 8), trunc(c2, 8)], "two bytes written in turn")
                        if m2 != "held":
                            d = s2.decide(r) if r.w == 1 else None
                            K.judge(R1, "accepted", True if d is True else False if d is False and feasible(s2) else None, "%s: the write is reported as failed" % what, what)
        for m in MODES:
            for what, key, a in (("an interrupt poll", "poll_interrupt", ()), ("a DDR read", "io_read", (I(DDR, 16), TRUE)), ("a DSR write", "io_write", (I(DSR, 16), var("w", 16)))):
                for s, r in D.call(st0, loc, key, m, *a):
                    compare(R3, what.replace(" ", "_"), s, bs, "%s (lock %s)" % (what, m))
        K.saw(X)
        for p in X.panics:
            K.judge(R1, "panic", not feasible(p.st), "a display register access can panic (%s)" % p.kind)


def path_rules(K):
    """a processor access to one of the four registers reaches the attached device exactly once"""
    P = K.P
    S = Sim(P)
    R = "register-access"
    K.rule(R, "a load from (store to) KBSR, KBDR, DSR or DDR reaches the attached device exactly once, with effects, and yields what the device answered", 4)
    fn, fmap = P.fn("DeviceHandler::new"), P.fn("InternalRegister::default_mmap")
    sd = P.adt("SimDevice")
    if fn is None or fmap is None or sd is None or S.fidx(P.adt("DeviceHandler"), "devices")[0] is None:
        K.undecided(R, "device handler constructor not found")
        return
    for which in ("read_mem", "write_mem"):
        f = P.fn("Simulator::" + which)
        if f is None:
            K.undecided(R, which + " not found")
            continue
        for addr, dev, slot, name in ((KBSR, "Keyboard", 1, "KBSR"), (KBDR, "Keyboard", 1, "KBDR"), (DSR, "Display", 2, "DSR"), (DDR, "Display", 2, "DDR")):
            if which == "write_mem" and name in ("KBDR", "DSR"):
                continue
            H = {}
            m = "io_read" if which == "read_mem" else "io_write"
            for t in ("keyboard::BufferedKeyboard", "display::BufferedDisplay"):
                def h(X, st, fr, a, retty, fn, t=t):
                    r = X.fresh("dev", retty)
                    st.emit("acc", t.split("::")[1][8:], a[1:], r)
                    return [(st, r)]
                H["<%ssim::device::%s as %s>::%s" % (CR, t, ED, m)] = h
            X = Interp(P, H)
            st, vs = X.start(f)
            try:
                hs = X.exec_fn(fn, [], st)
                if len(hs) != 1:
                    raise Limit("DeviceHandler::new has %d paths" % len(hs))
                st, dh = hs[0]
                st, mm = X.exec_fn(fmap, [], st)[0]
                dv = flat_seq(X, st, S.get(X, dh, "devices"))
                kb = {i: agg(P, sd, P.variant_idx(sd, v), *[X.fresh("inner", fl[1]) for fl in P.types[sd]["v"][P.variant_idx(sd, v)]["f"]]) for i, v in ((1, "Keyboard"), (2, "Display"))}
                dty = S.fidx(P.adt("DeviceHandler"), "devices")[1]
                dh = with_fields(X, dh, {"devices": arr(dty, *[kb.get(i, x) for i, x in enumerate(dv)])})
                loc = X.deref_loc(vs[0])
                s0 = X.load(st, *loc)
                X.save(st, loc[0], loc[1], with_fields(X, s0, {"device_handler": dh, "ireg_mmap": mm}))
                vs = list(vs)
                vs[1] = I(addr, 16)
                ctx = vs[-1]
                st.assume(S.get(X, ctx, "privileged"), True)
                st.assume(S.get(X, ctx, "io_effects"), True)
                if which == "write_mem":
                    st.assume(S.get(X, ctx, "strict"), False)
                outs = X.exec_fn(f, vs, st)
            except (Limit, KeyError, TypeError) as e:
                K.undecided(R, "%s %s: %s" % (which, name, e))
                continue
            K.saw(X)
            for s, r in outs:
                ev = [e for e in s.events() if e[0] == "acc"]
                key = "%s %s" % ("load" if which == "read_mem" else "store", name)
                if X.opaque:
                    K.undecided(R, "%s: opaque %s" % (key, list(X.opaque)[:2]))
                    continue
                if len(ev) != 1:
                    K.judge(R, key, not feasible(s), "a %s reaches the attached device %d times (%s)" % (key, len(ev), P.loc(f, f["line"])), key)
                    continue
                _, d, a, res = ev[0]
                K.judge(R, key + " device", d == dev or not feasible(s), "a %s reaches the %s" % (key, d), key)
                K.judge(R, key + " address", same(X, s, a[0], I(addr, 16)), "a %s reaches the device as an access to %s" % (key, show(a[0])), key)
                if which == "read_mem":
                    K.judge(R, key + " effects", same(X, s, a[1], TRUE), "a %s reaches the device with effects %s" % (key, show(a[1])), key)
                    vi, rv = X.variant(s, res), X.variant(s, r)
                    if vi == 1 and rv == 0:
                        w = X.fld(r, 0, 0, P.types[r.ty]["v"][0]["f"][0][1])
                        dd = S.get(X, w, "data")
                        want = X.fld(res, 1, 0, P.types[res.ty]["v"][1]["f"][0][1])
                        K.judge(R, key + " value", same(X, s, dd, want), "a %s yields %s instead of the device's answer" % (key, show(s.resolve(dd))), key)
                else:
                    K.judge(R, key + " value", same(X, s, a[1], S.get(X, vs[2], "data")), "a %s passes %s to the device" % (key, show(a[1])), key)
    f = P.fn("Simulator::default_mem_ctx")
    if f is None:
        K.notes.append("default_mem_ctx not found")
        return
    X = Interp(P)
    st, vs = X.start(f)
    for s, r in X.exec_fn(f, vs, st):
        try:
            K.judge(R, "effects of execution", same(X, s, S.get(X, r, "io_effects"), TRUE), "executed instructions access devices without effects", "default_mem_ctx")
        except KeyError:
            K.undecided(R, "io_effects not found")


def run(K):
    for g, r in ((kbd_rules, "keyboard-delivery"), (dsp_rules, "display-delivery")):
        try:
            g(K)
        except Limit as e:
            K.undecided(r, str(e))
    path_rules(K)
