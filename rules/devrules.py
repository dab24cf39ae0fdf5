"""Port table, device list and dispatch of the DeviceHandler; internal-register mapping table."""
from rules.simprops import *

DH = CR + "sim::device::DeviceHandler"
ED = CR + "sim::device::ExternalDevice"
IO = 0xFE00
NPORT = 0x200


class Dev:
    """one abstract call of a DeviceHandler function"""

    def __init__(self, K, f, ndev=None, args=None, hooks=None, self_arg=0, bounded=None, ports=None):
        P = self.P = K.P
        S = self.S = Sim(P)
        X = self.X = Interp(P, hooks or {})
        if bounded:
            X.bounded = bounded
        self.f = f
        st, vs = X.start(f)
        self.vs = list(vs)
        self.hty = P.adt("DeviceHandler")
        self.loc = X.deref_loc(vs[self_arg])
        s0 = X.load(st, *self.loc)
        self.dty = S.fidx(self.hty, "devices")[1]
        self.pty = S.fidx(self.hty, "io_ports")[1]
        over = {}
        self.devs = None
        if ndev is not None:
            self.devs = [var("dev%d" % i, None, P.types[self.dty]["a"][0]) for i in range(ndev)]
            over["devices"] = arr(self.dty, *self.devs)
        self.s0 = with_fields(X, s0, over)
        X.save(st, self.loc[0], self.loc[1], self.s0)
        for i, v in (args or {}).items():
            self.vs[i] = v(X, st, self.vs) if callable(v) else v
        self.st0 = st.copy()
        self.ports0 = self.ports(st, self.s0)
        if ports:
            # replace the port array by a short one
            l, p, ety = self.ports_loc(self.s0)
            self.ports0 = ports
            X.save(st, l, p, ports)
        self.outs = X.exec_fn(f, self.vs, st, None)
        K.saw(X)

    def ports_loc(self, s):
        X, P = self.X, self.P
        b = self.S.get(X, s, "io_ports")
        t = P.types[b.ty]
        ety = None
        if t.get("box"):
            ety = t["a"][0]
            b = X.fld(b, 0, 0, t["v"][0]["f"][0][1])
        l, p = X.deref_loc(b, ety)
        return l, p, ety

    def ports(self, st, s):
        l, p, _ = self.ports_loc(s)
        return self.X.load(st, l, p)

    def final(self, s):
        return self.X.load(s, *self.loc)


def port_at(X, st, ports, addr):
    """owner of an I/O address"""
    return X.elem(st, ports, zext(sub(addr, I(IO, 16)), 64), port_ty(X.P))


def port_ty(P):
    return P.tyname.get("u16")


def io_addr(name):
    """an arbitrary address in xFE00-xFFFF"""
    return mkbits(tuple(bits(var(name + "_off", 9))) + (1,) * 7)


def table_rules(K):
    P = K.P
    S = Sim(P)
    R = "port-table"
    K.rule(R, "the port table starts with exactly KBSR/KBDR owned by the keyboard slot 1 and DSR/DDR by the display slot 2", 1)
    f = P.fn("DeviceHandler::new")
    if f is None or S.fidx(P.adt("DeviceHandler"), "io_ports")[0] is None:
        K.undecided(R, "DeviceHandler::new / port table not found")
        return
    X = Interp(P)
    st, vs = X.start(f)
    outs = X.exec_fn(f, vs, st, None)
    K.saw(X)
    gaps(K, X, R)
    own = {0xFE00: 1, 0xFE02: 1, 0xFE04: 2, 0xFE06: 2}
    for s, r in outs:
        d = object.__new__(Dev)
        d.P, d.S, d.X = P, S, X
        ports = d.ports(s, r)
        devs = flat_seq(X, s, S.get(X, r, "devices"))
        K.judge(R, "slots", None if devs is None else len(devs) == 3, "a new handler has %s device slots, expected the null, keyboard and display slots" % (devs and len(devs)))
        for a in range(IO, 0x10000):
            v = s.resolve(port_at(X, s, ports, I(a, 16)))
            w = own.get(a, 0)
            if isc(v):
                K.judge(R, "x%04X" % a if w or cv(v) else "unowned", True if cv(v) == w else (False if feasible(s) else True), "a new handler assigns x%04X to slot %d, expected %d" % (a, cv(v), w), "x%04X" % a)
            else:
                K.undecided(R, "x%04X: %s" % (a, show(v)))
                break


def dispatch_rules(K):
    P = K.P
    R = "port-dispatch"
    K.rule(R, "an I/O access goes to the device the port table names for the address, with the address, effect flag and data unchanged, and to no other", 4)
    S = Sim(P)
    for m in ("io_read", "io_write"):
        f = P.fn("<%s as %s>::%s" % (DH, ED, m))
        if f is None:
            K.undecided(R, m + " not found")
            continue

        def h(X, st, fr, a, retty, fn):
            r = X.fresh("devr", retty)
            st.emit("disp", X.load(st, *X.deref_loc(a[0])), a[1:], r)
            return [(st, r)]
        n = 4
        for io in (True, False):
            def setup(X, st, vs):
                st.assume(lt(vs[1], I(IO, 16)), not io)
                return vs[1]
            D = Dev(K, f, None, {1: setup}, {"<%sdevice::internals::SimDevice as %s>::%s" % (CR + "sim::", ED, m): h})
            X = D.X
            gaps(K, X, R)
            for s, r in D.outs:
                ev = [e for e in s.events() if e[0] == "disp"]
                if not io:
                    vi = X.variant(s, r) if r.w is None else None
                    bad = bool(ev) or vi == 1 or r.w is not None and same(X, s, r, FALSE) is False
                    K.judge(R, m + ":non-io", (False if feasible(s) else True) if bad else True, "%s of an address below xFE00 reaches a device or succeeds" % m, m)
                    continue
                if len(ev) != 1:
                    K.judge(R, m + ":once", False if feasible(s) else True, "%s of an I/O address reaches %d devices" % (m, len(ev)))
                    continue
                dv, args, res = ev[0][1:]
                want = X.elem(s, S.get(X, D.s0, "devices"), zext(port_at(X, s, D.ports0, D.vs[1]), 64), P.types[D.dty]["a"][0])
                q = same(X, s, dv, want)
                if q is None and dv.op == "select" and want.op == "select":
                    q = same(X, s, dv.args[1], want.args[1])
                K.judge(R, m + ":owner", q, "%s goes to %s, expected the owner of the port %s" % (m, show(dv), show(want)), m)
                for x, y in zip(args, D.vs[1:]):
                    K.judge(R, m + ":args", same(X, s, x, y), "%s passes %s, expected %s" % (m, show(x), show(y)), m)
                K.judge(R, m + ":result", same(X, s, r, res), "%s returns %s, expected the device's answer %s" % (m, show(r), show(res)), m)
    # device kinds
    R = "device-dispatch"
    K.rule(R, "each connected device receives exactly the accesses made to it; an empty slot answers nothing", 8)
    sd = P.adt("SimDevice")
    for m in ("io_read", "io_write", "io_reset"):
        f = P.fn("<%sdevice::internals::SimDevice as %s>::%s" % (CR + "sim::", ED, m))
        if f is None:
            K.undecided(R, m + " not found")
            continue
        for vi, v in enumerate(P.types[sd]["v"]):
            n = v["n"].split("::")[-1]
            H = {}

            def mkh(tag):
                def h(X, st, fr, a, retty, fn):
                    r = X.fresh("devr", retty) if retty != P.unit else P.zst(P.unit)
                    st.emit("fwd", tag, X.load(st, *X.deref_loc(a[0])), a[1:], r)
                    return [(st, r)]
                return h
            for t in ("keyboard::BufferedKeyboard", "display::BufferedDisplay"):
                H["<%ssim::device::%s as %s>::%s" % (CR, t, ED, m)] = mkh(t.split("::")[1][8:])
            X = Interp(P, H)
            st, vs = X.start(f)
            loc = X.deref_loc(vs[0])
            inner = [X.fresh("inner", fl[1]) for fl in v["f"]]
            X.save(st, loc[0], loc[1], agg(P, sd, vi, *inner))
            try:
                outs = X.exec_fn(f, vs, st, None)
            except Exception as e:
                K.undecided(R, "%s/%s: %r" % (m, n, e))
                continue
            K.saw(X)
            for s, r in outs:
                ev = [e for e in s.events() if e[0] in ("fwd", "dyn")]
                if n == "Null":
                    none_ = True if m == "io_reset" else same(X, s, r, FALSE) if r.w is not None else (None if X.variant(s, r) is None else X.variant(s, r) == 0)
                    K.judge(R, "%s:%s" % (m, n), none_ if not ev else (False if feasible(s) else True), "%s of an empty slot gives %s" % (m, show(r)), m)
                    continue
                if len(ev) != 1:
                    K.judge(R, "%s:%s" % (m, n), (False if feasible(s) else True) if not X.opaque else None, "%s is forwarded %d times to a %s device" % (m, len(ev), n))
                    continue
                e = ev[0]
                if e[0] == "fwd":
                    ok = e[1] == n and same(X, s, e[2], inner[0])
                    args, res = e[3], e[4]
                else:
                    ok = e[1].endswith("::" + m)
                    args, res = e[2][1:], r
                K.judge(R, "%s:%s" % (m, n), ok if ok is not False or feasible(s) else True, "%s of a %s device is forwarded to %s" % (m, n, e[1]), n)
                for x, y in zip(args, vs[1:]):
                    K.judge(R, "%s:%s-args" % (m, n), same(X, s, x, y), "%s passes %s on to a %s device, expected %s" % (m, show(x), n, show(y)), n)
                K.judge(R, "%s:%s-result" % (m, n), same(X, s, r, res), "%s of a %s device returns %s" % (m, n, show(r)), n)


def keep_ports(K, R, D, s, s1, key, txt):
    X = D.X
    p = D.ports(s, s1)
    x = io_addr("any_port")
    K.judge(R, key, same(X, s, port_at(X, s, p, x), port_at(X, s, D.ports0, x)), txt, key)


def fixed_rules(K):
    """set_keyboard / set_display"""
    P = K.P
    R = "fixed-slots"
    K.rule(R, "set_keyboard / set_display replace exactly the keyboard / display slot and leave the port table alone", 1)
    S = Sim(P)
    for m, slot in (("set_keyboard", 1), ("set_display", 2)):
        fs = P.fns_like("DeviceHandler::" + m)
        if not fs:
            K.notes.append("%s has no monomorphic instance in the crate" % m)
        for f in fs:
            try:
                D = Dev(K, f, 4)
            except Exception as e:
                K.undecided(R, "%s: %r" % (m, e))
                continue
            X = D.X
            gaps(K, X, R)
            for s, r in D.outs:
                s1 = D.final(s)
                xs = flat_seq(X, s, S.get(X, s1, "devices"))
                if xs is None or len(xs) != 4:
                    K.undecided(R, "%s: device list %s" % (m, show(S.get(X, s1, "devices"))))
                    continue
                for i in range(4):
                    if i != slot:
                        K.judge(R, "%s:slot%d" % (m, i), same(X, s, xs[i], D.devs[i]), "%s changes device slot %d" % (m, i), m)
                K.judge(R, "%s:set" % m, (False if feasible(s) else True) if xs[slot] is D.devs[slot] else True, "%s does not replace device slot %d" % (m, slot), m)
                keep_ports(K, R, D, s, s1, m + ":ports", "%s changes the port table" % m)


def add_rules(K):
    P = K.P
    R = "add-device"
    K.rule(R, "add_device succeeds exactly when every requested address is an I/O address no device owns; it then owns exactly these in addition, under a new id", 1)
    S = Sim(P)
    fs = P.fns_like("DeviceHandler::add_device")
    if not fs:
        K.undecided(R, "add_device has no instance in the crate")
    for f in fs[:1]:
        for n, mode in ((0, "any"), (1, "any"), (2, "any"), (1, "io"), (2, "same"), (2, "differ")):
            # any: arbitrary addresses;  io/same/differ: I/O addresses, equal or different
            xs = [var("port%d" % i, 16) if mode == "any" else io_addr("port%d" % (0 if mode == "same" else i)) for i in range(n)]

            def mkargs(X, st, vs):
                ety = P.types[vs[2].ty]["e"]
                return mk("ref", (("val", mk("arr", tuple(xs), None, ety)), ()), None, vs[2].ty)
            try:
                def mka(X, st, vs):
                    if mode == "differ":
                        st.assume(eq(trunc(xs[0], 9), trunc(xs[1], 9)), False)
                    return mkargs(X, st, vs)
                D = Dev(K, f, 4, {2: mka}, bounded=6)
            except Exception as e:
                K.undecided(R, "%d addresses: %r" % (n, e))
                continue
            X = D.X
            gaps(K, X, R)
            if not D.outs:
                K.undecided(R, "no path for %d addresses" % n)
            for st, r in D.outs:
                vi = X.variant(st, r)
                if vi is None:
                    K.undecided(R, "result %s" % show(r))
                    continue
                free = [band(bnot(lt(x, I(IO, 16))), eq(port_at(X, st, D.ports0, x), I(0, 16))) for x in xs]
                s1 = D.final(st)
                devs = flat_seq(X, st, S.get(X, s1, "devices"))
                if vi == 0:
                    for i, c in enumerate(free):
                        s = st.copy()
                        bad = s.assume(c, False) and feasible(s)
                        K.judge(R, "refuse", False if bad else True, "add_device accepts an address that is not an I/O address or is already owned (%d addresses)" % n, n)
                    got = X.fld(r, 0, 0, P.types[r.ty]["v"][0]["f"][0][1])
                    K.judge(R, "new-id", same(X, st, got, I(4, 16)), "add_device returns id %s with 4 devices ever added" % show(got), n)
                    K.judge(R, "append", None if devs is None else (len(devs) == 5 and all(devs[i] is D.devs[i] for i in range(4))) or (False if feasible(st) else True), "add_device leaves the device list as %s" % (devs and [show(d) for d in devs]), n)
                    if n and mode == "any":
                        continue
                    p = D.ports(st, s1)
                    for x in xs:
                        K.judge(R, "owns", same(X, st, port_at(X, st, p, x), I(4, 16)), "after add_device the requested port has owner %s" % show(port_at(X, st, p, x)), n)
                    y = io_addr("any_port")
                    s = st.copy()
                    ok = True
                    for x in xs:
                        ok = ok and s.assume(eq(trunc(y, 9), trunc(x, 9)), False)
                    if ok:
                        K.judge(R, "others-kept", same(X, s, port_at(X, s, p, y), port_at(X, s, D.ports0, y)), "add_device changes a port that was not requested", n)
                else:
                    s = st.copy()
                    ok = all([s.assume(c, True) for c in free])
                    K.judge(R, "accept", False if ok and feasible(s) else True, "add_device refuses although every requested address is a free I/O address (%d addresses)" % n, n)
                    K.judge(R, "refuse-keeps", None if devs is None else (len(devs) == 4 and all(a is b for a, b in zip(devs, D.devs))) or (False if feasible(st) else True), "a refused add_device changes the device list", n)
                    keep_ports(K, R, D, st, s1, "refuse-keeps", "a refused add_device changes the port table")


def remove_rules(K):
    P = K.P
    R = "remove-device"
    K.rule(R, "remove_device empties exactly the given slot, frees exactly its ports (keyboard and display ports stay reserved) and never shortens the device list", 4)
    S = Sim(P)
    f = P.fn("DeviceHandler::remove_device")
    if f is None:
        K.undecided(R, "remove_device not found")
        return
    for slot in range(6):
        D0 = Dev(K, f, 5, {1: I(slot, 16)}, bounded=None)
        ps = [var("own%d" % i, 16) for i in range(3)]
        pl, pp, ety = D0.ports_loc(D0.s0)
        short = mk("arr", tuple(ps), None, None)
        try:
            D = Dev(K, f, 5, {1: I(slot, 16)}, bounded=6, ports=short)
        except Exception as e:
            K.undecided(R, "slot %d: %r" % (slot, e))
            continue
        X = D.X
        gaps(K, X, R)
        for st, r in D.outs:
            s1 = D.final(st)
            devs = flat_seq(X, st, S.get(X, s1, "devices"))
            if devs is None:
                K.undecided(R, "device list %s" % show(S.get(X, s1, "devices")))
                continue
            if len(devs) != 5:
                K.judge(R, "length", False if feasible(st) else True, "removing device %d changes the number of device slots to %d, so an id can be reused" % (slot, len(devs)))
                continue
            for i in range(5):
                if i != slot:
                    K.judge(R, "other-slots", (devs[i] is D.devs[i]) or (False if feasible(st) else True), "removing device %d changes device slot %d" % (slot, i), slot)
                else:
                    vi = X.variant(st, devs[i])
                    K.judge(R, "emptied", None if vi is None and devs[i] is not D.devs[i] else (vi is not None and P.vname(devs[i].ty, vi) == "Null") or (False if feasible(st) else True), "removing device %d leaves %s in its slot" % (slot, show(devs[i])), slot)
            p = D.ports(st, s1)
            n = st.resolve(X.length(st, p))
            if not isc(n) or cv(n) != 3:
                K.undecided(R, "port table %s" % show(p))
                continue
            for i in range(3):
                v = X.elem(st, p, I(i, 64), port_ty(P))
                want = ite(eq(ps[i], I(slot, 16)), I(0, 16), ps[i]) if slot in (3, 4) else ps[i]
                K.judge(R, "ports:%s" % ("removed" if slot in (3, 4) else "fixed" if slot < 3 else "absent"), same(X, st, v, want), "removing device %d turns a port owned by %s into one owned by %s, expected %s" % (slot, show(ps[i]), show(v), show(want)), slot)


def ireg_rules(K):
    """default_mmap, mmap_internal, munmap_internal"""
    P = K.P
    S = Sim(P)
    R = "register-map"
    K.rule(R, "internal registers are mapped at xFFFC (PSR) and xFFFE (MCR) initially; mmap_internal adds exactly the given mapping to an unmapped I/O address and munmap_internal removes exactly it", 4)
    it = P.adt("InternalRegister")
    f = P.fn("InternalRegister::default_mmap")
    if f is not None:
        X = Interp(P)
        st, vs = X.start(f)
        for s, r in X.exec_fn(f, vs, st, None):
            K.saw(X)
            m = {}
            t = r
            while t.op == "minsert":
                k = s.resolve(t.args[1])
                vi = X.variant(s, t.args[2])
                if isc(k) and vi is not None:
                    m.setdefault(cv(k), P.vname(it, vi))
                t = t.args[0]
            if t.op != "mempty":
                K.undecided(R, "default map %s" % show(r))
                continue
            K.judge(R, "default", m == {0xFFFC: "PSR", 0xFFFE: "MCR"}, "the initial register map is %s" % {"x%04X" % k: v for k, v in m.items()}, "default")
    iri, irt = S.fidx(S.ty, "ireg_mmap")
    if iri is None:
        K.undecided(R, "no register map field")
        return
    other = var("other_addr", 16)
    for fn in ("mmap_internal", "munmap_internal"):
        f = P.fn("Simulator::" + fn)
        if f is None:
            K.undecided(R, fn + " not found")
            continue
        for present in (True, False):
            X = Interp(P)
            st, vs = X.start(f)
            loc = X.deref_loc(vs[0])
            s0 = X.load(st, *loc)
            a = vs[1]
            st.assume(eq(a, other), False)
            r0, r1 = enumv(P, it, "PC"), enumv(P, it, "SavedSP")
            m0 = mk("minsert", (mk("mempty", (), None, irt), other, r0), None, irt)
            if present:
                m0 = mk("minsert", (m0, a, r1), None, irt)
            s0 = with_fields(X, s0, {"ireg_mmap": m0})
            X.save(st, loc[0], loc[1], s0)
            outs = X.exec_fn(f, vs, st, None)
            K.saw(X)
            gaps(K, X, R)
            for s, r in outs:
                m1 = S.get(X, X.load(s, *loc), "ireg_mmap")
                after = mapget(X, s, m1, a, it)
                key = "%s:%s" % (fn, "mapped" if present else "unmapped")
                q = mapget(X, s, m1, other, it)
                K.judge(R, key + ":others", None if q is None else q == "PC" or (False if feasible(s) else True), "%s changes the mapping of another address (%s)" % (fn, q), key)
                if fn == "munmap_internal":
                    K.judge(R, key, None if after is None else after == "-" or (False if feasible(s) else True), "after munmap_internal the address is still mapped to %s" % after, key)
                    K.judge(R, key + ":result", same(X, s, r, I(int(present), 1)), "munmap_internal returns %s for a %s address" % (show(r), "mapped" if present else "unmapped"), key)
                    continue
                vi = X.variant(s, r)
                if vi is None:
                    K.undecided(R, key)
                    continue
                ok = not present
                for s2, io in split2(s, bnot(lt(a, I(IO, 16)))):
                    want_ok = io and not present
                    K.judge(R, key + ":result", (vi == 0) == want_ok or (False if feasible(s2) else True), "mmap_internal %s for %s address" % ("succeeds" if vi == 0 else "fails", "an already mapped" if present and io else "a free I/O" if io else "a non-I/O"), key)
                if vi == 0:
                    av = mapterm(X, s, m1, a)
                    K.judge(R, key + ":set", None if av is None else same(X, s, av, vs[2]), "after mmap_internal the address maps to %s" % (show(av) if av is not None else None), key)
                else:
                    want = "SavedSP" if present else "-"
                    K.judge(R, key + ":kept", None if after is None else after == want or (False if feasible(s) else True), "a failed mmap_internal changes the mapping to %s" % after, key)


def split2(st, c):
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    out = []
    for v in (True, False):
        s = st.copy()
        if s.assume(c, v):
            out.append((s, v))
    return out


def mapterm(X, st, m, key):
    t = m
    while t.op in ("minsert", "mremove"):
        d = st.decide(eq(t.args[1], key))
        if d is None:
            return None
        if d:
            return t.args[2] if t.op == "minsert" else None
        t = t.args[0]
    return None


def mapget(X, st, m, key, vty):
    """variant name, '-' (absent) or None (unknown)"""
    t = m
    while t.op in ("minsert", "mremove"):
        d = st.decide(eq(t.args[1], key))
        if d is None:
            return None
        if d:
            if t.op == "mremove":
                return "-"
            vi = X.variant(st, t.args[2])
            return None if vi is None else X.P.vname(vty, vi)
        t = t.args[0]
    return "-" if t.op == "mempty" else None
