"""C10: interrupts are priority-gated and transparent to the interrupted program."""
from rules.simprops import *

EXPLAIN = ("Every step path is compared with the reference interrupt cycle: one poll before anything else, entry exactly when the request's priority exceeds the PSR's, "
           "stack switch, PSR/PC saved, vector read, and RTI as the exact inverse; the device handler's arbitration is summarised for 0-3 devices with symbolic requests.")
KINDS = ("interrupt", "interrupt-entry", "RTI")


def run(K):
    P = K.P
    summ = stepmod.summarise(K, False)
    X, S, s0, f, paths = summ

    def keep(R):
        k = R.kind
        return k in KINDS or k == "fetch" and getattr(R, "pending", False) or any(k.endswith("after " + x) for x in KINDS)

    step_rules(K, {"result": "entry-gate", "effects": "state-saved", "pc": "vector", "psr": "psr", "saved_sp": "stack-switch", "regs": "registers", "count": "not-an-instruction",
                   "mem": "memory-kept", "config": "config-kept"}, keep=keep, summary=summ)
    K.rule("boundary", "device requests are polled once per step, before the fetch, and nowhere else", 5)
    for p in paths:
        n = len(p.polls)
        if n == 1:
            before = [e for e in p.events[:p.polls[0]] if e[0] in ("rd", "wr", "fpush", "fpop", "fail")]
            K.judge("boundary", "order", True if not before else (False if feasible(p.st) else True), "the step has effects (%s) before it polls the devices" % [e[0] for e in before], f["def"])
        else:
            K.judge("boundary", "polls", False if feasible(p.st) else True, "a step polls the devices %d times" % n, f["def"])
    who_polls(K)
    arbitration(K)
    requests(K)


def who_polls(K):
    """the set of functions from which the poll is reachable"""
    P = K.P
    K.rule("poll-callers", "device requests are consumed only by the step's interrupt poll (call-graph query)", 1)
    tgt = "<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::poll_interrupt"
    callers = {}
    for g in P.fns.values():
        if g.get("local"):
            for nm, _, line in P.callees(g):
                if nm == tgt:
                    callers.setdefault(g["def"], line)
    summ = set(K.fns)
    for c, line in sorted(callers.items()):
        K.judge("poll-callers", c, True if c in summ else None, "%s polls the devices outside of a step" % c, c)
    if not callers:
        K.undecided("poll-callers", "no static caller of the device poll found")


def arbitration(K):
    P, S = K.P, Sim(K.P)
    K.rule("arbitration", "the handler's request is one a device made with no other request of higher priority (an external interrupt outranks all); none exactly when no device requests", 4)
    D = "<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::poll_interrupt"
    f = P.fn(D)
    if f is None:
        K.undecided("arbitration", "DeviceHandler::poll_interrupt not found")
        return
    it = P.adt("Interrupt")
    for n in (0, 1, 2, 3):
        seen = []

        def poll(X, st, fr, a, retty, fn):
            loc, path = X.deref_loc(a[0])
            d = X.load(st, loc, path)
            r = X.fresh("req", retty)
            st.emit("polled", d, r)
            return [(st, r)]

        X = Interp(P, {"<" + CR + "sim::device::internals::SimDevice as " + CR + "sim::device::ExternalDevice>::poll_interrupt": poll})
        X.bounded = 5
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        s0 = X.load(st, *loc)
        di, dt = S.fidx(s0.ty, "devices")
        if di is None:
            K.undecided("arbitration", "no device list")
            return
        devs = [var("dev%d" % i, None, P.types[dt]["a"][0]) for i in range(n)]
        X.save(st, loc[0], loc[1], with_fields(X, s0, {"devices": arr(dt, *devs)}))
        outs = X.exec_fn(f, vs, st, None)
        K.saw(X)
        gaps(K, X, "arbitration")
        if not outs:
            K.undecided("arbitration", "no path for %d devices" % n)
        for s, r in outs:
            ev = [e for e in s.events() if e[0] == "polled"]
            got = [e[1] for e in ev]
            if sorted(map(id, got)) != sorted(map(id, devs)):
                K.judge("arbitration", "each-once", False if feasible(s) else True, "with %d devices the handler polls %s, expected each device once" % (n, [show(g) for g in got]))
                continue
            for s2, vals in cases(X, s, [e[2] for e in ev]):
                # vals: list of None | ('v', interrupt term, priority) | ('x', interrupt term)
                req = [(v, e[2]) for v, e in zip(vals, ev) if v is not None]
                for s3, isn in variants(X, s2, r):
                    if isn == 0:
                        K.judge("arbitration", "none", True if not req else (False if feasible(s3) else True), "the handler reports no request although device request %s is pending (%d devices)" % (show(req[0][1]) if req else "", n), "none of %d" % n)
                        continue
                    win = X.fld(r, 1, 0, P.types[r.ty]["v"][1]["f"][0][1])
                    if not req:
                        K.judge("arbitration", "spurious", False if feasible(s3) else True, "the handler reports %s although no device requests an interrupt" % show(win))
                        continue
                    judge_winner(K, X, s3, win, req, n)


def variants(X, st, r):
    out = []
    c = eq(X.discr(r, 64), I(1, 64))
    d = st.decide(c)
    for v in ((0, 1) if d is None else (int(d),)):
        s = st.copy()
        if d is not None or s.assume(c, bool(v)):
            out.append((s, v))
    return out


def prio(X, st, v, it):
    """[(state, ('v', prio) | ('x',))] of an Interrupt value"""
    P = X.P
    kf = P.types[it]["v"][0]["f"][0][1]
    kv = X.fld(v, 0, 0, kf)
    vi = P.variant_idx(kf, "Vectored")
    c = eq(X.discr(kv, 64), I(int(P.types[kf]["v"][vi]["d"]), 64))
    out = []
    d = st.decide(c)
    for b in ((True, False) if d is None else (d,)):
        s = st.copy()
        if d is None and not s.assume(c, b):
            continue
        if b:
            p = None
            for i, fl in enumerate(P.types[kf]["v"][vi]["f"]):
                if fl[0] == "priority":
                    p = X.fld(kv, vi, i, fl[1])
            # requests carry a 3-bit priority (rule 'request')
            if not s.assume(lt(p, I(8, 8)), True):
                continue
            out.append((s, p))
        else:
            out.append((s, I(8, 8)))
    return out


def cases(X, st, reqs):
    """case split on presence of each request"""
    out = [(st, [])]
    P = X.P
    for r in reqs:
        nxt = []
        for s, vals in out:
            for s2, present in variants(X, s, r):
                if not present:
                    nxt.append((s2, vals + [None]))
                    continue
                it = P.types[r.ty]["v"][1]["f"][0][1]
                iv = X.fld(r, 1, 0, it)
                for s3, p in prio(X, s2, iv, it):
                    nxt.append((s3, vals + [(iv, p)]))
        out = nxt
    return out


def judge_winner(K, X, st, win, req, n):
    it = win.ty if win.ty is not None else req[0][0][0].ty
    who = [q[0] for q in req if same(X, st, win, q[0][0]) is True]
    if not who:
        # the winner may depend on an undecided comparison: it must be one of the requests in every case
        for s2, p in prio(X, st, win, it):
            top = [lt(p, q[0][1]) for q in req]
            bad = [t for t in top if s2.decide(t) is True]
            K.judge("arbitration", "winner", False if bad and feasible(s2) else None, "the chosen request %s is outranked (%d devices)" % (show(win), n))
        return
    p = who[0][1]
    for q in req:
        if q[0] is who[0]:
            continue
        s = st.copy()
        worse = lt(p, q[0][1])
        if s.decide(worse) is False or not s.assume(worse, True):
            K.ok("arbitration", "%d devices" % n)
        else:
            K.judge("arbitration", "highest-wins", False if feasible(s) else True, "request with priority %s is chosen although one with priority %s is pending (%d devices)" % (show(p), show(q[0][1]), n))
    if len(req) == 1:
        K.ok("arbitration", "%d devices" % n)


def requests(K):
    """construction and priority of requests; per-device dispatch of the poll"""
    P, S = K.P, Sim(K.P)
    K.rule("request", "Interrupt::vectored keeps vector and priority (0-7); priority() returns it; external requests have none", 3)
    f = P.fn("Interrupt::vectored")
    g = P.fn("Interrupt::priority")
    if f is None or g is None:
        K.undecided("request", "Interrupt::vectored/priority not found")
    else:
        X = Interp(P)
        st, vs = X.start(f)
        for s, r in X.exec_fn(f, vs, st, None):
            K.saw(X)
            kf = P.types[r.ty]["v"][0]["f"][0][1]
            kv = X.fld(r, 0, 0, kf)
            vi = X.variant(s, kv)
            if vi is None or P.vname(kf, vi) != "Vectored":
                K.judge("request", "kind", None if vi is None else False, "Interrupt::vectored builds %s" % show(kv))
                continue
            for i, fl in enumerate(P.types[kf]["v"][vi]["f"]):
                v = X.fld(kv, vi, i, fl[1])
                if fl[0] == "vect":
                    K.judge("request", "vect", same(X, s, v, vs[0]), "Interrupt::vectored(v, p) has vector %s" % show(v))
                else:
                    s2 = s.copy()
                    if s2.assume(lt(vs[1], I(8, 8)), True):
                        K.judge("request", "priority", same(X, s2, v, vs[1]), "Interrupt::vectored(v, p) has priority %s for p < 8" % show(v))
                    lim = same(X, s, lt(v, I(8, 8)), TRUE)
                    K.judge("request", "priority-range", True if lim is True else None, "a request's priority %s may exceed 7" % show(v))
        X = Interp(P)
        st, vs = X.start(g)
        iv = X.load(st, *X.deref_loc(vs[0]))
        for s, r in X.exec_fn(g, vs, st, None):
            K.saw(X)
            for s2, p in prio(X, s, iv, P.adt("Interrupt")):
                for s3, some in variants(X, s2, r):
                    ext = isc(p)
                    if some == 0 or ext:
                        K.judge("request", "priority-query", (some == 0) == ext or (False if feasible(s3) else True), "priority() is %s for a %s request" % (show(r), "external" if ext else "vectored"))
                    else:
                        v = X.fld(r, 1, 0, P.types[r.ty]["v"][1]["f"][0][1])
                        K.judge("request", "priority-query", same(X, s3, trunc(v, 3), trunc(p, 3)), "priority() is %s for a request of priority %s" % (show(v), show(p)))
    # per-device dispatch
    K.rule("device-poll", "the poll of a connected device is forwarded to that device; an empty slot never requests", 2)
    f = P.fn("<" + CR + "sim::device::internals::SimDevice as " + CR + "sim::device::ExternalDevice>::poll_interrupt")
    if f is None:
        K.undecided("device-poll", "SimDevice::poll_interrupt not found")
        return
    dev = P.adt("SimDevice")
    for vi, v in enumerate(P.types[dev]["v"]):
        n = v["n"].split("::")[-1]
        called = []
        H = {}

        def mkh(tag):
            def h(X, st, fr, a, retty, fn):
                st.emit("dpoll", tag, X.load(st, *X.deref_loc(a[0])) if tag != "dyn" else None)
                return [(st, X.fresh("r_" + tag, retty))]
            return h
        for t in ("keyboard::BufferedKeyboard", "display::BufferedDisplay"):
            H["<" + CR + "sim::device::" + t + " as " + CR + "sim::device::ExternalDevice>::poll_interrupt"] = mkh(t.split("::")[1])
        X = Interp(P, H)
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        inner = [X.fresh("dev", fl[1]) for fl in v["f"]]
        X.save(st, loc[0], loc[1], agg(P, dev, vi, *inner))
        try:
            outs = X.exec_fn(f, vs, st, None)
        except Exception as e:
            K.undecided("device-poll", "%s: %r" % (n, e))
            continue
        K.saw(X)
        for s, r in outs:
            ev = [e for e in s.events() if e[0] == "dpoll"]
            if n == "Null":
                vv = X.variant(s, r)
                K.judge("device-poll", n, None if vv is None else vv == 0, "an empty device slot polls as %s" % show(r), n)
            elif n in ("Keyboard", "Display"):
                K.judge("device-poll", n, (len(ev) == 1 and n in ev[0][1] and "r_" in show(r)) or None, "the %s poll is not forwarded" % n, n)
            else:
                K.judge("device-poll", n, True if any(e[0] == "dyn" and e[1].endswith("poll_interrupt") for e in s.events()) and "poll_interrupt" in show(r) else None, "poll of a custom device gives %s" % show(r), n)
