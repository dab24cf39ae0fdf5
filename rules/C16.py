"""C16: no machine state makes the simulator panic."""
from rules.devrules import *
from rules.runrules import Runner, RUNS
from rules import frames_gen
import re

EXPLAIN = ("Panic-site analysis: every assertion, unwrap, index and arithmetic check in the code reached by a step, the run loops, memory accesses, frame records, "
           "breakpoints, the fault-address query and the standard devices is shown unreachable on the abstract paths of its function, for arbitrary machine state.")
ASSUME = ["64-bit event counters (instructions, frame depth) do not wrap: 2^64 events are out of reach",
          "a timer's range is not empty (a construction-time requirement)"]


def counter(p):
    """increment of a 64-bit counter by one"""
    if p.kind != "assert:ovfAdd":
        return False
    ops = p.info[1]
    return len(ops) == 2 and any(isc(x) and cv(x) == 1 for x in ops) and all(x.w == 64 for x in ops)


def judge_panics(K, X, rule, where, extra=None):
    P = K.P
    n = 0
    for p in X.panics:
        if counter(p):
            continue
        s = p.st.copy()
        if extra and not extra(s, p):
            continue
        bad = feasible(s)
        key = "%s:%s" % (p.fn["def"].split("::", 1)[-1], p.kind)
        K.judge(rule, key, False if bad else True, "%s can panic: %s (%s) at %s" % (where, p.kind, cond_text(p), P.loc(p.fn, p.line)), key)
    K.ok(rule, where)


def cond_text(p):
    try:
        return show(p.info[0])
    except Exception:
        return str(p.info)[:80]


def run(K):
    P = K.P
    S = Sim(P)
    K.rule("step-panic", "no path of a step (strict mode on or off) reaches a panic", 2)
    for strict in (False, True):
        summ = stepmod.summarise(K, strict)
        X = summ[0]
        gaps(K, X, "step-panic")
        judge_panics(K, X, "step-panic", "step(strict=%s)" % strict)
    K.rule("memory-panic", "no memory access reaches a panic", 2)
    for w in ("read_mem", "write_mem"):
        M = MemCheck(K, w)
        gaps(K, M.X, "memory-panic")
        judge_panics(K, M.X, "memory-panic", w)
    K.rule("run-panic", "the run loops add no panic", 4)
    for fn in RUNS:
        R = Runner(K, fn)
        if R.outs is not None:
            judge_panics(K, R.X, "run-panic", fn)
    # helper functions with arbitrary arguments
    K.rule("helper-panic", "functions a step or the caller of a step uses never panic, for arbitrary arguments", 6)
    for n in ("Simulator::in_alloca", "Simulator::prefetch_pc", "Simulator::call_subroutine", "Breakpoint::check", "Simulator::hit_breakpoint", "Simulator::hit_halt",
              "FrameStack::push_frame", "FrameStack::pop_frame", "FrameStack::len", "FrameStack::frames", "ParameterList::get_arguments",
              "AccessObserver::update_mem_accesses", "AccessObserver::get_mem_accesses", "AccessObserver::clear", "AccessObserver::take_mem_accesses",
              "Simulator::default_mem_ctx", "PSR::set", "PSR::set_cc", "PSR::set_priority", "PSR::get", "PSR::priority", "PSR::cc", "Simulator::psr",
              "SimInstr::decode", "SimInstr::encode"):
        f = P.fn(n)
        if f is None:
            K.notes.append("%s not found" % n)
            continue
        generic(K, f, "helper-panic", n)
    frames_gen.push_panics(K, judge_panics)
    # devices
    K.rule("device-panic", "the keyboard, display, timer and empty devices never panic, whatever address is accessed and whoever holds the buffer lock", 8)
    for t in ("keyboard::BufferedKeyboard", "display::BufferedDisplay", "timer::TimerDevice", "NullDevice", "internals::SimDevice", "InterruptFromFn"):
        for m in ("io_read", "io_write", "io_reset", "poll_interrupt"):
            f = P.fn("<%ssim::device::%s as %s>::%s" % (CR, t, ED, m))
            if f is not None:
                generic(K, f, "device-panic", "%s::%s" % (t.split("::")[-1], m))
    K.rule("port-index", "the port table only names existing devices: it starts so, assigning a port checks the device exists, adding and removing devices keep it, so the dispatch index is in bounds", 4)
    for m in ("io_read", "io_write", "io_reset", "poll_interrupt"):
        f = P.fn("<%s as %s>::%s" % (DH, ED, m))
        if f is None:
            K.undecided("port-index", m)
            continue
        D = Dev(K, f, None, None, {"<%ssim::device::internals::SimDevice as %s>::%s" % (CR, ED, m): lambda X, st, fr, a, retty, fn: [(st, X.fresh("d", retty) if retty != P.unit else P.zst(P.unit))]})
        X = D.X
        gaps(K, X, "port-index")
        n = X.length(D.st0, S.get(X, D.s0, "devices"))

        def inv(s, p):
            return invariant(X, s, D.ports0, n, p)
        judge_panics(K, X, "port-index", "DeviceHandler::" + m, inv)
    invariant_rules(K)


def invariant(X, s, ports, n, p):
    """assume every port entry looked at is below the number of devices"""
    seen = set()
    for t in list(s.facts) + [k for k in s.iv if isinstance(k, T)] + [p.info[0]] + list(p.info[1]):
        if isinstance(t, T):
            subterms(t, seen)
    for t in seen:
        if t.op == "select" and t.args[0] is ports and t.w is not None:
            if not s.assume(lt(zext(t, 64), n), True):
                return False
    return True


def generic(K, f, rule, name):
    X = Interp(K.P)
    try:
        X.run(f)
    except Exception as e:
        K.undecided(rule, "%s: %r" % (name, e))
        return
    K.saw(X)
    gaps(K, X, rule)
    judge_panics(K, X, rule, name)


def invariant_rules(K):
    """port entries stay below the device count"""
    P = K.P
    S = Sim(P)
    R = "port-index"
    f = P.fn("DeviceHandler::new")
    if f:
        X = Interp(P)
        st, vs = X.start(f)
        for s, r in X.exec_fn(f, vs, st, None):
            d = object.__new__(Dev)
            d.P, d.S, d.X = P, S, X
            p = d.ports(s, r)
            n = X.length(s, S.get(X, r, "devices"))
            for a in (0, 2, 4, 6, 8, 511):
                v = zext(X.elem(s, p, I(a, 64), port_ty(P)), 64)
                K.judge(R, "new", same(X, s, lt(v, n), TRUE), "a new handler assigns port x%04X to a device %s that does not exist" % (IO + a, show(v)), "new")
    fs = [(m, g) for m in ("set_port", "add_device", "remove_device", "set_keyboard", "set_display") for g in P.fns_like("DeviceHandler::" + m)[:1]]
    for m, g in fs:
        def setup_add(X, st, vs):
            xs = (io_addr("port0"),)
            return mk("ref", (("val", mk("arr", xs, None, P.types[vs[2].ty]["e"])), ()), None, vs[2].ty)
        try:
            D = Dev(K, g, 5 if m != "set_port" else None, {2: setup_add} if m == "add_device" else None, bounded=6,
                    ports=mk("arr", tuple(var("own%d" % i, 16) for i in range(3)), None, None) if m == "remove_device" else None)
        except Exception as e:
            K.undecided(R, "%s: %r" % (m, e))
            continue
        X = D.X
        gaps(K, X, R)
        n0 = X.length(D.st0, S.get(X, D.s0, "devices"))
        for s, r in D.outs:
            s1 = D.final(s)
            p = D.ports(s, s1)
            n1 = X.length(s, S.get(X, s1, "devices"))
            idx = [I(i, 64) for i in range(3)] if m == "remove_device" else [zext(var("any_off", 9), 64)]
            for i in idx:
                old = X.elem(s, D.ports0, i, port_ty(P))
                s2 = s.copy()
                if not s2.assume(lt(zext(old, 64), n0), True):
                    continue
                for s3, new in split_sel(X, s2, p, i):
                    q = same(X, s3, lt(zext(new, 64), n1), TRUE)
                    K.judge(R, m, q, "after %s a port is assigned to %s although only %s devices exist" % (m, show(new), show(s3.resolve(n1))), m)


def split_sel(X, st, p, i):
    """value of p[i], case split on the store chain"""
    t = p
    out = []
    cur = [st]
    while t.op == "store":
        nxt = []
        for s in cur:
            for s2, q in split2(s, eq(t.args[1], i)):
                if q:
                    out.append((s2, t.args[2]))
                else:
                    nxt.append(s2)
        cur, t = nxt, t.args[0]
    return out + [(s, X.elem(s, t, i, port_ty(X.P))) for s in cur]
