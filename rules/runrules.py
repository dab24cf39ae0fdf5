"""Rules on the run loop: step_in, run, run_while's loop, run_with_limit, step_over, step_out.

Simulator::step is an event that gives an arbitrary next state; the callers are unrolled for up to three steps.
At every boundary between two steps the documented stop conditions are evaluated on the state terms and compared
with what the path does."""
from rules.simprops import *

DEPTH = 4


class Runner:
    def __init__(self, K, fn, setup=None):
        P = self.P = K.P
        S = self.S = Sim(P)
        self.K, self.name = K, fn
        self.f = P.fn("Simulator::" + fn)
        self.n = 0
        if self.f is None:
            self.outs = None
            return
        X = self.X = Interp(P, {CR + "sim::Simulator::step": self.step})
        X.bounded = DEPTH
        st, vs = X.start(self.f)
        self.vs = vs
        self.loc = X.deref_loc(vs[0])
        s0 = X.load(st, *self.loc)
        i, bt = S.fidx(S.ty, "breakpoints")
        bpt = P.adt("Breakpoint")
        cmpt = P.adt("Comparator")
        self.bps = []
        x0, x1 = var("bp_pc", 16), var("bp_val", 16)
        ri = P.variant_idx(bpt, "Reg")
        rf = {f[0]: f[1] for f in P.types[bpt]["v"][ri]["f"]}
        self.rv = var("bp_reg", 3)
        vals = {"reg": mk("enumof", (self.rv,), None, rf["reg"]), "value": enumv(P, cmpt, "Eq", x1)}
        self.x0, self.x1 = x0, x1
        k0 = enumv(P, bpt, "PC", x0)
        k1 = enumv(P, bpt, "Reg", *[vals[f[0]] for f in P.types[bpt]["v"][ri]["f"]])
        b = mk("mempty", (), None, bt)
        for k in (k0, k1):
            b = mk("minsert", (b, k, P.zst(P.unit)), None, bt)
        X.known_keys[b] = [k0, k1]
        X.save(st, self.loc[0], self.loc[1], with_fields(X, s0, {"breakpoints": b}))
        self.s0 = X.load(st, *self.loc)
        if setup:
            setup(self, st)
        self.outs = X.exec_fn(self.f, vs, st, None)
        K.saw(X)

    def step(self, X, st, fr, a, retty, fn):
        S = self.S
        loc, path = X.deref_loc(a[0])
        pre = X.load(st, loc, path)
        self.n += 1
        new = X.fresh("S%d" % self.n, S.ty)
        keep = {n: S.get(X, pre, n) for n in ("mcr", "breakpoints", "flags", "pause_condition")}
        new = with_fields(X, new, keep)
        X.save(st, loc, path, new)
        r = X.fresh("r%d" % self.n, retty)
        st.emit("step", pre, new, r)
        return [(st, r)]

    def holds_bp(self, st, s):
        X, S = self.X, self.S
        regs = S.get(X, s, "reg_file")
        ra = X.fld(regs, 0, 0, self.P.types[regs.ty]["v"][0]["f"][0][1])
        w = X.elem(st, ra, zext(self.rv, 64), S.W)
        return [eq(S.get(X, s, "pc"), self.x0), eq(S.get(X, w, "data", S.W), self.x1)]


def outcome(X, P, st, r):
    """'Ok' | 'Halt' | 'Err' of a step result on this path"""
    for nm, c in (("Ok", eq(X.discr(r, 64), I(0, 64))),):
        d = st.decide(c)
        if d is None:
            return None
        if d:
            return "Ok"
    e = X.fld(r, 1, 0, P.types[r.ty]["v"][1]["f"][0][1])
    hv = P.variant_idx(e.ty, "Halt")
    d = st.decide(eq(X.discr(e, 64), I(int(P.types[e.ty]["v"][hv]["d"]), 64)))
    return None if d is None else "Halt" if d else "Err"


def split(st, c):
    """states with c decided"""
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    out = []
    for v in (True, False):
        s = st.copy()
        if s.assume(c, v):
            out.append((s, v))
    return out


RUNS = {"run": "no tripwire", "run_with_limit": "instructions executed < limit", "step_over": "frame depth > starting depth",
        "step_out": "frame depth >= starting depth"}


def run_rules(K):
    P = K.P
    K.rule("stop-exactly", "each run function executes the next step exactly when the last step returned Ok, no breakpoint matches the reached state, the MCR is still set and its tripwire condition holds", 4)
    K.rule("no-extra-state", "between steps and after the last one nothing but the pause condition, the access record and the MCR changes", 4)
    K.rule("pause-cause", "the recorded pause condition is one that holds; errors are returned as they are; the MCR is set on entry and cleared on exit", 4)
    K.rule("mcr-checked", "the MCR is loaded between any two steps", 1)
    for fn in RUNS:
        R = Runner(K, fn)
        if R.outs is None:
            K.undecided("stop-exactly", "%s not found" % fn)
            continue
        X, S = R.X, R.S
        gaps(K, X, "stop-exactly")
        one(K, R, fn)
        for p in X.panics:
            K.judge("stop-exactly", fn + ":panic", False if feasible(p.st) else True, "%s can panic (%s at %s)" % (fn, p.info, P.loc(p.fn, p.line)))


def kept(K, R, st, a, b, rule, key, text):
    X, S, P = R.X, R.S, R.P
    for n, _ in [(f[0], 0) for f in P.types[S.ty]["v"][0]["f"]]:
        if n in ("pause_condition", "observer"):
            continue
        x, y = S.get(X, a, n), S.get(X, b, n)
        if x is y:
            continue
        K.judge(rule, "%s:%s" % (key, n), same(X, st, x, y), text % n)
    K.ok(rule, key)


def one(K, R, fn):
    X, S, P = R.X, R.S, R.P
    g = lambda s, n: S.get(X, s, n)
    fs0 = g(R.s0, "frame_stack")
    cnt0 = g(R.s0, "instructions_run")

    def depth(s):
        fsv = g(s, "frame_stack")
        i, ty = S.fidx(fsv.ty, "frame_no")
        return X.fld(fsv, 0, i, ty)

    d0 = depth(R.s0)

    def trip(s, k):
        """condition for executing another step, at boundary k"""
        if fn == "run":
            return TRUE
        if fn == "run_with_limit":
            return lt(sub(g(s, "instructions_run"), cnt0), R.vs[1])
        if fn == "step_over":
            return TRUE if k == 0 else lt(d0, depth(s))
        return bnot(eq(d0, I(0, 64))) if k == 0 else bnot(lt(depth(s), d0))

    for st, ret in R.outs:
        ev = st.events()
        # segments
        segs, cur = [], {"loads": [], "stores": [], "step": None}
        order = []
        for e in ev:
            if e[0] == "aload":
                cur["loads"].append(e[3])
                order.append("load")
            elif e[0] == "astore":
                cur["stores"].append(e[3])
                order.append(("store", e[3]))
            elif e[0] == "step":
                cur["step"] = e
                segs.append(cur)
                cur = {"loads": [], "stores": [], "step": None}
                order.append("step")
        tail = cur
        fin = X.load(st, *R.loc)
        state = R.s0
        prev = None
        skip = fn == "step_out" and not segs and not tail["stores"]
        kept(K, R, st, segs[0]["step"][1] if segs else fin, R.s0, "no-extra-state", fn + ":before", fn + " changes %s before its first step")
        ok = True
        for k, sg in enumerate(segs):
            pre, new, r = sg["step"][1:4]
            if k > 0:
                kept(K, R, st, state, pre, "no-extra-state", fn + ":between", fn + " changes %s between two steps")
            # may this step run?
            conds = [("the tripwire condition", trip(state, k), True)]
            if k > 0:
                o = outcome(X, P, st, prev)
                if o != "Ok":
                    K.judge("stop-exactly", fn + ":after-failure", None if o is None else False if feasible(st) else True, "%s runs another step after a step ended with %s" % (fn, o))
                for nm, c in zip(("a PC breakpoint", "a register breakpoint"), R.holds_bp(st, state)):
                    conds.append((nm + " not matching", c, False))
            for nm, c, want in conds:
                for s2, v in split(st, c):
                    if v == want:
                        K.ok("stop-exactly", "%s boundary %d: %s" % (fn, k, nm))
                    else:
                        K.judge("stop-exactly", "%s:continues:%s" % (fn, nm), False if feasible(s2) else True, "%s executes step %d although %s does not hold" % (fn, k + 1, nm))
            lv = [st.decide(x) for x in sg["loads"]]
            if not sg["loads"]:
                K.judge("mcr-checked", fn, False if feasible(st) else True, "%s executes step %d without looking at the MCR after the previous one" % (fn, k + 1))
            else:
                K.judge("mcr-checked", fn, True if all(v is True for v in lv) else False if (False in lv and feasible(st)) else None, "%s executes step %d although the MCR was cleared" % (fn, k + 1), fn)
            state, prev = new, r
        # stores: set before the first load, cleared at the end
        if skip:
            for s2, v in split(st, trip(R.s0, 0)):
                K.judge("stop-exactly", fn + ":nothing-to-leave", (not v) or (False if feasible(s2) else True), "%s does nothing although there is a frame to leave" % fn, fn)
            kept(K, R, st, R.s0, fin, "no-extra-state", fn + ":nothing", fn + " changes %s although it does nothing")
            continue
        K.judge("pause-cause", fn + ":mcr-set", True if order and order[0] != "step" and isinstance(order[0], tuple) and st.decide(order[0][1]) is True else (False if feasible(st) else True), "%s does not set the MCR before running" % fn, fn)
        kept(K, R, st, state, fin, "no-extra-state", fn + ":after", fn + " changes %s after its last step")
        # why did it stop?
        vi = X.variant(st, ret)
        k = len(segs)
        o = outcome(X, P, st, prev) if prev is not None else "Ok"
        if o is None or vi is None:
            for s2 in [st]:
                if o is None and k:
                    # the result was not looked at: both outcomes would be treated alike
                    K.undecided("stop-exactly", "%s: step result not inspected" % fn)
            continue
        if o == "Err":
            e = X.fld(prev, 1, 0, P.types[prev.ty]["v"][1]["f"][0][1])
            ei = P.variant_idx(e.ty, "Err")
            inner = X.fld(e, ei, 0, P.types[e.ty]["v"][ei]["f"][0][1])
            K.judge("pause-cause", fn + ":error", (same(X, st, ret.args[2], inner) if vi == 1 else False if feasible(st) else True), "%s does not return the error of the failing step" % fn, fn)
            pc = X.variant(st, g(fin, "pause_condition"))
            nm = P.vname(P.adt("PauseCondition"), pc) if pc is not None else None
            K.judge("pause-cause", fn + ":error-status", None if nm is None else nm not in ("Halt", "MCROff", "Breakpoint") or (False if feasible(st) else True), "after an error %s reports pause condition %s" % (fn, nm), fn)
        else:
            if vi == 1:
                K.judge("pause-cause", fn + ":spurious-error", False if feasible(st) else True, "%s fails although no step failed" % fn)
                continue
            why = {}
            if o == "Halt":
                why["Halt"] = [(st, True)]
            else:
                lv = [st.decide(x) for x in tail["loads"]]
                why["MCROff"] = [(st, False in lv)]
                why["Tripwire"] = split(st, bnot(trip(state, k)))
                if k > 0:
                    b = R.holds_bp(st, state)
                    why["Breakpoint"] = split(st, bor(b[0], b[1]))
            pc = X.variant(st, g(fin, "pause_condition"))
            nm = P.vname(P.adt("PauseCondition"), pc) if pc is not None else None
            if nm is None:
                K.undecided("pause-cause", fn + ": pause condition unknown")
                continue
            # at least the reported condition holds
            lst = why.get(nm)
            if lst is None:
                K.judge("pause-cause", "%s:%s" % (fn, nm), False if feasible(st) else True, "%s stops after %d steps reporting %s, which cannot hold there" % (fn, k, nm))
                continue
            for s2, v in lst:
                K.judge("pause-cause", "%s:%s" % (fn, nm), True if v else (False if feasible(s2) else True), "%s stops after %d steps reporting %s, which does not hold" % (fn, k, nm), nm)
            K.ok("stop-exactly", "%s stops: %s" % (fn, nm))
            if o == "Halt" and nm != "Halt":
                K.judge("pause-cause", fn + ":halt", False if feasible(st) else True, "%s reports %s after a halt" % (fn, nm))
        sts = [x[1] for x in order if isinstance(x, tuple)]
        K.judge("pause-cause", fn + ":mcr-clear", True if len(sts) >= 2 and st.decide(sts[-1]) is False else (False if feasible(st) else True), "%s leaves the MCR set" % fn, fn)


def step_in_rules(K):
    P, S = K.P, Sim(K.P)
    K.rule("step-in", "step_in executes exactly one step, changes nothing else but the access record, and returns Ok, Ok for a halt, or the step's error", 1)
    R = Runner(K, "step_in")
    if R.outs is None:
        K.undecided("step-in", "step_in not found")
        return
    X = R.X
    gaps(K, X, "step-in")
    for st, ret in R.outs:
        steps = [e for e in st.events() if e[0] == "step"]
        if len(steps) != 1:
            K.judge("step-in", "count", False if feasible(st) else True, "step_in executes %d steps" % len(steps))
            continue
        pre, new, r = steps[0][1:4]
        kept(K, R, st, pre, R.s0, "step-in", "before", "step_in changes %s before the step")
        kept(K, R, st, X.load(st, *R.loc), new, "step-in", "after", "step_in changes %s after the step")
        if any(e[0] == "astore" for e in st.events()):
            K.judge("step-in", "mcr", False if feasible(st) else True, "step_in writes the MCR")
        vi = X.variant(st, ret)
        for s2, okv in split(st, eq(X.discr(r, 64), I(0, 64))):
            if okv:
                K.judge("step-in", "result", None if vi is None else vi == 0 or (False if feasible(s2) else True), "step_in fails although the step succeeded", "ok")
                continue
            e = X.fld(r, 1, 0, P.types[r.ty]["v"][1]["f"][0][1])
            hv = P.variant_idx(e.ty, "Halt")
            for s3, h in split(s2, eq(X.discr(e, 64), I(int(P.types[e.ty]["v"][hv]["d"]), 64))):
                if h:
                    K.judge("step-in", "halt", None if vi is None else vi == 0 or (False if feasible(s3) else True), "step_in reports an error for a halt", "halt")
                else:
                    ei = P.variant_idx(e.ty, "Err")
                    inner = X.fld(e, ei, 0, P.types[e.ty]["v"][ei]["f"][0][1])
                    K.judge("step-in", "error", None if vi is None else same(X, s3, ret.args[2], inner) if vi == 1 else (False if feasible(s3) else True), "step_in does not report the step's error", "error")


def clears(K):
    """the access record is emptied exactly once, before the first step"""
    P, S = K.P, Sim(K.P)
    K.rule("cleared-per-run", "step_in and every run function start with an empty access record and do not touch it afterwards", 3)
    for fn in ("step_in", "run", "run_with_limit", "step_over", "step_out"):
        R = Runner(K, fn)
        if R.outs is None:
            K.undecided("cleared-per-run", fn)
            continue
        X = R.X
        M = MemCheck.__new__(MemCheck)
        M.P, M.K = P, K
        memo = {}
        for st, ret in R.outs:
            steps = [e for e in st.events() if e[0] == "step"]
            prev = None
            for i, e in enumerate(steps):
                o = S.get(X, e[1], "observer")
                if i == 0:
                    if o not in memo:
                        qs = M.query(State(), o, var("any_addr", 16))
                        memo[o] = all(same(X, s, x, FALSE) is True for s, q in qs for x in q) or (False if any(same(X, s, x, FALSE) is False for s, q in qs for x in q) else None)
                    r = memo[o]
                    K.judge("cleared-per-run", fn + ":start", r if r is not False or feasible(st) else True, "%s starts with the previous run's access record" % fn, fn)
                else:
                    K.judge("cleared-per-run", fn + ":between", True if o is prev else (False if feasible(st) else True), "%s changes the access record between two steps" % fn, fn)
                prev = S.get(X, e[2], "observer")
            if steps:
                o = S.get(X, X.load(st, *R.loc), "observer")
                K.judge("cleared-per-run", fn + ":end", True if o is prev else same(X, st, o, prev), "%s changes the access record after its last step" % fn, fn)


def breakpoint_rules(K):
    """Breakpoint::check and Comparator::check"""
    P, S = K.P, Sim(K.P)
    K.rule("breakpoint-predicate", "a breakpoint matches exactly when its PC / register / memory comparison holds on the reached state (no device access)", 8)
    bpt, ct = P.adt("Breakpoint"), P.adt("Comparator")
    f = P.fn("Breakpoint::check")
    if f is None:
        K.undecided("breakpoint-predicate", "Breakpoint::check not found")
        return
    ops = {"Never": lambda a, b: FALSE, "Always": lambda a, b: TRUE, "Lt": lt, "Le": lambda a, b: bnot(lt(b, a)), "Gt": lambda a, b: lt(b, a),
           "Ge": lambda a, b: bnot(lt(a, b)), "Eq": eq, "Ne": lambda a, b: bnot(eq(a, b))}
    for bi, bv in enumerate(P.types[bpt]["v"]):
        bn = bv["n"].split("::")[-1]
        for ci, cvn in enumerate(P.types[ct]["v"]):
            cn = cvn["n"].split("::")[-1]
            if bn == "PC" and cn != "Eq":
                continue
            X = Interp(P)
            st, vs = X.start(f)
            sim = X.load(st, *X.deref_loc(vs[1]))
            x = var("x", 16)
            cval = agg(P, ct, ci, *([x] if cvn["f"] else []))
            fs = []
            rg, ad = var("r", 3), var("a", 16)
            for fl in bv["f"]:
                if fl[1] == ct:
                    fs.append(cval)
                elif fl[0] == "reg":
                    fs.append(mk("enumof", (rg,), None, fl[1]))
                elif fl[0] == "addr":
                    fs.append(ad)
                else:
                    fs.append(x)
            bp = agg(P, bpt, bi, *fs)
            outs = X.exec_fn(f, [mk("ref", (("val", bp), ()), None, vs[0].ty), vs[1]], st, None)
            K.saw(X)
            gaps(K, X, "breakpoint-predicate")
            for s, r in outs:
                if bn == "PC":
                    want = eq(S.get(X, sim, "pc"), x)
                else:
                    if bn == "Reg":
                        regs = S.get(X, sim, "reg_file")
                        w = X.elem(s, X.fld(regs, 0, 0, P.types[regs.ty]["v"][0]["f"][0][1]), zext(rg, 64), S.W)
                    else:
                        w = mem_at(X, S, s, sim, ad)
                    want = ops[cn](S.get(X, w, "data", S.W), x)
                key = bn if bn == "PC" else "%s %s" % (bn, cn)
                K.judge("breakpoint-predicate", key, same(X, s, r, want), "breakpoint %s matches when %s, expected %s" % (key, show(r), show(want)), key)


def mem_at(X, S, st, sim, addr):
    P = X.P
    m = S.get(X, sim, "mem")
    b = X.fld(m, 0, 0, P.types[m.ty]["v"][0]["f"][0][1])
    t = P.types[b.ty]
    ety = None
    if t.get("box"):
        ety = t["a"][0]
        b = X.fld(b, 0, 0, t["v"][0]["f"][0][1])
    l, p = X.deref_loc(b, ety)
    return X.elem(st, X.load(st, l, p), zext(addr, 64), S.W)


def status_rules(K):
    P, S = K.P, Sim(K.P)
    K.rule("status", "hit_breakpoint() is true exactly after a breakpoint stop, hit_halt() exactly after a halt or cleared MCR", 2)
    pt = P.adt("PauseCondition")
    for fn, want in (("hit_breakpoint", ("Breakpoint",)), ("hit_halt", ("Halt", "MCROff"))):
        f = P.fn("Simulator::" + fn)
        if f is None:
            K.undecided("status", fn)
            continue
        for v in P.types[pt]["v"]:
            n = v["n"].split("::")[-1]
            X = Interp(P)
            st, vs = X.start(f)
            loc = X.deref_loc(vs[0])
            s0 = X.load(st, *loc)
            X.save(st, loc[0], loc[1], with_fields(X, s0, {"pause_condition": enumv(P, pt, n)}))
            for s, r in X.exec_fn(f, vs, st, None):
                K.judge("status", "%s:%s" % (fn, n), same(X, s, r, I(int(n in want), 1)), "%s() is %s after pause condition %s" % (fn, show(r), n), n)
