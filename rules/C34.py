"""C34: timer interrupts follow the configured interval."""
from engine.terms import *
from engine.interp import Interp, State, Limit
from engine.judge import same, feasible
from rules.devrules import *

EXPLAIN = ("The timer's countdown is unrolled abstractly from the state its constructor builds, poll after poll, forking on every value the sampling call may return "
           "(small ranges of each kind, all enable/reset positions); for large intervals one poll step is summarised symbolically; the range, generator and seed handed to the "
           "random generator are compared symbolically with the ones the user configured.")
ASSUME = ["rand's random_range returns a value of the range it is given and depends only on the generator's state; StdRng::seed_from_u64 is deterministic"]
RR = "rand::Rng::random_range"
ET = CR + "sim::device::ExternalDevice"


class Timer:
    def __init__(self, K):
        self.K = K
        P = self.P = K.P
        self.ty = P.adt("TimerDevice")
        p = "<%ssim::device::timer::TimerDevice as %s>::" % (CR, ET)
        self.poll = P.fn(p + "poll_interrupt")
        self.ioreset = P.fn(p + "io_reset")
        self.reset = P.fn("TimerDevice::reset_remaining")
        self.exact = P.fn("TimerDevice::set_exact")
        self.news, self.sets = {}, {}
        for f in P.fns_like("TimerDevice::new"):
            self.news[P.types[f["locals"][2]]["n"]] = f
        for f in P.fns_like("TimerDevice::set_range"):
            self.sets[P.types[f["locals"][2]]["n"]] = f

    def en(self):
        for i, f in enumerate(self.P.types[self.ty]["v"][0]["f"]):
            if f[0] == "enabled":
                return i
        return None


def rangev(P, ty, lo, hi):
    """range value of type ty with the given bounds"""
    n = P.types[ty]["n"]
    if n.endswith("RangeInclusive<u32>"):
        return agg(P, ty, 0, lo, hi, FALSE)
    if n.endswith("Range<u32>"):
        return agg(P, ty, 0, lo, hi)
    if n.endswith("RangeFrom<u32>"):
        return agg(P, ty, 0, lo)
    if n.endswith("RangeTo<u32>") or n.endswith("RangeToInclusive<u32>"):
        return agg(P, ty, 0, hi)
    if n.endswith("RangeFull"):
        return agg(P, ty, 0)
    return None


def bounds(X, st, v):
    """(lo, hi inclusive) of a range value (argument of the sampling call)"""
    n = X.P.types[v.ty]["n"] if v.ty is not None else ""
    fs = [st.resolve(x) for x in v.args[2:]] if v.op == "agg" else None
    if fs is None:
        return None
    if n.endswith("RangeInclusive<u32>") and len(fs) == 3 and isc(fs[2]) and not cv(fs[2]):
        return fs[0], fs[1]
    if n.endswith("Range<u32>"):
        return fs[0], sub(fs[1], I(1, 32))
    return None


def sampler(log):
    """sampling call that takes every value of its (known) range"""
    def h(X, st, fr, a, retty, fn):
        v = a[1] if len(a) > 1 else None
        b = bounds(X, st, v) if v is not None and v.op == "agg" else None
        if b is None or not (isc(b[0]) and isc(b[1])):
            raise Limit("range of the sampling call unknown")
        lo, hi = cv(b[0]), cv(b[1])
        if hi - lo > 8 or hi < lo:
            raise Limit("range %d..=%d" % (lo, hi))
        out = []
        for x in range(lo, hi + 1):
            s = st.copy()
            s.emit("sample", x)
            out.append((s, I(x, 32)))
        return out
    return h


def cadence_rules(K, T):
    P = K.P
    R1, R2, R3 = "gap", "first", "disabled"
    K.rule(R1, "the number of polls strictly between two interrupts lies in the range", 6)
    K.rule(R2, "after enabling or resetting, the first interrupt comes at most one poll later than the range's maximum", 6)
    K.rule(R3, "a disabled timer raises no interrupt", 2)
    where = P.loc(T.poll, T.poll["line"])
    en = T.en()
    oty = P.types[T.poll["locals"][0]]

    def setup(rt, lo, hi):
        """states of a new timer with the range lo..=hi of kind rt"""
        f = T.news.get(rt)
        if f is None:
            return None
        X = Interp(P, {RR: sampler(None)})
        seed = agg(P, f["locals"][1], 1, var("seed", 64))
        r = rangev(P, f["locals"][2], I(lo, 32), I(hi, 32))
        outs = X.exec_fn(f, [seed, r, var("vect", 8), var("prio", 8)], State())
        K.saw(X)
        return X, outs

    def with_en(X, v, on):
        fs = P.types[T.ty]["v"][0]["f"]
        return agg(P, T.ty, 0, *[(TRUE if on else FALSE) if i == en else X.fld(v, 0, i, f[1]) for i, f in enumerate(fs)])

    def step(X, st, v, f):
        """one call f(&mut timer): list of (state, timer, fired or None)"""
        s = st.copy()
        loc = X.heap(s, v)
        ref = mk("ref", (loc, ()), None, f["locals"][1])
        out = []
        for s2, r in X.exec_fn(f, [ref], s):
            v2 = X.load(s2, loc, ())
            fired = None
            if r.ty is not None and P.types[r.ty] is oty:
                vi = X.variant(s2, r)
                if vi is None:
                    raise Limit("result of a poll unknown: %s" % show(r))
                fired = vi == 1
            out.append((s2, v2, fired))
        return out

    def key(X, st, v):
        return show(st.resolve(v)) + "|" + ";".join(sorted("%s=%s" % (show(k), x) for k, x in st.facts.items()))

    def explore(name, X, st, v, sched, lo, hi):
        """follow a schedule of operations from (st, v); sched(i) -> 'E' enabled poll, 'D' disabled poll, 'R' io_reset, 'r' reset_remaining"""
        # state: (timer, polls since last interrupt, None) / (timer, None, polls since enabling)
        cur = {key(X, st, v): (st, v, {(None, 0)})}
        for i, op in enumerate(sched):
            nxt = {}
            for st, v, hs in cur.values():
                f = T.poll if op in "ED" else T.ioreset if op == "R" else T.reset
                v = with_en(X, v, op != "D") if op in "ED" else v
                for s2, v2, fired in step(X, st, v, f):
                    nh = set()
                    for since, first in hs:
                        if op in "Rr":
                            nh.add((None, 0))
                        elif op == "D":
                            K.judge(R3, "polls", False if fired and feasible(s2) else True, lambda: "a disabled timer raises an interrupt (%s, range %s) (%s)" % (sched[:i + 1], name, where), name)
                            nh.add((None, 0))
                        elif fired:
                            if since is not None:
                                ok = lo <= since <= hi
                                K.judge(R1, "%s" % ("exact" if lo == hi else "range"), ok or not feasible(s2),
                                        lambda: "%d polls strictly between two interrupts of a timer with range %s (polls %s) (%s)" % (since, name, sched[:i + 1], where), name)
                            if first is not None:
                                K.judge(R2, "late", True, "", name)
                            nh.add((0, None))
                        else:
                            s1 = None if since is None else since + 1
                            f1 = None if first is None else first + 1
                            if s1 is not None and s1 > hi:
                                K.judge(R1, "%s-late" % ("exact" if lo == hi else "range"), not feasible(s2),
                                        lambda: "more than %d polls strictly between two interrupts of a timer with range %s (polls %s) (%s)" % (hi, name, sched[:i + 1], where), name)
                                s1 = None
                            if f1 is not None and f1 >= hi + 1:
                                K.judge(R2, "late", not feasible(s2),
                                        lambda: "no interrupt within %d polls after enabling or resetting a timer with range %s (%s) (%s)" % (hi + 1, name, sched[:i + 1], where), name)
                                f1 = None
                            nh.add((s1, f1))
                    k = key(X, s2, v2)
                    if k in nxt:
                        nxt[k][2].update(nh)
                    else:
                        nxt[k] = (s2, v2, nh)
            if len(nxt) > 400:
                raise Limit("too many states")
            cur = nxt
    thorough = K.tier == "thorough"
    IN, EX, TO = "std::ops::RangeInclusive<u32>", "std::ops::Range<u32>", "std::ops::RangeToInclusive<u32>"
    cfg = [(IN, 1, 1, 12), (IN, 2, 2, 14), (IN, 3, 3, 14), (IN, 5, 5, 20), (IN, 1, 3, 12), (IN, 0, 2, 10), (IN, 0, 0, 6), (IN, 2, 4, 14), (EX, 1, 4, 12), (EX, 3, 4, 12), (EX, 0, 2, 8), (TO, 0, 2, 8), (IN, 50, 50, 160)]
    if thorough:
        cfg += [(IN, 7, 11, 40), (IN, 256, 257, 800), (EX, 1, 6, 24), (IN, 300, 300, 1000)]
    for rt, lo, hi, n in cfg:
        h = hi - 1 if rt == EX else hi
        name = {IN: "%d..=%d", EX: "%d..%d", TO: "..=%.0s%d"}[rt] % (lo, hi)
        try:
            z = setup(rt, lo, hi)
            if z is None:
                K.undecided(R1, "no constructor for %s" % rt)
                continue
            X, outs = z
            scheds = ["E" * n]
            if hi <= 5:
                m = h + 2
                for j in range(0, m + 1):
                    for op in ("D", "DDDD", "R", "r"):
                        scheds.append("E" * j + op + "E" * (2 * m))
            for st, v in outs:
                for sc in scheds:
                    explore(name, X, st, v, sc, lo, h)
        except Limit as e:
            K.undecided(R1, "%s: %s" % (name, e))
    # any state whatever, disabled
    X = Interp(P)
    st, vs = X.start(T.poll)
    loc = X.deref_loc(vs[0])
    v = X.load(st, *loc)
    X.save(st, loc[0], loc[1], with_en(X, v, False))
    for s, r in X.exec_fn(T.poll, vs, st):
        vi = X.variant(s, r)
        K.judge(R3, "any", None if vi is None else vi == 0 or not feasible(s), "a disabled timer raises an interrupt (%s)" % where, "any state")
    # large intervals
    R = "countdown"
    K.rule(R, "with more than two polls remaining, a poll only takes one off the remaining count", 0)
    f = T.news.get(IN)
    if f is None:
        return
    X = Interp(P)
    big = var("sample", 32)

    def h(X, st, fr, a, retty, fn):
        st.assume(lt(I(3, 32), big), True)
        return [(st, big)]
    X = Interp(P, {RR: h})
    seed = agg(P, f["locals"][1], 1, var("seed", 64))
    outs = X.exec_fn(f, [seed, rangev(P, f["locals"][2], var("lo", 32), var("hi", 32)), var("vect", 8), var("prio", 8)], State())
    fs = P.types[T.ty]["v"][0]["f"]
    for st, v in outs:
        at = [i for i, fl in enumerate(fs) if st.resolve(X.fld(v, 0, i, fl[1])) is big]
        if len(at) != 1:
            K.notes.append("countdown: the sample is not stored as it is; only the unrolled intervals are covered")
            continue
        for s, v2, fired in step(X, st, with_en(X, v, True), T.poll):
            if fired:
                K.judge(R, "early", not feasible(s), "an interrupt is raised although more than three polls remain (%s)" % where)
                continue
            got = X.fld(v2, 0, at[0], fs[at[0]][1])
            K.judge(R, "step", same(X, s, got, sub(big, I(1, 32))), "a poll changes the remaining count n to %s, expected n-1 (%s)" % (show(s.resolve(got)), where), "n > 3")
            for i, fl in enumerate(fs):
                if fl[0] in ("range", "generator"):
                    K.judge(R, "keeps", same(X, s, X.fld(v2, 0, i, fl[1]), X.fld(v, 0, i, fl[1])), "a poll changes the timer's %s" % fl[0], fl[0])


def source_rules(K, T):
    """range, generator and seed of every sample"""
    P = K.P
    R1, R2 = "sample-range", "sample-source"
    K.rule(R1, "every interval is sampled from exactly the configured range, whatever kind of range it was given as", 10)
    K.rule(R2, "every sample comes from the timer's own generator, which a seed determines alone", 6)

    def user(X, st, ty, r):
        """(lo, hi) inclusive of the user's range; r the argument"""
        n = P.types[ty]["n"]
        if n.startswith("("):
            b = []
            for i, (k, d) in enumerate((("lo", I(0, 32)), ("hi", I(0xFFFFFFFF, 32)))):
                x = X.fld(r, 0, i, P.types[ty]["v"][0]["f"][i][1]) if r.op != "agg" else r.args[2 + i]
                vi = X.variant(st, x)
                if vi is None:
                    return None
                if vi == 2:
                    b.append(d)
                    continue
                y = X.fld(x, vi, 0, P.types[x.ty]["v"][vi]["f"][0][1])
                b.append(y if vi == 0 else add(y, I(1, 32)) if i == 0 else sub(y, I(1, 32)))
            return b
        lo, hi = var("lo", 32), var("hi", 32)
        if n.endswith("RangeInclusive<u32>"):
            return lo, hi
        if n.endswith("Range<u32>"):
            return lo, sub(hi, I(1, 32))
        if n.endswith("RangeFrom<u32>"):
            return lo, I(0xFFFFFFFF, 32)
        if n.endswith("RangeTo<u32>"):
            return I(0, 32), sub(hi, I(1, 32))
        if n.endswith("RangeToInclusive<u32>"):
            return I(0, 32), hi
        return I(0, 32), I(0xFFFFFFFF, 32)

    def samples(X, s, since, want, what, timer_loc):
        n = 0
        for e in s.events()[since:]:
            if e[0] != "rand":
                continue
            if e[1] in ("rand::SeedableRng::seed_from_u64",):
                continue
            if e[1] != RR:
                continue
            n += 1
            b = bounds(X, s, e[2][1])
            if b is None:
                K.undecided(R1, "%s: range %s" % (what, show(e[2][1])))
                continue
            for k, x, y in (("minimum", b[0], want[0]), ("maximum", b[1], want[1])):
                K.judge(R1, "%s %s" % (what.split(":")[0], k), same(X, s, x, y), lambda: "%s samples an interval with %s %s instead of %s (%s)" % (what, k, show(s.resolve(x)), show(s.resolve(y)), e[3]), what)
        return n

    gen, other = var("seeded_generator"), var("unseeded_generator")

    def mkgen(v):
        def h(X, st, fr, a, retty, fn):
            st.emit("rand", fn["def"], tuple(a), X.P.loc(fr.f, fr.line))
            return [(st, v)]
        return h

    def content(X, s, g):
        """generator behind references and boxes"""
        for _ in range(6):
            if g in (gen, other):
                return g
            if g.op == "agg" and len(g.args) > 2:
                g = g.args[2]
                continue
            try:
                n = X.load(s, *X.deref_loc(g))
            except Exception:
                return g
            if n is g:
                return g
            g = n
        return g
    def draw(X, st, fr, a, retty, fn):
        st.emit("rand", fn["def"], tuple(a) + (content(X, st, a[0]),), X.P.loc(fr.f, fr.line))
        return [(st, X.fresh("sample", retty))]
    H = {RR: draw, "rand::SeedableRng::seed_from_u64": mkgen(gen), "rand::SeedableRng::from_os_rng": mkgen(other)}

    def sources(X, s, since, what, loc, seed=None):
        """no other source of randomness; the generator is the timer's"""
        for e in s.events()[since:]:
            if e[0] != "rand":
                continue
            if e[1] == RR:
                v = e[2][-1]
                ok = True if v is gen else (not feasible(s)) if v is other else None
                K.judge(R2, "%s generator" % what.split(":")[0], ok, lambda: "%s samples from a generator that is not the seeded one but %s (%s)" % (what, show(v), e[3]), what)
            elif "os_rng" in e[1] or e[1] in ("rand::rng", "rand::thread_rng", "rand::random") or "from_rng" in e[1]:
                K.judge(R2, "%s entropy" % what.split(":")[0], not feasible(s), lambda: "%s draws on unseeded randomness (%s) although a seed was given (%s)" % (what, e[1].split("::")[-1], e[3]), what)
            elif "seed_from" in e[1]:
                if seed is None or len(e[2]) < 1:
                    K.judge(R2, "%s reseed" % what.split(":")[0], True if not feasible(s) else None, lambda: "%s seeds a generator again (%s)" % (what, e[3]), what)
                else:
                    K.judge(R2, "%s seed" % what.split(":")[0], same(X, s, e[2][0], seed), lambda: "%s seeds the generator with %s instead of the given seed (%s)" % (what, show(e[2][0]), e[3]), what)

    fs = P.types[T.ty]["v"][0]["f"]
    en = T.en()
    for n, f in sorted(T.news.items()):
        X = Interp(P, dict(H))
        seed = var("seed", 64)
        rty = f["locals"][2]
        st = State()
        if n.startswith("("):
            st, vs = X.start(f)
            r = vs[1]
        else:
            r = rangev(P, rty, var("lo", 32), var("hi", 32))
        what = "new(%s)" % n.replace("std::ops::", "")
        try:
            outs = X.exec_fn(f, [agg(P, f["locals"][1], 1, seed), r, var("vect", 8), var("prio", 8)], st)
        except Limit as e:
            K.undecided(R1, "%s: %s" % (what, e))
            continue
        K.saw(X)
        for s, v in outs:
            want = user(X, s, rty, r)
            if want is None:
                K.undecided(R1, what)
                continue
            k = samples(X, s, 0, want, "new:" + what, None)
            if not k:
                K.undecided(R1, "%s: no sampling call" % what)
            sources(X, s, 0, "new:" + what, None, seed)
            # later samples
            for m, g, k in (("poll", T.poll, 2), ("io_reset", T.ioreset, 1), ("reset_remaining", T.reset, 1)):
                if g is None:
                    continue
                v1 = agg(P, T.ty, 0, *[TRUE if i == en else X.fld(v, 0, i, fl[1]) for i, fl in enumerate(fs)])
                cur = [(s.copy(), v1)]
                since = len(s.events())
                for _ in range(k):
                    nx = []
                    for s1, w in cur:
                        loc = X.heap(s1, w)
                        for s2, r2 in X.exec_fn(g, [mk("ref", (loc, ()), None, g["locals"][1])], s1):
                            samples(X, s2, since, want, m + ":" + what, loc)
                            sources(X, s2, since, m + ":" + what, loc)
                            nx.append((s2, X.load(s2, loc, ())))
                    cur = nx
        # without a seed the constructor must still work: nothing to check
    # reconfiguration
    for n, f in sorted(T.sets.items()) + [("exact", T.exact)]:
        if f is None:
            continue
        X = Interp(P)
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        if n == "exact":
            want0 = (vs[1], vs[1])
        elif not n.startswith("("):
            vs = list(vs)
            vs[1] = rangev(P, f["locals"][2], var("lo", 32), var("hi", 32))
        what = "set_exact" if n == "exact" else "set_range(%s)" % n.replace("std::ops::", "")
        try:
            outs = X.exec_fn(f, vs, st)
        except Limit as e:
            K.undecided(R1, "%s: %s" % (what, e))
            continue
        K.saw(X)
        for s, _ in outs:
            want = want0 if n == "exact" else user(X, s, f["locals"][2], vs[1])
            if want is None or T.reset is None:
                K.undecided(R1, what)
                continue
            since = len(s.events())
            for s2, _ in X.exec_fn(T.reset, [mk("ref", loc, None, T.reset["locals"][1])], s):
                if not samples(X, s2, since, want, "reset_remaining:" + what, None):
                    K.undecided(R1, "%s: no sampling call" % what)


def forward_rules(K):
    """the simulator polls every device once per instruction cycle"""
    P = K.P
    R = "polling"
    K.rule(R, "the device handler polls every attached device exactly once per cycle, and an attached timer receives that poll", 2)
    f = P.fn("<%s as %s>::poll_interrupt" % (DH, ED))
    sdp = "<%sdevice::internals::SimDevice as %s>::poll_interrupt" % (CR + "sim::", ED)
    if f is None:
        K.undecided(R, "DeviceHandler::poll_interrupt not found")
    else:
        def h(X, st, fr, a, retty, fn):
            st.emit("polled", X.load(st, *X.deref_loc(a[0])))
            return [(st, X.fresh("intr", retty))]
        try:
            D = Dev(K, f, 3, hooks={sdp: h}, bounded=6)
            X = D.X
            for s, r in D.outs:
                got = [s.resolve(e[1]) for e in s.events() if e[0] == "polled"]
                # a device may be behind a havocked reference
                known = all(any(g is d for d in D.devs) for g in got)
                for i, d in enumerate(D.devs):
                    k = sum(g is d for g in got)
                    K.judge(R, "once", (True if k == 1 else False if feasible(s) else True) if known and not X.opaque else None, "device slot %d is polled %d times in one cycle" % (i, k), i)
        except Limit as e:
            K.undecided(R, str(e))
    f = P.fn(sdp)
    if f is None:
        K.undecided(R, "SimDevice::poll_interrupt not found")
        return
    sd = P.adt("SimDevice")
    for vi, v in enumerate(P.types[sd]["v"]):
        if v["n"].split("::")[-1] != "Custom":
            continue
        X = Interp(P)
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        X.save(st, loc[0], loc[1], agg(P, sd, vi, *[X.fresh("inner", fl[1]) for fl in v["f"]]))
        for s, r in X.exec_fn(f, vs, st):
            ev = [e for e in s.events() if e[0] == "dyn"]
            K.judge(R, "custom", (True if len(ev) == 1 and ev[0][1].endswith("::poll_interrupt") else False if feasible(s) else True) if not X.opaque else None, "a poll of an attached device is forwarded %d times" % len(ev), "Custom")


def run(K):
    T = Timer(K)
    if T.poll is None or T.ioreset is None or not T.news or T.en() is None:
        K.undecided("gap", "timer functions not found")
        K.rule("gap", "timer functions", 1)
        return
    cadence_rules(K, T)
    source_rules(K, T)
    forward_rules(K)
