"""C27: the frame stack tracks calls and returns."""
from rules.simprops import *

EXPLAIN = ("The frame operations of every step path are compared with the reference (call, trap, exception and interrupt entries push; RET/JMP R7 and RTI pop), "
           "and the bodies of push_frame, pop_frame, len, frames and the constructor are summarised for every frame kind, signature kind and 0-2 parameters.")


def ftypes(P):
    fs = P.adt("FrameStack")
    d = {f[0]: f[1] for f in P.types[fs]["v"][0]["f"]}
    return fs, d


def run(K):
    P = K.P
    step_rules(K, {"frames": "frame-ops"})
    push_rules(K)
    pop_rules(K)
    new_rules(K)


def frame_loc(X, st, vs):
    return X.deref_loc(vs[0])


def parts(X, S, v):
    return S.get(X, v, "frame_no"), S.get(X, v, "frames")


def push_rules(K):
    P, S = K.P, Sim(K.P)
    K.rule("push-depth", "push_frame increments the depth by one", 1)
    K.rule("push-frame", "with debug frames on, push_frame appends one frame with the given caller, callee and kind; with debug frames off it records none", 1)
    K.rule("push-arguments", "the frame's arguments are those of the signature registered for the callee: mem[R6-4+4+i] under the calling convention, the named registers otherwise, none without signature", 1)
    f = P.fn("FrameStack::push_frame")
    if f is None:
        K.undecided("push-frame", "push_frame not found")
        return
    fty, d = ftypes(P)
    plt = P.adt("ParameterList")
    ftt = P.adt("FrameType")
    frt = P.adt("Frame")
    regt = P.adt("Reg")
    pf = {v["n"].split("::")[-1]: v["f"] for v in P.types[plt]["v"]}
    ptup = None
    vec_pbr = dict((x[0], x[1]) for x in pf["PassByRegister"])
    vec_cc = dict((x[0], x[1]) for x in pf["CallingConvention"])
    pair = P.types[vec_pbr["params"]]["a"][0]
    rets = vec_pbr["ret"]

    def plist(kind, n):
        if kind == "CallingConvention":
            return enumv(P, plt, kind, arr(vec_cc["params"], *[var("pn%d" % i, None, P.types[vec_cc["params"]]["a"][0]) for i in range(n)]))
        fields = []
        for nm, ty in pf["PassByRegister"]:
            if nm == "params":
                tf = P.types[pair]["f"]
                fields.append(arr(ty, *[mk("agg", ("tuple", 0, var("pn%d" % i, None, tf[0]), mk("enumof", (var("pr%d" % i, 3),), None, tf[1])), None, pair) for i in range(n)]))
            else:
                fields.append(var("pret", None, ty))
        return enumv(P, plt, kind, *fields)

    for ft in ("Subroutine", "Trap", "Interrupt"):
        for dbg in (True, False):
            for pk, n in ((None, 0), ("CallingConvention", 0), ("CallingConvention", 2), ("PassByRegister", 0), ("PassByRegister", 1), ("PassByRegister", 2)):
                if not dbg and pk is not None:
                    continue
                if ft == "Interrupt" and pk is not None:
                    continue
                X = Interp(P)
                st, vs = X.start(f)
                nm = [x for x in f["names"]]
                loc = frame_loc(X, st, vs)
                s0 = X.load(st, *loc)
                callee = vs[2]
                ftv = enumv(P, ftt, ft)
                vs = list(vs)
                vs[3] = ftv
                over = {}
                m = "trap_defns" if ft == "Trap" else "sr_defns"
                key = trunc(callee, 8) if ft == "Trap" else callee
                for mm in ("trap_defns", "sr_defns"):
                    other = plist("CallingConvention", 1)
                    base = mk("mempty", (), None, d[mm])
                    if mm == m and pk is not None:
                        base = mk("minsert", (base, key, plist(pk, n)), None, d[mm])
                    elif mm != m and pk is None and ft != "Interrupt":
                        # a signature registered for the same number in the other table must not be used
                        base = mk("minsert", (base, trunc(callee, 8) if mm == "trap_defns" else callee, other), None, d[mm])
                    over[mm] = base
                ot = d["frames"]
                vt = P.types[ot]["a"][0]
                old = var("oldframes", None, vt)
                over["frames"] = enumv(P, ot, "Some", old) if dbg else enumv(P, ot, "None")
                if ft == "Trap":
                    st.assume(lt(callee, I(256, 16)), True)
                X.save(st, loc[0], loc[1], with_fields(X, s0, over))
                case = "%s/%s/%s%d" % (ft, "frames" if dbg else "depth-only", pk or "no-signature", n)
                try:
                    outs = X.exec_fn(f, vs, st, None)
                except Exception as e:
                    K.undecided("push-frame", "%s: %r" % (case, e))
                    continue
                K.saw(X)
                gaps(K, X, "push-frame")
                for s, r in outs:
                    v = X.load(s, *loc)
                    a, b = S.get(X, s0, "frame_no"), S.get(X, v, "frame_no")
                    K.judge("push-depth", "depth", same(X, s, b, add(a, I(1, 64))), "push_frame sets the depth to %s (%s)" % (show(b), case), case)
                    fr = S.get(X, v, "frames")
                    vi = X.variant(s, fr)
                    if vi is None:
                        K.undecided("push-frame", case)
                        continue
                    if not dbg:
                        K.judge("push-frame", "off", (vi == 0) or (False if feasible(s) else True), "push_frame records frames although debug frames are off", case)
                        continue
                    if vi == 0:
                        K.judge("push-frame", "kept", False if feasible(s) else True, "push_frame drops the frame list (%s)" % case)
                        continue
                    vec = X.fld(fr, 1, 0, vt)
                    if vec.op != "push" or vec.args[0] is not old:
                        nn = X.length(s, vec)
                        q = same(X, s, nn, add(X.length(s, old), I(1, 64)))
                        K.judge("push-frame", "append:%s" % ft, q if q is not True else None, "push_frame leaves the frame list as %s (%s)" % (show(vec), case))
                        continue
                    F = vec.args[1]
                    for fn_, want in (("caller_addr", vs[1]), ("callee_addr", callee)):
                        K.judge("push-frame", fn_, same(X, s, S.get(X, F, fn_), want), "the frame's %s is %s (%s)" % (fn_, show(S.get(X, F, fn_)), case), case)
                    tv = X.variant(s, S.get(X, F, "frame_type"))
                    K.judge("push-frame", "kind:%s" % ft, None if tv is None else (P.vname(ftt, tv) == ft) or (False if feasible(s) else True), "the frame's kind is %s for a %s" % (P.vname(ftt, tv) if tv is not None else None, ft), case)
                    if ft == "Interrupt":
                        continue
                    args = S.get(X, F, "arguments")
                    xs = flat_seq(X, s, args)
                    if xs is None:
                        q = same(X, s, X.length(s, args), I(n, 64))
                        K.judge("push-arguments", "%s:%s" % (ft, pk), q if q is False else None, "%s: argument list %s" % (case, show(args)))
                        continue
                    if len(xs) != n:
                        K.judge("push-arguments", "%s:%s:count" % (ft, pk), False if feasible(s) else True, "%s: %d arguments recorded, the signature has %d" % (case, len(xs), n))
                        continue
                    if n == 0:
                        K.ok("push-arguments", case)
                    regs = X.load(s, *X.deref_loc(vs[4]))
                    ra = X.fld(regs, 0, 0, P.types[regs.ty]["v"][0]["f"][0][1])
                    for i, x in enumerate(xs):
                        if pk == "PassByRegister":
                            w = X.elem(s, ra, zext(var("pr%d" % i, 3), 64), S.W)
                        else:
                            sp = S.get(X, X.elem(s, ra, I(6, 64), S.W), "data", S.W)
                            w = mem_word(X, S, s, vs[5], add(sp, I(i, 16)))
                        K.judge("push-arguments", "%s:%s" % (ft, pk), same(X, s, S.get(X, x, "data", S.W), S.get(X, w, "data", S.W)), "%s: argument %d is %s, expected %s" % (case, i, show(x), show(w)), case)
                for p in X.panics:
                    if p.kind == "assert:ovfAdd" and "18446744073709551615" in show(p.st.resolve(S.get(X, s0, "frame_no"))) or p.kind == "assert:ovfAdd":
                        continue    # depth 2^64
                    K.judge("push-frame", "panic", False if feasible(p.st) else True, "push_frame can panic (%s at %s)" % (p.info, P.loc(p.fn, p.line)))


def mem_word(X, S, st, memref, addr):
    """word at addr of a &MemArray"""
    P = X.P
    m = X.load(st, *X.deref_loc(memref))
    b = X.fld(m, 0, 0, P.types[m.ty]["v"][0]["f"][0][1])
    t = P.types[b.ty]
    ety = None
    if t.get("box"):
        ety = t["a"][0]
        b = X.fld(b, 0, 0, t["v"][0]["f"][0][1])
    l, p = X.deref_loc(b, ety)
    return X.elem(st, X.load(st, l, p), zext(addr, 64), S.W)


def pop_rules(K):
    P, S = K.P, Sim(K.P)
    K.rule("pop-depth", "pop_frame decrements the depth, saturating at zero", 1)
    K.rule("pop-frame", "pop_frame removes the last recorded frame, if any", 1)
    f = P.fn("FrameStack::pop_frame")
    if f is None:
        K.undecided("pop-frame", "pop_frame not found")
        return
    fty, d = ftypes(P)
    ot = d["frames"]
    vt = P.types[ot]["a"][0]
    frt = P.adt("Frame")
    for n in (None, 0, 1, 2):
        X = Interp(P)
        st, vs = X.start(f)
        loc = frame_loc(X, st, vs)
        s0 = X.load(st, *loc)
        old = [var("fr%d" % i, None, frt) for i in range(n or 0)]
        fr0 = enumv(P, ot, "None") if n is None else enumv(P, ot, "Some", arr(vt, *old))
        X.save(st, loc[0], loc[1], with_fields(X, s0, {"frames": fr0}))
        outs = X.exec_fn(f, vs, st, None)
        K.saw(X)
        gaps(K, X, "pop-frame")
        for s, r in outs:
            v = X.load(s, *loc)
            a, b = S.get(X, s0, "frame_no"), S.get(X, v, "frame_no")
            for z in (True, False):
                s2 = s.copy()
                if not s2.assume(eq(a, I(0, 64)), z):
                    continue
                want = I(0, 64) if z else sub(a, I(1, 64))
                q = same(X, s2, b, want)
                if q is None and not feasible(s2):
                    continue
                K.judge("pop-depth", "zero" if z else "nonzero", q, "pop_frame at depth %s sets the depth to %s" % ("0" if z else ">0", show(b)), str(n))
            fr = S.get(X, v, "frames")
            vi = X.variant(s, fr)
            if vi is None:
                K.undecided("pop-frame", "n=%s" % n)
            elif vi == 0 or n is None:
                K.judge("pop-frame", "mode", (vi == 0) == (n is None) or (False if feasible(s) else True), "pop_frame switches debug frames on or off")
            else:
                xs = flat_seq(X, s, X.fld(fr, 1, 0, vt))
                want = old[:-1] if n else []
                # frames present with a zero depth cannot arise; judged only when the depth allows them
                K.judge("pop-frame", "list", None if xs is None else (len(xs) == len(want) and all(x is y for x, y in zip(xs, want))) or (False if feasible(s) else True), "pop_frame on %d frames leaves %s" % (n, [show(x) for x in xs or []]), "n=%s" % n)
        for p in X.panics:
            K.judge("pop-frame", "panic", False if feasible(p.st) else True, "pop_frame can panic (%s at %s)" % (p.info, P.loc(p.fn, p.line)))


BUILTIN = {0x20: [], 0x21: [0], 0x22: [0], 0x23: [], 0x24: [0], 0x25: []}


def new_rules(K):
    P, S = K.P, Sim(K.P)
    K.rule("builtin-signatures", "a new frame stack has depth 0, no frames, frame recording iff requested, and the built-in trap signatures (GETC(), OUT(R0), PUTS(R0), IN(), PUTSP(R0), HALT())", 1)
    K.rule("queries", "len() reports the depth; frames() the recorded list; signature registration and lookup agree", 1)
    f = P.fn("FrameStack::new")
    fty, d = ftypes(P)
    plt = P.adt("ParameterList")
    if f is not None:
        X = Interp(P)
        st, vs = X.start(f)
        outs = X.exec_fn(f, vs, st, None)
        K.saw(X)
        gaps(K, X, "builtin-signatures")
        for s, v in outs:
            K.judge("builtin-signatures", "depth", same(X, s, S.get(X, v, "frame_no"), I(0, 64)), "a new frame stack has depth %s" % show(S.get(X, v, "frame_no")), "depth")
            fr = S.get(X, v, "frames")
            for on in (True, False):
                s2 = s.copy()
                if not s2.assume(vs[0], on):
                    continue
                vi = X.variant(s2, fr)
                K.judge("builtin-signatures", "mode", None if vi is None else (vi == int(on)) or (False if feasible(s2) else True), "a frame stack created with debug frames %s has frame list %s" % (on, show(fr)), "mode %s" % on)
                if on and vi == 1:
                    K.judge("builtin-signatures", "empty", same(X, s2, X.length(s2, X.fld(fr, 1, 0, P.types[d["frames"]]["a"][0])), I(0, 64)), "a new frame stack already has frames", "empty")
            td = S.get(X, v, "trap_defns")
            for k, regs in BUILTIN.items():
                h = s.decide(models.map_has(X, s, td, I(k, 8)))
                if h is None:
                    K.undecided("builtin-signatures", "x%02X" % k)
                    continue
                if not h:
                    K.judge("builtin-signatures", "x%02X" % k, False, "no signature is built in for trap x%02X" % k)
                    continue
                pl = models.map_value(X, s, td, I(k, 8), plt)
                vi = X.variant(s, pl)
                if vi is None:
                    K.undecided("builtin-signatures", "x%02X %s" % (k, show(pl)))
                    continue
                if P.vname(plt, vi) != "PassByRegister":
                    K.judge("builtin-signatures", "x%02X" % k, False, "trap x%02X has signature %s" % (k, show(pl)))
                    continue
                fs = P.types[plt]["v"][vi]["f"]
                i = [x[0] for x in fs].index("params")
                xs = flat_seq(X, s, X.fld(pl, vi, i, fs[i][1]))
                if xs is None:
                    K.undecided("builtin-signatures", "x%02X params" % k)
                    continue
                pair = P.types[fs[i][1]]["a"][0]
                got = []
                for x in xs:
                    r = X.fld(x, 0, 1, P.types[pair]["f"][1])
                    dd = s.resolve(X.discr(r, 64))
                    got.append(cv(dd) if isc(dd) else None)
                K.judge("builtin-signatures", "x%02X" % k, None if None in got else (got == regs) , "trap x%02X is described with argument registers %s, expected %s" % (k, got, regs), "x%02X" % k)
    else:
        K.undecided("builtin-signatures", "FrameStack::new not found")
    f = P.fn("FrameStack::len")
    if f is not None:
        X = Interp(P)
        st, vs = X.start(f)
        s0 = X.load(st, *X.deref_loc(vs[0]))
        for s, v in X.exec_fn(f, vs, st, None):
            K.judge("queries", "len", same(X, s, v, S.get(X, s0, "frame_no")), "len() returns %s" % show(v), "len")
    for setter, getter, mp in (("FrameStack::set_subroutine_def", "FrameStack::get_subroutine_def", "sr_defns"), (None, "FrameStack::get_trap_def", "trap_defns")):
        g = P.fn(getter)
        if g is None:
            continue
        X = Interp(P)
        st, vs = X.start(g)
        s0 = X.load(st, *X.deref_loc(vs[0]))
        for s, v in X.exec_fn(g, vs, st, None):
            vi = X.variant(s, v)
            h = s.decide(models.map_has(X, s, S.get(X, s0, mp), vs[1]))
            K.judge("queries", getter, None if vi is None or h is None else (bool(vi) == h) or (False if feasible(s) else True), "%s answers %s when registered=%s" % (getter, show(v), h), getter)
        if setter and P.fn(setter) is not None:
            f = P.fn(setter)
            X = Interp(P)
            st, vs = X.start(f)
            loc = X.deref_loc(vs[0])
            for s, v in X.exec_fn(f, vs, st, None):
                m1 = S.get(X, X.load(s, *loc), mp)
                h = s.decide(models.map_has(X, s, m1, vs[1]))
                mv = models.map_value(X, s, m1, vs[1], plt)
                K.judge("queries", setter, None if h is None else (h and (mv is vs[2])) or (False if h is False else same(X, s, mv, vs[2])), "%s registers %s" % (setter, show(mv)), setter)
