"""push_frame with every kind of registered signature (panic analysis)"""
from rules.simprops import *


def push_panics(K, judge):
    P, S = K.P, Sim(K.P)
    f = P.fn("FrameStack::push_frame")
    plt = P.adt("ParameterList")
    if f is None or plt is None:
        return
    fs = P.adt("FrameStack")
    d = {x[0]: x[1] for x in P.types[fs]["v"][0]["f"]}
    if "sr_defns" not in d or "trap_defns" not in d:
        return
    for vi, v in enumerate(P.types[plt]["v"]):
        X = Interp(P)
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        s0 = X.load(st, *loc)
        callee = vs[2]
        pl = agg(P, plt, vi, *[X.fresh("pl", fl[1]) for fl in v["f"]])
        over = {}
        for m, key in (("sr_defns", callee), ("trap_defns", trunc(callee, 8))):
            over[m] = mk("minsert", (mk("mempty", (), None, d[m]), key, pl), None, d[m])
        X.save(st, loc[0], loc[1], with_fields(X, s0, over))
        try:
            X.exec_fn(f, vs, st, None)
        except Exception as e:
            K.undecided("helper-panic", "push_frame: %r" % e)
            continue
        K.saw(X)
        gaps(K, X, "helper-panic")
        judge(K, X, "helper-panic", "push_frame with a signature")
