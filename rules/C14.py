"""C14: strict mode only adds uninitialised-value errors."""
from rules.simprops import *
from engine.terms import *

EXPLAIN = ("Simulator::step is summarised with strict=true; every path either fails with a Strict* error or agrees in every aspect with the "
           "strictness-free LC-3 reference. Every Strict* failure path is contradictory once all words it looked at have full initialisation masks, and "
           "fully initialised states stay fully initialised.")


def all_init(X, S, st, terms=()):
    """state extended with 'every Word looked at is fully initialised', or None if contradictory"""
    ii, _ = S.fidx(S.W, "init")
    sub = set()
    for t in list(st.facts) + [k for k in st.iv if isinstance(k, T)] + [k for k in st.bk if isinstance(k, T)] + list(terms):
        subterms(t, sub)
    s = st.copy()
    for t in sub:
        if t.op == "fld" and t.args[2] == ii and t.args[0].ty == S.W:
            if not s.assume(eq(t, I(0xFFFF, 16)), True):
                return None
    return s


def run(K):
    P = K.P
    summ = stepmod.summarise(K, True)
    X, S, s0, f, paths = summ
    gaps(K, X, "strict-agreement")
    K.rule("strict-agreement", "with strict=true every path that does not end in a Strict* error has the result, accesses, PC, PSR, registers, counters and frames of the strictness-free reference", 100)
    K.rule("strict-errors", "a Strict* error is impossible when every word involved is fully initialised", 20)
    K.rule("init-preserved", "from fully initialised registers and memory, registers and written words stay fully initialised", 50)
    bad = {}
    for p in paths:
        got = stepmod.retname(X, P, p.st, p.ret)
        rf = S.get(X, p.final, "reg_file")
        if got is None:
            K.undecided("strict-agreement", "result not resolved")
            continue
        strict = got.startswith("Strict")
        if strict:
            s = all_init(X, S, p.st)
            K.judge("strict-errors", got, True if s is None or not feasible(s) else False, "%s is raised although every word involved is fully initialised (path ends %s)" % (got, [e[-1] for e in p.mem][-1:]), got)
        for R, st, asp, key, res, txt in ([] if strict else stepmod.compare(X, S, s0, p, None)):
            if res is False:
                bad.setdefault((asp, key), []).append(txt)
            else:
                K.judge("strict-agreement", key, res, "under strict: " + txt, key)
        if not strict:
            regs = X.fld(rf, 0, 0, P.types[rf.ty]["v"][0]["f"][0][1])
            vals = []
            t = regs
            while t.op == "store":
                vals.append(t.args[2])
                t = t.args[0]
            if t.op == "arr":
                vals += list(t.args)
            ws = [S.get(X, v, "init", S.W) for v in vals if v.ty == S.W or v.op == "agg"]
            ws += [S.get(X, e[2], "init", S.W) for e in p.mem if e[0] == "wr"] + [S.get(X, S.get(X, p.final, "saved_sp"), "init", S.W)]
            s = all_init(X, S, p.st, ws)
            if s is None:
                continue
            for w in ws:
                K.judge("init-preserved", "step", same(X, s, w, I(0xFFFF, 16)), "a step on a fully initialised machine produces a word with initialisation mask %s" % show(s.resolve(w)), "step")
    if bad:
        # deviations from the ISA that non-strict mode shows as well are not strict mode's doing
        X0, S0, z0, f0, ps0 = stepmod.summarise(K, False)
        same_bad = set()
        for p in ps0:
            for R, st, asp, key, res, txt in stepmod.compare(X0, S0, z0, p, None):
                if res is False:
                    same_bad.add((asp, key))
        for (asp, key), txts in bad.items():
            if (asp, key) in same_bad:
                K.undecided("strict-agreement", "%s deviates from the ISA reference in both modes: %s" % (key, txts[0]))
            else:
                K.violation("strict-agreement", key, "only under strict: " + txts[0])
    # the accesses themselves
    mem_rules(K, {"strict": "strict-access"})
