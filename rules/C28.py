"""C28: the access observer records exactly the memory the program touched."""
from rules.simprops import *
from rules import runrules

EXPLAIN = ("Every read and write of every step path is made with a tracking context and the record is otherwise untouched by a step; read_mem/write_mem record READ / WRITTEN / "
           "MODIFIED exactly for tracked, successful, non-I/O accesses (queried through get_mem_accesses and AccessSet); step_in and run_while clear the record exactly once, first.")


def run(K):
    P, S = K.P, Sim(K.P)
    summ = stepmod.summarise(K, False)
    step_rules(K, {"observer": "program-tracked", "mem": "no-untracked-write"}, summary=summ)
    direct_reads(K, summ, "no-untracked-read", "direct-read", "a step depends on %s, read from memory without being recorded")
    K.rule("no-extra-access", "a step makes no tracked access beyond those of the executed instruction (strict mode included)", 50)
    for s2 in (summ, stepmod.summarise(K, True)):
        X, S, s0, f, paths = s2
        for p in paths:
            for R, st, asp, key, res, txt in stepmod.compare(X, S, s0, p, None):
                if asp == "effects" and (key.endswith(":extra") or res is True):
                    K.judge("no-extra-access", key, res, txt, key)
    mem_rules(K, {"observer": "access-recorded"})
    api(K, P, S)
    runrules.clears(K)


def api(K, P, S):
    K.rule("record-cleared", "clear() and take_mem_accesses() leave no address marked", 1)
    for fn in ("AccessObserver::clear", "AccessObserver::take_mem_accesses"):
        f = P.fn(fn)
        if f is None:
            K.undecided("record-cleared", fn)
            continue
        X = Interp(P)
        st, vs = X.start(f)
        loc = X.deref_loc(vs[0])
        s0 = X.load(st, *loc)
        outs = X.exec_fn(f, vs, st, None)
        gaps(K, X, "record-cleared")
        K.saw(X)
        M = MemCheck.__new__(MemCheck)
        M.P, M.K = P, K
        for s, v in outs:
            o1 = X.load(s, *loc)
            for s1, q in M.query(s, o1, var("any_addr", 16)):
                for n, x in zip(("READ", "WRITTEN", "MODIFIED"), q):
                    K.judge("record-cleared", fn, same(X, s1, x, FALSE), "after %s an address may still be marked %s" % (fn, n), fn)
    f = P.fn("MemAccessCtx::omnipotent")
    K.rule("host-untracked", "the host's omnipotent context is untracked and effect-free", 1)
    if f is not None:
        X = Interp(P)
        for s, v in X.exec_fn(f, [], State(), None):
            K.judge("host-untracked", "track_access", same(X, s, S.get(X, v, "track_access"), FALSE), "MemAccessCtx::omnipotent() tracks accesses", "omnipotent")
    else:
        K.undecided("host-untracked", "omnipotent not found")
