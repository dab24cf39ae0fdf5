"""C31: seeded simulations are reproducible."""
from rules.loadlib import *
from rules.C30 import hooks, flagcfgs, deep, subterms, queries
from rules import C34
from engine.judge import same, feasible

EXPLAIN = ("Construction with a seeded or known strategy is interpreted with the random source as an uninterpreted function of its seed: every register, memory draw and other field must be "
           "a function of the configuration alone. Timer samples are traced to their own generator and its seed. The call graph of stepping, running, memory access and the devices is searched for "
           "nondeterministic sources (ambient randomness, clocks, environment, threads, mutable statics, iteration over hashed collections).")
ASSUME = ["StdRng::seed_from_u64 is deterministic", "a library function outside rand/std::time/env/thread/process is deterministic", "HashMap lookups do not depend on the hasher's keys"]

NONDET = ("rand::random", "rand::rng", "rand::thread_rng", "from_os_rng", "from_entropy", "try_from_os_rng", "ThreadRng", "OsRng", "getrandom", "SystemTime::now", "Instant::now", "std::env::", "std::thread::",
          "std::process::", "RandomState", "std::hash::BuildHasher", "std::fs::", "std::net::")
CONSUME_OK = ("any", "all", "count", "len", "is_empty", "contains", "max", "min", "sum", "size_hint", "iter", "keys", "values", "into_iter", "clone")


def free(t, acc=None, memo=None):
    """names of the free variables of a term, and tags of results that are fresh per call"""
    acc = set() if acc is None else acc
    memo = set() if memo is None else memo
    if id(t) in memo:
        return acc
    memo.add(id(t))
    if t.op == "var":
        acc.add(t.args[0])
    for x in subterms(t):
        free(x, acc, memo)
    return acc


def foreign(X, s, v):
    """free variables of v that are not part of the configuration"""
    return sorted(n for n in free(deep(X, s, v)) if not (n == "strategy" or n.startswith("flag.") or n.startswith("arcdefault")))


def ambient(n):
    """variables standing for a nondeterministic source"""
    return n.startswith("rand#") or n.startswith("time") or n.startswith("rand")


def init_rules(K):
    P = K.P
    S = Sim(P)
    R1, R2 = "init", "known"
    K.rule(R1, "with a seeded or known strategy every initial register, memory draw and field is a function of the configuration", 20)
    K.rule(R2, "a known strategy gives every register and memory word its value", 10)
    g = P.fn("Simulator::new")
    where = P.loc(g, g["line"])
    H = hooks(P, S)
    for tag, fl in flagcfgs(P, S.fidx(S.ty, "flags")[1]):
        X = Interp(P, H)
        st, vs = X.start(g)
        for s, new in X.exec_fn(g, [fl], st):
            if not feasible(s):
                K.undecided(R1, tag)
                continue
            M = Mem(X, S)
            mem = M.array(s, S.get(X, new, "mem"))
            for i, f in enumerate(P.types[S.ty]["v"][0]["f"]):
                v = X.fld(new, 0, i, f[1]) if f[0] != "mem" else mem
                if v is None:
                    K.undecided(R1, "memory not resolved")
                    continue
                fv = foreign(X, s, v)
                amb = [n for n in fv if ambient(n)]
                K.judge(R1, f[0], True if not fv else False if amb else None,
                        lambda: "%s: with %s the initial %s depends on %s, which the configuration does not determine" % (where, tag, f[0], ", ".join(fv[:4])), tag)
            if tag.startswith("Known"):
                val = var("strategy", 16)
                rf = S.get(X, new, "reg_file")
                from rules.simlib import flat_seq
                a = Mem(X, S).array(s, rf)
                if a is None or a.op != "arr":
                    K.undecided(R2, "registers not resolved")
                else:
                    for r, w in enumerate(a.args):
                        d, _ = M.parts(s, w)
                        K.judge(R2, "register", same(X, s, d, val), lambda: "%s: with a known value R%d starts as %s" % (where, r, show(d)[:80]), "R%d" % r)
                # under the OS image (an abstract load of everything) and the I/O page lies the generated array
                base = mem
                while base is not None and base.op == "app" and base.args[0] == "osloaded":
                    base = base.args[1]
                inner = base
                while inner is not None and inner.op in ("splice", "store"):
                    inner = inner.args[0]
                if inner is None or inner.op != "app" or inner.args[0] != "genmem":
                    K.undecided(R2, "memory is not the generated array under the OS and the I/O page")
                else:
                    K.judge(R2, "memory", same(X, s, inner.args[1], val), lambda: "%s: with a known value memory is filled with %s" % (where, show(inner.args[1])[:80]))
                    t = touched(base, inner)
                    if t is None:
                        K.undecided(R2, "writes over the generated array not resolved")
                    else:
                        over = sorted(a for a in t if a < IO and same(X, s, M.parts(s, M.at(s, base, a))[0], val) is not True)
                        K.judge(R2, "overwritten", not over, "%s: with a known value the word at x%04X, outside the I/O page, is overwritten before the OS is loaded" % (where, over[0] if over else 0))
        K.saw(X)


def draw_rules(K):
    """successive draws of the strategy's generator"""
    P = K.P
    R = "draws"
    K.rule(R, "the generator of a known strategy yields the value on every draw; a seeded one yields functions of the seed", 4)
    g = P.fn("MachineInitStrategy::generator")
    gen = None
    rt = g["locals"][0]
    for f in P.fns.values():
        if f["def"].endswith("WordFiller>::generate") and "blocks" in f and P.types[f["locals"][1]].get("e") == rt:
            gen = f
    if gen is None:
        K.undecided(R, "generate() of the strategy's filler not found")
        return
    where = P.loc(g, g["line"])
    mty = P.types[g["locals"][1]]["e"]
    for name, val in (("Known", var("strategy", 16)), ("Seeded", var("strategy", 64))):
        X = Interp(P, {})
        st, vs = X.start(g)
        loc = X.heap(st, enumv(P, mty, name, val))
        for s, fil in X.exec_fn(g, [mk("ref", (loc, ()), None, g["locals"][1])], st):
            l2 = X.heap(s, fil)
            cur = [(s, ())]
            for k in range(3):
                cur = [(s3, got + (r,)) for s2, got in cur for s3, r in X.exec_fn(gen, [mk("ref", (l2, ()), None, gen["locals"][1])], s2)]
            for s2, got in cur:
                if not feasible(s2):
                    continue
                for k, r in enumerate(got):
                    if name == "Known":
                        K.judge(R, "known", same(X, s2, r, val), "%s: draw %d of a known strategy is %s" % (where, k, show(r)[:80]), "draw %d" % k)
                    else:
                        fv = foreign(X, s2, r)
                        K.judge(R, "seeded", True if not fv else False if any(ambient(n) for n in fv) else None, "%s: draw %d of a seeded strategy depends on %s" % (where, k, ", ".join(fv)), "draw %d" % k)
                        K.judge(R, "seed-used", True, "", "draw %d" % k)
        K.saw(X)
    # arrays: every element is a draw
    for fname in ("generate_array", "generate_boxed_array"):
        for f in P.fns_like("WordFiller::" + fname):
            if "blocks" not in f or P.types[f["locals"][1]].get("n") != "&mut u16":
                continue
            rn = P.types[f["locals"][0]]["n"]
            if not any("; %d]" % n in rn for n in (1, 2, 3, 5, 8)):
                continue
            X = Interp(P, {})
            S = Sim(P)
            st, vs = X.start(f)
            loc = X.heap(st, var("strategy", 16))
            for s, r in X.exec_fn(f, [mk("ref", (loc, ()), None, f["locals"][1])], st):
                a = Mem(X, S).array(s, r)
                a = s.resolve(a) if a is not None and a.w is not None else a
                n = int(rn.split(";")[1].strip(" ]>"))
                xs = [X.elem(s, a, I(i, 64), S.W) for i in range(n)] if a is not None else []
                if not xs:
                    K.undecided(R, fname + " not resolved")
                for i, w in enumerate(xs):
                    d, _ = Mem(X, S).parts(s, w)
                    K.judge(R, fname, same(X, s, d, var("strategy", 16)), "%s: element %d of %s over a constant filler is %s" % (P.loc(f, f["line"]), i, fname, show(d)[:80]), rn)
            K.saw(X)


ROOTS = ("step", "run", "run_with_limit", "run_while", "run_tripwire", "step_in", "step_over", "step_out", "read_mem", "write_mem", "call_interrupt")


def reachable(P):
    roots = [f for f in P.fns.values() if f.get("local") and "blocks" in f and ("ExternalDevice>::" in f["def"] or any(f["def"].endswith("Simulator::" + n) for n in ROOTS))]
    seen, work = {}, list(roots)
    while work:
        f = work.pop()
        if id(f) in seen:
            continue
        seen[id(f)] = f
        for d, g, l in P.callees(f):
            if g is not None and "blocks" in g:
                work.append(g)
    return roots, list(seen.values())


def audit(K):
    P = K.P
    R1, R2, R3 = "sources", "hashed", "statics"
    K.rule(R1, "no nondeterministic source is reachable from stepping, running, memory access or a device operation", 50)
    K.rule(R2, "iteration over a hashed collection there feeds only order-insensitive consumers", 0)
    K.rule(R3, "no mutable static is shared between simulators", 0)
    roots, fns = reachable(P)
    loc = [f for f in fns if f.get("local")]
    for f in loc:
        K.fns.add(f["def"])
        bad = None
        hashed = False
        for d, g, l in P.callees(f):
            if d and any(x in d for x in NONDET) and not ("HashMap" in d or "HashSet" in d):
                bad = (d, l)
            if d and ("HashMap::<" in d or "HashSet::<" in d or "HashMap<" in d or "HashSet<" in d) and d.split("::")[-1] in ("iter", "keys", "values", "into_iter", "drain", "iter_mut", "values_mut", "retain", "into_keys", "into_values"):
                hashed = True
        if bad:
            key = f["def"].split("::")[-1] + " " + bad[0].split("::")[-1]
            K.violation(R1, key, "%s: %s calls %s, a source the configuration does not determine, on a path reachable from %s" % (P.loc(f, bad[1] or f["line"]), f["def"], bad[0], "stepping or a device operation"))
        else:
            K.ok(R1, f["def"])
        if hashed:
            cons = set()
            for d, g, l in P.callees(f):
                if g is not None and len(g.get("locals", ())) > 1 and g.get("argc", 0) > 0:
                    n = P.types[g["locals"][1]]["n"]
                    if "hash_set::" in n or "hash_map::" in n or "hash::" in n and "Iter" in n:
                        cons.add(g["def"].split("::")[-1])
            odd = sorted(c for c in cons if c not in CONSUME_OK and not c.startswith("{"))
            if odd:
                K.undecided(R2, "%s iterates a hashed collection into %s" % (P.loc(f, f["line"]), ", ".join(odd)))
            else:
                K.ok(R2, "%s (%s)" % (f["def"], ", ".join(sorted(cons))))
    for n, ty in sorted({(a["n"], a.get("t")) for a in P.allocs.values() if a.get("k") == "static"}):
        if n.startswith("lc3_ensemble"):
            t = P.types[ty]["n"] if ty is not None else "?"
            if any(x in t for x in ("Atomic", "Mutex", "RwLock", "Cell", "LocalKey")) and "OnceLock" not in t and "LazyLock" not in t and "OnceCell" not in t:
                K.undecided(R3, "static %s: %s" % (n, t))
            else:
                K.ok(R3, n)


def run(K):
    init_rules(K)
    draw_rules(K)
    C34.source_rules(K, C34.Timer(K))
    audit(K)
