"""Rule groups over the step summary and the memory-access summary, shared by the simulator properties."""
from engine.terms import *
from engine.interp import Interp, State
from engine.judge import same, feasible
from rules.simlib import *
from rules import step as stepmod
from rules.memrules import MemCheck
from engine import models

ASPECT_TEXT = {
    "result": "the step succeeds or fails (and with which error) exactly as the ISA reference does on that path",
    "effects": "the sequence of memory reads and writes (address, data, access privilege) is the reference's",
    "io": "memory reads made by executed instructions perform device effects",
    "pc": "the program counter is the reference's (bit-provenance normal form)",
    "faultpc": "after an error the faulting address computed by prefetch_pc is the address of the instruction",
    "psr": "privilege, priority and condition codes are the reference's",
    "priv": "the privilege bit after the step is the reference's",
    "saved_sp": "the saved stack pointer is the reference's",
    "regs": "the register file is the reference's",
    "count": "the instruction counter is incremented exactly by executed instructions",
    "mem": "memory is changed only through write_mem",
    "frames": "frame stack pushes and pops (caller, callee, kind) are the reference's",
    "observer": "the program's accesses use tracked contexts and the record is otherwise kept",
    "config": "configuration fields are untouched by a step",
}


def gaps(K, X, rule):
    for n, c in X.opaque.items():
        K.undecided(rule, "call with no model: %s (x%d)" % (n, c))
    for n, c in getattr(X, "imprecise", {}).items():
        K.undecided(rule, "imprecise: %s (x%s)" % (n, c))


def step_rules(K, want, strict=False, keep=None, summary=None):
    """want: {aspect: rule}; keep(R): restricts to some step kinds"""
    for a, r in want.items():
        K.rule(r, ASPECT_TEXT[a], 1)
    X, S, s0, f, paths = summary or stepmod.summarise(K, strict)
    first = next(iter(want.values()))
    gaps(K, X, first)
    if f is None or not paths:
        K.undecided(first, "no paths")
        return None
    n = 0
    for p in paths:
        for R, st, asp, key, res, txt in stepmod.compare(X, S, s0, p, None):
            if asp not in want or keep is not None and not keep(R):
                continue
            n += 1
            K.judge(want[asp], key, res, txt, key)
    K.notes.append("%s: %d paths of the step summary (strict=%s), %d comparisons" % (f["def"], len(paths), strict, n))
    return X, S, s0, f, paths


def direct_reads(K, summ, rule, key, text, cond=None):
    """no result of a step depends on the memory array other than through read_mem"""
    X, S, s0, f, paths = summ
    P = K.P
    K.rule(rule, "no step result or branch depends on a direct read of the memory array (only on read_mem results)", 5)
    m = X.fld(S.get(X, s0, "mem"), 0, 0, P.types[S.get(X, s0, "mem").ty]["v"][0]["f"][0][1])
    ii, _ = S.fidx(S.W, "init")
    memo = {}

    def from_mem(t):
        if t not in memo:
            memo[t] = m in subterms(t)
        return memo[t]

    for p in paths:
        terms = [S.get(X, p.final, n) for n in ("pc", "psr", "reg_file", "saved_sp")] + list(p.st.facts) + [a for e in p.events for a in e[1:] if isinstance(a, T)]
        sub = set()
        for t in terms:
            subterms(t, sub)
        bad = None
        for t in sub:
            # looking at an initialisation mask is not a read of the word's value
            if t.op == "fld" and t.args[2] != ii and t.args[0].op == "select" and t.args[0].ty == S.W and from_mem(t.args[0].args[0]):
                bad = t
        if bad is None:
            K.ok(rule, f["def"])
            continue
        s2 = p.st.copy()
        K.judge(rule, key, False if (cond is None or s2.assume(cond, True)) and feasible(s2) else True, text % show(bad))


def mem_rules(K, want, which=("read_mem", "write_mem")):
    """want: {aspect: rule}"""
    for a, r in want.items():
        K.rule(r, MEM_TEXT[a], 1)
    for w in which:
        M = MemCheck(K, w)
        gaps(K, M.X, next(iter(want.values())))
        for asp, key, res, txt in M.run():
            if asp in want:
                K.judge(want[asp], key, res, txt, key)


MEM_TEXT = {
    "access": "an unprivileged access outside x3000-xFDFF fails with AccessViolation and touches nothing",
    "strict": "in a strict context exactly the not fully initialised words are rejected, with the strict error of their class",
    "result": "read_mem/write_mem succeed or fail as their access class prescribes",
    "dispatch": "I/O addresses go to the mapped internal register, else to the owning device, else nowhere",
    "effects": "a memory access changes no other machine state",
    "memory": "memory changes exactly at the accessed address, to the written word",
    "value": "a non-I/O read returns the memory word at the address",
    "observer": "exactly tracked non-I/O accesses are recorded, with READ / WRITTEN / MODIFIED as defined",
    "panic": "no panic",
}
