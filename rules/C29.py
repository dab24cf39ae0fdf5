"""C29: loading places exactly the object image; a fresh machine holds the OS and a zero I/O page."""
import os
from rules.loadlib import *
from rules.C30 import hooks
from engine.judge import same, feasible

EXPLAIN = ("load_obj_file is interpreted over object files whose block positions and initialised/reserved shapes are enumerated (including blocks at x0000, ending at xFE00, "
           "and wrapping) and whose words, and the whole machine, are symbolic; every address written and every other field is compared with the image. Construction is "
           "interpreted with the load abstracted and the memory it leaves compared with what the load left.")
ASSUME = ["the OS image contains no word in the I/O page (decided by C11/C02 rules on the assembler)"]

LOAD = CR + "sim::Simulator::load_obj_file"


def patterns(n):
    if n == 0:
        return [""]
    return [c + p for c in "SN" for p in patterns(n - 1)]


def shapes(tier):
    out = [[]]
    n = 4 if tier == "quick" else 5
    for k in range(0, n + 1):
        for p in patterns(k):
            out.append([(0x3000, p)])
    for p in patterns(3):
        out.append([(0x0000, p)])
        out.append([(0xFE00 - 3, p)])
    for p in ("SSNNSS", "NSSNNS", "SNSNSNSN", "NNNNSSSS", "SSSSSSSS", "NNNNNNNN"):
        out.append([(0x4000, p)])
        out.append([(0x0000, p)])
        out.append([(0xFE00 - len(p), p)])
    out += [[(0x3000, "SNS"), (0x3003, "NS")], [(0x5000, "SN"), (0x3000, "NS")], [(0x0000, "S"), (0xFDFF, "N")],
            [(0x0000, "N"), (0x1000, "SS"), (0xFDFE, "SS")], [(0x3000, ""), (0x3000 + 1, "S")]]
    return out


def fields(P, ty):
    return P.types[ty]["v"][0]["f"]


def load_rules(K):
    P = K.P
    S = Sim(P)
    O = Obj(P)
    f = P.fn("Simulator::load_obj_file")
    where = P.loc(f, f["line"])
    R1, R2, R3, R4 = "image", "others", "state", "accept"
    K.rule(R1, "every word of the image: initialised words hold their value fully initialised, reserved words are uninitialised", 60)
    K.rule(R2, "no address outside the image is changed by the load", 40)
    K.rule(R3, "the load leaves registers, PC, PSR and every other architectural field unchanged", 40)
    K.rule(R4, "a file without unresolved externals is loaded (no error, no panic); one with them changes nothing", 20)
    oi = 1
    keep = ("reg_file", "pc", "psr", "saved_sp", "frame_stack", "instructions_run", "mcr", "flags", "breakpoints", "ireg_mmap", "device_handler")

    def run(bl, labels, tag):
        X = Interp(P, {})
        M = Mem(X, S)
        st, vs = X.start(f)
        vs = list(vs)
        loc = X.heap(st, O.file(bl, labels))
        vs[oi] = mk("ref", (loc, ()), None, f["locals"][2])
        sl = X.deref_loc(vs[0])
        s0 = X.load(st, *sl)
        m0 = M.array(st, S.get(X, s0, "mem"))
        np = len(X.panics)
        outs = X.exec_fn(f, vs, st)
        K.saw(X)
        return X, M, sl, s0, m0, outs

    def judge(bl, labels, tag):
        ext = labels is not None and any(e for _, e in labels)
        try:
            X, M, sl, s0, m0, outs = run(bl, labels, tag)
        except Limit as e:
            K.undecided(R4, "%s: %s" % (tag, e))
            return
        for p in X.panics:
            if feasible(p.st) is True:
                K.violation(R4, "panic", "%s: loading %s can panic (%s at %s)" % (where, tag, p.kind, P.loc(p.fn, p.line)))
            else:
                K.undecided(R4, "%s: %s" % (tag, p.kind))
        for s, r in outs:
            if feasible(s) is False:
                continue
            v = X.variant(s, r)
            if v is None:
                K.undecided(R4, tag + ": result unknown")
                continue
            s1 = X.load(s, *sl)
            m1 = M.array(s, S.get(X, s1, "mem"))
            if ext:
                K.judge(R4, "external", v == 1, "%s: a file with an unresolved external is loaded (%s)" % (where, tag), tag)
            else:
                K.judge(R4, "load", v == 0 if v == 0 or feasible(s) is True else None, "%s: loading a file without externals fails (%s)" % (where, tag), tag)
            if m0 is None or m1 is None:
                K.undecided(R1, tag + ": memory not resolved")
                continue
            img = {} if ext or v == 1 else {(a + i) & 0xFFFF: (c, var("w%x_%d" % (a, i), 16)) for a, pat in bl for i, c in enumerate(pat)}
            t = touched(m1, m0)
            for a in sorted(img):
                c, w = img[a]
                d, ini = M.parts(s, M.at(s, m1, a))
                if c == "S":
                    ok = conj(same(X, s, d, w), same(X, s, ini, I(0xFFFF, 16)))
                    K.judge(R1, "init-word", ok, lambda: "%s: loading %s leaves x%04X = (%s, init %s), expected the file's word, fully initialised" % (where, tag, a, show(d)[:60], show(ini)[:40]), tag)
                else:
                    ok = same(X, s, ini, I(0, 16))
                    K.judge(R1, "reserved-word", ok, lambda: "%s: loading %s leaves reserved word x%04X with init bits %s" % (where, tag, a, show(ini)[:60]), tag)
            if t is None:
                # not a chain of concrete writes: compare around the blocks and at the ends
                t = {0, 1, 0x2FFF, 0xFDFF, 0xFE00, 0xFFFF}
                for a, pat in bl:
                    t |= {(a - 1) & 0xFFFF, (a + len(pat)) & 0xFFFF, (a + len(pat) + 1) & 0xFFFF}
                K.undecided(R2, tag + ": memory is not a chain of concrete writes; sampled addresses only")
            bad = None
            for a in sorted(t - set(img)):
                r2 = same(X, s, M.at(s, m1, a), M.at(s, m0, a))
                if r2 is False:
                    bad = a
                    break
                if r2 is None:
                    K.undecided(R2, "%s: x%04X" % (tag, a))
            K.judge(R2, "outside", bad is None, "%s: loading %s changes x%04X, outside the image" % (where, tag, bad or 0), tag)
            for n in keep:
                i, ft = S.fidx(S.ty, n)
                if i is None:
                    continue
                a, b = X.fld(s0, 0, i, ft), X.fld(s1, 0, i, ft)
                r2 = True if a is b else same(X, s, a, b)
                K.judge(R3, n, r2, "%s: loading %s changes the %s" % (where, tag, n), tag)

    for bl in shapes(K.tier):
        tag = "{" + ", ".join("x%04X:%s" % b for b in bl) + "}"
        judge(bl, None, tag)
    for labels in ([], [("A", False)], [("A", False), ("B", False)], [("A", True)], [("A", False), ("B", True)], [("A", True), ("B", True)]):
        tag = "{x3000:SN} with labels " + (",".join(n + ("(external)" if e else "") for n, e in labels) or "none")
        judge([(0x3000, "SN")], labels, tag)


def conj(a, b):
    if a is False or b is False:
        return False
    return True if a is True and b is True else None


def fresh_rules(K):
    P = K.P
    S = Sim(P)
    f = P.fn("Simulator::new")
    where = P.loc(f, f["line"])
    R1, R2, R3 = "io-page", "os", "pc"
    K.rule(R1, "a new machine's I/O page holds zeros", 1)
    K.rule(R2, "a new machine's memory is the OS image loaded over the initial contents and nothing written after it", 1)
    K.rule(R3, "a new machine's PC is x3000", 1)
    base = {}

    def h(X, st, fr, a, retty, fn):
        M = Mem(X, S)
        l, p = X.deref_loc(a[0])
        sim = X.load(st, l, p)
        pre = M.array(st, S.get(X, sim, "mem"))
        b = var("osmem", None, pre.ty if pre is not None and pre.ty is not None else P.tyname.get("[sim::mem::Word; 65536]"))
        memty = S.fidx(S.ty, "mem")[1]
        # the load leaves an arbitrary memory
        mv = S.get(X, sim, "mem")
        bt = P.types[memty]["v"][0]["f"][0][1]
        box = X.fld(mv, 0, 0, bt)
        fi, ft = 0, P.types[bt]["v"][0]["f"][0][1]
        ml = X.deref_loc(X.fld(box, 0, 0, ft), P.types[bt]["a"][0])
        X.save(st, ml[0], ml[1], b)
        st.emit("osload", a[1], pre, b)
        return [(st, result(P, retty, True, P.zst(P.unit)))]

    H = hooks(P, S)
    H[LOAD] = h
    X = Interp(P, H)
    M = Mem(X, S)
    st, vs = X.start(f)
    outs = X.exec_fn(f, vs, st)
    K.saw(X)
    for s, r in outs:
        if feasible(s) is False:
            continue
        ev = [e for e in s.events() if e[0] == "osload"]
        if len(ev) != 1:
            K.judge(R2, "loads", False if feasible(s) is True and not ev else None, "%s: a path of construction loads the OS image %d times" % (where, len(ev)))
            continue
        pre, b = ev[0][2], ev[0][3]
        m = M.array(s, S.get(X, r, "mem"))
        t = touched(m, b) if m is not None else None
        if t is None or pre is None:
            K.undecided(R2, "memory after the load not resolved")
            continue
        low = sorted(a for a in t if a < IO and same(X, s, M.at(s, m, a), M.at(s, b, a)) is not True)
        K.judge(R2, "after", not low, "%s: construction overwrites x%04X after the OS was loaded" % (where, low[0] if low else 0))
        probe = (0xFE00, 0xFE02, 0xFE06, 0xFEFF, 0xFF00, 0xFFFC, 0xFFFE, 0xFFFF)
        for a in probe:
            d, _ = M.parts(s, M.at(s, m, a))
            if a not in t:
                d, _ = M.parts(s, M.at(s, pre, a))
            K.judge(R1, "zero", same(X, s, d, I(0, 16)), lambda: "%s: a new machine's memory at x%04X is %s, not 0" % (where, a, show(d)[:60]))
        K.judge(R3, "pc", same(X, s, S.get(X, r, "pc"), I(0x3000, 16)), "%s: a new machine starts at %s" % (where, show(S.get(X, r, "pc"))))


def os_rules(K):
    """what the load in the constructor is given: the assembled text of src/os.asm"""
    P = K.P
    S = Sim(P)
    R = "os-image"
    K.rule(R, "the object loaded at construction is the OS source assembled", 1)
    log = []

    def parse(X, st, fr, a, retty, fn):
        src = X.load(st, *X.deref_loc(a[0])) if a[0].op != "str" else mk("strc", a[0].args)
        log.append(src)
        okt = P.types[retty]["v"][0]["f"][0][1]
        return [(st, result(P, retty, True, var("ast", None, okt)))]

    def asm(X, st, fr, a, retty, fn):
        okt = P.types[retty]["v"][0]["f"][0][1]
        st.emit("assembled", a[0])
        return [(st, result(P, retty, True, var("osobj", None, okt)))]

    H = {CR + "parse::parse_ast": parse, CR + "asm::assemble_debug": asm, CR + "asm::assemble": asm}
    f = next((g for g in P.fns_like("_os_obj_file::{closure#0}") if "blocks" in g), None)
    if f is None:
        K.undecided(R, "initialiser of the OS object not found")
        return
    X = Interp(P, H)
    st, vs = X.start(f)
    outs = X.exec_fn(f, vs, st)
    K.saw(X)
    path = os.path.join(os.environ.get("LC3_REPO", "/repo"), "src/os.asm")
    text = open(path, "rb").read() if os.path.exists(path) else None
    where = P.loc(f, f["line"])
    for s, r in outs:
        src = log[0] if log else None
        K.judge(R, "source", True if src is not None and src.op == "strc" and src.args[0] == text else None, where + ": source text of the OS not resolved")
        K.judge(R, "object", True if r.op == "var" and r.args[0] == "osobj" else None, where + ": assembled OS object not resolved")


def run(K):
    load_rules(K)
    fresh_rules(K)
    os_rules(K)
