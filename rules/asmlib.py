"""Abstract assembly programs: statement shapes, label spellings and source layout are concrete; addresses, operands and sizes are symbolic."""
from rules.simlib import *
from engine.judge import same, feasible
from engine.zone import zone_unsat, zone_decide

PCO = {"BR": (1, 9), "LD": (1, 9), "LDI": (1, 9), "LEA": (1, 9), "ST": (1, 9), "STI": (1, 9), "JSR": (0, 11), "NOP": (0, 9)}


class St:
    """one statement: labels (spellings), kind, operand. own_line: labels stand on the line before"""

    def __init__(self, kind, arg=None, labels=(), own_line=False, pre=0, name=None):
        self.kind, self.arg, self.labels, self.own_line, self.pre, self.name = kind, arg, tuple(labels), own_line, pre, name
        self.span = self.line = None
        self.lpos = []
        self.oppos = None


class Styled(list):
    """a program with a source layout of its own: line ends, indentation, text before and after"""
    nl, indent, tail, head = "\n", "  ", "; tail", ""


def styled(prog, **k):
    p = Styled(prog)
    p.__dict__.update(k)
    return p


def orig(a, *labels, **k):
    return St("orig", a, labels, **k)


def end(*labels, **k):
    return St("end", None, labels, **k)


def ext(l, *labels, **k):
    return St("external", l, labels, **k)


def fill(v, *labels, **k):
    return St("fill", v, labels, **k)


def blkw(n, *labels, **k):
    return St("blkw", n, labels, **k)


def strz(s, *labels, **k):
    return St("stringz", s, labels, **k)


def ins(name, arg=None, *labels, **k):
    """instruction; arg: label spelling (str) for a PC-relative operand, None: symbolic operands"""
    return St("instr", arg, labels, name=name, **k)


class Asm:
    def __init__(self, P):
        self.P = P
        self.stmt = P.adt("Stmt")
        self.kind = P.adt("StmtKind")
        self.dirt = P.adt("Directive")
        self.instr = P.adt("AsmInstr")
        self.label = P.adt("Label")
        fs = {f[0]: f[1] for f in P.types[self.stmt]["v"][0]["f"]}
        self.vlab, self.rng = fs["labels"], fs["span"]
        f = P.fn("asm::assemble")
        self.vstmt = f["locals"][1]

    # ---- layout
    def layout(self, prog):
        """assign positions; returns the source text"""
        out, pos, line = [], 0, 0

        def put(s):
            nonlocal pos, line
            out.append(s)
            pos += len(s.encode())
            line += s.count("\n")

        y = prog if isinstance(prog, Styled) else Styled
        nl = y.nl
        put(y.head)
        for k, s in enumerate(prog):
            for _ in range(s.pre):
                put("; note %d%s" % (k, nl))
            s.lpos = []
            for l in s.labels:
                s.lpos.append(pos)
                put(l)
                put(nl if s.own_line else " ")
            put(y.indent)
            s.line = line
            a = pos
            if s.kind == "instr":
                put((s.name + " R0, " if s.name not in ("NOP", "JSR", "BR") else s.name + " "))
            else:
                put("." + s.kind + " ")
            s.oppos = pos
            put(s.arg if isinstance(s.arg, str) else "" if s.kind in ("end", "instr") and s.name not in PCO else "SYM" if s.kind == "stringz" else "x0")
            s.span = (a, pos)
            put(nl)
        put(y.tail)
        return "".join(out)

    # ---- terms
    def rangev(self, a, b):
        return agg(self.P, self.rng, 0, I(a, 64), I(b, 64))

    def strv(self, s):
        return mk("strc", (s.encode(),))

    def labelv(self, name, start):
        P = self.P
        return agg(P, self.label, 0, *[self.strv(name) if f[0] == "name" else I(start, 64) for f in P.types[self.label]["v"][0]["f"]])

    def pcoff(self, ty, arg, pos, val):
        """PCOffset of type ty: label or offset value"""
        P = self.P
        if isinstance(arg, str):
            return enumv(P, ty, "Label", self.labelv(arg, pos))
        off = P.types[ty]["v"][P.variant_idx(ty, "Offset")]["f"][0][1]
        return enumv(P, ty, "Offset", agg(P, off, 0, val))

    def nucleus(self, s, k):
        P = self.P
        if s.kind == "instr":
            vi = P.variant_idx(self.instr, s.name)
            fs = []
            s.form = Form(self, s.name, k, getattr(s, "imm", True))
            for i, f in enumerate(P.types[self.instr]["v"][vi]["f"]):
                if s.name in PCO and PCO[s.name][0] == i:
                    s.form.off = sext(var("off%d" % k, PCO[s.name][1]), 16)
                    fs.append(self.pcoff(f[1], s.arg, s.oppos, s.form.off))
                else:
                    fs.append(s.form.fs[i])
            return enumv(P, self.kind, "Instr", agg(P, self.instr, vi, *fs))
        dn = {"orig": "Orig", "fill": "Fill", "blkw": "Blkw", "stringz": "Stringz", "end": "End", "external": "External"}[s.kind]
        vi = P.variant_idx(self.dirt, dn)
        fs = P.types[self.dirt]["v"][vi]["f"]
        if s.kind in ("orig", "blkw"):
            v = [agg(P, fs[0][1], 0, s.arg)]
        elif s.kind == "fill":
            v = [self.pcoff(fs[0][1], s.arg, s.oppos, s.arg)]
        elif s.kind == "stringz":
            v = [self.strv(s.arg) if isinstance(s.arg, str) else s.arg]
        elif s.kind == "external":
            v = [self.labelv(s.arg, s.oppos)]
        else:
            v = []
        return enumv(P, self.kind, "Directive", agg(P, self.dirt, vi, *v))

    def stmtv(self, s, k):
        P = self.P
        out = []
        for f in P.types[self.stmt]["v"][0]["f"]:
            if f[0] == "labels":
                out.append(arr(self.vlab, *[self.labelv(l, p) for l, p in zip(s.labels, s.lpos)]))
            elif f[0] == "nucleus":
                out.append(self.nucleus(s, k))
            else:
                out.append(self.rangev(*s.span))
        return agg(P, self.stmt, 0, *out)

    def ast(self, prog):
        return arr(self.vstmt, *[self.stmtv(s, k) for k, s in enumerate(prog)])

    def run(self, prog, debug, hooks=None, base=None):
        """interpret assemble/assemble_debug: [(state, Result value)]; returns (interp, function, outcomes, source)"""
        P = self.P
        src = self.layout(prog)
        f = P.fn("asm::assemble_debug" if debug else "asm::assemble")
        X = Interp(P, dict(hooks or {}))
        X.maxpaths = 400
        st, vs = X.start(f)
        for c, v in base or ():
            st.assume(c, v)
        for x in prog:      # the parser rejects .blkw 0
            if x.kind == "blkw" and not isc(x.arg):
                st.assume(eq(x.arg, I(0, 16)), False)
            if x.kind == "stringz" and not isinstance(x.arg, str):      # the lexer rejects longer ones
                st.assume(lt(X.length(st, x.arg), I(65535, 64)), True)
        args = [self.ast(prog)]
        if debug:
            args.append(mk("str", (src.encode(),)))
        return X, f, X.exec_fn(f, args, st), src


# ------------------------------------------------------------------ reference assembler (from the ISA and the property text, not from the code)
IO0 = 0xFE00
TRAPS = {"GETC": 0x20, "OUT": 0x21, "PUTC": 0x21, "PUTS": 0x22, "IN": 0x23, "PUTSP": 0x24, "HALT": 0x25}
NONE = "none"


def fieldbits(parts):
    """16-bit word from (term or int, width) parts, high to low"""
    out = []
    for t, n in reversed(parts):
        if isinstance(t, int):
            t = I(t, 16)
        out += list(bits(zext(t, 16) if t.w < 16 else t)[:n])
    return mkbits(out)


class Form:
    """operand forms of an instruction statement: symbolic but within their representable range"""

    def __init__(self, A, name, k, imm=True):
        P = A.P
        self.name = name
        vi = P.variant_idx(A.instr, name)
        self.fs, self.ref = [], []
        for i, f in enumerate(P.types[A.instr]["v"][vi]["f"]):
            t = P.types[f[1]]
            n = "f%d_%d" % (k, i)
            if name in PCO and PCO[name][0] == i:
                self.fs.append(None)
                self.ref.append(None)
            elif t["k"] == "uint":
                v = var(n, 3)
                self.fs.append(zext(v, t["w"] if "w" in t else 8))
                self.ref.append(v)
            elif t["n"].endswith("::Reg"):
                v = var(n, 3)
                self.fs.append(mk("enumof", (v,), None, f[1]))
                self.ref.append(v)
            elif "ImmOrReg" in t["n"]:
                vn = "Imm" if imm else "Reg"
                ft = t["v"][P.variant_idx(f[1], vn)]["f"][0][1]
                if imm:
                    v = var(n, 5)
                    off = A.offv(ft, v)
                    self.ref.append((1, v))
                else:
                    v = var(n, 3)
                    off = mk("enumof", (v,), None, ft)
                    self.ref.append((0, v))
                self.fs.append(enumv(P, f[1], vn, off))
            else:
                N = A.offbits(f[1])
                v = var(n, N)
                self.fs.append(A.offv(f[1], v))
                self.ref.append(v)

    def word(self, off):
        """reference encoding; off: 16-bit value of the PC-relative operand, if any"""
        r, n = self.ref, self.name
        if n in ("ADD", "AND"):
            b = [(1, 1), (r[2][1], 5)] if r[2][0] else [(0, 3), (r[2][1], 3)]
            return fieldbits([(1 if n == "ADD" else 5, 4), (r[0], 3), (r[1], 3)] + b)
        if n == "NOT":
            return fieldbits([(9, 4), (r[0], 3), (r[1], 3), (63, 6)])
        if n == "BR":
            return fieldbits([(0, 4), (r[0], 3), (off, 9)])
        if n == "NOP":
            return fieldbits([(0, 7), (off, 9)])
        if n == "JMP":
            return fieldbits([(12, 4), (0, 3), (r[0], 3), (0, 6)])
        if n == "RET":
            return I(0xC1C0, 16)
        if n == "RTI":
            return I(0x8000, 16)
        if n == "JSR":
            return fieldbits([(4, 4), (1, 1), (off, 11)])
        if n == "JSRR":
            return fieldbits([(4, 4), (0, 3), (r[0], 3), (0, 6)])
        if n in ("LD", "LDI", "LEA", "ST", "STI"):
            return fieldbits([({"LD": 2, "LDI": 10, "LEA": 14, "ST": 3, "STI": 11}[n], 4), (r[0], 3), (off, 9)])
        if n in ("LDR", "STR"):
            return fieldbits([(6 if n == "LDR" else 7, 4), (r[0], 3), (r[1], 3), (r[2], 6)])
        if n == "TRAP":
            return fieldbits([(15, 4), (0, 4), (r[0], 8)])
        if n in TRAPS:
            return I(0xF000 | TRAPS[n], 16)
        return None


def _offbits(self, ty):
    return int(self.P.types[ty]["n"].split(",")[-1].strip(" >"))


def _offv(self, ty, v):
    bt = self.P.types[ty]["v"][0]["f"][0][1]
    return agg(self.P, ty, 0, sext(v, 16) if self.P.signed(bt) else zext(v, 16))


Asm.offbits, Asm.offv = _offbits, _offv


class Ref:
    def __init__(self):
        self.errs, self.open = {}, set()
        self.blocks, self.labels, self.lorder = [], {}, []
        self.fills, self.lines, self.amb = [], {}, set()
        self.first = {}

    def err(self, kind, *texts):
        self.errs.setdefault(kind, []).extend(texts)


def upper(s):
    return s.upper()


def reference(A, prog, ask):
    """what the property demands of this program, on the path ask() stands for"""
    R = Ref()
    cur = None          # [start, lc, full, segments, orig stmt, broken]
    pend = []
    for k, s in enumerate(prog):
        for l, p in list(zip(s.labels, s.lpos)):
            if cur is None:
                R.err("UndetAddrLabel", l)
            elif cur[5] or cur[2]:
                R.open |= {"OverlappingLabels", "OffsetNewErr", "CouldNotFindLabel", "OffsetExternal"}
            else:
                bind(R, l, p, cur[1], False, ask)
        if s.kind == "orig":
            if cur is not None:
                R.err("OverlappingOrig")
                R.blocks.append(cur)
            cur = [s.arg, s.arg, False, [], s, False]
            continue
        if s.kind == "end":
            if cur is None:
                R.err("UnopenedOrig")
            else:
                R.blocks.append(cur)
                cur = None
            continue
        if s.kind == "external":
            bind(R, s.arg, s.oppos, I(0, 16), True, ask)
            continue
        if cur is None:
            R.err("UndetAddrStmt")
            if s.kind == "fill" and isinstance(s.arg, str) or s.kind == "instr" and isinstance(s.arg, str):
                R.open |= {"CouldNotFindLabel", "OffsetNewErr", "OffsetExternal"}
            continue
        lc = cur[1]
        R.lines[s.line] = lc
        if s.kind == "instr":
            pend.append((s, lc, k, "pc"))
            n, seg = I(1, 16), [("w", (k, s))]
        elif s.kind == "fill":
            if isinstance(s.arg, str):
                pend.append((s, lc, k, "fill"))
            n, seg = I(1, 16), [("w", (k, s))]
        elif s.kind == "blkw":
            n, seg = s.arg, [("none", s.arg)]
        elif not isinstance(s.arg, str):
            L = mk("len", (s.arg,), 64)
            n, seg = add(trunc(L, 16), I(1, 16)), [("cs", s.arg), ("c", 0)]
        else:
            b = s.arg.encode()
            n, seg = I(len(b) + 1, 16), [("c", x) for x in b + b"\0"]
        if isc(n) and cv(n) == 0 or not isc(n) and ask(eq(n, I(0, 16))):
            continue
        cur[3] += seg
        if cur[5]:
            continue
        if cur[2]:
            R.err("WrappingBlock")
            cur[5] = True
            continue
        new = add(lc, n)
        # past xFFFF?
        over = ask(bnot(lt(lc, I((0x10000 - cv(n)) & 0xFFFF, 16)))) if isc(n) else ask(lt(new, lc))
        if over:
            R.err("BlockInIO")
            if ask(eq(new, I(0, 16))):
                cur[2] = True
            else:
                R.err("WrappingBlock")
                cur[5] = True
            continue
        if ask(lt(I(IO0, 16), new)):
            R.err("BlockInIO")
        cur[1] = new
    if cur is not None:
        R.err("UnclosedOrig")
        R.blocks.append(cur)
    # overlap of non-empty blocks
    bl = [b for b in R.blocks if b[3]]
    if any(b[5] or b[2] for b in bl):
        R.open.add("OverlappingBlocks")
    else:
        for i in range(len(bl)):
            for j in range(i):
                if ask(lt(bl[i][0], bl[j][1])) and ask(lt(bl[j][0], bl[i][1])):
                    R.err("OverlappingBlocks")
    if any(b[5] or b[2] for b in R.blocks):
        R.open |= {"OffsetNewErr"}
    # label operands
    R.words = {}
    for s, lc, k, how in pend:
        if how == "pc" and not isinstance(s.arg, str):
            R.words[k] = s.form.word(getattr(s.form, "off", None))
            continue
        u = upper(s.arg)
        e = R.labels.get(u)
        if e is None:
            R.err("CouldNotFindLabel", s.arg)
            continue
        if how == "fill":
            R.fills.append((lc, u, k))
            R.words[k] = e[0]
            continue
        if u in R.amb:
            R.open.add("OffsetExternal")
            R.open.add("ok")
            continue
        if e[1]:
            R.err("OffsetExternal", s.arg)
            continue
        N = PCO[s.name][1]
        d = sub(e[0], add(lc, I(1, 16)))
        # fits N bits signed (in the form the term language uses for this shape)
        if ask(lt(add(d, I(1 << (N - 1), 16)), I(1 << N, 16)) if d.op == "lin" else eq(d, sext(mkbits(bits(d)[:N]), 16))):
            R.words[k] = s.form.word(d)
        else:
            R.err("OffsetNewErr", s.arg)
    return R


def bind(R, l, p, addr, external, ask):
    u = upper(l)
    e = R.labels.get(u)
    if e is None:
        R.labels[u] = [addr, external, p, l]
        return
    if e[1] and external:
        return
    if ask(eq(e[0], addr)):
        if e[1] != external:
            R.amb.add(u)
        return
    R.err("OverlappingLabels", e[3], l)


# ------------------------------------------------------------------ judging
from engine import models as _m
from rules.reflib import explore


def map_find(X, st, m, k):
    """value stored under key k in a known map: (value | None, decided)"""
    while True:
        if m.op == "mempty":
            return None, True
        if m.op not in ("minsert", "mremove"):
            return None, False
        d = zone_decide(st, _m.eqv(X, st, m.args[1], k))
        if d is None:
            return None, False
        if d:
            return (m.args[2], True) if m.op == "minsert" else (None, True)
        m = m.args[0]


def strof(X, st, v):
    """python string of a literal string term"""
    v = _m.deref_all(X, st, v)
    return v.args[0].decode("utf8", "replace") if v.op == "strc" else None


def loc64(n):
    return zext(n, 64) if n.w < 64 else n


class Case:
    """outcomes of one program shape, with the reference for each path"""

    def __init__(self, A, prog, debug, tag, base=None):
        self.A, self.prog, self.debug, self.tag = A, prog, debug, tag
        self.X, self.f, self.outs, self.src = A.run(prog, debug, base=base)
        self.P = A.P
        self.where = A.P.loc(self.f, self.f["line"])
        self.text = " / ".join(l.strip() for l in self.src.split("\n") if l.strip() and not l.startswith(";"))

    def paths(self):
        """(state, 'Ok' value | 'Err' value, reference)"""
        P = self.P
        for s, r in self.outs:
            vi = self.X.variant(s, r)
            if vi is None:
                yield s, None, None, None
                continue
            ok = P.vname(r.ty, vi) == "Ok" if r.ty is not None else vi == 0
            if zone_unsat(s):
                continue
            for s2, R in explore(s, lambda ask: reference(self.A, self.prog, ask)):
                if not zone_unsat(s2):
                    yield s2, ok, r.args[2], R

    def errkind(self, s, e):
        P, X = self.P, self.X
        ty = P.adt("AsmErr")
        i = next(i for i, f in enumerate(P.types[ty]["v"][0]["f"]) if f[0] == "kind")
        kt = P.types[ty]["v"][0]["f"][i][1]
        v = X.variant(s, X.fld(e, 0, i, kt))
        return P.vname(kt, v) if v is not None else None

    def spans(self, s, e):
        """[(start, end)] of an error's span list, None if not concrete"""
        P, X = self.P, self.X
        ty = P.adt("AsmErr")
        i = next(i for i, f in enumerate(P.types[ty]["v"][0]["f"]) if f[0] == "span")
        st_ = P.types[ty]["v"][0]["f"][i][1]
        sp = X.fld(e, 0, i, st_)
        v = X.variant(s, sp)
        if v is None:
            return None
        n = P.vname(st_, v)
        fs = P.types[st_]["v"][v]["f"]
        x = X.fld(sp, v, 0, fs[0][1])
        items = [x] if P.types[fs[0][1]]["k"] == "adt" and "Range" in P.types[fs[0][1]]["n"] and "Vec" not in P.types[fs[0][1]]["n"] else flat_seq(X, s, x)
        if items is None:
            return None
        out = []
        for it in items:
            it = X.expand(it)
            if it.op != "agg":
                return None
            a, b = s.resolve(it.args[2]), s.resolve(it.args[3])
            if not (isc(a) and isc(b)):
                return None
            out.append((cv(a), cv(b)))
        return out

    def objfld(self, o, name):
        P, X = self.P, self.X
        ty = P.adt("ObjectFile")
        for i, f in enumerate(P.types[ty]["v"][0]["f"]):
            if f[0] == name:
                return X.fld(o, 0, i, f[1]), f[1]
        return None, None


def judge_accept(K, rule, C):
    """C02: success exactly when no condition is violated; the error names one of the violated ones"""
    n = 0
    for s, ok, v, R in C.paths():
        n += 1
        if ok is None:
            K.undecided(rule, C.tag + ": result not resolved")
            continue
        if ok:
            bad = sorted(R.errs)
            if "ok" in R.open:
                continue
            K.judge(rule, "accepted|%s" % (bad[0] if bad else ""), True if not bad else (False if C.sure(s) else None),
                    lambda: "%s: the program [%s] is accepted although it violates %s (%s)" % (C.where, C.text, ", ".join(bad), C.cond(s)), C.tag)
            continue
        kind = C.errkind(s, v)
        if kind is None:
            K.undecided(rule, C.tag + ": error kind not resolved")
        elif kind in R.errs:
            K.ok(rule, "%s: %s" % (C.tag, kind))
        elif kind in R.open or "OverlappingOrig" in R.errs:
            K.undecided(rule, "%s: %s" % (C.tag, kind))
        elif not R.errs:
            K.judge(rule, "rejected|%s" % kind, False if C.sure(s) else None, lambda: "%s: the well-formed program [%s] is rejected with %s (%s)" % (C.where, C.text, kind, C.cond(s)), C.tag)
        else:
            K.judge(rule, "kind|%s" % kind, False if C.sure(s) else None,
                    lambda: "%s: the program [%s] is rejected with %s, it violates only %s (%s)" % (C.where, C.text, kind, ", ".join(sorted(R.errs)), C.cond(s)), C.tag)
    pan = [p for p in C.X.panics if not zone_unsat(p.st)]
    for p in pan:
        s = p.st
        K.judge(rule + "-panic", "panic|%s|%s" % (p.kind, p.fn["def"] if hasattr(p, "fn") else ""), False if C.sure(s) else None, lambda: "%s: assembling [%s] can panic (%s; %s)" % (C.P.loc(p.fn, p.line) if hasattr(p, "fn") else C.where, C.text, p.kind, C.cond(s)), C.tag)
    if not pan:
        K.ok(rule + "-panic", C.tag)


def _cond(self, s):
    fs = []
    for k, v in s.facts.items():
        t = show(k)
        if len(t) < 60 and "w:" not in t:
            fs.append(("" if v else "not ") + t)
    return "when " + " and ".join(fs[-6:]) if fs else "always"


Case.cond = _cond


def _sure(self, s):
    """the path is exact (no loop abstracted by a fixpoint) and its facts are satisfiable"""
    return not s.widened() and feasible(s)


def _same(self, s, a, b):
    r = same(self.X, s, a, b)
    return None if r is False and s.widened() else r


Case.sure, Case.same = _sure, _same


def judge_image(K, R1, R2, C):
    """C01: the memory image and the label addresses of every accepted program"""
    X, P = C.X, C.P
    for s, ok, v, R in C.paths():
        if not ok:
            continue
        if R.errs or R.open:
            K.undecided(R1, C.tag + ": accepted outside the reference")
            continue
        m, mty = C.objfld(v, "block_map")
        ks = _m.map_keys(X, s, m)
        if ks is None:
            K.undecided(R1, C.tag + ": block map not resolved")
            continue
        exp = [b for b in R.blocks if b[3]]
        if len(ks) != len(exp):
            K.judge(R1, "blocks", False if C.sure(s) else None, lambda: "%s: assembling [%s] gives %d blocks instead of %d (%s)" % (C.where, C.text, len(ks), len(exp), C.cond(s)), C.tag)
            continue
        for b in exp:
            w, dec = map_find(X, s, m, b[0])
            if not dec:
                K.undecided(R1, C.tag + ": block not resolved")
                continue
            if w is None:
                K.judge(R1, "block-start", False if C.sure(s) else None, lambda: "%s: assembling [%s] has no block at %s, its blocks start at %s" % (C.where, C.text, show(b[0]), ", ".join(show(k) for k in ks)), C.tag)
                continue
            judge_words(K, R1, C, s, R, b, w)


def judge_words(K, rule, C, s, R, b, w):
    X, P = C.X, C.P
    vty = w.ty
    oty = P.types[vty]["a"][0] if vty is not None else None
    if oty is None:
        oty = next(i for i, t in enumerate(P.types) if t and t.get("n") == "std::option::Option<u16>")
    vt = P.types[oty]["v"][1]["f"][0][1]
    pos = I(0, 64)
    bounds = []
    for kind, x in b[3]:
        pos = add(pos, loc64(x) if kind == "none" else mk("len", (x,), 64) if kind == "cs" else I(1, 64))
        bounds.append(pos)
    pos = I(0, 64)
    for kind, x in b[3]:
        if kind == "cs":
            L = mk("len", (x,), 64)
            i = fresh("i", 64)
            s2 = s.copy()
            j = bounds.index(add(pos, L))
            if all(s2.assume(bnot(lt(i, y)), True) for y in bounds[:j]) and s2.assume(bnot(lt(i, pos)), True) and all(s2.assume(lt(i, y), True) for y in bounds[j:]):
                e = X.elem(s2, w, i, oty)
                q = X.variant(s2, e)
                if q is None or P.vname(oty, q) == "None":
                    K.judge(rule, "stringz", None if q is None else False if C.sure(s2) else None,
                            lambda: "%s: assembling [%s], a character word of .stringz is %s" % (C.where, C.text, show(e)[:60]), C.tag)
                else:
                    got, want = X.fld(e, q, 0, vt), zext(X.elem(s2, x, sub(i, pos), P.tyname.get("u8")), 16)
                    K.judge(rule, "stringz", C.same(s2, got, want), lambda: "%s: assembling [%s], a character word of .stringz is %s instead of %s" % (C.where, C.text, show(got)[:80], show(want)[:80]), C.tag)
            pos = add(pos, L)
            continue
        if kind == "none" and not isc(x):
            i = fresh("i", 64)
            s2 = s.copy()
            j = bounds.index(add(pos, loc64(x)))
            if all(s2.assume(bnot(lt(i, y)), True) for y in bounds[:j]) and s2.assume(bnot(lt(i, pos)), True) and all(s2.assume(lt(i, y), True) for y in bounds[j:]):
                e = X.elem(s2, w, i, oty)
                q = X.variant(s2, e)
                K.judge(rule, "blkw", None if q is None else True if P.vname(oty, q) == "None" else (False if C.sure(s2) else None),
                        lambda: "%s: assembling [%s], a word reserved by .blkw is %s" % (C.where, C.text, show(e)[:60]), C.tag)
            pos = add(pos, loc64(x))
            continue
        for _ in range(cv(x) if kind == "none" else 1):
            e = X.elem(s, w, pos, oty)
            q = X.variant(s, e)
            if kind == "none":
                K.judge(rule, "blkw", None if q is None else True if P.vname(oty, q) == "None" else (False if C.sure(s) else None),
                        lambda: "%s: assembling [%s], a word reserved by .blkw is %s" % (C.where, C.text, show(e)[:60]), C.tag)
            else:
                st = None
                if kind == "c":
                    want, nm = I(x, 16), "stringz"
                else:
                    k, st = x
                    want = R.words.get(k, st.arg if isinstance(st.arg, T) else None)
                    nm = "fill" if st.kind == "fill" else st.name
                if want is None:
                    K.undecided(rule, C.tag + ": no reference word")
                elif q is None:
                    K.undecided(rule, "%s: word for %s not resolved" % (C.tag, nm))
                elif P.vname(oty, q) == "None":
                    K.judge(rule, nm, False if C.sure(s) else None, lambda: "%s: assembling [%s], the word of %s is uninitialised" % (C.where, C.text, nm), C.tag)
                else:
                    got = X.fld(e, q, 0, vt)
                    K.judge(rule, nm, C.same(s, got, want), lambda: "%s: assembling [%s], the word of %s is %s instead of %s (%s)" % (C.where, C.text, nm, show(got)[:120], show(want)[:120], C.cond(s)), C.tag)
            pos = add(pos, I(1, 64))
    n = X.length(s, w)
    K.judge(rule, "length", C.same(s, n, pos), lambda: "%s: assembling [%s], the block at %s holds %s words instead of %s (%s)" % (C.where, C.text, show(b[0]), show(n), show(pos), C.cond(s)), C.tag)


# ------------------------------------------------------------------ symbol tables
def opt_of(X, s, r):
    """('None', None) | ('Some', value) | (None, None) of an Option value"""
    P = X.P
    v = X.variant(s, r)
    if v is None:
        return None, None
    if P.vname(r.ty, v) == "None" if r.ty is not None else v == 0:
        return "None", None
    return "Some", X.fld(r, v, 0, P.types[r.ty]["v"][v]["f"][0][1] if r.ty is not None else None)


def call(X, s, fname, *args):
    """[(state, value)] of calling a function of the crate with the given values"""
    f = X.P.fn(fname) if isinstance(fname, str) else fname
    np = len(X.panics)
    outs = X.exec_fn(f, list(args), s.copy())
    return [(s2, v) for s2, v in outs if not zone_unsat(s2)], X.panics[np:]


def drain(X, s, it, limit=40):
    """[(state, [items])] of a finite iterator value"""
    fr = X.new_frame(X.P.fn("asm::assemble"), None)
    out = []
    todo = [(s, _m.itval(X, s, it), [])]
    while todo:
        st, i, acc = todo.pop()
        if len(acc) > limit:
            return None
        for s2, i2, x in _m.it_next(X, st, fr, i):
            if x is None:
                out.append((s2, acc))
            else:
                todo.append((s2, i2, acc + [x]))
    return out


def pystr(X, st, v):
    """python string of a literal &str/String value (also behind references), None if not literal"""
    v = _m.deref_all(X, st, v)
    b = v.args[0] if v.op in ("str", "strc") else None
    return b.decode("utf8", "replace") if isinstance(b, bytes) else None


def tup(X, v, n, ty=None):
    v = X.expand(v)
    return [X.fld(v, 0, i, None) for i in range(n)]


def sym_of(C, s, obj):
    """(kind, reference to the symbol table) of an assembled object"""
    v, ty = C.objfld(obj, "sym")
    if v is None:
        return None, None
    k, x = opt_of(C.X, s, v)
    return k, (C.X.vref(x) if k == "Some" else None)


def labels_of(C, s, sym):
    """[(state, {UPPER: [(spelling, addr, external)]} | None)]"""
    X = C.X
    out = []
    for s1, it in call(X, s, "asm::SymbolTable::label_iter", sym)[0]:
        for s2, items in drain(X, s1, it) or []:
            d = {}
            for t in items:
                a = tup(X, t, 3)
                n = pystr(X, s2, a[0])
                if n is None:
                    d = None
                    break
                d.setdefault(upper(n), []).append((n, a[1], a[2]))
            out.append((s2, d))
    return out


def judge_labels(K, rule, C):
    """C01: every label maps to the address of its statement"""
    for s, ok, v, R in C.paths():
        if not ok or R.errs or R.open:
            continue
        k, sym = sym_of(C, s, v)
        if k is None:
            K.undecided(rule, C.tag + ": symbol table not resolved")
            continue
        if k == "None":
            if C.debug:
                K.judge(rule, "no-table", False if C.sure(s) else None, lambda: "%s: assembling [%s] with debug symbols gives no symbol table" % (C.where, C.text), C.tag)
            continue
        for s2, d in labels_of(C, s, sym):
            if d is None:
                K.undecided(rule, C.tag + ": label names not resolved")
                continue
            for u, e in R.labels.items():
                if u not in d:
                    K.judge(rule, "missing", False if C.sure(s2) else None, lambda: "%s: assembling [%s], the label %s is not in the symbol table" % (C.where, C.text, e[3]), C.tag)
                    continue
                for _, a, _x in d[u]:
                    K.judge(rule, "address", C.same(s2, a, e[0]), lambda: "%s: assembling [%s], the label %s maps to %s instead of %s (%s)" % (C.where, C.text, e[3], show(a)[:80], show(e[0])[:80], C.cond(s2)), C.tag)


def accepted(K, rule, C, need=True):
    """(state, reference, symbol table reference) of every accepted path with a symbol table"""
    for s, ok, v, R in C.paths():
        if not ok or R.errs or R.open:
            continue
        k, sym = sym_of(C, s, v)
        if k == "Some":
            yield s, R, sym
        elif k is None:
            K.undecided(rule, C.tag + ": symbol table not resolved")


def spellings(l):
    return list(dict.fromkeys([l, l.upper(), l.lower(), l.swapcase(), l[:1].upper() + l[1:].lower()]))


def lit(s):
    return mk("str", (s.encode(),))


def range_of(X, s, v):
    v = X.expand(v)
    a, b = s.resolve(X.fld(v, 0, 0, None)), s.resolve(X.fld(v, 0, 1, None))
    return (cv(a), cv(b)) if isc(a) and isc(b) else None


def judge_queries(K, C):
    """C23: label lookup, source lookup, reverse lookup and listing"""
    X, P = C.X, C.P
    raw = C.src.encode()

    def nopanic(what, ps):
        for p in ps:
            if not zone_unsat(p.st):
                K.judge("lookup", what + "-panic", False if C.sure(p.st) else None, lambda: "%s: %s can panic on [%s] (%s)" % (P.loc(p.fn, p.line), what, C.text, p.kind), C.tag)

    for s, R, sym in accepted(K, "lookup", C):
        for u, e in R.labels.items():
            for sp in spellings(e[3]):
                if upper(sp) != u:
                    continue
                rs, ps = call(X, s, "asm::SymbolTable::lookup_label", sym, lit(sp))
                nopanic("lookup_label", ps)
                for s2, r in rs:
                    k, a = opt_of(X, s2, r)
                    if k is None:
                        K.undecided("lookup", C.tag + ": lookup_label not resolved")
                    elif k == "None":
                        K.judge("lookup", "missing", False if C.sure(s2) else None, lambda: "%s: with [%s], lookup_label(%r) finds nothing for the label %s" % (C.where, C.text, sp, e[3]), C.tag)
                    else:
                        K.judge("lookup", "address", C.same(s2, a, e[0]), lambda: "%s: with [%s], lookup_label(%r) is %s instead of %s (%s)" % (C.where, C.text, sp, show(a)[:60], show(e[0])[:60], C.cond(s2)), C.tag)
                if not e[3].isascii():
                    continue            # the property's programs have ASCII labels
                rs, ps = call(X, s, "asm::SymbolTable::get_label_source", sym, lit(sp))
                nopanic("get_label_source", ps)
                for s2, r in rs:
                    k, a = opt_of(X, s2, r)
                    rg = range_of(X, s2, a) if k == "Some" else None
                    if k is None or k == "Some" and rg is None:
                        K.undecided("source", C.tag + ": get_label_source not resolved")
                    else:
                        want = (e[2], e[2] + len(e[3].encode()))
                        K.judge("source", "span", True if rg == want else False if C.sure(s2) else None,
                                lambda: "%s: with [%s], get_label_source(%r) is %s, the label's first occurrence %r is at %d..%d" % (C.where, C.text, sp, "None" if rg is None else "%d..%d (%r)" % (rg + (raw[rg[0]:rg[1]].decode("utf8", "replace"),)), e[3], want[0], want[1]), C.tag)
        # names that are not in the program
        for nm in ["NOPE", "", "A_", "x3000"] + [e[3] + "X" for e in R.labels.values()] + [e[3][:-1] for e in R.labels.values()]:
            if upper(nm) in R.labels:
                continue
            for q in ("lookup_label", "get_label_source"):
                rs, ps = call(X, s, "asm::SymbolTable::" + q, sym, lit(nm))
                nopanic(q, ps)
                for s2, r in rs:
                    k, a = opt_of(X, s2, r)
                    K.judge("unknown", q, None if k is None else True if k == "None" else False if C.sure(s2) else None,
                            lambda: "%s: with [%s], %s(%r) is not None" % (C.where, C.text, q, nm), C.tag)
        # reverse lookup, at the address of every label and at an arbitrary address
        y = fresh("addr", 16)
        for u, ad in [(u, e[0]) for u, e in R.labels.items()] + [(None, y)]:
            rs, ps = call(X, s, "asm::SymbolTable::rev_lookup_label", sym, ad)
            nopanic("rev_lookup_label", ps)
            for s2, r in rs:
                k, a = opt_of(X, s2, r)
                n = pystr(X, s2, a) if k == "Some" else None
                if k is None or k == "Some" and n is None:
                    K.undecided("reverse", C.tag + ": rev_lookup_label not resolved")
                elif k == "None":
                    hit = [e for e in R.labels.values() if s2.decide(eq(e[0], ad)) is not False]
                    if u is not None:
                        K.judge("reverse", "missing", False if C.sure(s2) else None, lambda: "%s: with [%s], rev_lookup_label of the address of %s finds nothing" % (C.where, C.text, u), C.tag)
                    else:
                        for e in hit:
                            s3 = s2.copy()
                            K.judge("reverse", "missing", False if s3.assume(eq(e[0], ad), True) and not zone_unsat(s3) and C.sure(s3) else None,
                                    lambda: "%s: with [%s], rev_lookup_label of the address of %s finds nothing" % (C.where, C.text, e[3]), C.tag)
                        if not hit:
                            K.ok("reverse", C.tag)
                elif upper(n) not in R.labels:
                    K.judge("reverse", "foreign", False if C.sure(s2) else None, lambda: "%s: with [%s], rev_lookup_label gives %r, not a label of the program" % (C.where, C.text, n), C.tag)
                else:
                    e = R.labels[upper(n)]
                    K.judge("reverse", "address", C.same(s2, e[0], ad), lambda: "%s: with [%s], rev_lookup_label(%s) gives %r, which is at %s" % (C.where, C.text, show(ad)[:60], n, show(e[0])[:60]), C.tag)
        # the listing
        for s2, d in labels_of(C, s, sym):
            if d is None:
                K.undecided("listing", C.tag + ": listing not resolved")
                continue
            for u in sorted(set(d) | set(R.labels)):
                if u not in R.labels or u not in d or len(d[u]) != 1:
                    K.judge("listing", "extra" if u not in R.labels else "missing" if u not in d else "twice", False if C.sure(s2) else None,
                            lambda: "%s: with [%s], the label listing has %s (program labels %s)" % (C.where, C.text, sorted((x, len(y)) for x, y in d.items()), sorted(R.labels)), C.tag)
                    continue
                e, (n, a, x) = R.labels[u], d[u][0]
                K.judge("listing", "address", C.same(s2, a, e[0]), lambda: "%s: with [%s], the listing has %s at %s instead of %s" % (C.where, C.text, n, show(a)[:60], show(e[0])[:60]), C.tag)
                if u not in R.amb:
                    K.judge("listing", "external", C.same(s2, x, TRUE if e[1] else FALSE), lambda: "%s: with [%s], the listing has %s with external = %s" % (C.where, C.text, n, show(x)), C.tag)


def settle(X, rs, t):
    """splits the states whose result is a table over t into one state per value of t"""
    for s, r in rs:
        lo, hi = s.rng(t)
        k, a = opt_of(X, s, r)
        if k == "Some" and not isc(s.resolve(a)) and not isc(s.resolve(t)) and hi - lo < 64:
            for c in range(lo, hi + 1):
                s2 = s.copy()
                if s2.assume(eq(t, I(c, t.w)), True):
                    yield s2, r
        else:
            yield s, r


def judge_lines(K, C):
    """C24: line/address mapping"""
    X, P = C.X, C.P
    nl = C.src.count("\n") + 1
    for s, R, sym in accepted(K, "line", C):
        if not C.debug:
            continue
        for ln in list(range(nl)) + [nl, nl + 7]:
            rs, ps = call(X, s, "asm::SymbolTable::lookup_line", sym, I(ln, 64))
            for p in ps:
                K.judge("line", "panic", False if C.sure(p.st) and not zone_unsat(p.st) else None, lambda: "%s: lookup_line(%d) can panic on [%s]" % (P.loc(p.fn, p.line), ln, C.text), C.tag)
            for s2, r in rs:
                k, a = opt_of(X, s2, r)
                w = R.lines.get(ln)
                if k is None:
                    K.undecided("line", C.tag + ": lookup_line not resolved")
                elif (k == "None") != (w is None):
                    K.judge("line", "unmapped" if w is not None else "mapped", False if C.sure(s2) else None,
                            lambda: "%s: with [%s], lookup_line(%d) is %s, %s (%s)" % (C.where, C.text, ln, k if k == "None" else show(a)[:60], "the statement on it is at " + show(w)[:60] if w is not None else "no statement on it occupies memory", C.cond(s2)), C.tag)
                elif w is None:
                    K.ok("line", C.tag)
                else:
                    K.judge("line", "address", C.same(s2, a, w), lambda: "%s: with [%s], lookup_line(%d) is %s instead of %s (%s)" % (C.where, C.text, ln, show(a)[:60], show(w)[:60], C.cond(s2)), C.tag)
        y = fresh("addr", 16)
        for ln, ad in list(R.lines.items()) + [(None, y)]:
            rs, ps = call(X, s, "asm::SymbolTable::rev_lookup_line", sym, ad)
            for p in ps:
                K.judge("reverse", "panic", False if C.sure(p.st) and not zone_unsat(p.st) else None, lambda: "%s: rev_lookup_line can panic on [%s]" % (P.loc(p.fn, p.line), C.text), C.tag)
            for s2, r in settle(X, rs, ad):
                k, a = opt_of(X, s2, r)
                a = s2.resolve(a) if k == "Some" else None
                if k is None or k == "Some" and not isc(a):
                    K.undecided("reverse", C.tag + ": rev_lookup_line not resolved")
                elif k == "Some" and cv(a) not in R.lines:
                    K.judge("reverse", "foreign", False if C.sure(s2) else None, lambda: "%s: with [%s], rev_lookup_line gives line %d, which holds no statement occupying memory (%s)" % (C.where, C.text, cv(a), C.cond(s2)), C.tag)
                elif k == "Some" and ln is not None:
                    K.judge("reverse", "line", True if cv(a) == ln else False if C.sure(s2) else None, lambda: "%s: with [%s], rev_lookup_line of the address of line %d gives line %d (%s)" % (C.where, C.text, ln, cv(a), C.cond(s2)), C.tag)
                elif k == "Some":
                    K.judge("reverse", "address", C.same(s2, R.lines[cv(a)], ad), lambda: "%s: with [%s], rev_lookup_line gives line %d for an address that is not its statement's (%s)" % (C.where, C.text, cv(a), C.cond(s2)), C.tag)
                elif ln is not None:
                    K.judge("reverse", "missing", False if C.sure(s2) else None, lambda: "%s: with [%s], rev_lookup_line of the address of line %d gives nothing (%s)" % (C.where, C.text, ln, C.cond(s2)), C.tag)
                else:
                    hit = False
                    for l2, w in R.lines.items():
                        s3 = s2.copy()
                        if s3.assume(eq(w, ad), True) and not zone_unsat(s3):
                            hit = True
                            K.judge("reverse", "missing", False if C.sure(s3) else None, lambda: "%s: with [%s], rev_lookup_line of the address of line %d gives nothing (%s)" % (C.where, C.text, l2, C.cond(s3)), C.tag)
                    if not hit:
                        K.ok("reverse", C.tag)
        for s1, it in call(X, s, "asm::SymbolTable::line_iter", sym)[0]:
            for s2, items in drain(X, s1, it) or []:
                got = []
                for t in items:
                    a, b = tup(X, t, 2)
                    a = s2.resolve(a)
                    got.append((cv(a) if isc(a) else None, b))
                if any(a is None for a, _ in got):
                    K.undecided("listing", C.tag + ": line listing not resolved")
                    continue
                ls = [a for a, _ in got]
                K.judge("listing", "lines", True if sorted(ls) == sorted(R.lines) else False if C.sure(s2) else None,
                        lambda: "%s: with [%s], the line listing has lines %s instead of %s" % (C.where, C.text, ls, sorted(R.lines)), C.tag)
                for a, b in got:
                    if a in R.lines:
                        K.judge("listing", "address", C.same(s2, b, R.lines[a]), lambda: "%s: with [%s], the line listing has line %d at %s instead of %s" % (C.where, C.text, a, show(b)[:60], show(R.lines[a])[:60]), C.tag)


LABEL_ERRS = ("UndetAddrLabel", "OverlappingLabels", "OffsetExternal", "OffsetNewErr", "CouldNotFindLabel")


def judge_spans(K, C):
    """C26: spans of assembler errors"""
    X, P = C.X, C.P
    raw = C.src.encode()
    ety = P.adt("AsmErr")
    fi, sty = next((i, f[1]) for i, f in enumerate(P.types[ety]["v"][0]["f"]) if f[0] == "span")
    for s, ok, v, R in C.paths():
        if ok is not False:
            continue
        kind = C.errkind(s, v)
        sp = X.fld(v, 0, fi, sty)
        got = {}
        for q in ("first", "iter"):
            rs, ps = call(X, s, "err::ErrSpan::" + q, X.vref(sp))
            for p in ps:
                if not zone_unsat(p.st):
                    K.judge("query", q + "-panic", False if C.sure(p.st) else None, lambda: "%s: querying the spans (%s) of the error for [%s] can panic (%s)" % (P.loc(p.fn, p.line), q, C.text, p.kind), C.tag)
            if not ps:
                K.ok("query", C.tag)
            for s2, r in rs:
                xs = [(s2, [r])] if q == "first" else drain(X, s2, r) or []
                for s3, items in xs:
                    rg = []
                    for it in items:
                        rg.append(range_of(X, s3, _m.deref_all(X, s3, it)))
                    if any(x is None for x in rg):
                        K.undecided("bounds", C.tag + ": spans not resolved")
                        continue
                    got[q] = rg
                    for a, b in rg:
                        K.judge("bounds", kind or "error", True if a <= b <= len(raw) else False if C.sure(s3) else None,
                                lambda: "%s: assembling [%s] gives %s with the span %d..%d, the source has %d bytes" % (C.where, C.text, kind, a, b, len(raw)), C.tag)
        if "iter" in got and kind in LABEL_ERRS and R.errs.get(kind):
            low = raw.decode("utf8").lower()
            good = bool(got["iter"]) and all(any(l.encode() in raw[a:b] or l.lower() in raw[a:b].decode("utf8", "replace").lower() for l in R.errs[kind]) for a, b in got["iter"])
            K.judge("covers", kind, True if good else False if C.sure(s) else None,
                    lambda: "%s: assembling [%s] gives %s, whose spans cover %r, not a spelling of %s" % (C.where, C.text, kind, [raw[a:b].decode("utf8", "replace") for a, b in got["iter"]], "/".join(R.errs[kind])), C.tag)
