"""Source texts with a written structure: literal pieces and symbolic digit strings, and the statements they denote.
The real lexer callbacks and parser are interpreted over the text; the result is compared with what was written."""
from rules.asmlib import *
from engine import lexer as LX, models as M
from engine.interp import Limit

SIG = {}                # mnemonic (as written, upper case) -> (variant, condition code | None, operand kinds)
for _n in ("ADD", "AND"):
    SIG[_n] = (_n, None, ("reg", "reg", "imm5"))
for _n, _c in (("BR", 7), ("BRN", 4), ("BRZ", 2), ("BRP", 1), ("BRNZ", 6), ("BRNP", 5), ("BRZP", 3), ("BRNZP", 7)):
    SIG[_n] = ("BR", _c, ("pc9",))
for _n in ("LD", "LDI", "LEA", "ST", "STI"):
    SIG[_n] = (_n, None, ("reg", "pc9"))
for _n in ("LDR", "STR"):
    SIG[_n] = (_n, None, ("reg", "reg", "off6"))
for _n in ("JMP", "JSRR"):
    SIG[_n] = (_n, None, ("reg",))
SIG["JSR"] = ("JSR", None, ("pc11",))
SIG["NOT"] = ("NOT", None, ("reg", "reg"))
SIG["TRAP"] = ("TRAP", None, ("u8",))
SIG["NOP"] = ("NOP", None, ("pc9",))
for _n in ("RET", "RTI", "GETC", "OUT", "PUTC", "PUTS", "IN", "PUTSP", "HALT"):
    SIG[_n] = (_n, None, ())
DIR = {"ORIG": ("Orig", ("u16",)), "FILL": ("Fill", ("any16",)), "BLKW": ("Blkw", ("n16",)), "STRINGZ": ("Stringz", ("str",)), "END": ("End", ()), "EXTERNAL": ("External", ("label",))}


class Reg:
    """register; n: number, or None for any digits. letter: R or r"""

    def __init__(self, n=None, letter="R", digits=None, cls=None):
        self.n, self.letter, self.digits, self.cls = n, letter, digits, cls


class Num:
    """numeric literal: text before the digits (sign, #, x), base; digits: literal, or None for any"""

    def __init__(self, pre="#", digits=None, cls=None):
        self.pre, self.digits, self.cls = pre, digits, cls
        self.base = 16 if pre[:1] in "xX" and pre else 10
        self.neg = "-" in pre


class Lab:
    def __init__(self, name):
        self.name = name


class Str:
    """string literal: source between the quotes, contents"""

    def __init__(self, src, val):
        self.src, self.val = src, val


ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "0": "\0", '"': '"'}


def unescape(src):
    out, i = "", 0
    while i < len(src):
        if src[i] == "\\" and i + 1 < len(src):
            out += ESC.get(src[i + 1], "\\" + src[i + 1])
            i += 2
        else:
            out += src[i]
            i += 1
    return out


class Doc:
    """a source text under construction"""

    def __init__(self):
        self.pieces = []
        self.at = M.c64(0)
        self.digs = []
        self.facts = []
        self.disp = ""

    def put(self, x):
        a = self.at
        if isinstance(x, str):
            b = x.encode()
            if b:
                if self.pieces and self.pieces[-1].op == "strc":
                    self.pieces[-1] = mk("strc", (self.pieces[-1].args[0] + b,))
                else:
                    self.pieces.append(mk("strc", (b,)))
            self.at = add(self.at, M.c64(len(b)))
            self.disp += x
        else:
            self.pieces.append(x)
            self.digs.append(x)
            self.at = add(self.at, mk("len", (x,), 64))
            self.disp += "<%s digits of %s>" % ("hex" if x.args[1] == 16 else "decimal", show(x.args[0]))
        return a, self.at

    def term(self):
        if not self.pieces:
            return mk("strc", (b"",))
        return self.pieces[0] if len(self.pieces) == 1 else mk("scat", tuple(self.pieces))

    def show(self):
        d = self.disp.encode("unicode_escape").decode()
        return d if len(d) < 160 else d[:100] + "...(%d)" % len(d)


class Style:
    """how statements are laid out"""

    def __init__(self, nl="\n", gap=" ", comma=", ", indent="", lsep=" ", tail="", head="", last=True, kw=None):
        self.nl, self.gap, self.comma, self.indent, self.lsep, self.tail, self.head, self.last, self.kw = nl, gap, comma, indent, lsep, tail, head, last, kw or (lambda s: s)


class W:
    """a written statement: keyword, operands, labels [(spelling, separator after it)]"""

    def __init__(self, kw, *ops, labels=(), case=None):
        self.kw, self.ops, self.labels, self.case = kw, ops, labels, case


class Expect:
    """what a written statement denotes: labels [(name, start)], nucleus, span; conds: acceptance condition of every literal"""

    def __init__(self):
        self.labels, self.ops, self.conds = [], [], []


def field_ok(kind, neg_, mag):
    """condition under which a literal of this sign and magnitude is accepted in the field"""
    r = lambda n: bnot(lt(M.c64(n), mag))
    lex = r(32768) if neg_ else r(65535)
    if kind in ("imm5", "off6", "pc9", "pc11"):
        n = {"imm5": 5, "off6": 6, "pc9": 9, "pc11": 11}[kind]
        return band(lex, r(1 << (n - 1)) if neg_ else r((1 << (n - 1)) - 1))
    if kind == "u8":
        return band(lex, r(0) if neg_ else r(255))
    if kind == "u16":
        return r(0) if neg_ else lex
    if kind == "n16":
        return FALSE if neg_ else band(lex, bnot(eq(mag, M.c64(0))))
    return lex


def symbolic(d, name, cls):
    """a value of the class: (bits, at least): any value of that many bits, not smaller than the bound; None: any above 16 bits"""
    if cls is None:
        v = fresh(name, 64)
        d.facts.append((lt(v, M.c64(1 << 62)), True))       # magnitudes stand for min(value, 2^62)
        d.facts.append((lt(v, M.c64(65536)), False))
        return v
    n, lo = cls
    if n == 0:
        return M.c64(0)
    if lo and lo == 1 << (n - 1):       # the top bit is one
        return mkbits((tuple(bits(fresh(name, n - 1))) if n > 1 else ()) + (1,) + (0,) * (64 - n))
    v = zext(fresh(name, n), 64)
    if lo:
        d.facts.append((lt(v, M.c64(lo)), False))
    return v


def classes(kind):
    """the value classes of a field: what fits it exactly, what does not, what no 16-bit number holds"""
    if kind == "reg":
        return [(3, 0), (8, 8), (16, 256), None]
    n = {"imm5": 4, "off6": 5, "pc9": 8, "pc11": 10, "u8": 8}.get(kind)
    if n is None:
        return [(15, 0), (16, 32768), None]
    return [(n, 0)] + [(k, 1 << (k - 1)) for k in range(n + 1, 17)] + [None]


def write(d, w, style, k=0):
    """appends one statement to the document; -> Expect"""
    e = Expect()
    for l, sep in w.labels:
        a, _ = d.put(l)
        e.labels.append((l, a))
        d.put(sep if sep is not None else style.lsep)
    d.put(style.indent)
    kw = (w.case or style.kw)(w.kw)
    a, b = d.put(kw)
    isdir = w.kw.startswith(".")
    sig = DIR[w.kw[1:].upper()] if isdir else SIG[w.kw.upper()]
    kinds = sig[-1]
    e.isdir, e.variant = isdir, sig[0]
    e.cc = None if isdir else sig[1]
    for i, (o, kd) in enumerate(zip(w.ops, kinds)):
        d.put(style.gap if i == 0 else style.comma)
        start = d.at
        if isinstance(o, Reg):
            d.put(o.letter)
            if o.digits is not None or o.n is not None:
                t = o.digits if o.digits is not None else str(o.n)
                d.put(t)
                mag = M.c64(int(t))
            else:
                mag = symbolic(d, "reg", o.cls)
                d.put(LX.dig(mag, 10))
            e.conds.append(lt(mag, M.c64(8)))
            e.ops.append(("reg", mag))
        elif isinstance(o, Num):
            d.put(o.pre)
            if o.digits is not None:
                d.put(o.digits)
                mag = M.c64(min(int(o.digits, o.base), 1 << 62))
            else:
                mag = symbolic(d, "mag", o.cls)
                d.put(LX.dig(mag, o.base))
            e.conds.append(field_ok(kd, o.neg, mag))
            v = trunc(mag, 16)
            e.ops.append(("num", neg(v) if o.neg else v))
        elif isinstance(o, Lab):
            d.put(o.name)
            e.ops.append(("label", o.name, start))
        elif isinstance(o, Str):
            d.put('"' + o.src + '"')
            e.ops.append(("str", o.val))
        b = d.at
    e.span = (a, b)
    return e


def document(ws, style=None):
    """(Doc, [Expect]) of a list of written statements"""
    y = style or Style()
    d = Doc()
    d.put(y.head)
    es = []
    for i, w in enumerate(ws):
        es.append(write(d, w, y, i))
        if i + 1 < len(ws) or y.last:
            d.put(y.tail + y.nl)
        else:
            d.put(y.tail)
    return d, es


class Parse:
    """abstract run of parse_ast over a document"""

    def __init__(self, A, d, tag):
        self.A, self.P, self.d, self.tag = A, A.P, d, tag
        P = A.P
        self.f = P.fn("parse::parse_ast")
        self.where = P.loc(self.f, self.f["line"])
        self.X = X = Interp(P, {})
        X.unroll = True
        X.maxpaths = 1000
        st, _ = X.start(self.f)
        for g in d.digs:
            n = mk("len", (g,), 64)
            atom_maxbits[n] = 40
            st.assume(eq(n, M.c64(0)), False)
        for c, q in d.facts:
            st.assume(c, q)
        t = d.term()
        self.outs, self.panics = call(X, st, self.f, LX.as_ref(X, t))
        self.text = d.show()
        self.end = X.length(st, t)

    cond, sure = Case.cond, Case.sure

    def ok_of(self, s, r):
        vi = self.X.variant(s, r)
        if vi is None:
            return None, None
        return self.P.vname(r.ty, vi) == "Ok", self.X.fld(r, vi, 0, self.P.types[r.ty]["v"][vi]["f"][0][1])


def same_int(C, s, a, b):
    a, b = s.resolve(a), s.resolve(b)
    if a is b:
        return True
    return M_same(C, s, a, b)


def M_same(C, s, a, b):
    r = same(C.X, s, a, b)
    return None if r is False and s.widened() else r


def worst(rs):
    """conjunction of three-valued results"""
    rs = list(rs)
    return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True


def named(X, v, want):
    """field of a struct value by name"""
    P = X.P
    for i, f in enumerate(P.types[v.ty]["v"][0]["f"]):
        if f[0] == want:
            return X.fld(v, 0, i, f[1])
    return None


def label_is(C, s, v, name, start, spans=True):
    """(name result, start result) of a Label value"""
    X, P = C.X, C.P
    n = st_ = None
    for i, f in enumerate(P.types[v.ty]["v"][0]["f"]):
        x = X.fld(v, 0, i, f[1])
        if P.types[f[1]]["n"].endswith("String"):
            t = pystr(X, s, x)
            n = None if t is None else t == name
            C.got = t
        elif P.width(f[1]) == 64 and start is not None:
            st_ = same_int(C, s, x, start)
    return n, st_ if start is not None else True


def operand_is(C, s, v, ty, want):
    """(result, description) of an operand value against the written one"""
    X, P = C.X, C.P
    t = P.types[ty]
    n = t["n"]
    if n.split("<")[0].split("::")[-1] in ("ImmOrReg", "PCOffset"):
        vi = X.variant(s, v)
        if vi is None:
            return None, "operand form"
        vn = P.vname(ty, vi)
        exp = {"reg": "Reg", "num": "Imm" if "ImmOrReg" in n else "Offset", "label": "Label"}[want[0]]
        if vn != exp:
            return False, "the operand is a %s instead of a %s" % (vn, exp)
        ft = t["v"][vi]["f"][0][1]
        return operand_is(C, s, X.fld(v, vi, 0, ft), ft, want)
    if want[0] == "label":
        if not n.endswith("::Label"):
            return None, "operand type"
        a, b = label_is(C, s, v, want[1], want[2])
        return worst((a, b)), "the label operand is %r" % (getattr(C, "got", None),)
    if want[0] == "str":
        x = pystr(X, s, v)
        return (None if x is None else x == want[1]), "the string is %r instead of %r" % (x, want[1])
    if want[0] == "reg":
        if not n.endswith("::Reg"):
            return False, "the operand is not a register"
        x = X.discr(v, 64)
        return same_int(C, s, x, want[1]), "the register is %s instead of %s" % (show(s.resolve(x)), show(s.resolve(want[1])))
    if "Offset<" in n:
        x = X.fld(v, 0, 0, t["v"][0]["f"][0][1])
    else:
        x = v
    if x.w is None:
        return None, "operand value"
    if x.w < 16:
        return same_int(C, s, zext(x, 16), want[1]), "the value is %s instead of %s" % (show(s.resolve(x)), show(s.resolve(want[1])))
    return same_int(C, s, trunc(x, 16), want[1]), "the value is %s instead of %s" % (show(s.resolve(x)), show(s.resolve(want[1])))


def nucleus_is(C, s, v, e):
    """[(result, description)] of a StmtKind value against what was written"""
    X, P = C.X, C.P
    vi = X.variant(s, v)
    if vi is None:
        return [(None, "statement kind")]
    kn = P.vname(v.ty, vi)
    if kn != ("Directive" if e.isdir else "Instr"):
        return [(False, "the statement is a %s" % kn)]
    ft = P.types[v.ty]["v"][vi]["f"][0][1]
    n = X.fld(v, vi, 0, ft)
    ni = X.variant(s, n)
    if ni is None:
        return [(None, "statement variant")]
    vn = P.vname(ft, ni)
    fs = P.types[ft]["v"][ni]["f"]
    want = e.variant
    ops = list(e.ops)
    if not e.isdir and want == "BR" and vn == "BR" or vn == "BR":
        cc = X.fld(n, ni, 0, fs[0][1])
        if want != "BR":
            return [(False, "the instruction is %s instead of %s" % (vn, want))]
        r = [(same_int(C, s, zext(cc, 64), M.c64(e.cc)), "the condition is %s instead of %s" % (show(s.resolve(cc)), e.cc))]
        return r + [operand_is(C, s, X.fld(n, ni, 1, fs[1][1]), fs[1][1], ops[0])]
    if vn != want:
        return [(False, "the statement is %s instead of %s" % (vn, want))]
    if want == "NOP" and not ops:
        ops = [("num", I(0, 16))]
    if len(fs) != len(ops):
        return [(None, "operand count")]
    return [operand_is(C, s, X.fld(n, ni, i, f[1]), f[1], o) for i, (f, o) in enumerate(zip(fs, ops))] or [(True, "")]


def stmts_of(C, s, v):
    """the statement values of a parsed vector, None if its length is open"""
    X = C.X
    n = s.resolve(X.length(s, v))
    if not isc(n):
        return None
    ety = M.ety_of(X, v.ty)
    return [X.elem(s, v, M.c64(i), ety) for i in range(cv(n))]


def judge_stmts(C, s, v, es, spans=True):
    """[(key, result, description)]"""
    X, P = C.X, C.P
    out = []
    ss = stmts_of(C, s, v)
    if ss is None:
        return [("count", None, "statement count")]
    if len(ss) != len(es):
        return [("count", False, "%d statements instead of %d" % (len(ss), len(es)))]
    prev_end = M.c64(0)
    for i, (x, e) in enumerate(zip(ss, es)):
        lv = named(X, x, "labels")
        ls = stmts_of(C, s, lv) if lv is not None else None
        if ls is None:
            out.append(("labels", None, "labels of statement %d" % i))
        elif len(ls) != len(e.labels):
            out.append(("labels", False, "statement %d has %d labels instead of %d" % (i, len(ls), len(e.labels))))
        else:
            for l, (nm, start) in zip(ls, e.labels):
                a, b = label_is(C, s, l, nm, start if spans else None)
                out.append(("labels", a, "statement %d has label %r instead of %r" % (i, getattr(C, "got", None), nm)))
                if spans:
                    out.append(("label-span", b, "label %r of statement %d starts elsewhere" % (nm, i)))
        nv = named(X, x, "nucleus")
        for r, why in nucleus_is(C, s, nv, e):
            out.append(("statement", r, "statement %d: %s" % (i, why)))
        if spans:
            sp = named(X, x, "span")
            a, b = X.fld(sp, 0, 0, P.tyname.get("usize")), X.fld(sp, 0, 1, P.tyname.get("usize"))
            ra, rb = same_int(C, s, a, e.span[0]), same_int(C, s, b, e.span[1])
            if ra is not True:      # a larger span still covers the text, unless it reaches into another statement
                d = s.decide(band(bnot(lt(e.span[0], a)), bnot(lt(a, prev_end))))
                ra = True if d is True else False if d is False and not s.widened() else None
            if rb is not True:
                nxt = es[i + 1].span[0] if i + 1 < len(es) else C.end
                d = s.decide(band(bnot(lt(b, e.span[1])), bnot(lt(nxt, b))))
                rb = True if d is True else False if d is False and not s.widened() else None
            out.append(("span", worst((ra, rb)), "the span of statement %d is %s..%s, its text stands at %s..%s" % (i, show(a), show(b), show(e.span[0]), show(e.span[1]))))
            prev_end = e.span[1]
    return out


def judge_doc(K, C, es, rules, group):
    """rules: (accept, value, span) rule names"""
    P, X = C.P, C.X
    K.saw(X)
    acc, val, spn = rules
    cond = TRUE
    for e in es:
        for c in e.conds:
            cond = band(cond, c)
    n = 0
    for s, r in C.outs:
        okv, v = C.ok_of(s, r)
        for want in (True, False):
            s2 = s.copy()
            d = s2.decide(cond)
            if d is not None and d is not want:
                continue
            if d is None and (not s2.assume(cond, want) or zone_unsat(s2)):
                continue
            n += 1
            if okv is None:
                K.undecided(acc, "%s: result not resolved" % C.tag)
            elif okv is not want:
                K.judge(acc, "%s|%s" % ("accepted" if okv else "rejected", group), False if C.sure(s2) else None,
                        lambda: "%s: %s %s (%s)" % (C.where, C.text, "is accepted although a literal does not fit" if okv else "is rejected: " + errtext(C, s2, v), C.cond(s2)), C.tag)
            else:
                K.ok(acc, C.tag)
                if okv:
                    for key, res, why in judge_stmts(C, s2, v, es, spn is not None):
                        rule = spn if "span" in key else val
                        K.judge(rule, "%s|%s" % (key, group), (False if C.sure(s2) else None) if res is False else res,
                                lambda: "%s: parsing %s: %s (%s)" % (C.where, C.text, why, C.cond(s2)), C.tag)
    for p in C.panics:
        if not zone_unsat(p.st):
            K.judge(acc, "panic|%s" % p.kind, False if C.sure(p.st) else None, lambda: "%s: parsing %s panics (%s)" % (P.loc(p.fn, p.line) if hasattr(p, "fn") else C.where, C.text, p.kind), C.tag)
    if not n and not C.panics:
        K.undecided(acc, "%s: no outcome" % C.tag)


def errtext(C, s, v):
    """short rendering of a ParseErr value"""
    return show(v)[:120]


def run_doc(K, A, ws, style, rules, group, tag=None):
    try:
        d, es = document(ws, style)
        C = Parse(A, d, tag or "%s: %s" % (group, d.show()))
        judge_doc(K, C, es, rules, group)
    except Limit as e:
        K.undecided(rules[0], "%s: limit %s" % (group, e))


# ------------------------------------------------------------------ assembling what was parsed
def assemble(C, s, ast, debug):
    """[(state, ok, object | error)] of assembling the parsed statements"""
    X, P = C.X, C.P
    f = P.fn("asm::assemble_debug" if debug else "asm::assemble")
    args = [ast] + ([LX.as_ref(X, C.d.term())] if debug else [])
    rs, ps = call(X, s, f, *args)
    out = []
    for s2, r in rs:
        vi = X.variant(s2, r)
        if vi is None:
            out.append((s2, None, None))
        else:
            ok = P.vname(r.ty, vi) == "Ok"
            out.append((s2, ok, X.fld(r, vi, 0, P.types[r.ty]["v"][vi]["f"][0][1])))
    return out, ps


def image(C, s, obj):
    """{start: [word term | None]} of an object file with known block positions and lengths, None if they are not known"""
    X, P = C.X, C.P
    m, mty = Case.objfld(C, obj, "block_map")
    ks = M.map_keys(X, s, m) if m is not None else None
    if ks is None:
        return None
    out = {}
    for k in ks:
        w, dec = map_find(X, s, m, k)
        k, n = s.resolve(k), s.resolve(X.length(s, w)) if dec else None
        if not dec or not isc(k) or not isc(n) or cv(n) > 4000:
            return None
        oty = P.types[w.ty]["a"][0] if w.ty is not None else next(i for i, t in enumerate(P.types) if t and t.get("n") == "std::option::Option<u16>")
        ws = []
        for i in range(cv(n)):
            q, x = opt_of(X, s, X.elem(s, w, M.c64(i), oty))
            if q is None:
                return None
            ws.append(s.resolve(x) if q == "Some" else None)
        out[cv(k)] = ws
    return out


Parse.objfld = Case.objfld


def result_of(K, A, ws, style, tag, debug=True):
    """('accepted', image, labels) | ('rejected',) of a literal text, None if it is not resolved"""
    d, es = document(ws, style)
    C = Parse(A, d, tag)
    K.saw(C.X)
    if len(C.outs) != 1 or C.panics:
        return C, None
    s, r = C.outs[0]
    okv, v = C.ok_of(s, r)
    if not okv:
        return C, ("not parsed",) if okv is False and C.sure(s) else None
    os_, ps = assemble(C, s, v, debug)
    rs = [] if ps else [outcome(C, *o, debug) for o in os_]
    return C, rs[0] if rs and all(r == rs[0] for r in rs) else None


def outcome(C, s2, ok, obj, debug):
    if ok is None or not C.sure(s2):
        return None
    if not ok:
        return ("rejected",)
    im = image(C, s2, obj)
    if im is None or any(w is not None and not isc(w) for ws_ in im.values() for w in ws_):
        return None
    im = {k: [None if w is None else cv(w) for w in ws_] for k, ws_ in im.items()}
    lb = None
    if debug:
        kind, sym = sym_of(C, s2, obj)
        ls = labels_of(C, s2, sym) if kind == "Some" else None
        lbs = [{n: sorted((cv(a), str(x)) for _, a, x in occ) if all(isc(a) for _, a, x in occ) else None for n, occ in d.items()} if d is not None else None for _, d in ls or []]
        if not lbs or any(x is None or x != lbs[0] for x in lbs):
            return None
        lb = lbs[0]
    return ("accepted", im, lb)
