"""The derived lexer: token patterns are read from the attributes of the token type, compiled to automata, and run over
texts that are sequences of literal pieces and symbolic digit strings (dig(value, base): any spelling of that value, leading zeros allowed)."""
import re
import unicodedata
from functools import lru_cache
from re import _parser as sre
from re import _constants as sc
from .terms import *
from . import interp as _i
from . import models as M

MAXREPEAT = sc.MAXREPEAT
DIGITS = {10: "0123456789", 16: "0123456789abcdefABCDEF"}


@lru_cache(None)
def is_word(c):
    k = unicodedata.category(c)
    return k[0] in "LM" or k in ("Nd", "Nl", "Pc") or c in "\u200c\u200d"


@lru_cache(None)
def is_digit(c):
    return unicodedata.category(c) == "Nd"


CATS = {sc.CATEGORY_DIGIT: is_digit, sc.CATEGORY_NOT_DIGIT: lambda c: not is_digit(c), sc.CATEGORY_WORD: is_word, sc.CATEGORY_NOT_WORD: lambda c: not is_word(c),
        sc.CATEGORY_SPACE: lambda c: c in M.WHITE_SPACE, sc.CATEGORY_NOT_SPACE: lambda c: c not in M.WHITE_SPACE}


def fold(f):
    return lambda c: f(c) or any(len(x) == 1 and f(x) for x in (c.lower(), c.upper()))


class Nfa:
    """Thompson automaton shared by all patterns of a lexer"""

    def __init__(self):
        self.eps, self.arcs, self.acc = [], [], {}

    def new(self):
        self.eps.append([])
        self.arcs.append([])
        return len(self.eps) - 1

    def build(self, pat, a, icase):
        """adds pat (parsed) from state a; -> end state"""
        for op, av in pat:
            a = self.node(op, av, a, icase)
        return a

    def char(self, a, test, icase):
        b = self.new()
        self.arcs[a].append((fold(test) if icase else test, b))
        return b

    def node(self, op, av, a, icase):
        if op is sc.LITERAL:
            return self.char(a, lambda c, k=chr(av): c == k, icase)
        if op is sc.NOT_LITERAL:
            return self.char(a, lambda c, k=chr(av): c != k, icase)
        if op is sc.ANY:
            return self.char(a, lambda c: c != "\n", False)
        if op is sc.IN:
            neg, tests = False, []
            for o, v in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    tests.append(lambda c, k=chr(v): c == k)
                elif o is sc.RANGE:
                    tests.append(lambda c, l=v[0], h=v[1]: l <= ord(c) <= h)
                elif o is sc.CATEGORY:
                    tests.append(CATS[v])
                else:
                    raise _i.Limit("class %s" % o)
            t = lambda c: any(x(c) for x in tests)
            if icase:
                t = fold(t)
            return self.char(a, (lambda c: not t(c)) if neg else t, False)
        if op is sc.SUBPATTERN:
            g, add_, del_, p = av
            return self.build(p, a, (icase or bool(add_ & re.I)) and not del_ & re.I)
        if op is sc.BRANCH:
            e = self.new()
            for p in av[1]:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.build(p, s, icase)].append(e)
            return e
        if op is sc.MAX_REPEAT:
            lo, hi, p = av
            if lo > 64 or hi is not MAXREPEAT and hi > 64:
                raise _i.Limit("repetition")
            for _ in range(lo):
                a = self.build(p, a, icase)
            if hi is MAXREPEAT:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.build(p, s, icase)].append(s)
                e = self.new()
                self.eps[s].append(e)
                return e
            e = self.new()
            self.eps[a].append(e)
            for _ in range(hi - lo):
                a = self.build(p, a, icase)
                self.eps[a].append(e)
            return e
        raise _i.Limit("pattern node %s" % op)


def prio(p):
    n = 0
    for op, av in p:
        if op is sc.BRANCH:
            n += min(prio(x) for x in av[1])
        elif op is sc.SUBPATTERN:
            n += prio(av[3])
        elif op is sc.MAX_REPEAT:
            n += av[0] * prio(av[2])
        else:
            n += 2
    return n


def lit_split(s):
    """(literal text, rest) of Rust source that starts with a string literal"""
    s = s.strip()
    if s.startswith("b"):
        raise _i.Limit("byte pattern")
    m = re.match(r'r(#*)"(.*?)"\1', s, re.S)
    if m:
        return m.group(2), s[m.end():]
    m = re.match(r'"((?:[^"\\]|\\.)*)"', s, re.S)
    if not m:
        raise _i.Limit("lexer attribute " + s[:40])
    esc = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}

    def one(x):
        if x.group(0) == "\\u":
            raise _i.Limit("escape in pattern")
        if x.group(1)[0] not in esc:
            raise _i.Limit("escape in pattern")
        return esc[x.group(1)[0]]

    return re.sub(r"\\(.)", one, m.group(1), flags=re.S), s[m.end():]


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return [x for x in out if x]


class Pattern:
    def __init__(self, variant, text, literal, cb, prio_):
        self.variant, self.text, self.literal, self.cb, self.prio = variant, text, literal, cb, prio_


class Lexer:
    """the token automaton of one Logos type"""

    def __init__(self, P, path):
        self.P, self.path = P, path
        self.pats = []
        self.n = Nfa()
        self.start = [self.n.new()]
        for where, a in P.attrs:
            if where == path:
                self.type_attr(a)
            elif where.startswith(path + "::"):
                self.variant_attr(where[len(path) + 2:], a)
        if not self.pats:
            raise _i.Limit("no token patterns")
        self.memo = {}
        self.s0 = self.close(self.start)

    def type_attr(self, a):
        m = re.match(r"#\[logos\((.*)\)\]$", a, re.S)
        if not m:
            return
        for part in split_top(m.group(1)):
            if part.startswith("skip"):
                t, rest = lit_split(part[4:])
                self.add(None, t, False, rest.strip().lstrip(",").strip() or None, None, False)
            elif not part.startswith("error"):
                raise _i.Limit("lexer option " + part[:30])

    def variant_attr(self, v, a):
        m = re.match(r"#\[(regex|token)\((.*)\)\]$", a, re.S)
        if not m:
            return
        t, rest = lit_split(m.group(2))
        cb = pr = None
        ic = False
        for part in split_top(rest.strip().lstrip(",")):
            k = re.match(r"(priority|callback)\s*=\s*(.*)$", part, re.S)
            if k and k.group(1) == "priority":
                pr = int(k.group(2))
            elif k:
                cb = k.group(2)
            elif re.match(r"ignore\s*\(", part):
                if "case" not in part:
                    raise _i.Limit("lexer option " + part)
                ic = True
            elif cb is None:
                cb = part
            else:
                raise _i.Limit("lexer option " + part)
        self.add(v, t, m.group(1) == "token", cb, pr, ic)

    def add(self, v, t, literal, cb, pr, ic):
        try:
            p = sre.parse(re.escape(t) if literal else t)
        except re.error as e:
            raise _i.Limit("pattern " + t)
        ic = ic or bool(p.state.flags & re.I)
        i = len(self.pats)
        self.pats.append(Pattern(v, t, literal, cb, prio(p) if pr is None else pr))
        s = self.n.new()
        self.start.append(s)
        e = self.n.build(p, s, ic)
        self.n.acc[e] = i

    def close(self, xs):
        seen, work = set(xs), list(xs)
        while work:
            for y in self.n.eps[work.pop()]:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return frozenset(seen)

    def step(self, s, c):
        k = (s, c)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.close({b for x in s for t, b in self.n.arcs[x] if t(c)})
        return r

    def accept(self, s):
        """pattern index accepted in this state: the one of highest priority"""
        a = [self.n.acc[x] for x in s if x in self.n.acc]
        if not a:
            return None
        best = max(self.pats[i].prio for i in a)
        a = sorted({i for i in a if self.pats[i].prio == best})
        if len(a) > 1:
            raise _i.Limit("ambiguous token patterns")
        return a[0]

    def next(self, pieces, pos):
        """longest match at pos = (piece, byte offset): (pattern index | None, end position)"""
        cur = {self.s0}
        last = None
        i, off = pos
        seen = pos
        while i < len(pieces):
            p = pieces[i]
            if p.op == "strc":
                b = p.args[0]
                t = b[off:].decode("utf8")
                dead = False
                for c in t:
                    nx = {self.step(s, c) for s in cur}
                    live = {s for s in nx if s}
                    if not live:
                        dead = True
                        break
                    if len(live) != len(nx):
                        raise _i.Limit("token boundary depends on symbolic text")
                    cur = live
                    off += len(c.encode())
                    seen = (i, off)
                    acc = {self.accept(s) for s in cur}
                    last = (acc, seen) if acc != {None} else last
                if dead:
                    break
            elif p.op == "dig":
                al = DIGITS[p.args[1]]
                S, work = set(), [self.step(s, c) for s in cur for c in al]
                if not any(work):
                    break
                while work:
                    s = work.pop()
                    if not s:
                        raise _i.Limit("token boundary inside symbolic digits")
                    if s not in S:
                        S.add(s)
                        work += [self.step(s, c) for c in al]
                cur = S
                seen = (i + 1, 0)
                acc = {self.accept(s) for s in cur}
                last = (acc, seen) if acc != {None} else last
            else:
                raise _i.Limit("token text " + p.op)
            i, off = i + 1, 0
        if last is None:
            # error token: what was read, at least one character
            i, off = seen
            if seen == pos:
                p = pieces[pos[0]]
                if p.op != "strc":
                    return None, (pos[0] + 1, 0)
                off += len(p.args[0][off:].decode("utf8")[0].encode())
            return None, (i, off)
        if len(last[0]) != 1:
            raise _i.Limit("token kind depends on symbolic text")
        return next(iter(last[0])), last[1]


# ------------------------------------------------------------------ texts
def pieces_of(v):
    if v.op == "strc":
        return (v,) if v.args[0] else ()
    if v.op == "scat" and all(p.op in ("strc", "dig") for p in v.args):
        return v.args
    if v.op == "dig":
        return (v,)
    return None


def norm_pos(pieces, pos):
    i, off = pos
    while i < len(pieces) and pieces[i].op == "strc" and off == len(pieces[i].args[0]):
        i, off = i + 1, 0
    return i, off


def pos_term(X, st, pieces, pos):
    n = M.c64(pos[1])
    for p in pieces[:pos[0]]:
        n = add(n, X.length(st, p))
    return n


def find_pos(X, st, pieces, t):
    """the position a length term denotes, or None"""
    n = M.c64(0)
    t = st.resolve(t)
    for i in range(len(pieces) + 1):
        d = sub(t, n)
        if isc(d) and (i < len(pieces) and pieces[i].op == "strc" and cv(d) <= len(pieces[i].args[0]) or cv(d) == 0):
            return norm_pos(pieces, (i, cv(d)))
        if i < len(pieces):
            n = add(n, X.length(st, pieces[i]))
    return None


def cut(pieces, a, b):
    """the text between two positions"""
    out = []
    for i in range(a[0], min(b[0] + 1, len(pieces))):
        p = pieces[i]
        if p.op == "strc":
            lo = a[1] if i == a[0] else 0
            hi = b[1] if i == b[0] else len(p.args[0])
            if hi > lo:
                out.append(mk("strc", (p.args[0][lo:hi],)))
        elif i < b[0]:
            out.append(p)
    if not out:
        return mk("strc", (b"",))
    return out[0] if len(out) == 1 else mk("scat", tuple(out))


def as_ref(X, t):
    return mk("str", t.args) if t.op == "strc" else X.vref(t)


def subtext(X, st, v, lo, hi):
    ps = pieces_of(v)
    if ps is None:
        return None
    a, b = find_pos(X, st, ps, lo), find_pos(X, st, ps, hi)
    if a is None or b is None or a > b:
        return None
    return cut(ps, a, b)


def dig(mag, base, st=None):
    """symbolic digit string of a value; its length is positive"""
    t = mk("dig", (mag, base))
    n = mk("len", (t,), 64)
    atom_maxbits[n] = 40
    if st is not None:
        st.assume(eq(n, M.c64(0)), False)
    return t


def to_digits(X, st, v):
    """formatted text with symbolic numbers as a text of digit strings: [(state, text)]"""
    parts = v.args if v.op == "scat" else (v,)
    out = [(st, mk("strc", (b"",)))]
    for p in parts:
        nxt = []
        for s, t in out:
            if p.op in ("strc", "dig"):
                nxt.append((s, M.scat(X, t, p)))
            elif p.op == "numtxt":
                x, base, signed, minw, upper, prefix = p.args
                w = x.w
                for s2, neg_ in (M.fork(X, s, bit_eq1(trunc(lshr(x, I(w - 1, w)), 1))) if signed else [(s, False)]):
                    m = zext(neg(x) if neg_ else x, 64)
                    pre = mk("strc", ((b"-" if neg_ else b"") + (prefix if isinstance(prefix, bytes) else (prefix or "").encode()),))
                    nxt.append((s2, M.scat(X, M.scat(X, t, pre), dig(m, base, s2))))
            else:
                return None
        out = nxt
    return out


# ------------------------------------------------------------------ models
def lexer_for(X, path):
    c = X.P._cfg.setdefault(("lexers",), {})
    if path not in c:
        c[path] = Lexer(X.P, path)
    return c[path]


def token_path(X, fn, retty, vs):
    """path of the token type a logos call is about"""
    for n in [X.P.types[retty]["n"]] + [X.P.types[v.ty]["n"] for v in vs if v.ty is not None] + [fn["name"] if fn and "name" in fn else ""]:
        m = re.search(r"logos::(?:Lexer|SpannedIter)<'[\w]*,\s*([\w:]+)>", n)
        if m:
            return m.group(1).replace("lc3_ensemble::", "")
    for w, a in X.P.attrs:
        if a.startswith("#[logos("):
            return w
    raise _i.Limit("token type")


def lexval(X, st, v):
    """(location, path, lexer term) behind a reference"""
    loc, path = M.last_ref(X, st, v)
    return loc, path, X.load(st, loc, path)


def mklex(path, text, a, b, ty, spanned=False):
    return mk("it", ("lex", path, text, M.c64(a[0]), M.c64(a[1]), M.c64(b[0]), M.c64(b[1]), spanned), None, ty)


def lexpos(t):
    if not all(isc(x) for x in t.args[3:7]):
        raise _i.Limit("lexer position")
    return (cv(t.args[3]), cv(t.args[4])), (cv(t.args[5]), cv(t.args[6]))


def ty_like(X, pred):
    for i, t in enumerate(X.P.types):
        if pred(t):
            return i
    raise _i.Limit("type")


def tok_types(X, path):
    c = X.P._cfg.setdefault(("toktypes",), {})
    if path not in c:
        rt = ty_like(X, lambda t: t["k"] == "adt" and t["n"].startswith("std::result::Result<%s, " % path))
        tt = ty_like(X, lambda t: t["n"] == path)
        et = M.res_inner(X, rt, 1)
        rg = ty_like(X, lambda t: t["n"] == "std::ops::Range<usize>")
        try:
            it = ty_like(X, lambda t: t["k"] == "tuple" and list(t["f"]) == [rt, rg])
        except _i.Limit:
            it = None
        c[path] = rt, tt, et, rg, it
    return c[path]


def callback_fn(X, L, p, vi, tt):
    c = X.P.__dict__.setdefault("_lexcb", {})
    k = (id(L), id(p), vi, tt)
    if k not in c:
        c[k] = _callback_fn(X, L, p, vi, tt), L, p
    return c[k][0]


def _callback_fn(X, L, p, vi, tt):
    P = X.P
    cb = p.cb.strip()
    if cb.startswith(("|", "move ")):
        want = P.types[tt]["v"][vi]["f"]
        names = [X.P.types[f[1]]["n"] for f in want]
        c = []
        for f in P.fns.values():
            if f["def"].endswith("::callback") and f["local"] and "blocks" in f and ("::lex::" in f["def"]) and L.path.split("::")[-1] + " as logos" in f["def"]:
                rn = P.types[f["locals"][0]]["n"]
                if names and (rn == names[0] or rn.startswith(("std::result::Result<%s," % names[0], "std::option::Option<%s>" % names[0]))) or not names and rn in ("()", "bool"):
                    c.append(f)
        # other variants with a closure of the same payload type make the association ambiguous
        same = {q.variant for q in L.pats if q.cb and q.cb.startswith(("|", "move ")) and q.variant is not None
                and [X.P.types[f[1]]["n"] for f in P.types[tt]["v"][vidx(P, tt, q.variant)]["f"]] == names}
        texts = {q.cb for q in L.pats if q.variant in same and q.cb and q.cb.startswith(("|", "move "))}
        if not c or len(texts) > 1:
            raise _i.Limit("token callback")
        return c[0]
    last = cb.split("::")[-1]
    c = [f for f in P.fns.values() if f["local"] and "blocks" in f and f["def"].split("::")[-1] == last and "logos::Lexer<" in P.types[f["locals"][1]]["n"]]
    if len(c) != 1:
        raise _i.Limit("token callback " + cb)
    return c[0]


def vidx(P, ty, name):
    for i, v in enumerate(P.types[ty]["v"]):
        if v["n"] == name:
            return i
    raise _i.Limit("variant " + name)


def lex_next(X, st, fr, t):
    """[(state, lexer after, Result item | None)]"""
    P = X.P
    path, text = t.args[1], t.args[2]
    L = lexer_for(X, path)
    pieces = pieces_of(text)
    if pieces is None:
        raise _i.Limit("symbolic source text")
    rt, tt, et, rg, _ = tok_types(X, path)
    pos = norm_pos(pieces, lexpos(t)[1])
    while True:
        if pos[0] >= len(pieces):
            return [(st, mklex(path, text, pos, pos, t.ty, t.args[7]), None)]
        i, end = L.next(pieces, pos)
        end = norm_pos(pieces, end)
        if i is None or L.pats[i].variant is not None:
            break
        if L.pats[i].cb:
            raise _i.Limit("skip callback")
        pos = end
    mkl = lambda a, b: mklex(path, text, a, b, t.ty, t.args[7])
    bad = lambda s: M.err(X, rt, M.default(X, s, et))
    if i is None:
        return [(st, mkl(pos, end), bad(st))]
    p = L.pats[i]
    vi = vidx(P, tt, p.variant)
    n = P.types[tt]["n"]
    if p.cb is None:
        return [(st, mkl(pos, end), M.ok(X, rt, mk("agg", (n, vi), None, tt)))]
    f = callback_fn(X, L, p, vi, tt)
    loc = X.heap(st, mkl(pos, end))
    out = []
    for s, r in X.exec_fn(f, [mk("ref", (loc, ()), None, None)], st, fr):
        after = X.load(s, loc, ())
        if after.op != "it" or after.args[0] != "lex":
            raise _i.Limit("lexer state")
        rty = f["locals"][0]
        k = P.types[rty]
        fields = P.types[tt]["v"][vi]["f"]

        def good(v):
            return M.ok(X, rt, mk("agg", (n, vi) + ((v,) if fields else ()), None, tt))

        if fields and rty == fields[0][1]:
            out.append((s, after, good(r)))
        elif k["n"].startswith("std::result::Result<"):
            for s2, q in M.fork(X, s, eq(X.discr(r, 64), M.c64(0))):
                out.append((s2, after, good(X.fld(r, 0, 0, M.res_inner(X, rty, 0))) if q else M.err(X, rt, X.fld(r, 1, 0, et))))
        elif k["n"].startswith("std::option::Option<"):
            for s2, q in M.fork(X, s, eq(X.discr(r, 64), M.c64(1))):
                out.append((s2, after, good(X.fld(r, 1, 0, M.opt_inner(X, rty))) if q else bad(s2)))
        elif k["n"] == "bool" and not fields:
            for s2, q in M.fork(X, s, r):
                out.append((s2, after, good(None) if q else bad(s2)))
        elif k["n"] == "()" and not fields:
            out.append((s, after, good(None)))
        else:
            raise _i.Limit("token callback result " + k["n"])
    return out


def span_of(X, st, t, rg):
    ps = pieces_of(t.args[2])
    a, b = lexpos(t)
    return mk("agg", (X.P.types[rg]["n"], 0, pos_term(X, st, ps, a), pos_term(X, st, ps, b)), None, rg)


def lex_item(X, st, fr, it):
    """iterator protocol used by the models of std iterators"""
    out = []
    rt, tt, et, rg, ty = tok_types(X, it.args[1])
    for s, n, r in lex_next(X, st, fr, it):
        if r is not None and it.args[7]:
            r = mk("agg", ("tuple", 0, r, span_of(X, s, n, rg)), None, ty)
        out.append((s, n, r))
    return out


def _logos(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m == "lexer":
        v = M.deref_all(X, st, vs[0])
        if pieces_of(v) is None:
            raise _i.Limit("symbolic source text")
        return M.R(st, mklex(token_path(X, fn, retty, vs), v, (0, 0), (0, 0), retty))
    v = vs[0]
    loc = path = None
    if v.op == "ref":
        loc, path, t = lexval(X, st, v)
    else:
        t = v
    if t.op != "it" or t.args[0] != "lex":
        raise _i.Limit("lexer value")
    ps = pieces_of(t.args[2])
    a, b = lexpos(t)
    if m == "spanned":
        return M.R(st, mklex(t.args[1], t.args[2], a, b, retty, True))
    if m == "slice":
        return M.R(st, as_ref(X, cut(ps, a, b)))
    if m == "remainder":
        return M.R(st, as_ref(X, cut(ps, b, (len(ps), 0))))
    if m == "source":
        return M.R(st, as_ref(X, t.args[2]))
    if m == "span":
        return M.R(st, span_of(X, st, t, retty))
    if m == "bump":
        n = st.resolve(add(pos_term(X, st, ps, b), vs[1]))
        e = find_pos(X, st, ps, n)
        if e is None:
            end = pos_term(X, st, ps, (len(ps), 0))
            c = lt(end, n)
            d = st.decide(c)
            if d is True:
                X.panic(fr, st.copy(), "assert:bump", (c, (n, end)), True)
                return []
            raise _i.Limit("lexer position")
        if e[0] < len(ps) and ps[e[0]].op == "strc" and ps[e[0]].args[0][e[1]] & 0xC0 == 0x80:
            X.panic(fr, st.copy(), "assert:charboundary", (FALSE, (n, n)), True)
            return []
        X.save(st, loc, path, mklex(t.args[1], t.args[2], a, e, t.ty, t.args[7]))
        return M.R(st, M.unit(X))
    if m in ("next",):
        out = []
        for s, n, r in lex_item(X, st, fr, t):
            X.save(s, loc, path, n)
            out.append((s, M.none(X, retty) if r is None else M.some(X, retty, r)))
        return out
    raise _i.Limit("lexer method " + m)


M.PREFIX.append(("logos::", _logos))
M.PREFIX.append(("<logos::", lambda X, st, fr, vs, retty, fn: M.iter_method(X, st, fr, fn["def"], vs, retty, fn) if "Iterator>::" in fn["def"] and not fn["def"].endswith("::next") else _logos(X, st, fr, vs, retty, fn)))


# ------------------------------------------------------------------ numbers in texts
KINDS = ("Empty", "InvalidDigit", "PosOverflow", "NegOverflow")


def parse_lit(b, radix, lo, hi):
    """int | kind, as core::num does"""
    if not b:
        return "Empty"
    if b in (b"+", b"-"):
        return "InvalidDigit"
    ng = False
    if b[:1] == b"+":
        b = b[1:]
    elif b[:1] == b"-" and lo < 0:
        ng, b = True, b[1:]
    n = 0
    for ch in b:
        m = n * radix
        d = int(chr(ch), 36) if chr(ch).isascii() and chr(ch).isalnum() else 99
        if d >= radix:
            return "InvalidDigit"
        if not lo <= m <= hi:
            return "NegOverflow" if ng else "PosOverflow"
        n = m - d if ng else m + d
        if not lo <= n <= hi:
            return "NegOverflow" if ng else "PosOverflow"
    return n


def parse_text(X, st, retty, v, radix):
    """[(state, Result)] of parsing the text v, or None when it is not a text of known pieces"""
    P = X.P
    it = M.res_inner(X, retty, 0)
    w = P.width(it)
    sg = P.signed(it)
    if w is None or w > 64 or P.types[it]["n"] in ("bool", "char"):
        return None
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    ps = pieces_of(v)
    if ps is None or not isc(radix):
        return None
    radix = cv(radix)

    def bad(s, kind):
        return s, M.err(X, retty, mk("app", ("parseerr", mk("name", (kind,))), None, M.res_inner(X, retty, 1)))

    if len(ps) == 1 and M.marked(ps[0].args[0] if ps[0].op == "strc" else b""):
        x = M.unmark(ps[0].args[0])
        if x is None or radix != 16 or w < 16:
            st.emit("approx", "parse")
            return [(st.copy(), M.ok(X, retty, X.fresh("parsed", it)))] + [bad(st.copy(), k) for k in KINDS[1:]]
        if w > 16 or not sg:
            return [(st, M.ok(X, retty, zext(x, w) if w > 16 else x))]
        return [(s, M.ok(X, retty, x)) if q else bad(s, "PosOverflow") for s, q in M.fork(X, st, lt(x, I(0x8000, 16)))]
    if all(p.op == "strc" for p in ps):
        n = parse_lit(b"".join(p.args[0] for p in ps), radix, lo, hi)
        return [bad(st, n) if isinstance(n, str) else (st, M.ok(X, retty, I(n & ((1 << w) - 1), w)))]
    pre = ps[0].args[0] if ps[0].op == "strc" else b""
    rest = ps[1:] if ps[0].op == "strc" else ps
    sign = pre[:1] if pre[:1] in (b"-", b"+") else b""
    body = pre[len(sign):]
    if sign == b"-" and not sg:
        return [bad(st, "InvalidDigit")]
    ok1 = lambda ch: chr(ch).isascii() and chr(ch).isalnum() and int(chr(ch), 36) < radix
    if body and isinstance(parse_lit(body, radix, 0, 1 << 64), str) and not ok1(body[0]):
        return [bad(st, "InvalidDigit")]
    if len(rest) != 1 or rest[0].op != "dig" or rest[0].args[1] != radix or body.strip(b"0"):
        # another notation than the digits were written in: the value is not kept
        st.emit("approx", "parse")
        out = [(st.copy(), M.ok(X, retty, X.fresh("parsed", it)))]
        for k in KINDS[1:]:
            out.append(bad(st.copy(), k))
        return out
    mag = rest[0].args[0]
    lim = -lo if sign == b"-" else hi
    out = []
    for s, q in M.fork(X, st, lt(I(lim, 64), mag)):
        if q:
            out.append(bad(s, "NegOverflow" if sign == b"-" else "PosOverflow"))
        else:
            x = trunc(mag, w)
            out.append((s, M.ok(X, retty, neg(x) if sign == b"-" else x)))
    return out


def parse_kind(X, st, v, e):
    """IntErrorKind of an error made above: [(state, &kind)]"""
    P = X.P
    if v.op != "app" or v.args[0] != "parseerr":
        return None
    names = (v.args[1].args[0],) if len(v.args) == 2 else KINDS
    out = []
    for k in names:
        s = st.copy() if len(names) > 1 else st
        if len(names) > 1:
            q = eq(mk("discr", (v,), 64), I(KINDS.index(k), 64))
            if s.decide(q) is False or not s.assume(q, True):
                continue
        out.append((s, X.vref(mk("agg", (P.types[e]["n"], vidx(P, e, k)), None, e))))
    return out


def head_char(v):
    """(set of possible first characters | None for unknown, is empty)"""
    ps = pieces_of(v)
    if ps is None:
        return None
    if not ps:
        return set()
    if ps[0].op == "strc":
        return {ps[0].args[0].decode("utf8", "replace")[0]}
    return set(DIGITS[ps[0].args[1]])


def affix(X, st, fr, v, pat, m, retty):
    """starts_with / strip_prefix with a pattern of single characters or a literal, on a text of pieces"""
    ps = pieces_of(v)
    if ps is None or not ps:
        return None
    pt = M.deref_all(X, st, pat) if pat.op in ("ref", "str") else pat
    hit = None
    if pt.op == "strc":
        b = pt.args[0]
        if ps[0].op == "strc" and len(ps[0].args[0]) >= len(b):
            hit = ps[0].args[0].startswith(b)
            n = len(b)
        elif ps[0].op == "strc" and not b.startswith(ps[0].args[0]):
            hit = False
        elif ps[0].op == "dig" and b and chr(b[0]) not in DIGITS[ps[0].args[1]]:
            hit = False
    else:
        hs = head_char(v)
        res = set()
        for c in hs:
            r = M.pat_matches(X, st, fr, c.encode(), pt)
            if r is None:
                return None
            res.add(bool(r))
        if len(res) == 1:
            hit = res.pop()
            if hit and ps[0].op == "dig":
                if m == "strip_prefix":
                    return None
            n = len(next(iter(hs)).encode())
    if hit is None:
        return None
    if m == "starts_with":
        return M.R(st, I(int(hit), 1))
    if not hit:
        return M.R(st, M.none(X, retty))
    rest = cut(ps, norm_pos(ps, (0, n)), (len(ps), 0))
    return M.R(st, M.some(X, retty, as_ref(X, rest)))


def first_lines(X, v):
    """the lines of a text of pieces, as texts"""
    ps = pieces_of(v)
    if ps is None:
        return None
    out, cur = [], []
    for p in ps:
        if p.op != "strc":
            cur.append(p)
            continue
        parts = p.args[0].split(b"\n")
        for j, x in enumerate(parts):
            if j:
                out.append(cur)
                cur = []
            if x:
                cur.append(mk("strc", (x,)))
    tail = cur
    res = []
    for l in out:
        if l and l[-1].op == "strc" and l[-1].args[0].endswith(b"\r"):
            x = l[-1].args[0][:-1]
            l = l[:-1] + ([mk("strc", (x,))] if x else [])
        res.append(l)
    if tail:
        res.append(tail)
    return [l[0] if len(l) == 1 else mk("scat", tuple(l)) if l else mk("strc", (b"",)) for l in res]


def may_equal(lit, v):
    """whether the text of pieces can be the literal"""
    ps = pieces_of(v)
    if ps is None:
        return True
    r = b""
    for p in ps:
        r += re.escape(p.args[0]) if p.op == "strc" else b"[%s]+" % DIGITS[p.args[1]].encode()
    return re.fullmatch(r, lit.args[0], re.S) is not None


def search(X, st, fr, v, pat, m, retty):
    """find / contains of single characters in a text of pieces whose digits cannot match"""
    ps = pieces_of(v)
    pt = M.deref_all(X, st, pat) if pat.op in ("ref", "str") else pat
    if ps is None or pt.op == "strc" and len(pt.args[0].decode("utf8", "replace")) != 1:
        return None
    at = M.c64(0)
    for p in ps:
        if p.op == "dig":
            for c in DIGITS[p.args[1]]:
                r = M.pat_matches(X, st, fr, c.encode(), pat)
                if r is None or r:
                    return None
        else:
            r = M.pat_matches(X, st, fr, p.args[0], pat)
            if r is None:
                return None
            if r:
                return M.R(st, M.some(X, retty, add(at, M.c64(r[0][0]))) if m == "find" else TRUE)
        at = add(at, X.length(st, p))
    return M.R(st, M.none(X, retty) if m == "find" else FALSE)
