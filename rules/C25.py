"""C25: source positions."""
from rules.asmlib import *
from itertools import product

EXPLAIN = ("SourceInfo is built abstractly from every text up to a length over an alphabet of letters, newlines, carriage returns, blanks and multi-byte characters (and some longer layouts); line count, "
           "line spans and texts are compared for every line, and get_pos_pair for a symbolic index, so that one abstract run covers every index, also past the end.")


def texts(tier):
    n = 5 if tier == "quick" else 6
    for k in range(n + 1):
        for t in product("a\n \r", repeat=k):
            yield "".join(t)
    for k in range(1, 5 if tier == "quick" else 6):
        for t in product("a\n\u00e9\t", repeat=k):
            s = "".join(t)
            if "\u00e9" in s or "\t" in s:
                yield s
    for s in ("\n" * 9, "abc\r\n" * 6, "  a b  \n\t\tcd e\t\n\n   \nlast  ", "\u2003wide\u3000\n\u00a0x\u00a0\n", "x" * 40 + "\n" + "y" * 41, "\u2192\n\u2192\u2192\n", "\n\n ab\n\n\n  c", "a\x0b\n\x0cb\n", "a\x1c\n\x1fb", "\x85q\n\u2028r\u2029",
              "\n".join("l" * i for i in range(12))):
        yield s


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def expected(text):
    """[(start, end, trimmed start, trimmed end)] in bytes"""
    out, pos = [], 0
    for l in text.split("\n"):
        n = len(l.encode())
        e = l.rstrip(WS)
        b = e.lstrip(WS)
        te = pos + len(e.encode())
        out.append((pos, pos + n, te - len(b.encode()), te))
        pos += n + 1
    return out


def run(K):
    P = K.P
    A = Asm(P)
    K.rule("count", "the line count is the number of newlines plus one", 500)
    K.rule("line", "the span and text of line i are that line without surrounding whitespace", 1000)
    K.rule("position", "the position of an index is the line that holds it and the distance from its start", 1000)
    new, cnt = P.fn("asm::SourceInfo::new"), P.fn("asm::SourceInfo::count_lines")
    where = P.loc(new, new["line"])

    def one(K, texts_):
        for text in texts_:
            judge_text(K, A, text, where)

    ts = list(texts(K.tier))
    K.pmap(one, [ts[i::32] for i in range(32)])


class Ctx:
    def __init__(self, X):
        self.X, self.P = X, X.P
    sure, same = Case.sure, Case.same


def judge_text(K, A, text, where):
    P = A.P
    new = P.fn("asm::SourceInfo::new")
    X = Interp(P, {})
    X.maxpaths = 400
    st, _vs = X.start(new)
    C = Ctx(X)
    E = expected(text)
    raw = text.encode()
    tag = repr(text)[:40]

    def nopanic(rule, what, ps):
        for p in ps:
            if not zone_unsat(p.st):
                K.judge(rule, "panic", False if C.sure(p.st) else None, lambda: "%s: %s can panic on the text %r (%s)" % (P.loc(p.fn, p.line), what, text, p.kind), tag)

    rs, ps = call(X, st, new, lit(text))
    nopanic("count", "SourceInfo::new", ps)
    for s, si in rs:
        si = X.vref(si)
        rs, ps = call(X, s, "asm::SourceInfo::count_lines", si)
        nopanic("count", "count_lines", ps)
        for s2, n in rs:
            K.judge("count", "count", C.same(s2, n, I(len(E), 64)), lambda: "%s: the text %r has %s lines instead of %d" % (where, text, show(n)[:60], len(E)), tag)
        for i in range(len(E) + 2):
            e = E[i] if i < len(E) else None
            for q in ("line_span", "read_line"):
                rs, ps = call(X, s, "asm::SourceInfo::" + q, si, I(i, 64))
                nopanic("line", q, ps)
                for s2, r in rs:
                    k, a = opt_of(X, s2, r)
                    if e is None:
                        if k == "Some":
                            K.judge("line", q + "-past", False if C.sure(s2) else None, lambda: "%s: %s(%d) of the text %r, which has %d lines, is not None" % (where, q, i, text, len(E)), tag)
                        continue
                    if k == "None":
                        K.judge("line", q + "-none", False if C.sure(s2) else None, lambda: "%s: %s(%d) of the text %r is None" % (where, q, i, text), tag)
                        continue
                    got = None if k is None else range_of(X, s2, a) if q == "line_span" else pystr(X, s2, a)
                    want = (e[2], e[3]) if q == "line_span" else raw[e[2]:e[3]].decode()
                    if got is None:
                        K.undecided("line", "%s: %s not resolved" % (tag, q))
                        continue
                    good = got == want
                    if q == "line_span" and not good and want[0] == want[1] and got[0] == got[1]:
                        # a blank line: any empty span inside the line
                        good = e[0] <= got[0] <= e[1] + 1
                    K.judge("line", q, True if good else False if C.sure(s2) else None, lambda: "%s: %s(%d) of the text %r is %r instead of %r" % (where, q, i, text, got, want), tag)
        idx = fresh("index", 64)
        rs, ps = call(X, s, "asm::SourceInfo::get_pos_pair", si, idx)
        nopanic("position", "get_pos_pair", ps)
        for s2, r in rs:
            a, b = tup(X, r, 2)

            def ref(ask):
                ln = 0
                while ln + 1 < len(E) and not ask(lt(idx, I(E[ln + 1][0], 64))):
                    ln += 1
                return ln
            for s3, ln in explore(s2, ref):
                if zone_unsat(s3):
                    continue
                lo, hi = s3.rng(idx)
                at = "%d" % lo if lo == hi else "%d.." % lo
                K.judge("position", "line", C.same(s3, a, I(ln, 64)), lambda: "%s: get_pos_pair(%s) of the text %r gives line %s instead of %d" % (where, at, text, show(s3.resolve(a))[:40], ln), tag)
                K.judge("position", "column", C.same(s3, b, sub(idx, I(E[ln][0], 64))), lambda: "%s: get_pos_pair(%s) of the text %r gives column %s instead of the distance %s from the start of line %d" % (where, at, text, show(s3.resolve(b))[:40], "index-%d" % E[ln][0], ln), tag)
    K.saw(X)
