"""C04: parsing never panics; its errors point inside the input."""
from itertools import product
from rules.parselib import *
from rules.C03 import KW, kinds_of, base, LABELS

EXPLAIN = ("The whole parser is interpreted over enumerated texts: every text up to a length over an alphabet holding each character the lexer treats specially and characters of every UTF-8 length, "
           "every body of a string literal up to a length over the characters its scanner distinguishes, literals around the length limits, token sequences, and statements with one token removed, "
           "inserted, replaced or cut short; digits are symbolic in the numeric contexts. No abstract path may reach a panic, and every returned error's span is compared with the text's length.")

CHARS = ('"', "\\", "\n", "\r", " ", "\t", ";", ":", ",", ".", "#", "-", "x", "X", "R", "0", "9", "a", "_", "@", "\0", "\u00e9", "\u4e2d", "\U0001f600", "\u0661", "\u00df", "\u0149", "\u00a0", "\u2028", "\u0301", "+")
CORE = ('"', "\\", "\n", "\r", "#", "-", "x", "R", "9", "a", "\u00e9", ".")
STRCH = ("\\", '"', "\n", "\r", "\u00e9", "a", "n", "\U0001f600", "0")
TOK = ("ADD", "BR", "NOP", "TRAP", "JSR", ".fill", ".blkw", ".stringz", ".orig", ".end", ".external", ".q", ".", "R1", "R9", "#5", "-1", "x-1", "65535", "L", ":", ",", '"s"', "\n", ";c", "\\", "@")
CORETOK = ("ADD", ".fill", ".blkw", "NOP", "R1", "#5", "L", ":", ",", '"s"', "\n", ".end")


def texts(tier):
    t = tier != "quick"
    for n in range(0, 4):
        for c in product(CHARS, repeat=n) if n < 3 or t else product(CHARS[:18] + CHARS[21:22], repeat=3):
            yield "chars", "".join(c)
    for c in product(CORE if t else CORE[:2] + CORE[3:9] + CORE[10:11], repeat=4):
        yield "chars", "".join(c)
    for n in range(0, 5 if t else 4):
        for c in product(STRCH, repeat=n):
            s = "".join(c)
            yield "string", '"' + s
            if n < 4:
                yield "string", '.stringz "' + s + '"'
                yield "string", '.stringz "' + s + '\n'
                if n < 3:
                    yield "string", 'L .stringz "' + s + '"\r\nADD'
    for n in (1, 2, 3):
        for c in product(TOK, repeat=n) if n < 3 or t else product(TOK[:1] + TOK[2:3] + TOK[5:11] + TOK[13:14] + TOK[16:17] + TOK[18:24], repeat=n):
            yield "tokens", " ".join(c)
            if n == 2:
                yield "tokens", "".join(c)
    for c in product(CORETOK if t else CORETOK[:2] + CORETOK[3:4] + CORETOK[5:8] + CORETOK[10:11], repeat=4):
        yield "tokens", " ".join(c)
    # neighbours of statements
    for n in KW:
        for lb in ([], [("L", " ")], [("L", ":\n"), ("M", ": ")]):
            d, es = document([W(n, *base(n, len(lb)), labels=lb)], Style(last=False))
            s = "".join(p.args[0].decode() for p in d.pieces)
            for i in range(len(s) + 1):
                yield "cut", s[:i]
            w = s.replace(",", " ,").split(" ")
            for i in range(len(w) + 1):
                for k in TOK + ("", "\n", '"', "\u00e9", "#", "x99999", "R77", "-", ".\u00e9"):
                    if i < len(w):
                        yield "replace", " ".join(w[:i] + [k] + w[i + 1:])
                    if not lb:
                        yield "insert", " ".join(w[:i] + [k] + w[i:])
    for l in LABELS:
        for s in ("", ":", "\n", " ADD", ": @"):
            yield "label", l + s
    # lengths
    for k in (65533, 65534, 65535, 65536, 70000):
        for s in ("a" * k, "\u00e9" * (k // 2) + "a" * (k % 2), "\\n" * 3 + "a" * k, "a" * (k - 1) + "\\"):
            yield "huge", '.stringz "' + s + '"'
            yield "huge", '.stringz "' + s
    for k in (17, 40, 70000):
        for p in ("#", "x", "-", "x-", "#-", "R", ".", "L", ";", ":", ",", "\n", "\\", '"'):
            for c in ("9", "0", "a", p[:1]) if k < 50 or p not in ".:,\n\\\"" else ():
                yield "huge", p + c * k
                yield "huge", "ADD R0, R0, " + p + c * k
    if t:
        for k in (60, 100):
            for p in ".:,\n":
                yield "huge", p * k
        for c in product(CORE, repeat=5):
            yield "chars", "".join(c)
        for c in product(STRCH, repeat=5):
            yield "string", '"' + "".join(c)
        for c in product(CORETOK, repeat=5):
            yield "tokens", " ".join(c)
        for c in product(CHARS, repeat=4):
            yield "chars", "".join(c)


def symbolic_texts():
    """(pieces before, base, pieces after): a symbolic digit string in context"""
    for b, pres in ((10, ("", "#", "-", "#-", "##", "-#", "R", "r", "R-", "L", ".", "_", ";", '"', "\u00e9")), (16, ("x", "X", "x-", "X-", "#x", "0x", "xx"))):
        for p in pres:
            for ctx in ("", "ADD R0, R1, ", "ADD R0, ", ".fill ", ".blkw ", "TRAP ", "BR ", "LDR R1, R2, ", ".orig ", "NOP ", "JSR ", "L: ", "NOT "):
                for suf in ("", "\n", ", ", " ;c", "-", "@", "_"):
                    yield ctx + p, b, suf


def spans(C, s, e):
    """[(start, end)] of the span a parse error reports, None if not resolved"""
    X, P = C.X, C.P
    f = next((g for g in P.fns.values() if g["local"] and "blocks" in g and "ParseErr as " in g["def"] and g["def"].endswith("::span")), None)
    if f is None:
        raise Limit("no span function")
    out = []
    rs, ps = call(X, s, f, X.vref(e))
    if ps:
        return None
    for s2, o in rs:
        k, v = opt_of(X, s2, o)
        if k is None:
            return None
        if k == "None":
            out.append((s2, None))
            continue
        vi = X.variant(s2, v)
        if vi is None:
            return None
        fs = P.types[v.ty]["v"][vi]["f"]
        x = X.fld(v, vi, 0, fs[0][1])
        its = [x] if P.types[fs[0][1]]["n"].startswith("std::ops::Range") else flat_seq(X, s2, x)
        if not its:
            return None
        for i in its:
            t = i.ty if i.ty is not None else next(k for k, t in enumerate(P.types) if t and t.get("n") == "std::ops::Range<usize>")
            out.append((s2, (X.fld(i, 0, 0, P.tyname.get("usize")), X.fld(i, 0, 1, P.tyname.get("usize")))))
    return out


def run(K):
    A = Asm(K.P)
    K.rule("panic", "no text makes the parser panic", 5000)
    K.rule("span", "an error carries a span that lies within the text", 2000)

    def judge(K, g, C):
        P, X = C.P, C.X
        K.saw(X)
        bad = [p for p in C.panics if not zone_unsat(p.st)]
        for p in bad:
            K.judge("panic", "%s|%s" % (p.kind, p.fn["def"] if hasattr(p, "fn") else ""), False if C.sure(p.st) else None, lambda: "%s: parsing %s panics (%s)" % (P.loc(p.fn, p.line) if hasattr(p, "fn") else C.where, C.text, p.kind), g)
        if not bad:
            K.ok("panic", g)
        if not C.outs and not bad:
            K.undecided("panic", "%s: no outcome of %s" % (g, C.text))
        for s, r in C.outs:
            okv, e = C.ok_of(s, r)
            if okv is None:
                K.undecided("span", "%s: result of %s not resolved" % (g, C.text))
            if okv is not False:
                continue
            sp = spans(C, s, e)
            if sp is None:
                K.undecided("span", "%s: span of the error for %s not resolved" % (g, C.text))
                continue
            for s2, x in sp:
                if x is None:
                    K.judge("span", "none", False if C.sure(s2) else None, lambda: "%s: the error for %s carries no span" % (C.where, C.text), g)
                    continue
                d = zone_decide(s2, band(bnot(lt(x[1], x[0])), bnot(lt(C.end, x[1]))))
                K.judge("span", "outside", True if d else None if d is None or not C.sure(s2) else False, lambda: "%s: the error for %s spans %s..%s, the text has %s bytes" % (C.where, C.text, show(s2.resolve(x[0])), show(s2.resolve(x[1])), show(s2.resolve(C.end))), g)

    def one(K, chunk):
        for g, t in chunk:
            try:
                d = Doc()
                d.put(t)
                judge(K, g, Parse(A, d, g))
            except Limit as e:
                K.undecided("panic", "%s: %r: limit %s" % (g, t[:60], e))

    def sym(K, chunk):
        for a, b, c in chunk:
            for cls in [(16, 0), (17, 65536), None]:
                try:
                    d = Doc()
                    d.put(a)
                    d.put(LX.dig(symbolic(d, "mag", cls), b))
                    d.put(c)
                    judge(K, "symbolic digits", Parse(A, d, "symbolic"))
                except Limit as e:
                    K.undecided("panic", "%s<digits>%s: limit %s" % (a, c, e))

    ss = list(symbolic_texts())
    K.pmap(sym, [ss[i::64] for i in range(64)])
    ts = list(dict.fromkeys(texts(K.tier)))
    K.pmap(one, [ts[i::256] for i in range(256)])
