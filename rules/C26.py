"""C26: spans of assembler and linker errors."""
from rules.asmlib import *
from rules.asmcorpus import *
from rules.linklib import Link, clashes, pairs, trees, judge_link_errors, judge_err_queries

EXPLAIN = ("Every rejecting path of the abstract assembler runs (every statement sequence up to length 4 over the statement alphabet, label, layout and block shapes) has its error's span list "
           "queried through ErrSpan::first and ErrSpan::iter; spans are compared with the source length and the text of the offending label. Link errors and every ErrSpan shape are queried as well.")


def run(K):
    A = Asm(K.P)
    K.rule("query", "first() and iter() of an error's spans do not panic", 1000)
    K.rule("bounds", "every span of an assembler error lies within the source", 1000)
    K.rule("covers", "the spans of a label error cover a spelling of the label", 300)

    def one(K, it):
        tag, b, debug = it
        C = Case(A, b(), debug, tag)
        judge_spans(K, C)
        K.saw(C.X)
    its = [(t, b) for t, b in list(instructions(A)) + list(layouts(A)) + list(two_blocks()) + list(labels()) + list(errors()) + list(lines())]
    K.pmap(one, [(t, b, False) for t, b in its + list(structural(4, 3 if K.tier == "quick" else 4))] + [(t, b, True) for t, b in its])

    def two(K, it):
        tag, b, t, d = it
        L = Link(A, b(), d, tag)
        judge_link_errors(K, L, t)
        K.saw(L.X)
    K.pmap(two, [(g, b, t, d) for g, b in list(clashes()) + list(pairs()) for t in trees(2) for d in (True, False)])
    shapes_of_spans(K, A)


def shapes_of_spans(K, A):
    """every way to build a span list, with 0 to 4 spans"""
    P = A.P
    C = Case(A, [orig(o), end()], False, "span-list")
    X = C.X
    st = C.outs[0][0]
    ety = P.adt("ErrSpan")
    for vi, v in enumerate(P.types[ety]["v"]):
        fty = v["f"][0][1]
        t = P.types[fty]
        r = lambda i: A.rangev(3 * i, 3 * i + 2)
        if "Vec" in t["n"]:
            xs = [arr(fty, *[r(i) for i in range(n)]) for n in range(5)]
        elif t["k"] == "array":
            xs = [arr(fty, *[r(i) for i in range(t["len"])])]
        else:
            xs = [r(0)]
        for x in xs:
            judge_err_queries(K, C, st, agg(P, ety, vi, x), "span list", "a span list of shape %s with %s spans" % (v["n"] if "n" in v else vi, len(x.args) if x.op == "arr" else 1))
