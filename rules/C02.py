"""C02: acceptance of exactly the well-formed programs."""
from rules.asmlib import *
from rules.asmcorpus import corpus

EXPLAIN = ("The assembler entry points are interpreted abstractly on enumerated statement shapes (every statement sequence up to length 4 over a nine-letter alphabet, inside a block and "
           "on its own, label, block-layout and size shapes with symbolic addresses); the result of every feasible path is compared with the property's conditions evaluated on that path.")


def run(K):
    A = Asm(K.P)
    K.rule("verdict", "accepted exactly when no condition is violated; the error kind names a violated condition", 3000)
    K.rule("verdict-panic", "no path of assembling panics", 3000)

    def one(K, it):
        tag, b, debug = it
        C = Case(A, b(), debug, tag)
        judge_accept(K, "verdict", C)
        K.saw(C.X)
    its = [(t, b, False) for t, b in corpus(A, K.tier)] + [(t, b, True) for t, b in corpus(A, "small" if K.tier == "quick" else "quick")]
    K.pmap(one, its)
