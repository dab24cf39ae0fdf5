"""C23: label queries of the symbol table."""
from rules.asmlib import *
from rules.asmcorpus import *

EXPLAIN = ("Symbol tables built by the abstract assembler runs (label shapes: positions, spellings, duplicates, externals; every statement sequence up to length 3 over the statement "
           "alphabet; addresses symbolic) are queried through the public methods, interpreted abstractly, for every label under several letter-case spellings, for names outside the program, "
           "for an arbitrary symbolic address, and through the listing.")


def run(K):
    A = Asm(K.P)
    K.rule("lookup", "lookup_label gives the address of the label under every spelling, without panicking", 200)
    K.rule("source", "get_label_source gives the span of the label's first occurrence", 200)
    K.rule("reverse", "rev_lookup_label gives a label recorded at the address", 200)
    K.rule("listing", "label_iter lists exactly the program's labels with addresses and external flags", 200)
    K.rule("unknown", "names not in the program give no result", 200)

    def one(K, it):
        tag, b, debug = it
        C = Case(A, b(), debug, tag)
        judge_queries(K, C)
        K.saw(C.X)
    ls = list(labels())
    st = [x for x in structural(3 if K.tier == "quick" else 4, 2)]
    K.pmap(one, [(t, b, d) for t, b in ls for d in (True, False)] + [(t, b, True) for t, b in st + list(layouts(A))] + [(t, b, False) for t, b in st])
