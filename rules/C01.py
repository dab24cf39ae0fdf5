"""C01: the assembled image and label addresses."""
from rules.asmlib import *
from rules.asmcorpus import corpus

EXPLAIN = ("The assembler entry points are interpreted abstractly on enumerated statement shapes (every instruction form with symbolic operands, every label position, block "
           "layouts, every statement sequence up to length 4 over a nine-letter statement alphabet) with symbolic origins, operands and sizes; every word of every accepted "
           "path is compared with an independent reference encoding, and every label with its statement's address.")


def run(K):
    A = Asm(K.P)
    K.rule("image", "every word of the object is the reference encoding at the reference address, and no other address is defined", 1000)
    K.rule("labels", "every label maps to the address of the statement it precedes", 100)

    def one(K, it):
        tag, b, debug = it
        C = Case(A, b(), debug, tag)
        judge_image(K, "image", "labels", C)
        judge_labels(K, "labels", C)
        K.saw(C.X)
    its = [(t, b, False) for t, b in corpus(A, K.tier)] + [(t, b, True) for t, b in corpus(A, "small" if K.tier == "quick" else "quick")]
    K.pmap(one, its)
