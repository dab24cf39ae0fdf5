"""C24: line-to-address mapping."""
from rules.asmlib import *
from rules.asmcorpus import *

EXPLAIN = ("Symbol tables with debug symbols built by the abstract assembler runs (line-layout shapes, label shapes, every statement sequence up to length 3; addresses symbolic) are "
           "queried through lookup_line for every line, rev_lookup_line for every statement address and for an arbitrary symbolic address, and line_iter, and compared with the reference mapping.")


def run(K):
    A = Asm(K.P)
    K.rule("line", "each line maps to its statement's address, lines without a memory-occupying statement to nothing", 1000)
    K.rule("reverse", "a statement's address maps back to its line, any other address to nothing", 300)
    K.rule("listing", "line_iter lists exactly the mapped lines with their addresses", 300)

    def one(K, it):
        tag, b = it
        C = Case(A, b(), True, tag)
        judge_lines(K, C)
        K.saw(C.X)
    K.pmap(one, list(lines()) + list(labels()) + list(layouts(A)) + list(structural(3 if K.tier == "quick" else 4, 2)))
