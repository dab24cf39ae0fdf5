"""C22: debug info of linked files."""
from rules.linklib import *

EXPLAIN = ("Sets of files with debug symbols are assembled and linked abstractly in every order and grouping (source texts of different lengths and line counts, addresses symbolic); on the linked "
           "file, the line reported for every statement's address must read the text of the original statement's line, and every label's span must cover a spelling of the label in the combined source.")


def run(K):
    A = Asm(K.P)
    K.rule("source", "the linked file has a combined source", 40)
    K.rule("line", "the line reported for an address reads the text of the line it came from", 200)
    K.rule("span", "every label's span covers the label's text in the combined source", 100)

    def one(K, it):
        tag, b, t = it
        L = Link(A, b(), True, tag)
        judge_debug(K, L, t)
        K.saw(L.X)
    its = [(g, b, t) for g, b in list(pairs()) + list(layouts2()) for t in trees(2)] + [(g, b, t) for g, b in list(triples()) + list(layouts3()) for t in trees(3)]
    K.pmap(one, its)
