"""C20: linking."""
from rules.linklib import *

EXPLAIN = ("Sets of two to four files are assembled abstractly and linked abstractly in every order and grouping (origins, sizes and words symbolic); each outcome - success, image, labels, "
           "external flags, pending relocations - is compared with a reference linker that knows no order, so every order agrees with every other.")


def run(K):
    A = Asm(K.P)
    K.rule("verdict", "linking succeeds exactly when the blocks are disjoint and no label has two addresses", 100)
    K.rule("image", "the linked image is the union of the images with resolved external references", 300)
    K.rule("labels", "label addresses and external flags of the linked file", 200)
    K.rule("pending", "exactly the references to still-external labels stay pending", 100)

    def one(K, it):
        tag, b, t, dbg = it
        L = Link(A, b(), dbg, tag)
        judge_link(K, L, t, "verdict", "image", "labels", "pending")
        K.saw(L.X)
    its = [(g, b, t, True) for g, b in pairs() for t in trees(2)] + [(g, b, t, True) for g, b in triples() for t in trees(3)]
    # four files: left-deep orders for the chain (every file adds two labels), every grouping for the single label
    for g, b in quads():
        q = [t for t in trees(4) if g == "one-def" or not isinstance(t[0], int) and isinstance(t[1], int) and isinstance(t[0][1], int)]
        its += [(g, b, t, True) for t in (q[::5] if K.tier == "quick" else q)]
    # without debug symbols: files that declare externals still carry symbol tables
    its += [("nodebug:" + g, b, t, False) for g, b in list(pairs()) + list(triples()) if all(any(s.kind == "external" for s in p) for p in b()) for t in trees(len(b()))]
    K.pmap(one, its)
