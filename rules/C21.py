"""C21: external references."""
from rules.linklib import *

EXPLAIN = ("Files with external references (declaration before, between, after the uses; inside and outside blocks) are assembled abstractly with and without debug symbols, linked with files that define "
           "the label (or do not), and loaded abstractly into a symbolic machine: a pending reference must make the load fail, a resolved one must hold the label's address.")


def run(K):
    A = Asm(K.P)
    ld = K.P.fn("Simulator::load_obj_file")
    K.rule("load", "a file with a reference to an undefined external does not load: UnresolvedExternal", 40)
    K.rule("resolve", "after linking with a file that defines it, the word holds the label's address", 40)

    def one(K, it):
        tag, b, t, dbg = it
        L = Link(A, b(), dbg, tag, start=ld)
        judge_external(K, L, t)
        K.saw(L.X)
    its = [("%s%s" % (g, "" if d else " (no debug)"), (lambda b=b: [b()]), 0, d) for g, b in ext_files() for d in (True, False)]
    for gs, n in ((list(ext_links()) + list(pairs()), 2), (list(ext_triples()) + list(triples()), 3)):
        for g, b in gs:
            if not any(s.kind == "external" for p in b() for s in p):
                continue
            for t in trees(n):
                for d in ([True] * n, [False] * n) + (([True, False], [False, True]) if n == 2 else ()):
                    its.append(("%s %s" % (g, "".join("gn"[not x] for x in d)), b, t, d))
    K.pmap(one, its)
