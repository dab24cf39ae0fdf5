"""Abstract object files, blocks and machine memory for the loading/reset/initialisation rules."""
from rules.devrules import *


def simp(X, s, sim):
    """simulator value with single-variant wrappers kept as they are"""
    return sim


class Mem:
    """the memory array of a simulator value, through whatever boxes and newtypes hold it"""

    def __init__(self, X, S):
        self.X, self.S = X, S

    def array(self, st, v):
        """value of type [Word; N] inside v (MemArray, Box, ...)"""
        X, P = self.X, self.X.P
        for _ in range(6):
            t = P.types[v.ty] if v.ty is not None else None
            if t is None or t["k"] in ("array", "slice"):
                return v
            if t.get("box"):
                ety = t["a"][0]
                b = X.fld(v, 0, 0, t["v"][0]["f"][0][1])
                l, p = X.deref_loc(b, ety)
                v = X.load(st, l, p)
                if v.op in ("splice", "store", "rep", "arr", "deref", "fld", "var", "app") and P.types[ety]["k"] in ("array", "slice"):
                    return v
                continue
            if t["k"] == "adt" and t["ak"] == "struct":
                fs = [f for f in t["v"][0]["f"]]
                i = next((i for i, f in enumerate(fs) if P.types[f[1]].get("box") or P.types[f[1]]["k"] == "array"), None)
                if i is None:
                    return None
                v = X.fld(v, 0, i, fs[i][1])
                continue
            if t["k"] in ("ref", "ptr"):
                l, p = X.deref_loc(v)
                v = X.load(st, l, p)
                continue
            return None
        return None

    def at(self, st, arr, a):
        return self.X.elem(st, arr, I(a, 64), self.S.W)

    def parts(self, st, w):
        """(data, init) of a word term"""
        P = self.X.P
        d = {}
        for i, f in enumerate(P.types[self.S.W]["v"][0]["f"]):
            d[f[0]] = self.X.fld(w, 0, i, f[1])
        return d.get("data"), d.get("init")


def touched(arr, base, acc=None):
    """concrete indices written on top of base, or None if the chain holds anything else"""
    acc = set() if acc is None else acc
    while arr is not base:
        if arr.op == "store":
            if not isc(arr.args[1]):
                return None
            acc.add(cv(arr.args[1]))
            arr = arr.args[0]
        elif arr.op == "splice":
            lo, hi = arr.args[1], arr.args[2]
            if not (isc(lo) and isc(hi)):
                return None
            acc.update(range(cv(lo), cv(hi)))
            arr = arr.args[0]
        else:
            return None
    return acc


class Obj:
    """builder of abstract object files: block shapes concrete, words symbolic"""

    def __init__(self, P):
        self.P = P
        self.ty = P.adt("ObjectFile")
        fs = P.types[self.ty]["v"][0]["f"]
        self.idx = {f[0]: (i, f[1]) for i, f in enumerate(fs)}
        self.bty = self.idx["block_map"][1]
        self.vty = P.types[self.bty]["a"][1]
        self.oty = P.types[self.vty]["a"][0]
        self.sopt = self.idx["sym"][1]
        self.sty = P.types[self.sopt]["v"][1]["f"][0][1]

    def word(self, c, name):
        return enumv(self.P, self.oty, "Some", var(name, 16)) if c == "S" else enumv(self.P, self.oty, "None")

    def blocks(self, bl, tag="w"):
        m = mk("mempty", (), None, self.bty)
        for a, pat in bl:
            m = mk("minsert", (m, I(a, 16), arr(self.vty, *[self.word(c, "%s%x_%d" % (tag, a, i)) for i, c in enumerate(pat)])), None, self.bty)
        return m

    def symtab(self, labels):
        """symbol table with known labels [(name, external)], other fields symbolic"""
        P = self.P
        fs = P.types[self.sty]["v"][0]["f"]
        out = []
        for f in fs:
            if f[0] == "label_map":
                ety = P.types[f[1]]["a"][1]
                m = mk("mempty", (), None, f[1])
                for n, ext in labels:
                    es = [(TRUE if ext else FALSE) if g[0] == "external" else var("%s.%s" % (n, g[0]), P.width(g[1]), g[1]) for g in P.types[ety]["v"][0]["f"]]
                    m = mk("minsert", (m, mk("strc", (n.encode(),)), agg(P, ety, 0, *es)), None, f[1])
                out.append(m)
            else:
                out.append(var("sym." + f[0], P.width(f[1]), f[1]))
        return agg(P, self.sty, 0, *out)

    def file(self, bl, labels=None, tag="w"):
        P = self.P
        sym = enumv(P, self.sopt, "None") if labels is None else enumv(P, self.sopt, "Some", self.symtab(labels))
        out = [None] * len(self.idx)
        for n, (i, t) in self.idx.items():
            out[i] = self.blocks(bl, tag) if n == "block_map" else sym if n == "sym" else var("obj." + n, P.width(t), t)
        return agg(P, self.ty, 0, *out)
