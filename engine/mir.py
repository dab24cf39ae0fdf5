"""Loads the MIR dump: types, functions, constants."""
import json
import re
from .terms import *


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.types = d["types"]
        self.allocs = d["allocs"]
        self.attrs = d["attrs"]
        self.impls = d["impls"]
        self.fns = {}
        self.by_def = {}
        self.by_name = {}
        for f in d["fns"]:
            self.fns[f["id"]] = f
            self.by_def.setdefault(f["def"], []).append(f)
            self.by_name[f["name"]] = f
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t["n"], i)
        self.unit = self.tyname.get("()")
        self._cfg = {}
        self._like = {}

    # ---- lookup
    def fn(self, suffix, cls=None):
        """local function with a body whose def path ends with suffix (unique)"""
        r = self.fns_like(suffix)
        return r[0] if r else None

    def fns_like(self, suffix):
        if suffix in self._like:
            return list(self._like[suffix])
        out = self._like[suffix] = []
        for dn, fs in self.by_def.items():
            if dn == suffix or dn.endswith("::" + suffix) or dn.endswith(suffix) and dn[: -len(suffix)][-1:] in (":", "<", " "):
                out += [f for f in fs if "blocks" in f]
        return list(out)

    def adt(self, name):
        """type index of local ADT with this last path component (non generic or first instance)"""
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["adt"].split("::")[-1] == name and t.get("local"):
                return i
        return None

    def variants(self, ty):
        return self.types[ty]["v"]

    def variant_idx(self, ty, name):
        for i, v in enumerate(self.types[ty]["v"]):
            if v["n"].split("::")[-1] == name:
                return i
        return None

    def vname(self, ty, i):
        return self.types[ty]["v"][i]["n"].split("::")[-1]

    def width(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k in ("int", "uint"):
            return t["b"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k == "never":
            return None
        return None

    def signed(self, ty):
        return self.types[ty]["k"] == "int"

    def loc(self, f, line):
        if isinstance(line, list):
            return "%s:%d" % (self.files[line[0]], line[1])
        return "%s:%d" % (self.files[f["file"]], line)

    # ---- call graph
    def callees(self, f):
        """[(def name, function record or None, line)] of the direct calls, closure/function values included"""
        out = []
        for st, t in f.get("blocks", ()):
            if t[0] == "call":
                ft = self.types[t[1]] if t[1] is not None else {"k": "?"}
                if ft["k"] == "fndef":
                    g = self.fns.get(ft.get("i"))
                    out.append((g["def"] if g else ft["def"], g, t[6]))
            self._mentions(st, out)
            self._mentions(t[3:5] if t[0] == "call" else t, out)
        return out

    def _mentions(self, x, out):
        """function items and closures used as values"""
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] < len(self.types):
                t = self.types[x[1]]
                if t["k"] in ("fndef", "closure"):
                    g = self.fns.get(t.get("i"))
                    out.append((g["def"] if g else t.get("def"), g, None))
                return
            if len(x) >= 5 and x[0] == "agg" and x[1] == "closure":
                g = self.fns.get(self.types[x[2]].get("i"))
                out.append((g["def"] if g else self.types[x[2]]["n"], g, None))
            for y in x:
                self._mentions(y, out)

    # ---- CFG
    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[5]] if t[5] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def loops(self, f):
        """{head: set(blocks)} of natural loops (retreating edges of a DFS)"""
        r = self._cfg.get(f["id"])
        if r is not None:
            return r
        bl = f["blocks"]
        succ = [self.succs(b[1]) for b in bl]
        color = {}
        backs = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                if color[m] == 1:
                    backs.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for i, ss in enumerate(succ):
            for x in ss:
                pred.setdefault(x, []).append(i)
        loops = {}
        for n, h in backs:
            s = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work += [p for p in pred.get(x, []) if p in color]
        self._cfg[f["id"]] = loops
        return loops

    # ---- constants
    def decode(self, ty, a, off=0):
        """allocation bytes -> term"""
        t = self.types[ty]
        k = t["k"]
        b = a["b"]
        prov = {p[0]: p[1] for p in a["p"]}

        def by(o, n):
            h = b[2 * o : 2 * (o + n)]
            if "_" in h:
                return None
            return int.from_bytes(bytes.fromhex(h), "little")

        if k in ("int", "uint"):
            v = by(off, t["b"] // 8)
            return I(v, t["b"]) if v is not None else fresh("undef", t["b"], ty)
        if k == "bool":
            return I(by(off, 1), 1)
        if k == "char":
            return I(by(off, 4), 32)
        if k in ("ref", "ptr"):
            if off in prov:
                al = self.allocs.get(str(prov[off]))
                e = self.types[t["e"]]
                base = by(off, 8) or 0
                if e["k"] == "str" and al and al["k"] == "mem":
                    n = by(off + 8, 8)
                    h = al["a"]["b"][2 * base : 2 * (base + n)]
                    return mk("str", (bytes.fromhex(h),), None, ty)
                if e["k"] == "slice":
                    n = by(off + 8, 8)
                    return mk("ref", (("calloc", prov[off], base, ("slice", e["e"], n)), ()), None, ty)
                return mk("ref", (("calloc", prov[off], base, t["e"]), ()), None, ty)
            v = by(off, 8)
            e = self.types[t["e"]]
            if e["k"] == "str":
                return mk("str", (b"",), None, ty)
            if e["k"] == "slice":
                return mk("ref", (("calloc", None, 0, ("slice", e["e"], 0)), ()), None, ty)
            return mk("rawint", (v,), None, ty)
        if k == "tuple":
            l = t["l"]
            return mk("agg", ("tuple", 0) + tuple(self.decode(x, a, off + o) for x, o in zip(t["f"], l.get("offsets", []))), None, ty)
        if k == "array":
            l = t["l"]
            st = l.get("stride", 0)
            n = t["len"]
            if n > 4096:
                return fresh("bigconst", None, ty)
            return mk("arr", tuple(self.decode(t["e"], a, off + i * st) for i in range(n)), None, ty)
        if k == "adt":
            l = t["l"]
            if l is None:
                return fresh("const", None, ty)
            if t["ak"] == "struct":
                offs = l.get("offsets", [])
                return mk("agg", (t["n"], 0) + tuple(self.decode(x[1], a, off + o) for x, o in zip(t["v"][0]["f"], offs)), None, ty)
            if t["ak"] == "enum":
                if l["v"] == "single":
                    vi = l["vi"]
                    offs = l.get("offsets", [])
                elif l["v"] == "multi":
                    ts = l["tagsz"]
                    tag = by(off + l["tagoff"], ts)
                    if l["enc"] == "direct":
                        vi = next((i for i, v in enumerate(t["v"]) if (int(v["d"]) & ((1 << (8 * ts)) - 1)) == tag), None)
                    else:
                        s, e = l["nv"]
                        if l["tagoff"] + off in prov:
                            vi = l["untagged"]
                        else:
                            x = (tag - l["ns"]) & ((1 << (8 * ts)) - 1) if tag is not None else None
                            vi = s + x if x is not None and x <= e - s else l["untagged"]
                    offs = l["voffs"][vi] if vi is not None else []
                else:
                    return fresh("const", None, ty)
                if vi is None:
                    return fresh("const", None, ty)
                return mk("agg", (t["n"], vi) + tuple(self.decode(x[1], a, off + o) for x, o in zip(t["v"][vi]["f"], offs)), None, ty)
        if k in ("fndef", "closure"):
            return mk("fnitem", (ty,), None, ty)
        return fresh("const", None, ty)

    def zst(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "fndef":
            return mk("fnitem", (ty,), None, ty)
        if k == "closure":
            return mk("agg", (t["n"], 0), None, ty)
        if k == "tuple":
            return mk("agg", ("tuple", 0) + tuple(self.zst(x) for x in t["f"]), None, ty)
        if k == "adt" and t["ak"] == "struct":
            return mk("agg", (t["n"], 0) + tuple(self.zst(x[1]) for x in t["v"][0]["f"]), None, ty)
        if k == "adt" and t["ak"] == "enum" and t["l"] and t["l"].get("v") == "single":
            vi = t["l"]["vi"]
            return mk("agg", (t["n"], vi) + tuple(self.zst(x[1]) for x in t["v"][vi]["f"]), None, ty)
        if k == "array":
            return mk("arr", (), None, ty)
        return mk("zst", (ty,), None, ty)

    def const_alloc(self, loc):
        """content of a constant allocation location ('calloc', id, base, ty|('slice',ety,n))"""
        _, aid, base, ty = loc
        if aid is None:
            return mk("arr", (), None, None)
        al = self.allocs.get(str(aid))
        if al is None:
            return fresh("alloc")
        if al["k"] == "static":
            if al["a"] is None or not isinstance(ty, int):
                return var("static:" + al["n"], None, al["t"])
            # only immutable plain data is decoded
            try:
                return self.decode(ty, al["a"], base)
            except Exception:
                return var("static:" + al["n"], None, al["t"])
        if al["k"] != "mem":
            return fresh("alloc")
        if isinstance(ty, tuple):
            _, ety, n = ty
            et = self.types[ety]
            sz = (et.get("l") or {}).get("size") if et["k"] not in ("int", "uint", "bool", "char", "ref", "ptr") else None
            if sz is None:
                sz = {"bool": 1, "char": 4, "ref": 16 if et.get("e") is not None and self.types[et["e"]]["k"] in ("str", "slice") else 8,
                      "ptr": 8}.get(et["k"]) or et["b"] // 8
            return mk("arr", tuple(self.decode(ety, al["a"], base + i * sz) for i in range(n)), None, None)
        return self.decode(ty, al["a"], base)
