"""Shared abstractions for the simulator-level rules: boundary hooks and state access."""
from engine.terms import *
from engine.interp import Interp, State, Limit

CR = "lc3_ensemble::"


class Sim:
    """field/variant access by name, abstract boundary operations"""

    def __init__(self, P):
        self.P = P
        self.ty = P.adt("Simulator")
        self.W = P.adt("Word")
        self.ERR = P.adt("SimErr")

    # ---- struct access
    def fidx(self, ty, name):
        for i, f in enumerate(self.P.types[ty]["v"][0]["f"]):
            if f[0] == name:
                return i, f[1]
        return None, None

    def get(self, X, v, name, ty=None):
        """field of struct value v"""
        ty = ty if ty is not None else v.ty
        i, ft = self.fidx(ty, name)
        if i is None:
            raise KeyError(name)
        return X.fld(v, 0, i, ft)

    def path(self, X, v, *names):
        for n in names:
            v = self.get(X, v, n)
        return v

    def word(self, data, init):
        return mk("agg", (self.P.types[self.W]["n"], 0, data, init), None, self.W)

    def mkerr(self, name):
        return mk("agg", (self.P.types[self.ERR]["n"], self.P.variant_idx(self.ERR, name)), None, self.ERR)


def result(P, ty, ok, v):
    """Result value of type ty"""
    t = P.types[ty]
    vi = 0 if ok else 1
    return mk("agg", (t["n"], vi, v), None, ty)


def boundary(P, sim, opts=()):
    """hooks for the operations whose own contract is checked separately"""
    H = {}
    ctr = [0]

    def ok_err(X, st, retty, okv, tag, site):
        """fork Ok / Err(fresh error)"""
        t = P.types[retty]
        ety = t["v"][1]["f"][0][1]
        s2 = st.copy()
        s2.emit("fail", tag)
        e = X.fresh("err:" + tag, ety)
        return [(st, result(P, retty, True, okv)), (s2, result(P, retty, False, e))]

    def rd(X, st, fr, a, retty, fn):
        ctr[0] += 1
        n = "m%d" % ctr[0]
        wty = P.types[retty]["v"][0]["f"][0][1]
        w = X.fresh(n, wty)
        st.emit("rd", a[1], a[2], w)
        return ok_err(X, st, retty, w, "rd", fr)

    def wr(X, st, fr, a, retty, fn):
        st.emit("wr", a[1], a[2], a[3])
        return ok_err(X, st, retty, P.zst(P.unit), "wr", fr)

    def push(X, st, fr, a, retty, fn):
        st.emit("fpush", a[1], a[2], a[3])
        return [(st, P.zst(P.unit))]

    def pop(X, st, fr, a, retty, fn):
        st.emit("fpop")
        return [(st, P.zst(P.unit))]

    def alloca(X, st, fr, a, retty, fn):
        return [(st, mk("app", ("in_alloca", a[1]), 1))]

    def poll(X, st, fr, a, retty, fn):
        v = var("poll", None, retty)
        st.emit("poll", v)
        t = P.types[retty]
        v = var("poll", None, retty)
        return [(st, v)]

    H[CR + "sim::Simulator::read_mem"] = rd
    H[CR + "sim::Simulator::write_mem"] = wr
    H[CR + "sim::frame::FrameStack::push_frame"] = push
    H[CR + "sim::frame::FrameStack::pop_frame"] = pop
    H[CR + "sim::Simulator::in_alloca"] = alloca
    H["<" + CR + "sim::device::DeviceHandler as " + CR + "sim::device::ExternalDevice>::poll_interrupt"] = poll
    return H


def agg(P, ty, vi=0, *fs):
    return mk("agg", (P.types[ty]["n"], vi) + fs, None, ty)


def with_fields(X, v, over):
    """struct value v with some fields (by name) replaced"""
    P = X.P
    fs = P.types[v.ty]["v"][0]["f"]
    out = []
    for i, f in enumerate(fs):
        out.append(over[f[0]] if f[0] in over else X.fld(v, 0, i, f[1]))
    return agg(P, v.ty, 0, *out)


def enumv(P, ty, name, *fs):
    return agg(P, ty, P.variant_idx(ty, name), *fs)


def arr(ty, *xs):
    return mk("arr", tuple(xs), None, ty)


def flat_seq(X, st, v, limit=64):
    """list of element terms of a sequence whose shape is known, else None"""
    n = X.length(st, v)
    n = st.resolve(n)
    if not isc(n) or cv(n) > limit:
        return None
    ety = None
    t = X.P.types[v.ty] if v.ty is not None else None
    out = []
    for i in range(cv(n)):
        out.append(X.elem(st, v, I(i, 64), None))
    return out
