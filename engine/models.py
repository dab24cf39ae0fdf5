"""Abstract models of the library functions the crate uses (collections, iterators, strings, locks)."""
from .terms import *
from . import interp as _i
from .zone import zone_decide

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def prefix(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f

    return d


U64 = 64


def _lx():
    from . import lexer
    return lexer


def c64(n):
    return I(n, 64)


# ------------------------------------------------------------------ helpers
def opt_parts(I_, ty):
    return I_.P.types[ty]


def none(X, ty):
    return mk("agg", (X.P.types[ty]["n"], 0), None, ty)


def some(X, ty, v):
    return mk("agg", (X.P.types[ty]["n"], 1, v), None, ty)


def opt_inner(X, ty):
    return X.P.types[ty]["v"][1]["f"][0][1]


def ok(X, ty, v):
    return mk("agg", (X.P.types[ty]["n"], 0, v), None, ty)


def err(X, ty, v):
    return mk("agg", (X.P.types[ty]["n"], 1, v), None, ty)


def res_inner(X, ty, i):
    return X.P.types[ty]["v"][i]["f"][0][1]


def adtname(X, ty):
    t = X.P.types[ty]
    return t["adt"].split("::")[-1] if t["k"] == "adt" else t["k"]


def deref(X, st, v, ety=None):
    loc, path = X.deref_loc(v, ety)
    return X.load(st, loc, path)


def deref_all(X, st, v):
    """peel all reference layers, returns the value"""
    n = 0
    while n < 8:
        n += 1
        if v.op in ("ref", "str"):
            v = deref(X, st, v)
        elif v.op in ("ptr",) or v.ty is not None and X.P.types[v.ty]["k"] in ("ref", "ptr"):
            v = deref(X, st, v)
        else:
            break
    return v


def last_ref(X, st, v):
    """peel references down to the last one: returns (loc, path) of the referent"""
    loc, path = X.deref_loc(v)
    while True:
        x = X.load(st, loc, path)
        if x.op in ("ref", "str", "ptr") or x.ty is not None and X.P.types[x.ty]["k"] in ("ref", "ptr") and x.w is None:
            loc, path = X.deref_loc(x)
        else:
            return loc, path


def ety_of(X, ty):
    """element type of a sequence type"""
    if ty is None:
        return None
    t = X.P.types[ty]
    if t["k"] in ("array", "slice"):
        return t["e"]
    if t["k"] in ("ref", "ptr"):
        return ety_of(X, t["e"])
    if t["k"] == "adt" and t["adt"].split("::")[-1] in ("Vec", "VecDeque"):
        return t["a"][0] if t["a"] and isinstance(t["a"][0], int) else None
    if t["k"] == "adt" and t["adt"].split("::")[-1] == "String" or t["k"] == "str":
        return X.P.tyname.get("u8")
    return None


def fork(X, st, c):
    """-> [(state, bool)]"""
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    s2 = st.copy()
    out = []
    if st.assume(c, True):
        out.append((st, True))
    if s2.assume(c, False):
        out.append((s2, False))
    return out


def eqv(X, st, a, b, d=0):
    """structural equality as a boolean term"""
    if a is b:
        return TRUE
    if a.op in ("ref", "str", "ptr") or b.op in ("ref", "str", "ptr"):
        x, y = deref_all(X, st, a), deref_all(X, st, b)
        return eqv(X, st, x, y, d + 1)
    if a.w is not None and b.w is not None and a.w == b.w:
        return eq(a, b)
    if a.op == "strc" and b.op == "strc":
        if (marked(a.args[0]) or marked(b.args[0])) and len(a.args[0]) == len(b.args[0]):
            return mark_eq(X, st, a.args[0], b.args[0])
        return I(int(a.args[0] == b.args[0]), 1)
    if a.op == "agg" and b.op == "agg":
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = band(r, eqv(X, st, x, y, d + 1))
        return r
    if a.op == "arr" and b.op == "arr":
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eqv(X, st, x, y, d + 1))
        return r
    if a.op == "agg" and b.ty is not None or b.op == "agg" and a.ty is not None:
        g, s = (a, b) if a.op == "agg" else (b, a)
        vi = X.variant(st, s)
        t = X.P.types[s.ty]
        if t["k"] == "adt" and (t["ak"] == "struct" or vi is not None):
            if t["ak"] == "enum" and vi != g.args[1]:
                return FALSE
            return eqv(X, st, X.expand(s, vi if t["ak"] == "enum" else 0), g, d + 1)
        if t["k"] == "adt" and t["ak"] == "enum":
            dd = eq(X.discr(s, 64), X.discr(g, 64)) if g.ty is not None else None
            if dd is not None:
                r = dd
                for i, x in enumerate(g.args[2:]):
                    fty = t["v"][g.args[1]]["f"][i][1]
                    r = band(r, eqv(X, st, X.fld(s, g.args[1], i, fty), x, d + 1))
                return r
        if t["k"] == "tuple":
            return eqv(X, st, X.expand(s), g, d + 1)
    if a.op == "strc" and b.op in ("scat", "dig") or b.op == "strc" and a.op in ("scat", "dig"):
        if not _lx().may_equal(*((a, b) if a.op == "strc" else (b, a))):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), 1)


def R(st, v):
    return [(st, v)]


UNITT = None


def unit(X):
    return mk("agg", ("tuple", 0), None, X.P.unit)


# ------------------------------------------------------------------ panics
def _panic(X, st, fr, vs, retty, fn):
    X.panic(fr, st, "panic:" + (fn["def"] if fn else "?").split("::")[-1], tuple(vs))
    return []


for n in ("core::panicking::panic", "std::rt::panic_fmt", "core::panicking::panic_fmt", "core::panicking::unreachable_default_msg",
          "core::panicking::assert_failed", "core::panicking::assert_failed_inner", "std::option::unwrap_failed", "std::option::expect_failed",
          "std::result::unwrap_failed", "core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt",
          "core::slice::index::slice_index_fail", "core::str::slice_error_fail", "core::slice::copy_from_slice_impl::len_mismatch_fail",
          "core::panicking::panic_display", "core::panicking::unreachable_display", "core::panicking::panic_explicit",
          "std::process::exit", "std::process::abort", "std::result::unwrap_failed::unwrap_failed_inner",
          "core::num::from_ascii_bytes_radix_panic", "core::num::imp::int_log10::panic_for_nonpositive_argument"):
    MODELS[n] = _panic


@prefix("core::panicking::")
def _panicp(X, st, fr, vs, retty, fn):
    return _panic(X, st, fr, vs, retty, fn)


# ------------------------------------------------------------------ numeric methods
INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


def _num(X, st, fr, vs, retty, fn):
    n = fn["def"]
    i = n.index("<impl ") + 6
    j = n.index(">", i)
    ty = n[i:j]
    m = n.split("::")[-1]
    if ty not in INTS:
        return None
    w = INTS[ty]
    sg = ty[0] == "i"
    P = X.P

    def s(k):
        return X.scalar(vs[k], None) if vs[k].w is None else vs[k]

    if m in ("wrapping_add", "unchecked_add"):
        return R(st, add(s(0), s(1)))
    if m in ("wrapping_sub", "unchecked_sub"):
        return R(st, sub(s(0), s(1)))
    if m in ("wrapping_mul", "unchecked_mul"):
        return R(st, mul(s(0), s(1)))
    if m in ("wrapping_add_signed", "wrapping_add_unsigned"):
        return R(st, add(s(0), s(1)))
    if m in ("wrapping_sub_unsigned", "wrapping_sub_signed"):
        return R(st, sub(s(0), s(1)))
    if m == "wrapping_neg":
        return R(st, neg(s(0)))
    if m in ("wrapping_shl", "wrapping_shr", "unchecked_shl", "unchecked_shr"):
        b = st.resolve(s(1))
        if isc(b):
            b = c64(cv(b) % w)
            if "shl" in m:
                return R(st, shl(s(0), b))
            return R(st, ashr(s(0), b) if sg else lshr(s(0), b))
        return R(st, mk(m, (s(0), b), w))
    if m in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        op = m[12:].capitalize()
        f = {"Add": add, "Sub": sub, "Mul": mul}[op]
        d = st.ovf(op, sg, s(0), s(1))
        o = I(int(d), 1) if d is not None else ovf(op, sg, s(0), s(1))
        return R(st, mk("agg", ("tuple", 0, f(s(0), s(1)), o), None, retty))
    if m in ("checked_add", "checked_sub", "checked_mul"):
        op = m[8:].capitalize()
        f = {"Add": add, "Sub": sub, "Mul": mul}[op]
        d = st.ovf(op, sg, s(0), s(1))
        o = I(int(d), 1) if d is not None else ovf(op, sg, s(0), s(1))
        out = []
        for s2, q in fork(X, st, o):
            out.append((s2, none(X, retty) if q else some(X, retty, f(s(0), s(1)))))
        return out
    if m in ("saturating_add", "saturating_sub") and not sg:
        op = m[11:].capitalize()
        f = {"Add": add, "Sub": sub}[op]
        o = ovf(op, sg, s(0), s(1))
        lim = I((1 << w) - 1 if op == "Add" else 0, w)
        d = st.ovf(op, sg, s(0), s(1))
        if d is not None:
            return R(st, lim if d else f(s(0), s(1)))
        if op == "Sub":
            return R(st, ite(lt(s(0), s(1)), lim, f(s(0), s(1))))
        return R(st, ite(o, lim, f(s(0), s(1))))
    if m in ("to_le_bytes", "to_ne_bytes"):
        return R(st, mk("arr", tuple(mkbits(bits(s(0))[8 * k : 8 * k + 8]) for k in range(w // 8)), None, retty))
    if m == "to_be_bytes":
        return R(st, mk("arr", tuple(mkbits(bits(s(0))[8 * k : 8 * k + 8]) for k in reversed(range(w // 8))), None, retty))
    if m in ("from_le_bytes", "from_ne_bytes", "from_be_bytes"):
        a = X.expand(vs[0])
        u8 = P.tyname.get("u8")
        bs = [X.elem(st, a, c64(k), u8) for k in range(w // 8)]
        if m == "from_be_bytes":
            bs.reverse()
        if w == 8:
            return R(st, bs[0])
        return R(st, mkbits(sum((bits(x) for x in bs), ())))
    if m == "swap_bytes":
        b = bits(s(0))
        return R(st, mkbits(sum((b[k : k + 8] for k in range(w - 8, -1, -8)), ())))
    if m == "count_ones":
        b = bits(s(0))
        if all(x in (0, 1) for x in b):
            return R(st, I(sum(b), 32))
        return R(st, mk("popcnt", (s(0),), 32))
    if m == "abs_diff":
        return R(st, ite(lt(s(0), s(1)), sub(s(1), s(0)), sub(s(0), s(1))) if not sg else mk("absdiff", (s(0), s(1)), w))
    if m == "from_str_radix":
        t = deref_all(X, st, vs[0])
        return parse_res(X, st, retty, "%s" % ty, t, vs[1])
    if m == "is_negative":
        return R(st, slt(s(0), I(0, w)))
    if m == "is_power_of_two":
        return R(st, eq(mk("popcnt", (s(0),), 32), I(1, 32)))
    if m in ("cast_signed", "cast_unsigned"):
        return R(st, s(0))
    if m in ("max_value", "min_value"):
        mx = m.startswith("max")
        return R(st, I(((1 << (w - 1)) - 1 if mx else 1 << (w - 1)) if sg else ((1 << w) - 1 if mx else 0), w))
    if m in ("is_ascii_digit", "is_ascii_hexdigit", "is_ascii_alphabetic", "is_ascii_whitespace", "eq_ignore_ascii_case", "is_ascii"):
        return R(st, app(m, [deref_all(X, st, v) for v in vs], 1))
    if m in ("div_ceil", "next_multiple_of", "checked_ilog10", "ilog10", "ilog2", "leading_zeros", "trailing_zeros", "rotate_left", "rotate_right"):
        t = P.types[retty]
        if m in ("ilog10", "checked_ilog10", "ilog2") and isc(st.resolve(X.scalar(vs[0], None))):
            n = cv(st.resolve(X.scalar(vs[0], None)))
            if m == "checked_ilog10":
                return R(st, some(X, retty, I(len(str(n)) - 1, 32)) if n > 0 else none(X, retty))
            if n > 0:
                return R(st, I(len(str(n)) - 1 if m == "ilog10" else n.bit_length() - 1, 32))
        if t["k"] == "adt":
            v = X.fresh(m, retty)
            return R(st, v)
        return R(st, app(m, [X.scalar(v, None) for v in vs], P.width(retty)))
    return None


PREFIX.append(("core::num::<impl ", _num))


def parse_res(X, st, retty, what, s, radix):
    """Result<int, ParseIntError> of parsing string term s"""
    r = _lx().parse_text(X, st, retty, s, radix)
    if r is not None:
        return r
    okc = app("parses", (mk("name", (what,)), s, radix), 1)
    out = []
    for s2, q in fork(X, st, okc):
        if q:
            it = res_inner(X, retty, 0)
            out.append((s2, ok(X, retty, app("parsed", (mk("name", (what,)), s, radix), X.P.width(it), it))))
        else:
            out.append((s2, err(X, retty, mk("app", ("parseerr", mk("name", (what,)), s, radix), None, res_inner(X, retty, 1)))))
    return out


@model("core::str::<impl str>::parse")
def _parse(X, st, fr, vs, retty, fn):
    it = res_inner(X, retty, 0)
    nm = X.P.types[it]["n"]
    if X.P.types[it].get("local"):
        c = X.P.__dict__.setdefault("_fromstr", {})
        if retty not in c:
            c[retty] = next((f for f in X.P.fns.values() if f["local"] and "blocks" in f and f["def"].endswith(" as std::str::FromStr>::from_str") and f["locals"][0] == retty), None)
        return X.exec_fn(c[retty], [vs[0]], st, fr) if c[retty] is not None else None
    return parse_res(X, st, retty, nm, deref_all(X, st, vs[0]), I(10, 32))


@model("std::num::ParseIntError::kind")
def _pik(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    e = X.P.types[retty]["e"]
    r = _lx().parse_kind(X, st, v, e)
    if r is not None:
        return r
    return R(st, X.vref(mk("app", ("parsekind", v), None, e)))


@model("std::cmp::impls::<impl std::cmp::Ord for usize>::max", "std::cmp::Ord::max", "std::cmp::max")
def _max(X, st, fr, vs, retty, fn):
    if vs[0].w is None or X.P.signed(retty):
        return None
    return R(st, ite(lt(vs[1], vs[0]), vs[0], vs[1]))


@model("std::cmp::impls::<impl std::cmp::Ord for usize>::min", "std::cmp::Ord::min", "std::cmp::min")
def _min(X, st, fr, vs, retty, fn):
    if vs[0].w is None or X.P.signed(retty):
        return None
    return R(st, ite(lt(vs[1], vs[0]), vs[1], vs[0]))


# scalar comparison trait methods
def _cmpimpl(X, st, fr, vs, retty, fn):
    n = fn["def"]
    m = n.split("::")[-1]
    ty = n.split(" for ")[-1].split(">")[0]
    if ty in INTS or ty in ("bool", "char"):
        if m in ("max", "min"):
            a, b = vs
            f = slt if ty[0] == "i" else lt
            c = f(b, a)
            return R(st, ite(c, a, b) if m == "max" else ite(c, b, a))
        if m == "clamp":
            f = slt if ty[0] == "i" else lt
            v, lo, hi = vs
            return R(st, ite(f(v, lo), lo, ite(f(hi, v), hi, v)))
        a, b = deref_all(X, st, vs[0]), deref_all(X, st, vs[1])
        if a.w is None or b.w is None:
            return None
        f = slt if ty[0] == "i" else lt
        r = {"eq": lambda: eq(a, b), "ne": lambda: ne(a, b), "lt": lambda: f(a, b), "gt": lambda: f(b, a), "le": lambda: bnot(f(b, a)),
             "ge": lambda: bnot(f(a, b))}.get(m)
        if r:
            return R(st, r())
        if m in ("cmp",):
            return R(st, mk("enumof", (ite(f(a, b), I(255, 8), ite(eq(a, b), I(0, 8), I(1, 8))),), None, retty))
    return None


PREFIX.append(("std::cmp::impls::<impl std::cmp::", _cmpimpl))


@prefix("std::clone::impls::<impl std::clone::Clone for ", "std::array::<impl std::clone::Clone")
def _clone(X, st, fr, vs, retty, fn):
    return R(st, deref(X, st, vs[0]))


@model("<std::option::Option<T> as std::clone::Clone>::clone", "<std::vec::Vec<T, A> as std::clone::Clone>::clone",
       "<std::collections::BTreeMap<K, V, A> as std::clone::Clone>::clone", "<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone",
       "<std::string::String as std::clone::Clone>::clone", "<std::sync::Arc<T, A> as std::clone::Clone>::clone",
       "<std::ops::Range<Idx> as std::clone::Clone>::clone", "<std::boxed::Box<T, A> as std::clone::Clone>::clone",
       "<std::collections::HashSet<T, S, A> as std::clone::Clone>::clone", "<std::rc::Rc<T, A> as std::clone::Clone>::clone",
       "<std::collections::VecDeque<T, A> as std::clone::Clone>::clone", "<std::borrow::Cow<'_, B> as std::clone::Clone>::clone",
       "<std::result::Result<T, E> as std::clone::Clone>::clone", "<std::ops::RangeInclusive<Idx> as std::clone::Clone>::clone",
       "<std::collections::BTreeSet<T, A> as std::clone::Clone>::clone")
def _clone2(X, st, fr, vs, retty, fn):
    return R(st, deref(X, st, vs[0]))


# ------------------------------------------------------------------ mem
@model("std::mem::swap")
def _swap(X, st, fr, vs, retty, fn):
    a, b = X.deref_loc(vs[0]), X.deref_loc(vs[1])
    x, y = X.load(st, *a), X.load(st, *b)
    X.save(st, a[0], a[1], y)
    X.save(st, b[0], b[1], x)
    return R(st, unit(X))


@model("std::mem::replace", "std::option::Option::<T>::replace", "std::option::Option::<T>::insert")
def _replace(X, st, fr, vs, retty, fn):
    a = X.deref_loc(vs[0])
    x = X.load(st, *a)
    n = fn["def"]
    if n.endswith("insert"):
        ty = X.P.types[fn["locals"][1]]["e"]
        X.save(st, a[0], a[1], some(X, ty, vs[1]))
        return R(st, mk("ref", (a[0], a[1] + (("f", 1, 0, opt_inner(X, ty)),)), None, None))
    nv = vs[1] if n.startswith("std::mem") else some(X, retty, vs[1])
    X.save(st, a[0], a[1], nv)
    return R(st, x)


@model("std::option::Option::<T>::take")
def _otake(X, st, fr, vs, retty, fn):
    a = X.deref_loc(vs[0])
    x = X.load(st, *a)
    X.save(st, a[0], a[1], none(X, retty))
    return R(st, x)


@model("std::mem::take")
def _take(X, st, fr, vs, retty, fn):
    a = X.deref_loc(vs[0])
    x = X.load(st, *a)
    d = default(X, st, retty)
    if d is None:
        return None
    X.save(st, a[0], a[1], d)
    return R(st, x)


@model("std::mem::drop", "std::mem::forget", "std::hint::black_box")
def _drop(X, st, fr, vs, retty, fn):
    return R(st, unit(X))


@model("std::hint::must_use", "std::convert::identity")
def _ident(X, st, fr, vs, retty, fn):
    return R(st, vs[0])


def default(X, st, ty):
    t = X.P.types[ty]
    k = t["k"]
    if k in ("int", "uint"):
        return I(0, t["b"])
    if k == "bool":
        return FALSE
    if k == "adt":
        n = t["adt"].split("::")[-1]
        if n == "Vec" or n == "VecDeque":
            return mk("arr", (), None, ty)
        if n == "String":
            return mk("strc", (b"",), None, None)
        if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return mk("mempty", (), None, ty)
        if n == "Option":
            return none(X, ty)
        if t.get("local"):
            for f in X.P.fns.values():
                if f["local"] and "blocks" in f and f["argc"] == 0 and f["locals"][0] == ty and f["def"].endswith("Default>::default"):
                    r = X.exec_fn(f, [], st, None)
                    if len(r) == 1:
                        return r[0][1]
    if k == "tuple":
        fs = [default(X, st, f) for f in t["f"]]
        if None not in fs:
            return mk("agg", ("tuple", 0) + tuple(fs), None, ty)
    return None


@model("<u16 as std::default::Default>::default", "<u8 as std::default::Default>::default", "<usize as std::default::Default>::default",
       "<bool as std::default::Default>::default", "<std::string::String as std::default::Default>::default",
       "<std::collections::HashMap<K, V, S> as std::default::Default>::default", "<std::collections::BTreeMap<K, V> as std::default::Default>::default",
       "<std::collections::HashSet<T, S> as std::default::Default>::default", "<std::vec::Vec<T> as std::default::Default>::default",
       "std::collections::HashMap::<K, V>::new", "std::collections::BTreeMap::<K, V>::new", "std::vec::Vec::<T>::new", "std::string::String::new",
       "std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity", "std::collections::VecDeque::<T>::new",
       "std::collections::HashMap::<K, V>::with_capacity", "<std::option::Option<T> as std::default::Default>::default",
       "std::collections::HashSet::<T>::new", "std::collections::BTreeSet::<T>::new", "<std::collections::VecDeque<T> as std::default::Default>::default")
def _default(X, st, fr, vs, retty, fn):
    d = default(X, st, retty)
    return R(st, d) if d is not None else None


@model("<bool as std::default::Default>::default")
def _dbool(X, st, fr, vs, retty, fn):
    return R(st, FALSE)


# ------------------------------------------------------------------ Box / Arc / locks
@model("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def _boxnew(X, st, fr, vs, retty, fn):
    loc = X.heap(st, vs[0])
    return R(st, mk("agg", (X.P.types[retty]["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, retty))


@model("std::boxed::Box::<T>::new_uninit")
def _boxuninit(X, st, fr, vs, retty, fn):
    loc = X.heap(st, mk("undef", (("uninit",),), None, None))
    return R(st, mk("agg", (X.P.types[retty]["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, retty))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _bvec(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    return R(st, unwrap_uninit(X, st, v))


def unwrap_uninit(X, st, v):
    for _ in range(5):
        if v.op == "agg" and len(v.args) >= 3 and ("MaybeUninit" in v.args[0] or "ManuallyDrop" in v.args[0] or "MaybeDangling" in v.args[0] or v.args[0] == "?"):
            v = next((x for x in v.args[2:] if x.op != "undef" and not (x.op == "agg" and len(x.args) == 2)), v.args[-1])
    return v


@model("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::rc::Rc<T, A> as std::ops::Deref>::deref",
       "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
       "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut")
def _arcderef(X, st, fr, vs, retty, fn):
    a = deref(X, st, vs[0])
    loc, path = X.deref_loc(a, X.P.types[retty]["e"])
    return R(st, mk("ref", (loc, path), None, None))


@model("std::sync::Arc::<T, A>::ptr_eq")
def _arceq(X, st, fr, vs, retty, fn):
    return R(st, eqv(X, st, deref(X, st, vs[0]), deref(X, st, vs[1])))


@model("<std::sync::Arc<T> as std::default::Default>::default")
def _arcdef(X, st, fr, vs, retty, fn):
    loc = X.heap(st, fresh("arcdefault", None, None))
    return R(st, mk("agg", (X.P.types[retty]["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, retty))


def lock_content(X, st, v, ety):
    loc, path = X.deref_loc(v)
    key = mk("lockp", (X.get(st, loc), ) + tuple(p[2] if p[0] == "f" else str(p[1]) for p in path))
    return (("deref", key, ety), ())


def _lock(kind):
    def f(X, st, fr, vs, retty, fn):
        lockty = fn["locals"][1] if fn and fn.get("locals") else None
        gty = res_inner(X, retty, 0)
        g = X.P.types[gty]
        cty = next((a for a in reversed(g.get("a") or []) if isinstance(a, int)), None)
        loc, path = lock_content(X, st, vs[0], cty)
        if kind.startswith("try"):
            c = fresh("locked:" + kind, 1)
        else:
            c = fresh("poisoned", 1)
        guard = mk("agg", (g["n"], 0, mk("ref", (loc, path), None, None)), None, gty)
        s2 = st.copy()
        st.facts[c] = False
        s2.facts[c] = True
        st.emit("lock", kind, loc, True, X.P.loc(fr.f, fr.line))
        s2.emit("lock", kind, loc, False, X.P.loc(fr.f, fr.line))
        ety = res_inner(X, retty, 1)
        et = X.P.types[ety]
        out = [(st, ok(X, retty, guard))]
        if et["k"] == "adt" and et["ak"] == "enum":
            # TryLockError: Poisoned(PoisonError<guard>) / WouldBlock
            for i, vv in enumerate(et["v"]):
                s3 = s2.copy()
                if vv["f"]:
                    out.append((s3, err(X, retty, mk("agg", (et["n"], i, mk("agg", (X.P.types[vv["f"][0][1]]["n"], 0, guard), None, vv["f"][0][1])), None, ety))))
                else:
                    out.append((s3, err(X, retty, mk("agg", (et["n"], i), None, ety))))
        else:
            out.append((s2, err(X, retty, mk("agg", (et["n"], 0, guard), None, ety))))
        return out

    return f


for n, k in (("std::sync::RwLock::<T>::try_write", "try_write"), ("std::sync::RwLock::<T>::try_read", "try_read"), ("std::sync::Mutex::<T>::try_lock", "try_lock"),
             ("std::sync::RwLock::<T>::write", "write"), ("std::sync::RwLock::<T>::read", "read"), ("std::sync::Mutex::<T>::lock", "lock")):
    MODELS[n] = _lock(k)


@model("std::sync::PoisonError::<T>::into_inner")
def _poison(X, st, fr, vs, retty, fn):
    return R(st, X.fld(vs[0], 0, 0, retty))


@prefix("<std::sync::MutexGuard<", "<std::sync::RwLockWriteGuard<", "<std::sync::RwLockReadGuard<")
def _guard(X, st, fr, vs, retty, fn):
    g = deref(X, st, vs[0])
    if g.op == "agg" and len(g.args) > 2 and g.args[2].op == "ref":
        return R(st, g.args[2])
    return R(st, mk("ref", (("deref", mk("guardp", (g,)), X.P.types[retty]["e"]), ()), None, None))


@model("std::sync::atomic::Atomic::<bool>::load")
def _aload(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.fresh("atomic", retty)
    st.emit("aload", loc, path, v)
    return R(st, v)


@model("std::sync::atomic::Atomic::<bool>::store")
def _astore(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    st.emit("astore", loc, path, vs[1])
    return R(st, unit(X))


@model("std::sync::OnceLock::<T>::get_or_init")
def _once(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    e = X.P.types[retty]["e"]
    st.emit("once", loc, vs[1])
    return R(st, mk("ref", (("deref", mk("oncep", (mk("loc", (str(loc),)),)), e), ()), None, None))


# ------------------------------------------------------------------ sequences (Vec, slices, arrays)
def seq_loc(X, st, v):
    return last_ref(X, st, v)


def index_seq(X, st, fr, loc, path, idx, ety, what="assert:bounds"):
    """bounds-checked element reference; records the panic"""
    v = X.load(st, loc, path)
    n = X.length(st, v)
    okc = lt(idx, n)
    d = st.decide(okc)
    if d is not True:
        s2 = st.copy()
        if d is None:
            s2.assume(okc, False)
        X.panic(fr, s2, what, (okc, (n, idx)), d is False)
        if d is False:
            return []
        if not st.assume(okc, True):
            return []
    return [(st, mk("ref", (loc, X._ipath(path, idx, ety)), None, None))]


def range_of(X, st, v, n):
    """(lo, hi, inclusive handled) from a Range* aggregate; None if unknown"""
    if v.op != "agg":
        v = X.expand(v)
    if v.op != "agg":
        return None
    name = v.args[0].split("<")[0].split("::")[-1]
    if name == "Range":
        return v.args[2], v.args[3]
    if name == "RangeFrom":
        return v.args[2], n
    if name == "RangeTo":
        return c64(0), v.args[2]
    if name == "RangeFull":
        return c64(0), n
    if name == "RangeInclusive":
        return v.args[2], add(v.args[3], c64(1))
    if name == "RangeToInclusive":
        return c64(0), add(v.args[2], c64(1))
    return None


def slice_index(X, st, fr, v, ix, retty, what="assert:slice"):
    loc, path = seq_loc(X, st, v)
    cur = X.load(st, loc, path)
    n = X.length(st, cur)
    if ix.w is not None:
        return index_seq(X, st, fr, loc, path, ix, X.P.types[retty]["e"])
    r = range_of(X, st, ix, n)
    if r is None:
        return None
    lo, hi = r
    out = [st]
    for c in (bnot(lt(hi, lo)), bnot(lt(n, hi))):
        nxt = []
        for s in out:
            d = s.decide(c)
            if d is not True:
                s2 = s.copy()
                if d is None:
                    s2.assume(c, False)
                X.panic(fr, s2, what, (c, (n, lo, hi)), d is False)
                if d is False:
                    continue
                if not s.assume(c, True):
                    continue
            nxt.append(s)
        out = nxt
    full = isc(lo) and cv(lo) == 0 and hi is n
    p = path if full else path + (("s", lo, hi),)
    if path and path[-1][0] == "s" and not full:
        p = path[:-1] + (("s", add(path[-1][1], lo), add(path[-1][1], hi)),)
    return [(s, slice_ref(X, s, loc, p)) for s in out]


def slice_ref(X, st, loc, p):
    v = X.load(st, loc, p)
    if v.op == "strc":
        return mk("str", v.args)
    if v.op in ("scat", "dig"):
        return X.vref(v)
    return mk("ref", (loc, p), None, None)


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut", "std::array::<impl std::ops::Index<I> for [T; N]>::index",
       "<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index", "<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut")
def _vindex(X, st, fr, vs, retty, fn):
    return slice_index(X, st, fr, vs[0], vs[1], retty)


@model("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def _sindex(X, st, fr, vs, retty, fn):
    r = slice_index(X, st, fr, vs[0], vs[1], retty)
    if r is None:
        return None
    # char boundary obligations
    loc, path = seq_loc(X, st, vs[0])
    for s, ref in r:
        cur = X.load(s, loc, path)
        if cur.op == "strc" and all(b < 128 for b in cur.args[0]):
            continue
        rr = range_of(X, s, vs[1], X.length(s, cur))
        for i, b in enumerate(rr or ()):
            if isc(b) and cv(b) == 0 or b is X.length(s, cur):
                continue
            if cur.op == "scat":
                ps = _lx().pieces_of(cur)
                at = _lx().find_pos(X, s, ps, b) if ps is not None else None
                if at is not None and (at[0] >= len(ps) or ps[at[0]].op != "strc" or ps[at[0]].args[0][at[1]] & 0xC0 != 0x80):
                    continue
            if cur.op == "strc" and isc(b) and cv(b) <= len(cur.args[0]) and (cv(b) == len(cur.args[0]) or cur.args[0][cv(b)] & 0xC0 != 0x80):
                continue
            c = mk("charb", (cur, b), 1)
            if s.decide(c) is not True:
                s2 = s.copy()
                s2.assume(c, False)
                X.panic(fr, s2, "assert:charboundary", (c, (cur, b)))
                s.assume(c, True)
    return r


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get", "std::collections::VecDeque::<T, A>::get",
       "std::collections::VecDeque::<T, A>::get_mut")
def _get(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    cur = X.load(st, loc, path)
    n = X.length(st, cur)
    ix = vs[1]
    inner = opt_inner(X, retty)
    if ix.w is not None:
        out = []
        for s, q in fork(X, st, lt(ix, n)):
            if q:
                out.append((s, some(X, retty, mk("ref", (loc, X._ipath(path, ix, X.P.types[inner]["e"])), None, None))))
            else:
                out.append((s, none(X, retty)))
        return out
    r = range_of(X, st, ix, n)
    if r is None:
        return None
    lo, hi = r
    c = band(bnot(lt(hi, lo)), bnot(lt(n, hi)))
    if fn["def"].startswith("core::str"):
        for b in (lo, hi):
            if isc(b) and cur.op == "strc":
                t = cur.args[0]
                c = band(c, I(int(cv(b) == len(t) or cv(b) < len(t) and t[cv(b)] & 0xC0 != 0x80), 1))
            elif not (isc(b) and cv(b) == 0 or b is n):
                c = band(c, mk("charb", (cur, b), 1))
    out = []
    for s, q in fork(X, st, c):
        if q:
            full = isc(lo) and cv(lo) == 0 and hi is n
            out.append((s, some(X, retty, slice_ref(X, s, loc, path if full else path + (("s", lo, hi),)))))
        else:
            out.append((s, none(X, retty)))
    return out


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len",
       "std::collections::VecDeque::<T, A>::len", "std::collections::HashMap::<K, V, S, A>::len", "std::collections::BTreeMap::<K, V, A>::len")
def _len(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    if v.op in ("mempty", "minsert", "mremove"):
        return R(st, map_len(X, st, v))
    return R(st, X.length(st, v))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty",
       "std::collections::VecDeque::<T, A>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::BTreeMap::<K, V, A>::is_empty",
       "std::collections::HashSet::<T, S, A>::is_empty")
def _isempty(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    if v.op in ("mempty", "minsert", "mremove"):
        return R(st, eq(map_len(X, st, v), c64(0)))
    return R(st, eq(X.length(st, v), c64(0)))


def map_len(X, st, v):
    if v in X.known_keys:
        return c64(len(X.known_keys[v]))
    if v.op == "mempty":
        return c64(0)
    if v.op in ("minsert", "mremove"):
        ks = map_keys(X, st, v)
        if ks is not None:
            return c64(len(ks))
    if v.op == "minsert":
        h = map_has(X, st, v.args[0], v.args[1])
        n = map_len(X, st, v.args[0])
        return ite(h, n, add(n, c64(1)))
    t = mk("len", (v,), 64)
    atom_maxbits.setdefault(t, 63)
    return t


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::vec::Vec::<T, A>::as_slice",
       "std::vec::Vec::<T, A>::as_mut_slice", "std::array::<impl [T; N]>::as_slice", "<std::string::String as std::ops::Deref>::deref",
       "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes", "std::array::<impl [T; N]>::as_mut_slice",
       "std::slice::from_ref", "<std::string::String as std::convert::AsRef<str>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::borrow::Borrow<str>>::borrow", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow",
       "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
       "<[T] as std::convert::AsRef<[T]>>::as_ref", "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref")
def _asslice(X, st, fr, vs, retty, fn):
    if fn["def"] == "std::slice::from_ref":
        loc, path = X.deref_loc(vs[0])
        return R(st, X.vref(mk("arr", (X.load(st, loc, path),), None, None)))
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    if v.op == "strc":
        return R(st, mk("str", v.args))
    return R(st, mk("ref", (loc, path), None, None))


@model("core::str::<impl str>::bytes")
def _bytes(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    return R(st, seq_iter(X, st, v, None, None, "val", X.P.tyname.get("u8"), retty))


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def _push(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    if v.op == "arr" and len(v.args) < SEQ_MAX:
        nv = mk("arr", v.args + (vs[1],), None, v.ty)
    else:
        nv = mk("push", (v, vs[1]), None, v.ty)
    st.emit("push", loc, path, vs[1], X.P.loc(fr.f, fr.line))
    X.save(st, loc, path, nv)
    return R(st, unit(X))


@model("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back")
def _pop(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    st.emit("pop", loc, path)
    if v.op == "arr":
        if not v.args:
            return R(st, none(X, retty))
        X.save(st, loc, path, mk("arr", v.args[:-1], None, v.ty))
        return R(st, some(X, retty, v.args[-1]))
    if v.op == "push":
        X.save(st, loc, path, v.args[0])
        return R(st, some(X, retty, v.args[1]))
    n = X.length(st, v)
    out = []
    for s, q in fork(X, st, eq(n, c64(0))):
        if q:
            out.append((s, none(X, retty)))
        else:
            i = sub(n, c64(1))
            e = X.elem(s, v, i, opt_inner(X, retty))
            X.save(s, loc, path, mk("sub", (v, c64(0), i), None, v.ty))
            out.append((s, some(X, retty, e)))
    return out


@model("std::collections::VecDeque::<T, A>::pop_front", "std::collections::VecDeque::<T, A>::front")
def _popfront(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    pop = fn["def"].endswith("pop_front")
    if pop:
        st.emit("pop_front", loc, path, X.P.loc(fr.f, fr.line))
    n = X.length(st, v)
    out = []
    inner = opt_inner(X, retty)
    for s, q in fork(X, st, eq(n, c64(0))):
        if q:
            out.append((s, none(X, retty)))
        elif pop:
            e = X.elem(s, v, c64(0), inner)
            X.save(s, loc, path, X.subslice(s, v, c64(1), n))
            out.append((s, some(X, retty, e)))
        else:
            out.append((s, some(X, retty, mk("ref", (loc, path + (("i", c64(0), X.P.types[inner]["e"]),)), None, None))))
    return out


@model("std::vec::Vec::<T, A>::clear", "std::collections::VecDeque::<T, A>::clear", "std::string::String::clear",
       "std::collections::HashMap::<K, V, S, A>::clear", "std::collections::BTreeMap::<K, V, A>::clear", "std::collections::HashSet::<T, S, A>::clear")
def _clear(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    n = fn["def"]
    st.emit("clear", loc, path, X.P.loc(fr.f, fr.line))
    if "Map" in n or "Set" in n:
        nv = mk("mempty", (), None, v.ty)
    elif "String" in n:
        nv = mk("strc", (b"",))
    else:
        nv = mk("arr", (), None, v.ty)
    X.save(st, loc, path, nv)
    return R(st, unit(X))


@model("std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove", "std::collections::VecDeque::<T, A>::push_front",
       "std::collections::VecDeque::<T, A>::insert", "std::collections::VecDeque::<T, A>::remove", "std::collections::VecDeque::<T, A>::back",
       "std::collections::VecDeque::<T, A>::truncate", "std::collections::VecDeque::<T, A>::rotate_left", "std::collections::VecDeque::<T, A>::rotate_right",
       "std::vec::Vec::<T, A>::retain", "std::collections::VecDeque::<T, A>::swap")
def _seqmisc(X, st, fr, vs, retty, fn):
    """operations on sequences whose length (and, where needed, position) is known"""
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    if v.op != "arr":
        raise _i.Limit("%s on a sequence of unknown length" % fn["def"].split("::")[-1])
    xs = list(v.args)
    m = fn["def"].split("::")[-1]
    dq = "VecDeque" in fn["def"]

    def idx(t):
        t = st.resolve(t)
        if not isc(t):
            raise _i.Limit("%s at an unknown position" % m)
        return cv(t)
    ret = unit(X)
    if m == "back":
        if not xs:
            return R(st, none(X, retty))
        return R(st, some(X, retty, mk("ref", (loc, path + (("i", c64(len(xs) - 1), X.P.types[opt_inner(X, retty)]["e"]),)), None, None)))
    if m == "push_front":
        xs.insert(0, vs[1])
    elif m == "insert":
        i = idx(vs[1])
        if i > len(xs):
            X.panic(fr, st, "assert:bounds", (FALSE, (c64(len(xs)), vs[1])), True)
            return []
        xs.insert(i, vs[2])
    elif m in ("remove", "swap_remove"):
        i = idx(vs[1])
        if i >= len(xs):
            if dq:
                return R(st, none(X, retty))
            X.panic(fr, st, "assert:bounds", (FALSE, (c64(len(xs)), vs[1])), True)
            return []
        x = xs[i]
        if m == "swap_remove":
            xs[i] = xs[-1]
            xs.pop()
        else:
            xs.pop(i)
        ret = some(X, retty, x) if dq else x
    elif m == "truncate":
        xs = xs[:idx(vs[1])]
    elif m in ("rotate_left", "rotate_right"):
        k = idx(vs[1])
        if k > len(xs):
            X.panic(fr, st, "assert:rotate", (FALSE,), True)
            return []
        k = k if m == "rotate_left" else len(xs) - k
        xs = xs[k:] + xs[:k]
    elif m == "swap":
        i, j = idx(vs[1]), idx(vs[2])
        if max(i, j) >= len(xs):
            X.panic(fr, st, "assert:bounds", (FALSE, (c64(len(xs)), vs[1])), True)
            return []
        xs[i], xs[j] = xs[j], xs[i]
    elif m == "retain":
        cur = [(st, [])]
        for x in xs:
            nxt = []
            for s, keep in cur:
                for s2, r in X.call_value(fr, s, vs[1], [X.vref(x)]):
                    for s3, q in fork(X, s2, r):
                        nxt.append((s3, keep + [x] if q else keep))
            cur = nxt
        out = []
        for s, keep in cur:
            s.emit("retain", loc, path)
            X.save(s, loc, path, mk("arr", tuple(keep), None, v.ty))
            out.append((s, unit(X)))
        return out
    st.emit("seqop", m, loc, path)
    X.save(st, loc, path, mk("arr", tuple(xs), None, v.ty))
    return R(st, ret)


@model("std::vec::Vec::<T, A>::truncate")
def _trunc(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    n = X.length(st, v)
    for s, q in fork(X, st, lt(vs[1], n)):
        if q:
            X.save(s, loc, path, X.subslice(s, v, c64(0), vs[1]))
    return R(st, unit(X))


@model("std::vec::Vec::<T, A>::extend_from_slice")
def _extslice(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    b = deref_all(X, st, vs[1])
    st.emit("extend", loc, path, b, X.P.loc(fr.f, fr.line))
    X.save(st, loc, path, concat(X, v, b))
    return R(st, unit(X))


SEQ_MAX = 8000      # sequences written out element by element


def concat(X, a, b):
    if a.op == "arr" and b.op == "arr" and len(a.args) + len(b.args) < SEQ_MAX:
        return mk("arr", a.args + b.args, None, a.ty)
    if b.op == "arr" and not b.args:
        return a
    if a.op == "concat" and a.args[1].op == "arr" and b.op == "arr" and len(a.args[1].args) < SEQ_MAX:
        return mk("concat", (a.args[0], mk("arr", a.args[1].args + b.args)), None, a.ty)
    if a.op == "arr" and b.op == "strc":
        return mk("arr", a.args + tuple(I(x, 8) for x in b.args[0]), None, a.ty)
    return mk("concat", (a, b), None, a.ty)


@model("std::vec::Vec::<T, A>::resize")
def _resize(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    if v.op == "arr" and isc(vs[1]) and cv(vs[1]) < 100:
        k = cv(vs[1])
        nv = mk("arr", (v.args + (vs[2],) * k)[:k], None, v.ty)
    else:
        st.emit("resize", loc, path, vs[1], vs[2], X.P.loc(fr.f, fr.line))
        n0 = X.length(st, v)
        if v.op in ("arr", "concat", "push", "rep") and st.decide(lt(vs[1], n0)) is False:
            nv = concat(X, v, mk("rep", (vs[2], sub(vs[1], n0)), None, v.ty))
        else:
            nv = mk("resized", (v, vs[1], vs[2]), None, v.ty)
    X.save(st, loc, path, nv)
    return R(st, unit(X))


@model("std::vec::from_elem")
def _fromelem(X, st, fr, vs, retty, fn):
    if isc(vs[1]) and cv(vs[1]) <= 32:
        return R(st, mk("arr", (vs[0],) * cv(vs[1]), None, retty))
    return R(st, mk("rep", (vs[0], vs[1]), None, retty))


@model("std::iter::repeat_n")
def _repn(X, st, fr, vs, retty, fn):
    return None


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
       "std::vec::Vec::<T, A>::into_boxed_slice", "std::string::<impl std::convert::From<&str> for std::string::String>::from",
       "<std::string::String as std::convert::From<&str>>::from", "std::slice::<impl [T]>::into_vec", "std::str::<impl str>::to_owned")
def _tovec(X, st, fr, vs, retty, fn):
    if fn["def"].endswith("into_boxed_slice"):
        loc = X.heap(st, vs[0])
        return R(st, mk("agg", (X.P.types[retty]["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, retty))
    return R(st, deref_all(X, st, vs[0]))


@model("<T as std::string::ToString>::to_string", "<str as std::string::ToString>::to_string", "<std::string::String as std::string::ToString>::to_string")
def _tostring(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    if v.op == "strc" or v.op in ("scat", "dig") and _lx().pieces_of(v) is not None:
        return R(st, v)
    if v.ty is not None and X.P.types[v.ty]["k"] in ("str",) or v.ty is not None and X.P.types[v.ty]["n"].endswith("String"):
        return R(st, v)
    return R(st, mk("app", ("to_string", v), None, retty))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def _firstlast(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    n = X.length(st, v)
    inner = opt_inner(X, retty)
    out = []
    for s, q in fork(X, st, eq(n, c64(0))):
        if q:
            out.append((s, none(X, retty)))
        else:
            i = c64(0) if "first" in fn["def"].split("::")[-1] else sub(n, c64(1))
            out.append((s, some(X, retty, mk("ref", (loc, X._ipath(path, i, X.P.types[inner]["e"])), None, None))))
    return out


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::split_first_mut")
def _splitfirst(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    n = X.length(st, v)
    inner = opt_inner(X, retty)
    tt = X.P.types[inner]
    ety = X.P.types[tt["f"][0]]["e"]
    out = []
    for s, q in fork(X, st, eq(n, c64(0))):
        if q:
            out.append((s, none(X, retty)))
        elif fn["def"].endswith("split_last"):
            i = sub(n, c64(1))
            a = mk("ref", (loc, X._ipath(path, i, ety)), None, None)
            out.append((s, some(X, retty, mk("agg", ("tuple", 0, a, sub_ref(X, s, loc, path, c64(0), i)), None, inner))))
        else:
            a = mk("ref", (loc, X._ipath(path, c64(0), ety)), None, None)
            out.append((s, some(X, retty, mk("agg", ("tuple", 0, a, sub_ref(X, s, loc, path, c64(1), n)), None, inner))))
    return out


def sub_ref(X, st, loc, path, lo, hi):
    if path and path[-1][0] == "s":
        b = path[-1][1]
        return slice_ref(X, st, loc, path[:-1] + (("s", add(b, lo), add(b, hi)),))
    return slice_ref(X, st, loc, path + (("s", lo, hi),))


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _splitat(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    n = X.length(st, v)
    mid = vs[1]
    c = bnot(lt(n, mid))
    d = st.decide(c)
    if d is not True:
        s2 = st.copy()
        if d is None:
            s2.assume(c, False)
        X.panic(fr, s2, "assert:split_at", (c, (n, mid)), d is False)
        if d is False or not st.assume(c, True):
            return []
    return R(st, mk("agg", ("tuple", 0, sub_ref(X, st, loc, path, c64(0), mid), sub_ref(X, st, loc, path, mid, n)), None, retty))


@model("core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_at_mut_checked")
def _splitatc(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    n = X.length(st, v)
    mid = vs[1]
    out = []
    for s, q in fork(X, st, bnot(lt(n, mid))):
        if q:
            out.append((s, some(X, retty, mk("agg", ("tuple", 0, sub_ref(X, s, loc, path, c64(0), mid), sub_ref(X, s, loc, path, mid, n)), None, opt_inner(X, retty)))))
        else:
            out.append((s, none(X, retty)))
    return out


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _cfs(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    a = X.load(st, loc, path)
    b = deref_all(X, st, vs[1])
    n, m = X.length(st, a), X.length(st, b)
    c = eq(n, m)
    d = st.decide(c)
    if d is not True:
        s2 = st.copy()
        if d is None:
            s2.assume(c, False)
        X.panic(fr, s2, "assert:copy_len", (c, (n, m)), d is False)
        if d is False or not st.assume(c, True):
            return []
    st.emit("copyslice", loc, path, b, X.P.loc(fr.f, fr.line))
    X.save(st, loc, path, b)
    return R(st, unit(X))


@model("core::slice::<impl [T]>::fill")
def _fill(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    a = X.load(st, loc, path)
    st.emit("fill", loc, path, vs[1], X.P.loc(fr.f, fr.line))
    n = X.length(st, a)
    if isc(n) and cv(n) <= 64:
        X.save(st, loc, path, mk("arr", (vs[1],) * cv(n), None, a.ty))
    else:
        X.save(st, loc, path, mk("rep", (vs[1], n), None, a.ty))
    return R(st, unit(X))


@model("core::slice::<impl [T]>::contains")
def _contains(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    x = deref_all(X, st, vs[1])
    if v.op == "arr":
        r = FALSE
        for e in v.args:
            r = bor(r, eqv(X, st, e, x))
        return R(st, r)
    return R(st, app("contains", (v, x), 1))


@model("core::slice::<impl [T]>::swap")
def _sswap(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    st.emit("sliceswap", loc, path, vs[1], vs[2])
    v = X.load(st, loc, path)
    ety = ety_of(X, fn["locals"][1])
    out = []
    for s, r in index_seq(X, st, fr, loc, path, vs[1], ety):
        for s2, r2 in index_seq(X, s, fr, loc, path, vs[2], ety):
            a, b = X.load(s2, *r.args), X.load(s2, *r2.args)
            X.save(s2, r.args[0], r.args[1], b)
            X.save(s2, r2.args[0], r2.args[1], a)
            out.append((s2, unit(X)))
    return out


@model("core::slice::<impl [T]>::strip_prefix")
def _sstrip(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    p = deref_all(X, st, vs[1])
    n, k = X.length(st, v), X.length(st, p)
    c = band(bnot(lt(n, k)), mk("app", ("hasprefix", v, p), 1))
    if v.op == "arr" and p.op == "arr":
        if len(p.args) > len(v.args):
            c = FALSE
        else:
            c = TRUE
            for x, y in zip(v.args, p.args):
                c = band(c, eqv(X, st, x, y))
    elif v.op in ("concat", "push", "store", "splice"):
        st.emit("approx", "prefix of a composed sequence")
    out = []
    for s, q in fork(X, st, c):
        out.append((s, some(X, retty, sub_ref(X, s, loc, path, k, n)) if q else none(X, retty)))
    return out


def search_known(X, st, fr, m, v, n, arg, retty, ety):
    """the library's search over a slice of known length, forking on undecided comparisons"""
    if m == "binary_search":
        key = deref_all(X, st, arg)
        if key.w is None:
            return None

    def probe(s, i):
        """[(state, 'L'|'E'|'G')] for element i"""
        e = X.elem(s, v, c64(i), ety)
        out = []
        if m == "partition_point":
            for s2, r in X.call_value(fr, s, arg, [X.vref(e)], X.P.tyname.get("bool")):
                out += [(s3, "L" if q else "G") for s3, q in fork(X, s2, r)]
            return out
        for s2, q in fork(X, s, eq(e, key)):
            if q:
                out.append((s2, "E"))
            else:
                out += [(s3, "L" if z else "G") for s3, z in fork(X, s2, lt(e, key))]
        return out

    if n == 0:
        return R(st, c64(0) if m == "partition_point" else err(X, retty, c64(0)))
    cur, out = [(st.copy(), 0, n)], []
    while cur:
        s, base, size = cur.pop()
        if size > 1:
            half = size // 2
            for s2, c in probe(s, base + half):
                cur.append((s2, base if c == "G" else base + half, size - half))
            if len(cur) + len(out) > 64:
                return None
            continue
        for s2, c in probe(s, base):
            if m == "partition_point":
                out.append((s2, c64(base + (c == "L"))))
            elif c == "E":
                out.append((s2, ok(X, retty, c64(base))))
            else:
                out.append((s2, err(X, retty, c64(base + (c == "L")))))
    return out


@model("core::slice::<impl [T]>::binary_search", "core::slice::<impl [T]>::partition_point", "core::slice::<impl [T]>::binary_search_by",
       "core::slice::<impl [T]>::binary_search_by_key")
def _bsearch(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    n = X.length(st, v)
    m = fn["def"].split("::")[-1]
    nn = st.resolve(n)
    if isc(nn) and cv(nn) <= 128 and m in ("partition_point", "binary_search"):
        r = search_known(X, st, fr, m, v, cv(nn), vs[1], retty, ety_of(X, fn["locals"][1]))
        if r is not None:
            return r
    if m == "partition_point":
        # first index whose predicate is false (for a partitioned slice)
        i = mk("app", ("ppoint", v, vs[1]), 64)
        st.assume(bnot(lt(n, i)), True)
        st.emit("partition_point", v, vs[1], i, X.P.loc(fr.f, fr.line))
        ety = ety_of(X, fn["locals"][1])
        out = [st]
        # predicate facts at i-1 and i
        for idx, want in ((sub(i, c64(1)), True), (i, False)):
            nxt = []
            for s in out:
                inr = ne(i, c64(0)) if want else lt(i, n)
                for s2, q in fork(X, s, inr):
                    if not q:
                        nxt.append(s2)
                        continue
                    e = X.elem(s2, v, idx, ety)
                    for s3, r in X.call_value(fr, s2, vs[1], [X.vref(e)], X.P.tyname.get("bool")):
                        if s3.assume(r, want):
                            nxt.append(s3)
            out = nxt
        return [(s, i) for s in out]
    key = deref_all(X, st, vs[1])
    i = fresh("bsearch", 64)
    found = fresh("found", 1)
    st.emit("binary_search", v, key, i, X.P.loc(fr.f, fr.line))
    ety = ety_of(X, fn["locals"][1])
    out = []
    for s, q in fork(X, st, found):
        if q:
            if not s.assume(lt(i, n), True):
                continue
            if m == "binary_search":
                s.assume(eqv(X, s, X.elem(s, v, i, ety), key), True)
            out.append((s, ok(X, retty, i)))
        else:
            if not s.assume(bnot(lt(n, i)), True):
                continue
            if m == "binary_search" and key.w is not None:
                # sorted slice: v[i-1] < key < v[i]
                for s2, z in fork(X, s, eq(i, c64(0))):
                    if not z:
                        s2.assume(lt(X.elem(s2, v, sub(i, c64(1)), ety), key), True)
                    for s3, z3 in fork(X, s2, lt(i, n)):
                        if z3:
                            s3.assume(lt(key, X.elem(s3, v, i, ety)), True)
                        out.append((s3, err(X, retty, i)))
            else:
                out.append((s, err(X, retty, i)))
    return out


@model("std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable",
       "core::slice::<impl [T]>::sort_unstable_by_key", "core::slice::<impl [T]>::reverse")
def _sort(X, st, fr, vs, retty, fn):
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    m = fn["def"].split("::")[-1]
    st.emit(m, loc, path, vs[1] if len(vs) > 1 else None, X.P.loc(fr.f, fr.line))
    if v.op == "arr" and len(v.args) < 2:
        return R(st, unit(X))
    if m == "reverse":
        X.save(st, loc, path, mk("arr", v.args[::-1], None, v.ty) if v.op == "arr" else mk("reversed", (v,), None, v.ty))
    else:
        r = sort_known(X, st, fr, m, v, vs[1] if len(vs) > 1 else None, X.P.types[fn["locals"][1]] if fn.get("locals") else None)
        if r is not None:
            out = []
            for s, items in r:
                X.save(s, loc, path, mk("arr", tuple(items), None, v.ty))
                out.append((s, unit(X)))
            return out
        X.save(st, loc, path, mk("sorted", (v,), None, v.ty))
    return R(st, unit(X))


def sort_known(X, st, fr, m, v, arg, sty, limit=6):
    """stable sort of a sequence of known length: [(state, items)], forking on undecided comparisons"""
    P = X.P
    n = st.resolve(X.length(st, v))
    if not isc(n) or cv(n) > 64:
        return None
    ety = None
    if v.ty is not None:
        ety = ety_of(X, v.ty)
    items = [X.elem(st, v, c64(i), ety) for i in range(cv(n))]
    by = m.endswith("sort_by")
    cur = [(st.copy(), items)]
    if not by:
        ks = []
        s = cur[0][0]
        for e in items:
            if m.endswith("_key"):
                r = X.call_value(fr, s, arg, [X.vref(e)])
                if len(r) != 1:
                    return None
                s, k = r[0]
            else:
                k = e
            ks.append(k)
        if any(k.w is None for k in ks):
            if any(key_lt(X, s, ks[0], k) is None for k in ks[1:]):
                return None
        t = P.types[ks[0].ty] if ks and ks[0].ty is not None else None
        if t is not None and t["k"] == "int":
            return None
        if all(k.w is not None and isc(s.resolve(k)) for k in ks):
            o = sorted(range(len(items)), key=lambda i: cv(s.resolve(ks[i])))
            return [(s, [items[i] for i in o])]
        if len(items) > limit:
            return None
        cur = [(s, [])]
        for e, k in zip(items, ks):
            nxt = []
            for s, acc in cur:
                todo = [(s, len(acc))]
                while todo:
                    s1, i = todo.pop()
                    if i == 0:
                        nxt.append((s1, [(e, k)] + acc))
                        continue
                    for s2, q in fork(X, s1, key_lt(X, s1, k, acc[i - 1][1])):
                        if q:
                            todo.append((s2, i - 1))
                        else:
                            nxt.append((s2, acc[:i] + [(e, k)] + acc[i:]))
            cur = nxt
            if len(cur) > 200:
                return None
        return [(s, [e for e, _ in acc]) for s, acc in cur]
    if len(items) > limit:
        return None
    cur = [(st.copy(), [])]
    for e in items:
        nxt = []
        for s, acc in cur:
            todo = [(s, len(acc))]
            while todo:
                s1, i = todo.pop()
                if i == 0:
                    nxt.append((s1, [e] + acc))
                    continue
                for s2, r in X.call_value(fr, s1, arg, [X.vref(e), X.vref(acc[i - 1])]):
                    k = X.discr(r, 8)
                    k = s2.resolve(k)
                    for s3, q in fork(X, s2, eq(k, I((1 << k.w) - 1, k.w)) if not isc(k) else (TRUE if cv(k) == (1 << k.w) - 1 else FALSE)):
                        if q:
                            todo.append((s3, i - 1))
                        else:
                            nxt.append((s3, acc[:i] + [e] + acc[i:]))
        cur = nxt
        if len(cur) > 200:
            return None
    return cur


@model("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq",
       "<std::string::String as std::cmp::PartialEq>::eq", "core::str::traits::<impl std::cmp::PartialEq for str>::eq",
       "<std::collections::HashMap<K, V, S, A> as std::cmp::PartialEq>::eq", "<std::collections::BTreeMap<K, V, A> as std::cmp::PartialEq>::eq",
       "<std::option::Option<T> as std::cmp::PartialEq>::eq", "<std::ops::Range<Idx> as std::cmp::PartialEq>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq",
       "<std::string::String as std::cmp::PartialEq<str>>::eq", "<std::string::String as std::cmp::PartialEq<&str>>::eq",
       "std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq", "std::string::<impl std::cmp::PartialEq<&'a str> for std::string::String>::eq",
       "std::vec::partial_eq::<impl std::cmp::PartialEq<&[U]> for std::vec::Vec<T, A>>::eq",
       "std::vec::partial_eq::<impl std::cmp::PartialEq<[U; N]> for std::vec::Vec<T, A>>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq", "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq",
       "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for &[T]>::eq",
       "std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq")
def _eqm(X, st, fr, vs, retty, fn):
    return R(st, eqv(X, st, vs[0], vs[1]))


def _nem(X, st, fr, vs, retty, fn):
    return R(st, bnot(eqv(X, st, vs[0], vs[1])))


for _n in [k for k, f in MODELS.items() if f is _eqm]:
    MODELS.setdefault(_n[:-2] + "ne", _nem)


@model("<std::string::String as std::cmp::Ord>::cmp", "core::str::traits::<impl std::cmp::Ord for str>::cmp")
def _scmp(X, st, fr, vs, retty, fn):
    a, b = deref_all(X, st, vs[0]), deref_all(X, st, vs[1])
    if a.op == "strc" and b.op == "strc":
        r = (a.args[0] > b.args[0]) - (a.args[0] < b.args[0])
        return R(st, mk("enumof", (I(r, 8),), None, retty))
    return R(st, mk("enumof", (app("strcmp", (a, b), 8),), None, retty))


# ------------------------------------------------------------------ strings
# Unicode White_Space (Python's own set differs)
WHITE_SPACE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
ASCII_WS = "\t\n\x0c\r "


def pat_matches(X, st, fr, b, pat):
    """[(start, end)] of the non-overlapping matches of a pattern in the literal b, or None when the pattern is not known"""
    pat = X.load(st, *pat.args) if pat.op == "ref" else pat
    while pat.op == "ref":
        pat = X.load(st, *pat.args)
    if pat.op in ("strc", "str"):
        p = pat.args[0]
        if not p or marked(b) and any(ch in b"0123456789ABCDEF" for ch in p):
            return None
        out, i = [], b.find(p)
        while i >= 0:
            out.append((i, i + len(p)))
            i = b.find(p, i + len(p))
        return out
    try:
        t = b.decode("utf8")
    except UnicodeDecodeError:
        return None
    test = None
    if isc(pat) and pat.w == 32:
        test = lambda ch: ch == cv(pat)
    elif pat.op == "arr" and all(isc(x) for x in pat.args):
        cs = {cv(x) for x in pat.args}
        test = lambda ch: ch in cs
    elif pat.op in ("agg", "fnitem"):
        ty = X.P.types[pat.ty] if pat.op == "agg" and pat.ty is not None else None
        if pat.op == "fnitem" or ty and ty["k"] == "closure":
            memo = {}

            def test(ch):
                if ch not in memo:
                    r = X.call_value(fr, st.copy(), pat, [I(ch, 32)], X.P.tyname.get("bool"))
                    rs = {cv(s2.resolve(v)) if isc(s2.resolve(v)) else None for s2, v in r}
                    memo[ch] = rs.pop() if len(rs) == 1 else None
                if memo[ch] is None:
                    raise LookupError
                return memo[ch]
    if test is None:
        return None
    if marked(b):
        base_test = test

        def test(ch):
            if 0xF0000 <= ch < 0xF0000 + len(MARKS):
                if any(base_test(ord(c)) for c in "0123456789ABCDEF"):
                    raise LookupError
                return False
            return base_test(ch)
    out, i = [], 0
    try:
        for ch in t:
            n = len(ch.encode())
            if test(ord(ch)):
                out.append((i, i + n))
            i += n
    except LookupError:
        return None
    return out


def _strfn(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    r = _strlit(X, st, fr, vs, retty, m)
    if r is not None:
        return r
    r = _strsym(X, st, fr, vs, retty, fn)
    if r is not None and m not in STR_TOTAL and not (m.startswith("trim") and deref_all(X, st, vs[0]).op == "strc"):
        # the value is an atom of its own: relations to other queries of the text are not kept
        for s, _ in r:
            s.emit("approx", "string " + m)
    return r


STR_TOTAL = {"to_uppercase", "to_ascii_uppercase", "to_lowercase", "to_ascii_lowercase", "into_boxed_str", "into_string", "to_string", "escape_default", "escape_debug", "repeat", "replace",
             "is_char_boundary", "lines", "chars", "char_indices", "split", "splitn", "split_whitespace", "match_indices", "rsplit", "rsplitn", "split_terminator", "split_inclusive", "matches"}


def _strlit(X, st, fr, vs, retty, m):
    """pattern searches in literal text"""
    if m not in ("find", "rfind", "contains", "starts_with", "ends_with", "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "trim_matches", "trim_start_matches", "trim_end_matches",
                 "split", "splitn", "match_indices", "split_terminator", "split_inclusive", "matches", "eq_ignore_ascii_case"):
        return None
    s = deref_all(X, st, vs[0])
    if s.op in ("scat", "dig") and m in ("starts_with", "strip_prefix"):
        return _lx().affix(X, st, fr, s, vs[1], m, retty)
    if s.op in ("scat", "dig") and m in ("find", "contains"):
        return _lx().search(X, st, fr, s, vs[1], m, retty)
    if s.op != "strc":
        return None
    b = s.args[0]
    if m == "eq_ignore_ascii_case":
        o = deref_all(X, st, vs[1])
        return R(st, I(int(b.lower() == o.args[0].lower()), 1)) if o.op == "strc" else None
    pv = vs[2] if m == "splitn" else vs[1]
    ms = pat_matches(X, st, fr, b, pv)
    if ms is None:
        return None
    L = lambda x: mk("str", (x,))
    if m in ("find", "rfind"):
        return R(st, some(X, retty, c64(ms[0 if m == "find" else -1][0])) if ms else none(X, retty))
    if m == "contains":
        return R(st, I(int(bool(ms)), 1))
    p = deref_all(X, st, pv)
    if p.op == "strc":
        pre = (0, len(p.args[0])) if b.startswith(p.args[0]) else None
        suf = (len(b) - len(p.args[0]), len(b)) if b.endswith(p.args[0]) else None
    else:
        pre = ms[0] if ms and ms[0][0] == 0 else None
        suf = ms[-1] if ms and ms[-1][1] == len(b) else None
    if m == "starts_with":
        return R(st, I(int(pre is not None), 1))
    if m == "ends_with":
        return R(st, I(int(suf is not None), 1))
    if m == "strip_prefix":
        return R(st, some(X, retty, L(b[pre[1]:])) if pre else none(X, retty))
    if m == "strip_suffix":
        return R(st, some(X, retty, L(b[:suf[0]])) if suf else none(X, retty))
    if m in ("split_once", "rsplit_once"):
        if not ms:
            return R(st, none(X, retty))
        x, y = ms[0 if m == "split_once" else -1]
        if m == "rsplit_once" and p.op == "strc":
            x = b.rfind(p.args[0])
            y = x + len(p.args[0])
        inner = opt_inner(X, retty)
        return R(st, some(X, retty, mk("agg", ("tuple", 0, L(b[:x]), L(b[y:])), None, inner)))
    if m.startswith("trim_"):
        if p.op == "strc":
            return None
        lo, hi = 0, len(b)
        if m != "trim_end_matches":
            for x, y in ms:
                if x != lo:
                    break
                lo = y
        if m != "trim_start_matches":
            for x, y in reversed(ms):
                if y != hi or x < lo:
                    break
                hi = x
        return R(st, L(b[lo:hi]))
    if m == "splitn":
        n = st.resolve(vs[1])
        if not isc(n):
            return None
        ms = ms[:max(0, cv(n) - 1)]
        if cv(n) == 0:
            return None
        m = "split"
    return R(st, mk("it", ("strit", m, s, (mk("pats", tuple(ms)),), c64(0)), None, retty))


def _strsym(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    s = deref_all(X, st, vs[0])
    a = tuple(deref_all(X, st, v) for v in vs[1:])
    c = s.op == "strc"
    b = s.args[0] if c else None
    if m in ("to_uppercase", "to_ascii_uppercase", "to_lowercase", "to_ascii_lowercase"):
        nm = "upper" if "upper" in m else "lower"
        if c:
            t = b.decode("utf8", "replace")
            return R(st, mk("strc", ((t.upper() if nm == "upper" else t.lower()).encode(),)))
        if s.op == "app" and s.args[0] == nm:
            return R(st, s)
        ps = _lx().pieces_of(s)
        if ps is not None and all(p.op == "strc" or p.args[1] == 10 for p in ps):      # decimal digits have no case
            ps = tuple(mk("strc", ((lambda t: t.upper() if nm == "upper" else t.lower())(p.args[0].decode("utf8", "replace")).encode(),)) if p.op == "strc" else p for p in ps)
            return R(st, ps[0] if len(ps) == 1 else mk("scat", ps))
        return R(st, mk("app", (nm, s), None, retty))
    if m in ("trim", "trim_start", "trim_end", "trim_ascii"):
        if c:
            t = b.decode("utf8", "replace")
            ws = ASCII_WS if m == "trim_ascii" else WHITE_SPACE
            t = t.lstrip(ws) if m == "trim_start" else t.rstrip(ws) if m == "trim_end" else t.strip(ws)
            return R(st, mk("str", (t.encode(),)))
        e = X.P.types[retty].get("e")
        return R(st, X.vref(mk("app", (m, s), None, e)))
    if m in ("starts_with", "ends_with", "contains"):
        if c and a[0].op == "strc":
            q = {"starts_with": b.startswith(a[0].args[0]), "ends_with": b.endswith(a[0].args[0]), "contains": a[0].args[0] in b}[m]
            return R(st, I(int(q), 1))
        return R(st, app(m, (s,) + a, 1))
    if m in ("strip_prefix", "strip_suffix"):
        inner = opt_inner(X, retty)
        if c and a[0].op == "strc":
            p = a[0].args[0]
            q = b.startswith(p) if m == "strip_prefix" else b.endswith(p)
            r = b[len(p):] if m == "strip_prefix" else b[: len(b) - len(p)]
            return R(st, some(X, retty, mk("str", (r,))) if q else none(X, retty))
        out = []
        for s2, q in fork(X, st, app("starts_with" if m == "strip_prefix" else "ends_with", (s,) + a, 1)):
            out.append((s2, some(X, retty, X.vref(mk("app", (m, s) + a, None, X.P.types[inner]["e"]))) if q else none(X, retty)))
        return out
    if m in ("find", "rfind"):
        out = []
        for s2, q in fork(X, st, app("has", (s,) + a, 1)):
            if q:
                i = app(m, (s,) + a, 64)
                s2.assume(lt(i, X.length(s2, s)), True)
                s2.facts[mk("charb", (s, i), 1)] = True
                out.append((s2, some(X, retty, i)))
            else:
                out.append((s2, none(X, retty)))
        return out
    if m == "escape_default" and c and not marked(b):
        return R(st, mk("app", (m, s, mk("strc", (esc_default(b),))), None, retty))
    if m in ("escape_default", "escape_debug"):
        return R(st, mk("app", (m, s), None, retty))
    if m == "is_char_boundary":
        return R(st, mk("charb", (s, vs[1]), 1))
    if m in ("lines", "chars", "char_indices", "split", "splitn", "split_whitespace", "match_indices", "rsplit", "rsplitn", "split_terminator", "split_inclusive", "matches"):
        return R(st, mk("it", ("strit", m, s, a, c64(0)), None, retty))
    if m in ("split_once", "rsplit_once"):
        out = []
        inner = opt_inner(X, retty)
        tt = X.P.types[inner]["f"]
        for s2, q in fork(X, st, app("has", (s,) + a, 1)):
            if q:
                x = [X.vref(mk("app", (m, I(i, 8), s) + a, None, X.P.types[tt[i]]["e"])) for i in range(2)]
                out.append((s2, some(X, retty, mk("agg", ("tuple", 0, x[0], x[1]), None, inner))))
            else:
                out.append((s2, none(X, retty)))
        return out
    if m in ("eq_ignore_ascii_case",):
        return R(st, app(m, (s,) + a, 1))
    if m in ("into_boxed_str", "into_string", "to_string"):
        return R(st, s)
    if m == "repeat":
        return R(st, mk("app", ("strrepeat", s, vs[1]), None, retty))
    if m in ("replace", "replacen") and c and a[0].op == "strc" and a[1].op == "strc" and a[0].args[0]:
        n = st.resolve(a[2]) if m == "replacen" else c64(len(b) + 1)
        if isc(n):
            return R(st, mk("strc", (b.replace(a[0].args[0], a[1].args[0], cv(n)),)))
    if m in ("replace",):
        return R(st, mk("app", (m, s) + a, None, retty))
    return None


PREFIX.append(("core::str::<impl str>::", _strfn))
PREFIX.append(("std::str::<impl str>::", _strfn))


def scat(X, a, b):
    if a.op == "strc" and not a.args[0]:
        return b
    if b.op == "strc" and not b.args[0]:
        return a
    parts = []
    for x in (a, b):
        parts += list(x.args) if x.op == "scat" else [x]
    out = []
    for p in parts:
        if out and out[-1].op == "strc" and p.op == "strc":
            out[-1] = mk("strc", (out[-1].args[0] + p.args[0],))
        else:
            out.append(p)
    return out[0] if len(out) == 1 else mk("scat", tuple(out), None, a.ty)


@model("std::string::String::push_str", "<std::string::String as std::fmt::Write>::write_str")
def _pushstr(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    X.save(st, loc, path, scat(X, v, deref_all(X, st, vs[1])))
    st.emit("push_str", loc, path, deref_all(X, st, vs[1]))
    if fn["def"].endswith("write_str"):
        return R(st, ok(X, retty, unit(X)))
    return R(st, unit(X))


@model("std::string::String::push", "<std::string::String as std::fmt::Write>::write_char")
def _pushch(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    c = vs[1]
    x = mk("strc", (chr(cv(c)).encode(),)) if isc(c) else mk("app", ("chr", c))
    X.save(st, loc, path, scat(X, v, x))
    st.emit("push_str", loc, path, x)
    if fn["def"].endswith("write_char"):
        return R(st, ok(X, retty, unit(X)))
    return R(st, unit(X))


@model("<std::string::String as std::ops::Add<&str>>::add")
def _sadd(X, st, fr, vs, retty, fn):
    return R(st, scat(X, deref_all(X, st, vs[0]), deref_all(X, st, vs[1])))


@model("<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def _saddassign(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    X.save(st, loc, path, scat(X, X.load(st, loc, path), deref_all(X, st, vs[1])))
    return R(st, unit(X))


def sub_const(X, st, v):
    """a byte sequence of constants as an array"""
    if v.op in ("arr", "strc"):
        return v
    n = st.resolve(X.length(st, v))
    if isc(n) and cv(n) <= 4096:
        try:
            xs = [st.resolve(X.elem(st, v, c64(i), X.P.tyname.get("u8"))) for i in range(cv(n))]
        except Exception:
            return v
        if all(isc(x) and x.w == 8 for x in xs):
            return mk("arr", tuple(xs))
    return v


@model("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8")
def _fromutf8(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    out = []
    v = sub_const(X, st, v)
    if v.op == "arr" and all(isc(x) for x in v.args) or v.op == "strc":
        b = bytes(cv(x) for x in v.args) if v.op == "arr" else v.args[0]
        try:
            b.decode("utf8")
            t = mk("strc", (b,))
            return R(st, ok(X, retty, t if fn["def"].startswith("std::string") else mk("str", (b,))))
        except UnicodeDecodeError:
            return R(st, err(X, retty, X.fresh("utf8err", res_inner(X, retty, 1))))
    for s, q in fork(X, st, app("utf8", (v,), 1)):
        if q:
            if fn["def"].startswith("std::string"):
                out.append((s, ok(X, retty, mk("app", ("asstr", v), None, res_inner(X, retty, 0)))))
            else:
                e = X.P.types[res_inner(X, retty, 0)]["e"]
                out.append((s, ok(X, retty, X.vref(mk("app", ("asstr", v), None, e)))))
        else:
            out.append((s, err(X, retty, X.fresh("utf8err", res_inner(X, retty, 1)))))
    return out


@model("std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from",
       "std::string::<impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from")
def _cow(X, st, fr, vs, retty, fn):
    t = X.P.types[retty]
    i = 1 if "String" in fn["def"].split(" for ")[0] else 0
    return R(st, mk("agg", (t["n"], i, vs[0]), None, retty))


# ------------------------------------------------------------------ formatting
# A Formatter is the term fmtr(reference to the text written so far, spec); spec = (fill, align, flags, width, precision).
# Numbers of unknown value are written as the piece numtxt(value, base, signed, min width, zero padding, prefix).
NOSPEC = (" ", None, 0, None, None)
F_PLUS, F_ALT, F_ZERO = 1 << 21, 1 << 23, 1 << 24


def fmt_decode(X, tmpl):
    """pieces of a format_args template: ("lit", bytes) / ("arg", index, spec); None when the template is not known"""
    if tmpl.op == "arr" and all(isc(x) for x in tmpl.args):
        t = bytes(cv(x) for x in tmpl.args)
    elif tmpl.op in ("strc", "str"):
        t = tmpl.args[0]
    else:
        return None
    out, i, nxt = [], 0, 0
    le = lambda at, n: int.from_bytes(t[at:at + n], "little")
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(("lit", t[i:i + n]))
            i += n
        elif n == 0x80:
            k = le(i, 2)
            out.append(("lit", t[i + 2:i + 2 + k]))
            i += 2 + k
        elif n & 0xC0 == 0xC0:
            fl, wd, pr, ix = 0x20 | 3 << 29, None, None, nxt
            if n & 1:
                fl = le(i, 4)
                i += 4
            if n & 2:
                wd = le(i, 2)
                i += 2
            if n & 4:
                pr = le(i, 2)
                i += 2
            if n & 8:
                ix = le(i, 2)
                i += 2
            if n & 0x10:
                wd = ("arg", wd)
            if n & 0x20:
                pr = ("arg", pr)
            nxt = ix + 1
            out.append(("arg", ix, (chr(fl & 0x1FFFFF), (0, 1, 2, None)[fl >> 29 & 3], fl & (F_PLUS | F_ALT | F_ZERO | 1 << 22 | 1 << 25 | 1 << 26), wd, pr)))
        else:
            return None
    return None


@prefix("core::fmt::rt::Argument::<'_>::", "std::fmt::rt::Argument::<'_>::")
def _fmtarg(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m.startswith("new_") or m == "from_usize":
        ty = fn["locals"][1] if len(fn.get("locals", ())) > 1 else None
        while ty is not None and X.P.types[ty]["k"] in ("ref", "ptr"):
            ty = X.P.types[ty]["e"]
        return R(st, mk("fmtarg", (m, deref_all(X, st, vs[0]), ty), None, retty))
    return None


@prefix("std::fmt::Arguments::<'a>::", "core::fmt::rt::<impl std::fmt::Arguments", "std::fmt::rt::<impl std::fmt::Arguments")
def _fmtargs(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m.startswith("from_str") or m == "new_const":
        return R(st, mk("fmtargs", ("str", deref_all(X, st, vs[0])), None, retty))
    if m.startswith("new"):
        return R(st, mk("fmtargs", ("fmt",) + tuple(deref_all(X, st, v) for v in vs), None, retty))
    return None


def fmtr_of(X, st, v):
    """the fmtr term behind a reference, or None"""
    try:
        for _ in range(6):
            if v.op == "fmtr":
                return v
            if v.op != "ref":
                return None
            v = X.load(st, *v.args)
    except Exception:
        pass
    return None


def fmt_put(X, st, F, piece):
    loc, path = F.args[0].args
    X.save(st, loc, path, scat(X, X.load(st, loc, path), piece))


def lit_term(b):
    return mk("strc", (b if isinstance(b, bytes) else b.encode(),))


def fmt_pad(X, st, F, t, default="left"):
    """text with the width of the spec; None when the padding is not known"""
    fill, align, fl, wd, pr = F.args[1]
    if wd is None and pr is None:
        return t
    if t.op != "strc":
        return None
    u = t.args[0].decode("utf8", "replace")
    if pr is not None:
        u = u[:pr]
    n = max(0, (wd or 0) - len(u))
    al = align if align is not None else {"left": 0, "right": 1}[default]
    l = 0 if al == 0 else n if al == 1 else n // 2
    return lit_term(fill * l + u + fill * (n - l))


def fmt_number(X, st, F, kind, v, ty):
    base = {"display": 10, "debug": 10, "lower_hex": 16, "upper_hex": 16, "binary": 2, "octal": 8}.get(kind)
    t = X.P.types[ty] if ty is not None else None
    if base is None or v.w is None or v.w == 0:
        return None
    signed = bool(t and t["n"][:1] == "i") and base == 10
    fill, align, fl, wd, pr = F.args[1]
    pre = {"lower_hex": "0x", "upper_hex": "0x", "binary": "0b", "octal": "0o"}.get(kind, "") if fl & F_ALT else ""
    v = st.resolve(v)
    if isc(v):
        n = cv(v)
        neg = signed and n >> (v.w - 1)
        n = (1 << v.w) - n if neg else n
        d = {10: "%d", 16: "%X" if kind == "upper_hex" else "%x", 8: "%o"}[base] % n if base != 2 else bin(n)[2:]
        sg = "-" if neg else "+" if fl & F_PLUS else ""
        if fl & F_ZERO and wd:
            return lit_term(sg + pre + d.rjust(wd - len(sg) - len(pre), "0"))
        return fmt_pad(X, st, mk("fmtr", (F.args[0], (fill, align, fl, wd, None))), lit_term(sg + pre + d), "right")
    if wd is not None and not fl & F_ZERO or fl & F_PLUS:
        return None
    if getattr(X, "marks", False) and base == 16 and kind == "upper_hex" and v.w == 16 and wd == 4 and not pre:
        return lit_term(num_mark(v))
    return mk("numtxt", (v, base, signed, (wd or 0), kind == "upper_hex", pre))


def fmt_value(X, st, fr, F, kind, v, ty):
    """[(state)] after the value is written, or None"""
    P = X.P
    t = P.types[ty] if ty is not None else None
    while t is not None and (t["k"] in ("ref", "ptr") or t["k"] == "adt" and t["adt"].split("::")[-1] == "Box"):
        ty = t.get("e")
        if ty is None:
            break
        t = P.types[ty]
    n = t["n"] if t else ""
    piece = None
    if t is not None and t["k"] in ("int", "uint") or v.w is not None and t is not None and n in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        piece = fmt_number(X, st, F, kind, v, ty)
    elif n in ("str", "std::string::String") or v.op in ("strc", "scat"):
        if kind == "display":
            piece = fmt_pad(X, st, F, v)
        elif kind == "debug":
            piece = lit_term(debug_str(v.args[0])) if v.op == "strc" else mk("app", ("dbgstr", v))
    elif n == "char":
        piece = fmt_pad(X, st, F, chr_term(st, v)) if kind == "display" else None
    elif n == "bool":
        piece = fmt_pad(X, st, F, lit_term("true" if cv(v) else "false")) if isc(v) else None
    elif v.op == "fmtargs":
        return fmt_run(X, st, fr, F, v)
    elif "EscapeDefault" in n or v.op == "app" and v.args[0] == "escape_default":
        piece = (v.args[2] if len(v.args) > 2 else v) if v.op == "app" else None
    elif n.startswith("std::borrow::Cow"):
        w = v.args[2] if v.op == "agg" and len(v.args) > 2 else None
        piece = fmt_pad(X, st, F, deref_all(X, st, w)) if w is not None and kind == "display" else None
    elif t is not None and t["k"] == "adt":
        tr = {"display": "Display", "debug": "Debug", "lower_hex": "LowerHex", "upper_hex": "UpperHex", "binary": "Binary", "octal": "Octal"}.get(kind)
        f = fmt_impl(P, tr, ty)
        if f is not None:
            fref = mk("ref", (X.heap(st, F), ()), None, None)
            return [s for s, _ in X.invoke(fr, st, f, f["def"], [X.vref(v), fref], f["locals"][0])]
    if piece is None:
        return None
    fmt_put(X, st, F, piece)
    return [st]


def fmt_impl(P, tr, ty):
    ix = getattr(P, "_fmtimpl", None)
    if ix is None:
        ix = P._fmtimpl = {}
        for f in P.fns.values():
            d = f["def"]
            if "blocks" in f and d.endswith(">::fmt") and " as std::fmt::" in d and len(f["locals"]) > 1:
                t = P.types[f["locals"][1]]
                if t["k"] == "ref":
                    ix[(d.rsplit(" as std::fmt::", 1)[1].split(">")[0], t["e"])] = f
    return ix.get((tr, ty))


def marked(b):
    """the text contains numbers of known length but unknown value (see num_mark)"""
    return b"\xf3\xb0" in b or b"\xf3\xb1" in b


MARKS = []
MARKIX = {}


def num_mark(v):
    """a piece of text standing for the four hexadecimal digits of a 16-bit value: one private-use character, whose UTF-8 form has four bytes as the digits have"""
    k = MARKIX.get(v)
    if k is None:
        k = MARKIX[v] = len(MARKS)
        MARKS.append(v)
    return chr(0xF0000 + k).encode()


def unmark(b):
    """the value a text of exactly one such number stands for, or None"""
    t = b.decode("utf8", "replace")
    if len(t) == 1 and 0xF0000 <= ord(t) < 0xF0000 + len(MARKS):
        return MARKS[ord(t) - 0xF0000]
    return None


def mark_eq(X, st, a, b):
    """equality of two texts of the same length with numbers in them"""
    def cells(t):
        out = []
        for ch in t.decode("utf8", "replace"):
            n = ord(ch) - 0xF0000
            if 0 <= n < len(MARKS):
                out += [(MARKS[n], i) for i in (3, 2, 1, 0)]
            else:
                out += list(ch.encode())
        return out
    r = TRUE
    for x, y in zip(cells(a), cells(b)):
        nib = [trunc(lshr(z[0], I(4 * z[1], 16)), 4) if isinstance(z, tuple) else I(int(chr(z), 16), 4) if chr(z) in "0123456789ABCDEF" else None for z in (x, y)]
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return FALSE
        elif None in nib:
            return FALSE
        else:
            r = band(r, eq(nib[0], nib[1]))
    return r


def esc_default(b):
    out = ""
    for ch in b.decode("utf8", "replace"):
        e = {"\t": "\\t", "\r": "\\r", "\n": "\\n", "'": "\\'", '"': '\\"', "\\": "\\\\"}.get(ch)
        out += e if e is not None else ch if 32 <= ord(ch) < 127 else "\\u{%x}" % ord(ch)
    return out.encode()


def unescape_lit(b):
    """what unescaper::unescape makes of a literal text, None for its error"""
    cs = list(b.decode("utf8", "replace"))
    cs.reverse()
    out = []
    hexd = lambda t, r: int(t, r) if t and all(c in "0123456789abcdefABCDEF"[:10 if r == 10 else 22 if r == 16 else 8] for c in t) else None
    while cs:
        c = cs.pop()
        if c != "\\":
            out.append(c)
            continue
        if not cs:
            return None
        c = cs.pop()
        if c in "bfnrt":
            out.append({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}[c])
        elif c in "'\"\\/":
            out.append(c)
        elif c == "u":
            if not cs:
                return None
            c = cs.pop()
            u = ""
            if c == "{":
                while cs:
                    n = cs.pop()
                    if n == "}":
                        break
                    u += n
            else:
                u = c
                for _ in range(3):
                    if not cs:
                        return None
                    u += cs.pop()
            n = hexd(u[1:] if u[:1] == "+" else u, 16)
            if n is None or n > 0x10FFFF or 0xD800 <= n <= 0xDFFF:
                return None
            out.append(chr(n))
        elif c == "x":
            if len(cs) < 2:
                return None
            u = cs.pop() + cs.pop()
            n = hexd(u[1:] if u[:1] == "+" else u, 16)
            if n is None:
                return None
            out.append(chr(n))
        elif c in "01234567":
            u = c
            for _ in range(2 if c in "0123" else 1):
                if cs and cs[-1] in "01234567":
                    u += cs.pop()
            out.append(chr(int(u, 8)))
        else:
            return None
    return "".join(out).encode()


@model("unescaper::unescape")
def _unescape(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    if v.op == "strc" and not marked(v.args[0]):
        b = unescape_lit(v.args[0])
        if b is None:
            return R(st, err(X, retty, X.fresh("uneserr", res_inner(X, retty, 1))))
        return R(st, ok(X, retty, mk("strc", (b,))))
    okc = app("unescapes", (v,), 1)
    out = []
    for s2, q in fork(X, st, okc):
        out.append((s2, ok(X, retty, mk("app", ("unescaped", v), None, res_inner(X, retty, 0))) if q else err(X, retty, X.fresh("uneserr", res_inner(X, retty, 1)))))
    return out


def chr_term(st, c):
    c = st.resolve(c)
    return lit_term(chr(cv(c))) if isc(c) else mk("app", ("chr", c))


def debug_str(b):
    """what Debug prints for a text (printable non-ASCII text stays as it is)"""
    import unicodedata
    out = '"'
    for ch in b.decode("utf8", "replace"):
        e = {"\0": "\\0", "\t": "\\t", "\r": "\\r", "\n": "\\n", '"': '\\"', "\\": "\\\\"}.get(ch)
        if e is None:
            e = ch
            if ord(ch) < 32 or ord(ch) == 127 or ord(ch) > 127 and unicodedata.category(ch) in ("Cc", "Cf", "Cn", "Co", "Cs", "Zl", "Zp", "Zs", "Mn", "Me"):
                e = "\\u{%x}" % ord(ch)
        out += e
    return out + '"'


def fmt_run(X, st, fr, F, args):
    """write format_args to the formatter: the states, or None when something in it is not known"""
    if args.args[0] == "str":
        if args.args[1].op not in ("strc", "scat", "app"):
            return None
        fmt_put(X, st, F, args.args[1])
        return [st]
    ps = fmt_decode(X, args.args[1])
    al = args.args[2] if len(args.args) > 2 else None
    if ps is None or (al is None or al.op != "arr") and any(p[0] == "arg" for p in ps):
        return None
    cur = [st]
    for p in ps:
        if p[0] == "lit":
            for s in cur:
                fmt_put(X, s, F, lit_term(p[1]))
            continue
        a = al.args[p[1]]
        spec = p[2]
        if isinstance(spec[3], tuple) or isinstance(spec[4], tuple):
            dyn = []
            for x in spec[3:5]:
                if isinstance(x, tuple):
                    y = al.args[x[1]] if x[1] is not None and x[1] < len(al.args) else None
                    y = cur[0].resolve(y.args[1]) if y is not None and y.op == "fmtarg" and y.args[0] == "from_usize" else None
                    if y is None or not isc(y):
                        return None
                    x = cv(y)
                dyn.append(x)
            spec = spec[:3] + tuple(dyn)
        if a.op != "fmtarg" or not a.args[0].startswith("new_") or len(a.args) < 3:
            return None
        nxt = []
        for s in cur:
            v = a.args[1]
            r = fmt_value(X, s, fr, mk("fmtr", (F.args[0], spec)), a.args[0][4:], v, a.args[2])
            if r is None:
                fmt_put(X, s, F, mk("app", ("fmtof", a)))
                s.emit("approx", "formatting")
                r = [s]
            nxt += r
        cur = nxt
    return cur


@model("std::fmt::format", "std::fmt::format::format_inner")
def _format(X, st, fr, vs, retty, fn):
    v = vs[0]
    if v.op == "fmtargs" and v.args[0] == "str":
        return R(st, v.args[1])
    if v.op == "fmtargs":
        st0 = st.copy()
        loc = X.heap(st, lit_term(b""))
        r = fmt_run(X, st, fr, mk("fmtr", (mk("ref", (loc, ()), None, None), NOSPEC)), v)
        if r is not None:
            return [(s, X.load(s, loc, ())) for s in r]
        st = st0
    return R(st, mk("app", ("fmt", v), None, retty))


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char",
       "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::write", "std::fmt::Formatter::<'a>::pad", "std::io::Write::write_fmt")
def _write(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    x = vs[1]
    loc = None
    try:
        loc, path = last_ref(X, st, vs[0])
    except Exception:
        pass
    F = fmtr_of(X, st, vs[0])
    if F is None and loc is not None and m == "write_fmt" and fn["def"].startswith("std::fmt::"):
        cur = X.load(st, loc, path)
        if cur.op in ("strc", "scat") or cur.ty is not None and X.P.types[cur.ty]["n"].endswith("String"):
            F = mk("fmtr", (mk("ref", (loc, path), None, None), NOSPEC))
    if F is not None:
        if m == "write_char":
            fmt_put(X, st, F, chr_term(st, x))
            r = [st]
        elif m == "write_str":
            fmt_put(X, st, F, deref_all(X, st, x))
            r = [st]
        elif m == "pad":
            t = fmt_pad(X, st, F, deref_all(X, st, x))
            if t is not None:
                fmt_put(X, st, F, t)
            r = [st] if t is not None else None
        else:
            r = fmt_run(X, st, fr, F, x) if x.op == "fmtargs" else None
        if r is not None:
            return [(s, ok(X, retty, unit(X))) for s in r]
        fmt_put(X, st, F, mk("app", ("fmt", x)))
        st.emit("approx", "formatting")
        return R(st, ok(X, retty, unit(X)))
    if m == "write_char":
        y = x
        x = mk("strc", (chr(cv(y)).encode(),)) if isc(y) else mk("app", ("chr", y))
    elif m in ("write_str", "pad"):
        x = deref_all(X, st, x)
    elif x.op == "fmtargs":
        x = x.args[1] if x.args[0] == "str" else x
    st.emit("write", loc, x, X.P.loc(fr.f, fr.line))
    if loc is not None and loc[0] in ("l", "heap", "deref"):
        cur = X.load(st, loc, path)
        if cur.op in ("strc", "scat") or cur.ty is not None and X.P.types[cur.ty]["n"].endswith("String"):
            X.save(st, loc, path, scat(X, cur, x if x.op != "fmtargs" else mk("app", ("fmt", x))))
    return R(st, ok(X, retty, unit(X)))


@prefix("std::fmt::Formatter::<'a>::debug_", "std::fmt::DebugList", "std::fmt::DebugStruct", "std::fmt::DebugMap", "std::fmt::DebugTuple", "std::fmt::Formatter::<'a>::")
def _dbg(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if X.P.types[retty]["k"] == "bool":
        return R(st, app("fmt_" + m, (), 1))
    if X.P.types[retty]["k"] == "ref":
        return R(st, vs[0])
    t = X.P.types[retty]
    if t["k"] == "adt" and t["adt"].endswith("Result"):
        return R(st, ok(X, retty, unit(X)))
    return R(st, X.fresh(m, retty))


def _fmtnum(X, st, fr, vs, retty, fn):
    n = fn["def"]
    kind = n.split("<impl ")[1].split(" for ")[0].split("::")[-1]
    F = fmtr_of(X, st, vs[1]) if len(vs) > 1 else None
    if F is not None:
        ty = fn["locals"][1] if len(fn.get("locals", ())) > 1 else X.P.tyname.get(n.split(" for ")[1].split(">")[0])
        while ty is not None and X.P.types[ty]["k"] == "ref":
            ty = X.P.types[ty]["e"]
        k = {"Display": "display", "Debug": "debug", "LowerHex": "lower_hex", "UpperHex": "upper_hex", "Binary": "binary", "Octal": "octal"}.get(kind)
        r = fmt_value(X, st, fr, F, k, deref_all(X, st, vs[0]), ty) if k else None
        if r is None:
            fmt_put(X, st, F, mk("app", ("fmtof", vs[0])))
            st.emit("approx", "formatting")
            r = [st]
        return [(s, ok(X, retty, unit(X))) for s in r]
    st.emit("write", None, mk("fmtarg", (kind, deref_all(X, st, vs[0]))), X.P.loc(fr.f, fr.line))
    return R(st, ok(X, retty, unit(X)))


PREFIX.append(("core::fmt::num::", _fmtnum))


@model("<str as std::fmt::Display>::fmt", "<str as std::fmt::Debug>::fmt", "<std::string::String as std::fmt::Display>::fmt", "<std::string::String as std::fmt::Debug>::fmt",
       "<std::str::EscapeDefault<'a> as std::fmt::Display>::fmt", "<std::fmt::Arguments<'_> as std::fmt::Display>::fmt")
def _fmtstr(X, st, fr, vs, retty, fn):
    v = deref_all(X, st, vs[0])
    F = fmtr_of(X, st, vs[1]) if len(vs) > 1 else None
    if F is not None:
        r = fmt_run(X, st, fr, F, v) if v.op == "fmtargs" else fmt_value(X, st, fr, F, "debug" if "Debug" in fn["def"] else "display", v, X.P.tyname.get("str"))
        if r is None:
            fmt_put(X, st, F, mk("app", ("fmtof", v)))
            st.emit("approx", "formatting")
            r = [st]
        return [(s, ok(X, retty, unit(X))) for s in r]
    st.emit("write", None, v if "Display" in fn["def"] else mk("fmtarg", ("Debug", v)), X.P.loc(fr.f, fr.line))
    return R(st, ok(X, retty, unit(X)))


# ------------------------------------------------------------------ maps and sets
def keyterm(X, st, k):
    return deref_all(X, st, k)


def map_has(X, st, m, k):
    if m.op == "mempty":
        return FALSE
    if m.op == "minsert":
        c = eqv(X, st, m.args[1], k)
        d = zone_decide(st, c)
        if d is True:
            return TRUE
        r = map_has(X, st, m.args[0], k)
        return r if d is False else bor(c, r)
    if m.op == "mremove":
        c = eqv(X, st, m.args[1], k)
        d = zone_decide(st, c)
        if d is True:
            return FALSE
        r = map_has(X, st, m.args[0], k)
        return r if d is False else band(bnot(c), r)
    return mk("app", ("mhas", m, k), 1)


def map_value(X, st, m, k, vty):
    if m.op == "minsert":
        c = eqv(X, st, m.args[1], k)
        d = zone_decide(st, c)
        if d is True:
            return m.args[2]
        if d is False:
            return map_value(X, st, m.args[0], k, vty)
        v = mk("app", ("mval", m, k), X.P.width(vty) if vty is not None else None, vty)
        return X._typed(v)
    if m.op == "mremove":
        return map_value(X, st, m.args[0], k, vty)
    v = mk("app", ("mval", m, k), X.P.width(vty) if vty is not None else None, vty)
    return X._typed(v)


def map_set(X, st, m, k, v):
    if m.op == "minsert":
        if st.decide(eqv(X, st, m.args[1], k)) is True:
            return mk("minsert", (m.args[0], m.args[1], v), None, m.ty)
    return mk("minsert", (m, k, v), None, m.ty)


def map_keys(X, st, m):
    """keys of a map whose whole construction is known and whose key equalities are decided, else None"""
    if m.op == "mempty":
        return ()
    if m.op in ("minsert", "mremove"):
        ks = map_keys(X, st, m.args[0])
        if ks is None:
            return None
        out, hit = [], False
        for k in ks:
            d = zone_decide(st, eqv(X, st, k, m.args[1]))
            if d is None:
                return None
            if d:
                hit = True
                if m.op == "mremove":
                    continue
            out.append(k)
        if m.op == "minsert" and not hit:
            out.append(m.args[1])
        return tuple(out)
    return None


def map_sorted(X, m):
    """True for ordered maps (BTree), False for hashed ones"""
    return m.ty is None or "BTree" in X.P.types[m.ty].get("n", "")


def key_lt(X, st, a, b):
    """order of two keys as a boolean term, None if unknown"""
    if a.w is not None and b.w is not None:
        for x in (a, b):
            if x.ty is not None and X.P.types[x.ty]["k"] == "int":
                return None
        return lt(a, b)
    if a.op in ("ref", "str") or b.op in ("ref", "str"):
        x, y = deref_all(X, st, a), deref_all(X, st, b)
        if x is a and y is b:
            return None
        return key_lt(X, st, x, y)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] == "tuple" and len(a.args) == len(b.args):
        r = FALSE
        for x, y in reversed(list(zip(a.args[2:], b.args[2:]))):
            c = key_lt(X, st, x, y)
            if c is None:
                return None
            r = ite(c, TRUE, band(eqv(X, st, x, y), r))
        return r
    if a.op == "strc" and b.op == "strc" and (marked(a.args[0]) or marked(b.args[0])):
        return None
    if a.op == "strc" and b.op == "strc":
        return I(int(a.args[0] < b.args[0]), 1)
    return None


def pick_key(X, st, keys, back, ordered):
    """[(state, key)]: the next key an iteration over these keys yields"""
    if not ordered:
        return [(st.copy() if i else st, k) for i, k in enumerate(keys)]
    cur = [(st, keys[0])]
    for k in keys[1:]:
        nxt = []
        for s, best in cur:
            c = key_lt(X, s, best, k)
            if c is None:
                return None
            for s2, q in fork(X, s, c):
                nxt.append((s2, (k if back else best) if q else (best if back else k)))
        cur = nxt
    return cur


def entry_item(X, s, mp, key, vty, kind, lp):
    v = map_value(X, s, mp, key, vty)
    if kind == "key":
        return X.vref(key)
    if kind == "keyv":
        return key
    if kind == "valv":
        return v
    if kind == "val":
        return valref(lp[0], lp[1], key, vty) if lp else X.vref(v)
    if kind == "kref":
        return mk("agg", ("tuple", 0, X.vref(key), valref(lp[0], lp[1], key, vty) if lp else X.vref(v)), None, None)
    return mk("agg", ("tuple", 0, key, v), None, None)


def map_vty(X, ty):
    t = X.P.types[ty]
    while t["k"] in ("ref", "ptr"):
        t = X.P.types[t["e"]]
    a = [x for x in t["a"] if isinstance(x, int)]
    return a[0], (a[1] if len(a) > 1 else X.P.unit)


MAPS = ("std::collections::HashMap::<K, V, S, A>::", "std::collections::BTreeMap::<K, V, A>::", "std::collections::HashSet::<T, S, A>::",
        "std::collections::BTreeSet::<T, A>::", "std::collections::HashMap::<K, V, S>::", "std::collections::HashSet::<T, S>::")


def maploc(X, st, v):
    return last_ref(X, st, v)


def valref(loc, path, k, vty):
    return mk("ref", (loc, path + (("k", k, vty),)), None, None)


def _map(X, st, fr, vs, retty, fn):
    n = fn["def"]
    m = n.split("::")[-1]
    isset = "Set::" in n
    if m in ("into_keys", "into_values"):
        mp = vs[0]
        return R(st, mk("it", ("entries", mp, c64(0), map_len(X, st, mp), "keyv" if m == "into_keys" else "valv"), None, retty))
    loc, path = maploc(X, st, vs[0])
    mp = X.load(st, loc, path)
    kty = vty = None
    if mp.ty is not None:
        try:
            kty, vty = map_vty(X, mp.ty)
        except Exception:
            pass
    if vty is None:
        # from the declared type of the first parameter
        try:
            kty, vty = map_vty(X, fn["locals"][1])
        except Exception:
            pass
    if m in ("get", "get_mut", "contains_key", "contains", "get_key_value"):
        k = keyterm(X, st, vs[1])
        c = map_has(X, st, mp, k)
        if X.P.types[retty]["k"] == "bool":
            return R(st, c)
        if vty is None:
            inner = opt_inner(X, retty)
            vty = X.P.types[inner].get("e")
        st.emit("mget", loc, path, k, X.P.loc(fr.f, fr.line))
        out = []
        for s, q in fork(X, st, c):
            if q:
                r = valref(loc, path, k, vty)
                if m == "get_key_value":
                    r = mk("agg", ("tuple", 0, X.vref(k), r), None, opt_inner(X, retty))
                elif isset:
                    r = X.vref(k)
                out.append((s, some(X, retty, r)))
            else:
                out.append((s, none(X, retty)))
        return out
    if m == "insert":
        k = keyterm(X, st, vs[1])
        v = vs[2] if len(vs) > 2 else unit(X)
        c = map_has(X, st, mp, k)
        st.emit("minsert", loc, path, k, v, X.P.loc(fr.f, fr.line))
        if isset:
            X.save(st, loc, path, map_set(X, st, mp, k, v))
            return R(st, bnot(c))
        out = []
        old = map_value(X, st, mp, k, vty)
        X.save(st, loc, path, map_set(X, st, mp, k, v))
        d = st.decide(c)
        if d is not None:
            return R(st, some(X, retty, old) if d else none(X, retty))
        for s, q in fork(X, st, c):
            out.append((s, some(X, retty, old) if q else none(X, retty)))
        return out
    if m in ("remove",):
        k = keyterm(X, st, vs[1])
        c = map_has(X, st, mp, k)
        old = map_value(X, st, mp, k, vty)
        st.emit("mremove", loc, path, k, X.P.loc(fr.f, fr.line))
        X.save(st, loc, path, mk("mremove", (mp, k), None, mp.ty))
        if X.P.types[retty]["k"] == "bool":
            return R(st, c)
        out = []
        for s, q in fork(X, st, c):
            out.append((s, some(X, retty, old) if q else none(X, retty)))
        return out
    if m == "entry":
        k = vs[1] if vs[1].op not in ("ref", "str") else keyterm(X, st, vs[1])
        t = X.P.types[retty]
        oi = next(i for i, v in enumerate(t["v"]) if v["n"].endswith("Occupied"))
        vi = next(i for i, v in enumerate(t["v"]) if v["n"].endswith("Vacant"))
        out = []
        st.emit("entry", loc, path, k, X.P.loc(fr.f, fr.line))
        for s, q in fork(X, st, map_has(X, st, mp, k)):
            i = oi if q else vi
            ity = t["v"][i]["f"][0][1]
            out.append((s, mk("agg", (t["n"], i, mk("ment", (loc, path, k, vty), None, ity)), None, retty)))
        return out
    if m in ("iter", "keys", "values", "iter_mut", "values_mut", "into_iter", "drain"):
        kind = {"iter": "kref", "keys": "key", "values": "val", "iter_mut": "kref", "values_mut": "val", "into_iter": "kv", "drain": "kv"}[m]
        if isset:
            kind = "key"
        return R(st, mk("it", ("entries", mp, c64(0), map_len(X, st, mp), kind, loc, path), None, retty))
    if m in ("range", "range_mut"):
        rg = vs[1]
        return R(st, mk("it", ("maprange", mp, rg, loc, path, kty, vty, 0), None, retty))
    if m in ("first_key_value", "last_key_value"):
        out = []
        ks = map_keys(X, st, mp)
        if ks is not None:
            if not ks:
                return R(st, none(X, retty))
            picks = pick_key(X, st, ks, m.startswith("last"), True)
            if picks is not None:
                return [(s, some(X, retty, mk("agg", ("tuple", 0, X.vref(k), valref(loc, path, k, vty)), None, opt_inner(X, retty)))) for s, k in picks]
        for s, q in fork(X, st, eq(map_len(X, st, mp), c64(0))):
            if q:
                out.append((s, none(X, retty)))
            else:
                k = X.fresh(m, kty)
                s.assume(map_has(X, s, mp, k), True)
                out.append((s, some(X, retty, mk("agg", ("tuple", 0, X.vref(k), valref(loc, path, k, vty)), None, opt_inner(X, retty)))))
        return out
    if m in ("reserve", "shrink_to_fit"):
        return R(st, unit(X))
    if m in ("retain", "append", "union", "difference"):
        st.emit("map" + m, loc, path)
        X.save(st, loc, path, fresh("map", None, mp.ty))
        return R(st, unit(X)) if m in ("retain", "append") else None
    return None


for p in MAPS:
    PREFIX.append((p, _map))


@prefix("std::collections::hash_map::Entry::<", "std::collections::btree_map::Entry::<")
def _entry(X, st, fr, vs, retty, fn):
    e = vs[0]
    if e.op != "agg" or e.args[2].op != "ment":
        return None
    loc, path, k, vty = e.args[2].args
    m = fn["def"].split("::")[-1]
    mp = X.load(st, loc, path)
    c = map_has(X, st, mp, k)
    d = st.decide(c)
    r = valref(loc, path, k, vty)
    if m == "key":
        return R(st, X.vref(k))
    if d is True and m in ("or_insert", "or_default", "or_insert_with", "or_insert_with_key"):
        return R(st, r)
    if m == "or_default":
        dv = default(X, st, vty)
        if dv is None:
            return None
        X.save(st, loc, path, map_set(X, st, mp, k, dv))
        st.emit("minsert", loc, path, k, dv, X.P.loc(fr.f, fr.line))
        return R(st, r)
    if m == "or_insert":
        X.save(st, loc, path, map_set(X, st, mp, k, vs[1]))
        st.emit("minsert", loc, path, k, vs[1], X.P.loc(fr.f, fr.line))
        return R(st, r)
    if m == "or_insert_with":
        out = []
        for s, v in X.call_value(fr, st, vs[1], [], vty):
            mp = X.load(s, loc, path)
            X.save(s, loc, path, map_set(X, s, mp, k, v))
            s.emit("minsert", loc, path, k, v, X.P.loc(fr.f, fr.line))
            out.append((s, r))
        return out
    if m == "and_modify":
        if d is True:
            return [(s, e) for s, _ in X.call_value(fr, st, vs[1], [r], X.P.unit)]
        return R(st, e)
    return None


@prefix("std::collections::hash_map::OccupiedEntry::<", "std::collections::btree_map::OccupiedEntry::<", "std::collections::hash_map::VacantEntry::<",
        "std::collections::btree_map::VacantEntry::<")
def _oentry(X, st, fr, vs, retty, fn):
    e = deref_all(X, st, vs[0])
    if e.op != "ment":
        return None
    loc, path, k, vty = e.args
    m = fn["def"].split("::")[-1]
    mp = X.load(st, loc, path)
    if m in ("get", "get_mut", "into_mut"):
        return R(st, valref(loc, path, k, vty))
    if m == "key":
        return R(st, X.vref(k))
    if m == "insert":
        old = map_value(X, st, mp, k, vty)
        X.save(st, loc, path, map_set(X, st, mp, k, vs[1]))
        st.emit("minsert", loc, path, k, vs[1], X.P.loc(fr.f, fr.line))
        if "Vacant" in fn["def"]:
            return R(st, valref(loc, path, k, vty))
        return R(st, old)
    if m == "insert_entry":
        X.save(st, loc, path, map_set(X, st, mp, k, vs[1]))
        st.emit("minsert", loc, path, k, vs[1], X.P.loc(fr.f, fr.line))
        return R(st, mk("ment", (loc, path, k, vty), None, retty))
    if m in ("remove", "remove_entry"):
        old = map_value(X, st, mp, k, vty)
        st.emit("mremove", loc, path, k, X.P.loc(fr.f, fr.line))
        X.save(st, loc, path, mk("mremove", (mp, k), None, mp.ty))
        return R(st, old)
    return None


# ------------------------------------------------------------------ iterators
def seq_iter(X, st, v, loc, path, mode, ety, retty, lo=None, hi=None):
    return mk("it", ("seq", v if loc is None else None, loc, path, lo if lo is not None else c64(0), hi if hi is not None else X.length(st, v), mode, ety), None, retty)


def to_iter(X, st, v, retty):
    """IntoIterator::into_iter on value v"""
    P = X.P
    if v.op == "it":
        return v
    if v.op == "agg" and v.args[0].split("<")[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        return v
    if v.op in ("ref", "str") or v.ty is not None and P.types[v.ty]["k"] in ("ref", "ptr"):
        loc, path = last_ref(X, st, v)
        cur = X.load(st, loc, path)
        if cur.op == "it":
            return mk("it", ("byref", loc, path), None, retty)
        if cur.op in ("mempty", "minsert", "mremove") or cur.ty is not None and P.types[cur.ty]["k"] == "adt" and P.types[cur.ty]["adt"].split("::")[-1] in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            kind = "key" if cur.ty is not None and "Set" in P.types[cur.ty]["n"].split("<")[0] else "kref"
            return mk("it", ("entries", cur, c64(0), map_len(X, st, cur), kind, loc, path), None, retty)
        if cur.op == "agg" and cur.args[0].split("<")[0].split("::")[-1] == "Option":
            return mk("it", ("optref", loc, path, FALSE), None, retty)
        ety = ety_of(X, cur.ty) if cur.ty is not None else None
        return seq_iter(X, st, cur, loc, path, "ref", ety, retty)
    if v.op in ("mempty", "minsert", "mremove") or v.ty is not None and P.types[v.ty]["k"] == "adt" and P.types[v.ty]["adt"].split("::")[-1] in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        kind = "keyv" if v.ty is not None and "Set" in P.types[v.ty]["n"].split("<")[0] else "kv"
        return mk("it", ("entries", v, c64(0), map_len(X, st, v), kind), None, retty)
    if v.op in ("arr", "push", "concat", "sub", "rep", "sorted", "store", "resized", "mapped", "reversed", "splice") or v.ty is not None and ety_of(X, v.ty) is not None:
        return seq_iter(X, st, v, None, (), "val", ety_of(X, v.ty), retty)
    if v.ty is not None and P.types[v.ty]["k"] == "adt" and P.types[v.ty]["adt"].split("::")[-1] == "Option":
        return mk("it", ("opt", v), None, retty)
    if v.op == "agg" and v.ty is not None and P.types[v.ty]["k"] == "adt" and P.types[v.ty].get("local"):
        return v
    return v


@model("<I as std::iter::IntoIterator>::into_iter", "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
       "<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter", "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "std::option::Option::<T>::iter", "std::collections::VecDeque::<T, A>::iter", "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
       "<std::option::Option<T> as std::iter::IntoIterator>::into_iter", "<std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter")
def _intoiter(X, st, fr, vs, retty, fn):
    r = to_iter(X, st, vs[0], retty)
    if r.op == "it" and r.args[0] == "seq" and r.args[7] is None:
        # element type from the signature
        ety = ety_of(X, fn["locals"][1]) if fn.get("locals") else None
        r = mk("it", r.args[:7] + (ety,), None, retty)
    return R(st, r)


ADAPT = {"map": 1, "filter": 1, "enumerate": 0, "rev": 0, "zip": 1, "chain": 1, "take": 1, "skip": 1, "filter_map": 1, "flat_map": 1, "flatten": 0,
         "copied": 0, "cloned": 0, "peekable": 0, "take_while": 1, "skip_while": 1, "inspect": 1, "fuse": 0, "map_while": 1, "by_ref": 0, "scan": 2, "step_by": 1, "cycle": 0}


def itval(X, st, v):
    """iterator value: agg ranges become range iterators"""
    if v.op == "it":
        return v
    if v.op == "ref":
        return mk("it", ("byref",) + last_ref(X, st, v), None, None)
    n = v.args[0].split("<")[0].split("::")[-1] if v.op == "agg" else None
    if n is None and v.ty is not None and X.P.types[v.ty]["k"] == "adt":
        n = X.P.types[v.ty]["adt"].split("::")[-1]
        if n in ("Range", "RangeInclusive"):
            v = X.expand(v)
    if n == "Range":
        return mk("it", ("range", v.args[2], v.args[3], v.ty), None, v.ty)
    if n == "RangeInclusive":
        return mk("it", ("rangei", v.args[2], v.args[3], v.args[4] if len(v.args) > 4 else FALSE, v.ty), None, v.ty)
    if n == "RangeFrom":
        return mk("it", ("rangefrom", v.args[2], v.ty), None, v.ty)
    return mk("it", ("user", v), None, v.ty)


def _unitval(X, st, newit, old):
    """write back representation: ranges stay aggregates"""
    k = newit.args[0]
    if k == "range":
        return mk("agg", (X.P.types[newit.args[3]]["n"], 0, newit.args[1], newit.args[2]), None, newit.args[3])
    if k == "rangei":
        return mk("agg", (X.P.types[newit.args[4]]["n"], 0, newit.args[1], newit.args[2], newit.args[3]), None, newit.args[4])
    if k == "rangefrom":
        return mk("agg", (X.P.types[newit.args[2]]["n"], 0, newit.args[1]), None, newit.args[2])
    if k == "user":
        return newit.args[1]
    return newit


def it_next(X, st, fr, it, back=False):
    """-> [(state, new iterator, item or None)]"""
    k = it.args[0]
    a = it.args
    ty = it.ty

    def mkit(*xs):
        return mk("it", xs, None, ty)

    if k == "seq":
        _, v, loc, path, lo, hi, mode, ety = a
        out = []
        for s, q in fork(X, st, lt(lo, hi)):
            if not q:
                out.append((s, it, None))
                continue
            i = sub(hi, c64(1)) if back else lo
            if mode == "val":
                e = X.elem(s, v if loc is None else X.load(s, loc, path), i, ety)
            elif loc is None:
                e = X.vref(X.elem(s, v, i, ety))
            else:
                e = mk("ref", (loc, X._ipath(path, i, ety)), None, None)
                if path and path[-1][0] == "s":
                    e = mk("ref", (loc, path[:-1] + (("i", add(path[-1][1], i), ety),)), None, None)
            n = mkit("seq", v, loc, path, lo if back else add(lo, c64(1)), sub(hi, c64(1)) if back else hi, mode, ety)
            out.append((s, n, e))
        return out
    if k == "range":
        lo, hi = a[1], a[2]
        sg = False
        if ty is not None:
            try:
                sg = X.P.signed(X.P.types[ty]["v"][0]["f"][0][1])
            except Exception:
                pass
        out = []
        for s, q in fork(X, st, slt(lo, hi) if sg else lt(lo, hi)):
            if not q:
                out.append((s, it, None))
            elif back:
                h = sub(hi, I(1, hi.w))
                out.append((s, mkit("range", lo, h, a[3]), h))
            else:
                out.append((s, mkit("range", add(lo, I(1, lo.w)), hi, a[3]), lo))
        return out
    if k == "rangei":
        lo, hi, done = a[1], a[2], a[3]
        out = []
        for s, q in fork(X, st, band(bnot(done), bnot(lt(hi, lo)))):
            if not q:
                out.append((s, it, None))
                continue
            for s2, l in fork(X, s, eq(lo, hi)):
                if back:
                    out.append((s2, mkit("rangei", lo, hi if l else sub(hi, I(1, hi.w)), TRUE if l else done, a[4]), hi))
                else:
                    out.append((s2, mkit("rangei", lo if l else add(lo, I(1, lo.w)), hi, TRUE if l else done, a[4]), lo))
        return out
    if k == "rangefrom":
        return [(st, mkit("rangefrom", add(a[1], I(1, a[1].w)), a[2]), a[1])]
    if k == "entset":
        mp, keys, kind = a[1:4]
        lp = a[4:6]
        if not keys:
            return [(st, it, None)]
        vty = map_vty(X, mp.ty)[1] if mp.ty is not None else None
        ordered = map_sorted(X, mp)
        if not ordered and getattr(X, "hash_sample", 0):
            picks = [(st, keys[-1] if back else keys[0])]
        else:
            picks = pick_key(X, st, keys, back, ordered)
        if picks is None:
            raise _i.Limit("order of map keys")
        out = []
        for s, key in picks:
            out.append((s, mkit(k, mp, tuple(x for x in keys if x is not key), kind, *lp), entry_item(X, s, mp, key, vty, kind, lp)))
        return out
    if k == "entries":
        mp, lo, hi, kind = a[1:5]
        lp = a[5:7]
        if mp not in X.known_keys and isc(lo) and cv(lo) == 0:
            ks = map_keys(X, st, mp)
            if ks is not None and getattr(X, "hash_sample", 0) and not map_sorted(X, mp) and len(ks) > 1:
                # some of the orders a hash map may have
                out = []
                for o in dict.fromkeys((ks, ks[::-1], ks[1::2] + ks[::2])[:getattr(X, "hash_sample", 0)]):
                    out += it_next(X, st.copy(), fr, mkit("entset", mp, o, kind, *lp), back)
                return out
            if ks is not None and (len(ks) <= 6 or map_sorted(X, mp) and all(isc(x) for x in ks)):
                return it_next(X, st, fr, mkit("entset", mp, ks, kind, *lp), back)
        out = []
        if mp.op in ("minsert", "mremove") and mp not in X.known_keys and mp.args[0].op != "mempty":
            st.emit("approx", "map order")
        for s, q in fork(X, st, lt(lo, hi)):
            if not q:
                out.append((s, it, None))
                continue
            i = sub(hi, c64(1)) if back else lo
            kty = vty = None
            if mp.ty is not None:
                kty, vty = map_vty(X, mp.ty)
            n = mkit(*((k, mp, lo if back else add(lo, c64(1)), sub(hi, c64(1)) if back else hi) + a[4:]))
            if mp in X.known_keys and isc(i):
                key = X.known_keys[mp][cv(i)]
            elif mp.op == "minsert" and mp.args[0].op == "mempty":
                key = mp.args[1]
            else:
                key = mk("app", ("mkey", mp, i), X.P.width(kty) if kty is not None else None, kty)
                X._typed(key)
            s.assume(map_has(X, s, mp, key), True)
            v = map_value(X, s, mp, key, vty)
            if kind == "key":
                e = X.vref(key)
            elif kind == "keyv":
                e = key
            elif kind == "valv":
                e = v
            elif kind == "val":
                e = valref(lp[0], lp[1], key, vty) if lp else X.vref(v)
            elif kind == "kref":
                e = mk("agg", ("tuple", 0, X.vref(key), valref(lp[0], lp[1], key, vty) if lp else X.vref(v)), None, None)
            else:
                e = mk("agg", ("tuple", 0, key, v), None, None)
            out.append((s, n, e))
        return out
    if k == "maprange":
        mp, rg, loc, path, kty, vty, cnt = a[1:8]
        out = []
        ks = map_keys(X, st, mp) if cnt == 0 else None
        lim = _range_bounds(X, st, rg)
        if ks is not None and lim is not None and all(x.w is not None for x in ks):
            (lo, li), (hi, hi_i) = lim
            cur = [(st, ())]
            for key in ks:
                c = TRUE
                if lo is not None:
                    c = band(c, bnot(lt(key, lo)) if li else lt(lo, key))
                if hi is not None:
                    c = band(c, bnot(lt(hi, key)) if hi_i else lt(key, hi))
                cur = [(s2, got + ((key,) if q else ())) for s, got in cur for s2, q in fork(X, s, c)]
            for s, got in cur:
                out += it_next(X, s, fr, mkit("entset", mp, got, "kref", loc, path), back)
            return out
        if mp.op in ("minsert", "mremove", "mempty"):
            st.emit("approx", "map range")
        has = mk("app", ("mrange", mp, rg, I(1 if back else 0, 8), I(cnt, 8)), 1)
        for s, q in fork(X, st, has):
            if not q:
                out.append((s, it, None))
                continue
            key = mk("app", ("mrkey", mp, rg, I(1 if back else 0, 8), I(cnt, 8)), X.P.width(kty) if kty is not None else None, kty)
            s.assume(map_has(X, s, mp, key), True)
            lim = _range_bounds(X, s, rg)
            good = True
            if key.w is not None and lim is not None:
                (lo, li), (hi, hi_i) = lim
                if lo is not None:
                    good &= s.assume(bnot(lt(key, lo)) if li else lt(lo, key), True)
                if hi is not None:
                    good &= s.assume(bnot(lt(hi, key)) if hi_i else lt(key, hi), True)
            if not good:
                continue
            e = mk("agg", ("tuple", 0, X.vref(key), valref(loc, path, key, vty)), None, None)
            out.append((s, mkit("maprange", mp, rg, loc, path, kty, vty, cnt + 1 if cnt < 3 else cnt), e))
        return out
    if k == "strit":
        m, s0, extra, cnt = a[1:5]
        its = str_items(m, s0, extra) if isc(cnt) else None
        if its is not None:
            i = cv(cnt)
            if i >= len(its):
                return [(st, it, None)]
            x = its[i]
            e = mk("str", (x,)) if isinstance(x, bytes) else _lx().as_ref(X, x) if isinstance(x, T) else mk("agg", ("tuple", 0, c64(x[0]), mk("str", (x[1],))))
            return [(st, mkit("strit", m, s0, extra, c64(i + 1)), e)]
        if s0.op == "strc" and m in ("chars", "char_indices", "bytes") and marked(s0.args[0]):
            raise _i.Limit("characters of a number")
        if s0.op == "strc" and m in ("chars", "char_indices") and isc(cnt):
            t = s0.args[0].decode("utf8", "replace")
            i = cv(cnt)
            if i >= len(t):
                return [(st, it, None)]
            ch = I(ord(t[i]), 32)
            if m == "char_indices":
                ch = mk("agg", ("tuple", 0, c64(len(t[:i].encode())), ch))
            return [(st, mkit("strit", m, s0, extra, c64(i + 1)), ch)]
        has = mk("app", ("strhas", mk("name", (m,)), s0, cnt) + tuple(extra), 1)
        out = []
        for s, q in fork(X, st, has):
            if not q:
                out.append((s, it, None))
                continue
            w = 32 if m == "chars" else None
            nm = mk("app", ("stritem", mk("name", (m,)), s0, cnt) + tuple(extra), w, None)
            if m == "chars":
                atom_maxbits.setdefault(nm, 21)
                e = nm
            elif m in ("char_indices", "match_indices"):
                i = app("strpos", (mk("name", (m,)), s0, cnt) + tuple(extra), 64)
                s.assume(lt(i, X.length(s, s0)), True)
                if m == "char_indices":
                    c = app("strchr", (s0, cnt), 32)
                    atom_maxbits.setdefault(c, 21)
                    e = mk("agg", ("tuple", 0, i, c))
                else:
                    e = mk("agg", ("tuple", 0, i, X.vref(nm)))
            else:
                sty = X.P.tyname.get("str")
                e = X.vref(mk(nm.op, nm.args, None, sty))
            out.append((s, mkit("strit", m, s0, extra, add(cnt, c64(1))), e))
        return out
    if k == "byref":
        loc, path = a[1], a[2]
        cur = X.load(st, loc, path)
        out = []
        for s, n, e in it_next(X, st, fr, itval(X, st, cur), back):
            X.save(s, loc, path, _unitval(X, s, n, cur))
            out.append((s, it, e))
        return out
    if k == "opt":
        v = a[1]
        t = X.P.types[v.ty]
        out = []
        for s, q in fork(X, st, eq(X.discr(v, 64), c64(1))):
            if q:
                out.append((s, mkit("opt", none(X, v.ty)), X.fld(v, 1, 0, t["v"][1]["f"][0][1])))
            else:
                out.append((s, mkit("opt", none(X, v.ty)), None))
        return out
    if k == "optref":
        loc, path, done = a[1:4]
        v = X.load(st, loc, path)
        if isc(done) and cv(done):
            return [(st, it, None)]
        out = []
        for s, q in fork(X, st, eq(X.discr(v, 64), c64(1))):
            if q:
                ity = opt_inner(X, v.ty)
                out.append((s, mkit("optref", loc, path, TRUE), mk("ref", (loc, path + (("f", 1, 0, ity),)), None, None)))
            else:
                out.append((s, mkit("optref", loc, path, TRUE), None))
        return out
    if k == "map":
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit("map", n, a[2]), None))
            else:
                for s2, r in X.call_value(fr, s, a[2], [e]):
                    out.append((s2, mkit("map", n, a[2]), r))
        return out
    if k == "skip_while":
        out = []
        work = [(st, a[1], 0)]
        while work:
            s0, it0, n0 = work.pop()
            for s, n, e in it_next(X, s0, fr, it0, back):
                if e is None:
                    out.append((s, n, None))
                    continue
                for s2, r in X.call_value(fr, s, a[2], [X.vref(e)], X.P.tyname.get("bool")):
                    for s3, q in fork(X, s2, r):
                        if not q:
                            out.append((s3, n, e))
                        elif n0 < 1 or decided_it(X, s3, n):
                            work.append((s3, n if decided_it(X, s3, n) else skip_it(X, s3, n), n0 + 1))
        return out
    if k == "step_by":
        # (inner, step, first)
        cur = [(st, a[1])]
        if not a[3]:
            for _ in range(cv(a[2]) - 1):
                cur = [(s2, n2) for s, n in cur for s2, n2, e in it_next(X, s, fr, n, back)]
        return [(s2, mkit("step_by", n2, a[2], False), e) for s, n in cur for s2, n2, e in it_next(X, s, fr, n, back)]
    if k == "scan":
        # (inner, state location, f)
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit(k, n, a[2], a[3]), None))
                continue
            for s2, r in X.call_value(fr, s, a[3], [mk("ref", (a[2], ()), None, None), e]):
                t = X.P.types[r.ty]
                for s3, q in fork(X, s2, eq(X.discr(r, 64), c64(1))):
                    out.append((s3, mkit(k, n, a[2], a[3]), X.fld(r, 1, 0, t["v"][1]["f"][0][1]) if q else None))
        return out
    if k in ("filter", "filter_map"):
        out = []
        work = [(st, a[1], 0)]
        while work:
            s0, it0, n0 = work.pop()
            for s, n, e in it_next(X, s0, fr, it0, back):
                if e is None:
                    out.append((s, mkit(k, n, a[2]), None))
                    continue
                if k == "filter":
                    rs = X.call_value(fr, s, a[2], [X.vref(e)], X.P.tyname.get("bool"))
                else:
                    rs = X.call_value(fr, s, a[2], [e])
                for s2, r in rs:
                    if k == "filter":
                        for s3, q in fork(X, s2, r):
                            if q:
                                out.append((s3, mkit(k, n, a[2]), e))
                            elif n0 < 1 or decided_it(X, s3, n):
                                work.append((s3, skip_it(X, s3, n) if not decided_it(X, s3, n) else n, n0 + 1))
                    else:
                        t = X.P.types[r.ty]
                        for s3, q in fork(X, s2, eq(X.discr(r, 64), c64(1))):
                            if q:
                                out.append((s3, mkit(k, n, a[2]), X.fld(r, 1, 0, t["v"][1]["f"][0][1])))
                            elif n0 < 1 or decided_it(X, s3, n):
                                work.append((s3, skip_it(X, s3, n) if not decided_it(X, s3, n) else n, n0 + 1))
        return out
    if k in ("take_while", "map_while"):
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit(k, n, a[2]), None))
                continue
            if k == "take_while":
                for s2, r in X.call_value(fr, s, a[2], [X.vref(e)], X.P.tyname.get("bool")):
                    for s3, q in fork(X, s2, r):
                        out.append((s3, mkit(k, n, a[2]), e if q else None))
            else:
                for s2, r in X.call_value(fr, s, a[2], [e]):
                    t = X.P.types[r.ty]
                    for s3, q in fork(X, s2, eq(X.discr(r, 64), c64(1))):
                        out.append((s3, mkit(k, n, a[2]), X.fld(r, 1, 0, t["v"][1]["f"][0][1]) if q else None))
        return out
    if k == "inspect":
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit(k, n, a[2]), None))
            else:
                for s2, _ in X.call_value(fr, s, a[2], [X.vref(e)]):
                    out.append((s2, mkit(k, n, a[2]), e))
        return out
    if k == "enumerate":
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit("enumerate", n, a[2]), None))
            else:
                out.append((s, mkit("enumerate", n, add(a[2], c64(1))), mk("agg", ("tuple", 0, a[2], e))))
        return out
    if k == "zip":
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            if e is None:
                out.append((s, mkit("zip", n, a[2]), None))
                continue
            for s2, n2, e2 in it_next(X, s, fr, a[2], back):
                out.append((s2, mkit("zip", n, n2), None if e2 is None else mk("agg", ("tuple", 0, e, e2))))
        return out
    if k == "chain":
        out = []
        i, j = (2, 1) if back else (1, 2)
        if a[i] is not None:
            for s, n, e in it_next(X, st, fr, a[i], back):
                if e is not None:
                    out.append((s, mkit("chain", a[1], n) if back else mkit("chain", n, a[2]), e))
                else:
                    for s2, n2, e2 in it_next(X, s, fr, a[j], back):
                        out.append((s2, mkit("chain", n2, None) if back else mkit("chain", None, n2), e2))
            return out
        for s2, n2, e2 in it_next(X, st, fr, a[j], back):
            out.append((s2, mkit("chain", n2, None) if back else mkit("chain", None, n2), e2))
        return out
    if k == "rev":
        return [(s, mkit("rev", n), e) for s, n, e in it_next(X, st, fr, a[1], not back)]
    if k in ("copied", "cloned"):
        out = []
        for s, n, e in it_next(X, st, fr, a[1], back):
            out.append((s, mkit(k, n), None if e is None else deref(X, s, e)))
        return out
    if k == "take":
        out = []
        for s, q in fork(X, st, eq(a[2], c64(0))):
            if q:
                out.append((s, it, None))
            else:
                for s2, n, e in it_next(X, s, fr, a[1], back):
                    out.append((s2, mkit("take", n, sub(a[2], c64(1))), e))
        return out
    if k == "skip":
        # skip n elements, then go on
        cur = [(st, a[1])]
        n = st.resolve(a[2])
        if isc(n) and cv(n) < 64:
            for _ in range(cv(n)):
                nxt = []
                for s, i in cur:
                    nxt += [(s2, n2) for s2, n2, e in it_next(X, s, fr, i, False)]
                cur = nxt
            out = []
            for s, i in cur:
                out += [(s2, mkit("skip", n2, c64(0)), e) for s2, n2, e in it_next(X, s, fr, i, back)]
            return out
        b = a[1]
        if b.args[0] == "seq":
            lo = add(b.args[4], a[2])
            nb = mk("it", b.args[:4] + (ite(lt(b.args[5], lo), b.args[5], lo),) + b.args[5:], None, b.ty)
            return [(s2, mkit("skip", n2, c64(0)), e) for s2, n2, e in it_next(X, st, fr, nb, back)]
    if k in ("repeat",):
        return [(st, it, a[1])]
    if k in ("repeat_with",):
        return [(s, it, r) for s, r in X.call_value(fr, st, a[1], [])]
    if k == "from_fn":
        out = []
        for s, r in X.call_value(fr, st, a[1], []):
            if r.ty is None:
                continue
            t = X.P.types[r.ty]
            for s2, q in fork(X, s, eq(X.discr(r, 64), c64(1))):
                out.append((s2, it, X.fld(r, 1, 0, t["v"][1]["f"][0][1]) if q else None))
        return out
    if k in ("flat_map", "flatten"):
        # state: (kind, outer, f, current inner or None)
        outer, f, cur = a[1], a[2], a[3]
        out = []
        work = [(st, outer, cur, 0)]
        while work:
            s, o, c, n0 = work.pop()
            if c is not None:
                for s2, c2, e in it_next(X, s, fr, c, back):
                    if e is not None:
                        out.append((s2, mkit(k, o, f, c2), e))
                    elif n0 < 2 or decided_it(X, s2, o):
                        work.append((s2, o, None, n0 + 1))
                continue
            if n0 >= 2 and not decided_it(X, s, o):
                o = skip_it(X, s, o)
            for s2, o2, e in it_next(X, s, fr, o, back):
                if e is None:
                    out.append((s2, mkit(k, o2, f, None), None))
                    continue
                rs = X.call_value(fr, s2, f, [e]) if f is not None else [(s2, e)]
                for s3, r in rs:
                    inner = itval(X, s3, to_iter(X, s3, r, r.ty))
                    if n0 < 3 or decided_it(X, s3, inner):
                        work.append((s3, o2, inner, n0 + 1))
        return out
    if k == "windows":
        v, n, loc, path, lo, ety = a[1:7]
        L = X.length(st, v)
        out = []
        for s, q in fork(X, st, bnot(lt(L, add(lo, n)))):
            if q:
                out.append((s, mkit("windows", v, n, loc, path, add(lo, c64(1)), ety), sub_ref(X, s, loc, path, lo, add(lo, n))))
            else:
                out.append((s, it, None))
        return out
    if k == "chunks":
        v, n, loc, path, lo, exact = a[1:7]
        L = X.length(st, v)
        out = []
        if exact:
            for s, q in fork(X, st, bnot(lt(L, add(lo, n)))):
                if q:
                    out.append((s, mkit("chunks", v, n, loc, path, add(lo, n), exact), sub_ref(X, s, loc, path, lo, add(lo, n))))
                else:
                    out.append((s, it, None))
            return out
        for s, q in fork(X, st, lt(lo, L)):
            if not q:
                out.append((s, it, None))
                continue
            for s2, full in fork(X, s, bnot(lt(L, add(lo, n)))):
                hi = add(lo, n) if full else L
                out.append((s2, mkit("chunks", v, n, loc, path, hi, exact), sub_ref(X, s2, loc, path, lo, hi)))
        return out
    if k == "chunk_by":
        loc, path, f, lo = a[1:5]
        v = X.load(st, loc, path)
        n = X.length(st, v)
        out = []
        for s, q in fork(X, st, lt(lo, n)):
            if not q:
                out.append((s, it, None))
                continue
            if isc(lo) and isc(s.resolve(n)):
                # known shape: the predicate is evaluated on consecutive elements, forking where it is open
                nn = cv(s.resolve(n))
                work = [(s, cv(lo) + 1)]
                while work:
                    s1, i = work.pop()
                    if i >= nn:
                        out.append((s1, mkit("chunk_by", loc, path, f, c64(i)), sub_ref(X, s1, loc, path, lo, c64(i))))
                        continue
                    ra = mk("ref", (loc, X._ipath(path, c64(i - 1), None)), None, None)
                    rb = mk("ref", (loc, X._ipath(path, c64(i), None)), None, None)
                    for s2, r in X.call_value(fr, s1, f, [ra, rb]):
                        for s3, q2 in fork(X, s2, r):
                            if q2:
                                work.append((s3, i + 1))
                            else:
                                out.append((s3, mkit("chunk_by", loc, path, f, c64(i)), sub_ref(X, s3, loc, path, lo, c64(i))))
                continue
            hi = fresh("chunkend", 64)
            s.assume(lt(lo, hi), True)
            s.assume(bnot(lt(n, hi)), True)
            out.append((s, mkit("chunk_by", loc, path, f, hi), sub_ref(X, s, loc, path, lo, hi)))
        return out
    if k == "peekable":
        inner, pk = a[1], a[2]
        if pk is not None:
            return [(st, mkit("peekable", inner, None), pk[1])]
        return [(s, mkit("peekable", n, None), e) for s, n, e in it_next(X, st, fr, inner, back)]
    if k == "user":
        v = a[1]
        t = X.P.types[v.ty] if v.ty is not None else None
        fn = None
        if t is not None:
            fn = user_next(X, v.ty)
        if fn is not None:
            loc = X.heap(st, v)
            out = []
            for s, r in X.exec_fn(fn, [mk("ref", (loc, ()), None, None)], st, fr):
                nv = X.load(s, loc, ())
                for s2, q in fork(X, s, eq(X.discr(r, 64), c64(1))):
                    out.append((s2, mk("it", ("user", nv), None, it.ty), X.fld(r, 1, 0, opt_inner(X, r.ty) if r.ty is not None else None) if q else None))
            return out
        has = fresh("has", 1)
        out = []
        for s, q in fork(X, st, has):
            out.append((s, it, fresh("item", None, None) if q else None))
        return out
    if k == "lex":
        return _lx().lex_item(X, st, fr, it)
    raise _i.Limit("iterator " + k)


def user_next(X, ty):
    n = X.P.types[ty]["n"]
    for f in X.P.fns.values():
        if f["local"] and "blocks" in f and f["def"].endswith("Iterator>::next") and X.P.types[f["locals"][1]].get("e") == ty:
            return f
    return None


def _range_bounds(X, st, rg):
    v = rg
    if v.op != "agg":
        v = X.expand(v) if v.ty is not None else v
    if v.op != "agg":
        return None
    n = v.args[0].split("<")[0].split("::")[-1]
    x = v.args[2:]

    def d(t):
        return deref_all(X, st, t)

    if n == "Range":
        return (d(x[0]), True), (d(x[1]), False)
    if n == "RangeInclusive":
        return (d(x[0]), True), (d(x[1]), True)
    if n == "RangeFrom":
        return (d(x[0]), True), (None, False)
    if n == "RangeTo":
        return (None, False), (d(x[0]), False)
    if n == "RangeToInclusive":
        return (None, False), (d(x[0]), True)
    if n == "RangeFull":
        return (None, False), (None, False)
    return None


def decided_it(X, st, it):
    """the iterator has a statically known number of elements left"""
    k = it.args[0]
    a = it.args
    if k == "byref":
        return decided_it(X, st, itval(X, st, X.load(st, a[1], a[2])))
    if k == "seq":
        return st.decide(lt(a[4], a[5])) is not None
    if k == "range":
        return st.decide(lt(a[1], a[2])) is not None
    if k == "windows":
        return isc(st.resolve(X.length(st, a[1]))) and isc(a[5]) and isc(a[2])
    if k == "take" and isc(a[2]) and cv(a[2]) <= 64 and a[1].args[0] in ("repeat", "repeat_with", "rangefrom", "from_fn"):
        return True
    if k in ("map", "filter", "rev", "copied", "cloned", "enumerate", "take", "filter_map", "skip", "inspect", "take_while", "skip_while", "map_while", "step_by", "scan", "peekable"):
        return decided_it(X, st, a[1])
    if k == "chunks":
        return isc(st.resolve(X.length(st, a[1]))) and isc(a[5])
    if k in ("flat_map", "flatten"):
        return decided_it(X, st, a[1]) and (a[3] is None or decided_it(X, st, a[3]))
    if k in ("opt", "optref", "once"):
        return True
    if k == "lex":
        return all(isc(x) for x in a[3:7])
    if k == "from_fn" and getattr(X, "unroll", False):
        return True
    if k == "entset":
        return True
    if k == "entries":
        if isc(a[2]) and cv(a[2]) == 0 and map_keys(X, st, a[1]) is not None:
            return True
        return st.decide(lt(a[2], a[3])) is not None
    if k in ("zip",):
        return decided_it(X, st, a[1]) and decided_it(X, st, a[2])
    if k == "chain":
        return all(x is None or decided_it(X, st, x) for x in a[1:])
    if k == "strit":
        return a[2].op == "strc" and a[1] in ("chars", "char_indices") or isc(a[4]) and str_items(a[1], a[2], a[3]) is not None
    return False


def str_items(m, s, extra):
    """items of a string iterator over a literal, when its pattern is a literal too"""
    if m == "lines" and s.op in ("scat", "dig"):
        ls = _lx().first_lines(None, s)
        return None if ls is None else ls
    if s.op != "strc":
        return None
    b = s.args[0]
    if m == "lines":
        parts = b.split(b"\n")
        last = parts.pop()
        return [p[:-1] if p.endswith(b"\r") else p for p in parts] + ([last] if last else [])
    if m == "split_whitespace":
        import re as _re
        return [x.encode() for x in _re.split("[%s]+" % WHITE_SPACE, b.decode("utf8", "replace")) if x]
    if len(extra) != 1:
        return None
    p = extra[0]
    if isinstance(p, T) and p.op == "pats":
        ms = p.args
        if m == "match_indices":
            return [(x, b[x:y]) for x, y in ms]
        if m == "matches":
            return [b[x:y] for x, y in ms]
        out, at = [], 0
        for x, y in ms:
            out.append(b[at:y if m == "split_inclusive" else x])
            at = y
        out.append(b[at:])
        if m in ("split_inclusive", "split_terminator") and not out[-1]:
            out.pop()
        return out
    if isc(p) and p.w == 32:
        p = chr(cv(p)).encode()
    elif isinstance(p, T) and p.op == "strc" and p.args[0]:
        p = p.args[0]
    else:
        return None
    if m == "split":
        return b.split(p)
    if m == "split_terminator":
        r = b.split(p)
        return r[:-1] if not r[-1] else r
    if m == "split_inclusive":
        r = b.split(p)
        return [x + p for x in r[:-1]] + ([r[-1]] if r[-1] else [])
    if m in ("match_indices", "matches"):
        out, i = [], b.find(p)
        while i >= 0:
            out.append((i, p) if m == "match_indices" else p)
            i = b.find(p, i + len(p))
        return out
    return None


def skip_it(X, st, it):
    """forget the position of an iterator"""
    return widen_pos(X, st, it)


def widen_pos(X, st, it):
    k = it.args[0]
    a = it.args
    if k == "seq":
        f = fresh("pos", 64)
        st.assume(bnot(lt(f, a[4])), True)
        return mk("it", a[:4] + (f,) + a[5:], None, it.ty)
    if k == "range":
        f = fresh("pos", a[1].w)
        st.assume(bnot(lt(f, a[1])), True)
        return mk("it", (k, f) + a[2:], None, it.ty)
    if k == "entries":
        f = fresh("pos", 64)
        return mk("it", a[:2] + (f,) + a[3:], None, it.ty)
    if k == "strit":
        return mk("it", a[:4] + (fresh("pos", 64),), None, it.ty)
    if k in ("map", "filter", "rev", "copied", "cloned", "filter_map", "inspect"):
        return mk("it", (k, widen_pos(X, st, a[1])) + a[2:], None, it.ty)
    if k in ("enumerate", "take"):
        return mk("it", (k, widen_pos(X, st, a[1]), fresh("pos", 64)), None, it.ty)
    if k == "zip":
        return mk("it", (k, widen_pos(X, st, a[1]), widen_pos(X, st, a[2])), None, it.ty)
    return it


def widen_iter(X, st, a, b, name, wid):
    if a.args[0] != b.args[0] or len(a.args) != len(b.args):
        return None
    out = [a.args[0]]
    for x, y in zip(a.args[1:], b.args[1:]):
        if x is y or x == y:
            out.append(x)
        elif isinstance(x, T) and isinstance(y, T):
            out.append(X.widen(st, x, y, name, wid))
        elif a.args[0] in ("maprange",):
            out.append(y)
        else:
            return None
    return mk("it", tuple(out), None, a.ty)


# adaptor constructors
def _adapt(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    it = itval(X, st, vs[0])
    if m in ("map", "filter", "filter_map", "inspect", "take_while", "map_while", "skip_while"):
        return R(st, mk("it", (m, it, vs[1]), None, retty))
    if m in ("flat_map",):
        return R(st, mk("it", (m, it, vs[1], None), None, retty))
    if m == "flatten":
        return R(st, mk("it", (m, it, None, None), None, retty))
    if m == "enumerate":
        return R(st, mk("it", (m, it, c64(0)), None, retty))
    if m in ("rev", "copied", "cloned"):
        return R(st, mk("it", (m, it), None, retty))
    if m == "fuse":
        return R(st, it)
    if m in ("zip", "chain"):
        return R(st, mk("it", (m, it, itval(X, st, to_iter(X, st, vs[1], vs[1].ty))), None, retty))
    if m in ("take", "skip"):
        return R(st, mk("it", (m, it, vs[1]), None, retty))
    if m == "step_by" and isc(vs[1]) and 0 < cv(vs[1]) <= 16:
        return R(st, mk("it", (m, it, vs[1], True), None, retty))
    if m == "scan":
        return R(st, mk("it", (m, it, X.heap(st, vs[1]), vs[2]), None, retty))
    if m == "peekable":
        return R(st, mk("it", (m, it, None), None, retty))
    if m == "by_ref":
        return R(st, vs[0])
    return None


def _itercons(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m in ADAPT:
        return _adapt(X, st, fr, vs, retty, fn)
    return consume(X, st, fr, m, vs, retty, fn)


PREFIX.append(("std::iter::Iterator::", _itercons))
PREFIX.append(("std::iter::DoubleEndedIterator::", _itercons))


@prefix("std::iter::Peekable::<I>::")
def _peek(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    loc, path = last_ref(X, st, vs[0])
    it = X.load(st, loc, path)
    if it.op != "it" or it.args[0] != "peekable" or m not in ("peek",):
        return None
    inner, pk = it.args[1], it.args[2]
    if pk is None:
        rs = it_next(X, st, fr, inner)
    else:
        rs = [(st, inner, pk[1])]
    out = []
    for s, n, e in rs:
        X.save(s, loc, path, mk("it", ("peekable", n, ("pk", e)), None, it.ty))
        out.append((s, none(X, retty) if e is None else some(X, retty, X.vref(e))))
    return out


@model("std::iter::zip")
def _zip(X, st, fr, vs, retty, fn):
    return R(st, mk("it", ("zip", itval(X, st, to_iter(X, st, vs[0], vs[0].ty)), itval(X, st, to_iter(X, st, vs[1], vs[1].ty))), None, retty))


@model("std::iter::repeat", "std::iter::repeat_with", "std::iter::from_fn", "std::iter::once", "std::iter::empty")
def _itsrc(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m == "once":
        return R(st, seq_iter(X, st, mk("arr", (vs[0],)), None, (), "val", vs[0].ty, retty))
    if m == "empty":
        return R(st, seq_iter(X, st, mk("arr", ()), None, (), "val", None, retty))
    return R(st, mk("it", (m, vs[0]), None, retty))


@model("core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunk_by", "core::slice::<impl [T]>::chunks")
def _windows(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    loc, path = seq_loc(X, st, vs[0])
    v = X.load(st, loc, path)
    if m == "windows":
        return R(st, mk("it", ("windows", v, vs[1], loc, path, c64(0), None), None, retty))
    if m == "chunks_exact":
        return R(st, mk("it", ("chunks", v, vs[1], loc, path, c64(0), True), None, retty))
    if m == "chunk_by":
        return R(st, mk("it", ("chunk_by", loc, path, vs[1], c64(0)), None, retty))
    return None


def is_next(name):
    return name.endswith(" as std::iter::Iterator>::next") or name.endswith(" as std::iter::DoubleEndedIterator>::next_back")


def iter_method(X, st, fr, name, vs, retty, fn):
    """<SomeStdIter as Iterator>::method"""
    m = name.split("::")[-1]
    if m in ("next", "next_back"):
        loc, path = last_ref(X, st, vs[0])
        cur = X.load(st, loc, path)
        it = itval(X, st, cur)
        if it.args[0] == "user":
            return None
        out = []
        for s, n, e in it_next(X, st, fr, it, m == "next_back"):
            X.save(s, loc, path, _unitval(X, s, n, cur))
            if e is None:
                out.append((s, none(X, retty)))
            else:
                e = retype(X, s, e, opt_inner(X, retty))
                out.append((s, some(X, retty, e)))
        return out
    if m in ADAPT:
        return _adapt(X, st, fr, vs, retty, fn)
    if m in ("into_iter",):
        return _intoiter(X, st, fr, vs, retty, fn)
    return consume(X, st, fr, m, vs, retty, fn)


def retype(X, st, e, ty):
    """give untyped terms the type the program expects"""
    if ty is None:
        return e
    t = X.P.types[ty]
    if e.op == "agg" and e.args[0] == "tuple" and t["k"] == "tuple":
        return mk("agg", ("tuple", 0) + tuple(retype(X, st, x, y) for x, y in zip(e.args[2:], t["f"])), None, ty)
    if e.op == "ref" and t["k"] in ("ref", "ptr"):
        loc, path = e.args
        if loc[0] == "val" and not path:
            return X.vref(retype(X, st, loc[1], t["e"]))
        if path and path[-1][0] == "i" and path[-1][2] is None:
            return mk("ref", (loc, path[:-1] + (("i", path[-1][1], t["e"]),)), None, None)
        return e
    if e.op in ("select", "app", "var", "deref") and e.ty is None:
        w = X.P.width(ty)
        if e.w is None or e.op != "var" and e.w == w:
            r = mk(e.op, e.args, w, ty)
            return X._typed(r)
    return e


class IterPrefix:
    pass


def _stditer(X, st, fr, vs, retty, fn):
    n = fn["def"]
    if " as std::iter::" not in n:
        return None
    if fn["local"]:
        return None
    if " as std::iter::Extend<" in n:
        return _extend(X, st, fr, vs, retty, fn)
    if " as std::iter::FromIterator<" in n:
        return collect_into(X, st, fr, itval(X, st, to_iter(X, st, vs[0], vs[0].ty)), retty)
    if "Iterator>::" in n:
        return iter_method(X, st, fr, n, vs, retty, fn)
    return None


PREFIX.append(("<std::", _stditer))
PREFIX.append(("<&", _stditer))
PREFIX.append(("<core::", _stditer))
PREFIX.append(("<alloc::", _stditer))
PREFIX.append(("std::iter::range::<impl std::iter::Iterator for ", lambda X, st, fr, vs, retty, fn: iter_method(X, st, fr, fn["def"], vs, retty, fn)))
PREFIX.append(("std::iter::range::<impl std::iter::DoubleEndedIterator for ", lambda X, st, fr, vs, retty, fn: iter_method(X, st, fr, fn["def"], vs, retty, fn)))
PREFIX.append(("std::iter::traits::iterator::", lambda X, st, fr, vs, retty, fn: None))


def drive(X, st, fr, it, acc, step, key):
    """abstract loop over iterator it.  step(state, acc, item) -> [(state, ('cont', acc) | ('brk', value))].
    returns [(state, ('end', acc) | ('brk', value))]"""
    itloc = X.heap(st, it)
    accloc = X.heap(st, acc if acc is not None else unit(X))
    # decided prefix
    res = []
    cur = [st]
    snap = (len(X.panics),)
    s0 = st.copy()
    saved = (dict(X.opaque), dict(X.imprecise))
    done = False
    for rnd in range(400):
        nxt = []
        und = False
        for s in cur:
            i = X.load(s, itloc, ())
            if not decided_it(X, s, i):
                rs0 = None
                und = True
                break
            for s2, n, e in it_next(X, s, fr, i):
                X.save(s2, itloc, (), n)
                if e is None:
                    res.append((s2, ("end", X.load(s2, accloc, ()))))
                    continue
                for s3, r in step(s2, X.load(s2, accloc, ()), e):
                    if r[0] == "cont":
                        if r[1] is not None:
                            X.save(s3, accloc, (), r[1])
                        nxt.append(s3)
                    else:
                        res.append((s3, r))
        if und or len(nxt) > max(64, X.maxpaths):
            break
        cur = nxt
        if not cur:
            done = True
            break
    if done:
        return res
    del X.panics[snap[0]:]
    X.opaque, X.imprecise = saved
    if X.spec:
        raise _i.SpecAbort()

    def body(s):
        backs, exits = [], []
        i = X.load(s, itloc, ())
        for s2, n, e in it_next(X, s, fr, i):
            X.save(s2, itloc, (), n)
            if e is None:
                exits.append((s2, ("end", X.load(s2, accloc, ()))))
                continue
            s2.emit("item", e)
            for s3, r in step(s2, X.load(s2, accloc, ()), e):
                if r[0] == "cont":
                    if r[1] is not None:
                        X.save(s3, accloc, (), r[1])
                    backs.append(s3)
                else:
                    exits.append((s3, r))
        return backs, exits

    return X.fix_loop(fr, s0, body, key)


def consume(X, st, fr, m, vs, retty, fn):
    P = X.P
    if m in ("collect",):
        return collect_into(X, st, fr, itval(X, st, vs[0]), retty)
    byref = fn is not None and fn.get("locals") and P.types[fn["locals"][1]]["k"] == "ref" if fn and "locals" in fn else vs[0].op == "ref"
    if vs[0].op == "ref":
        it = mk("it", ("byref",) + last_ref(X, st, vs[0]), None, None)
        cur = X.load(st, it.args[1], it.args[2])
        if decided_it(X, st, itval(X, st, cur)):
            pass
    else:
        it = itval(X, st, vs[0])
    key = ("iter", m, fr.f["def"], fr.line)
    if m == "for_each":
        def step(s, acc, e):
            return [(s2, ("cont", None)) for s2, _ in X.call_value(fr, s, vs[1], [e], P.unit)]

        return [(s, unit(X)) for s, r in drive(X, st, fr, it, None, step, key)]
    if m in ("all", "any"):
        def step(s, acc, e):
            out = []
            for s2, r in X.call_value(fr, s, vs[1], [e], P.tyname.get("bool")):
                for s3, q in fork(X, s2, r):
                    if q == (m == "any"):
                        out.append((s3, ("brk", I(int(q), 1))))
                    else:
                        out.append((s3, ("cont", None)))
            return out

        return [(s, r[1] if r[0] == "brk" else I(int(m == "all"), 1)) for s, r in drive(X, st, fr, it, None, step, key)]
    if m in ("find", "position", "find_map", "rposition"):
        inner = opt_inner(X, retty)

        def step(s, acc, e):
            out = []
            if m == "find":
                rs = X.call_value(fr, s, vs[1], [X.vref(e)], P.tyname.get("bool"))
            elif m == "position":
                rs = X.call_value(fr, s, vs[1], [e], P.tyname.get("bool"))
            else:
                rs = X.call_value(fr, s, vs[1], [e], retty)
            for s2, r in rs:
                if m == "find_map":
                    for s3, q in fork(X, s2, eq(X.discr(r, 64), c64(1))):
                        out.append((s3, ("brk", r) if q else ("cont", None)))
                else:
                    for s3, q in fork(X, s2, r):
                        if q:
                            out.append((s3, ("brk", some(X, retty, retype(X, s3, e, inner) if m == "find" else acc))))
                        else:
                            out.append((s3, ("cont", add(acc, c64(1)) if m == "position" else None)))
            return out

        return [(s, r[1] if r[0] == "brk" else none(X, retty)) for s, r in drive(X, st, fr, it, c64(0) if m == "position" else None, step, key)]
    if m in ("fold",):
        def step(s, acc, e):
            return [(s2, ("cont", r)) for s2, r in X.call_value(fr, s, vs[2], [acc, e], retty)]

        return [(s, r[1]) for s, r in drive(X, st, fr, it, vs[1], step, key)]
    if m in ("try_fold", "try_for_each"):
        f = vs[-1]
        t = P.types[retty]
        if t["k"] != "adt" or t["adt"].split("::")[-1] not in ("Result", "Option"):
            return None
        isres = t["adt"].split("::")[-1] == "Result"
        good = 0 if isres else 1

        def step(s, acc, e):
            out = []
            for s2, r in X.call_value(fr, s, f, [acc, e] if m == "try_fold" else [e], retty):
                for s3, q in fork(X, s2, eq(X.discr(r, 64), c64(good))):
                    if q:
                        out.append((s3, ("cont", X.fld(r, good, 0, t["v"][good]["f"][0][1]) if m == "try_fold" else None)))
                    else:
                        out.append((s3, ("brk", r)))
            return out

        return [(s, r[1] if r[0] == "brk" else mk("agg", (t["n"], good, r[1] if m == "try_fold" else unit(X)), None, retty))
                for s, r in drive(X, st, fr, it, vs[1] if m == "try_fold" else None, step, key)]
    if m == "count":
        if it.args[0] == "seq":
            return R(st, sub(it.args[5], it.args[4]))

        def step(s, acc, e):
            return [(s, ("cont", add(acc, c64(1))))]

        return [(s, r[1]) for s, r in drive(X, st, fr, it, c64(0), step, key)]
    if m == "sum":
        w = P.width(retty)
        if w is None:
            return None

        def step(s, acc, e):
            e = deref_all(X, s, e)
            o = ovf("Add", P.signed(retty), acc, e)
            d = s.ovf("Add", P.signed(retty), acc, e)
            if d is not False:
                s2 = s.copy()
                X.panic(fr, s2, "assert:ovfAdd", (bnot(o), (acc, e)), d is True)
                if d is True:
                    return []
            return [(s, ("cont", add(acc, e)))]

        return [(s, r[1]) for s, r in drive(X, st, fr, it, I(0, w), step, key)]
    if m in ("next", "last", "nth", "max_by_key", "min_by_key", "max", "min", "max_by", "min_by"):
        if m == "last":
            inner = opt_inner(X, retty)
            return [(s, r[1]) for s, r in drive(X, st, fr, it, none(X, retty), lambda s, acc, e: [(s, ("cont", some(X, retty, retype(X, s, e, inner))))], key)]
        if m == "nth":
            n = st.resolve(vs[1])
            inner = opt_inner(X, retty)
            if isc(n) and cv(n) < 40:
                cur = [(st, it)]
                for i in range(cv(n)):
                    cur = [(s2, n2) for s, i2 in cur for s2, n2, e in it_next(X, s, fr, i2)]
                return [(s2, none(X, retty) if e is None else some(X, retty, retype(X, s2, e, inner))) for s, i2 in cur for s2, n2, e in it_next(X, s, fr, i2)]
            return None
        # decided number of elements: fold
        if m != "next" and decided_it(X, st, it):
            r = extremum(X, st, fr, it, m, vs, retty, key)
            if r is not None:
                return r
        # some element of the iterator
        inner = opt_inner(X, retty)
        out = []
        for s, n, e in it_next(X, st, fr, it):
            if e is None:
                out.append((s, none(X, retty)))
            else:
                if not decided_it(X, s, it):
                    pass
                st2 = s
                st2.emit(m, it, vs[1] if len(vs) > 1 else None)
                for s3, n3, e3 in it_next(X, st2, fr, skip_it(X, st2, it)):
                    if e3 is not None:
                        out.append((s3, some(X, retty, retype(X, s3, e3, inner))))
        return out
    if m == "partition":
        t = P.types[retty]

        def step(s, acc, e):
            out = []
            for s2, r in X.call_value(fr, s, vs[1], [X.vref(e)], P.tyname.get("bool")):
                for s3, q in fork(X, s2, r):
                    a, b = acc.args[2], acc.args[3]
                    if q:
                        a = vpush(a, e)
                    else:
                        b = vpush(b, e)
                    out.append((s3, ("cont", mk("agg", ("tuple", 0, a, b), None, retty))))
            return out

        def coll(v, ty):
            if not X.P.types[ty]["n"].startswith(("std::collections::", "alloc::collections::", "hashbrown::")) or v.op != "arr":
                return v
            m2 = mk("mempty", (), None, ty)
            for e in v.args:
                e = X.expand(e)
                if e.op == "agg" and e.args[0] == "tuple" and len(e.args) == 4:
                    m2 = mk("minsert", (m2, e.args[2], e.args[3]), None, ty)
                else:
                    return X.fresh("partition", ty)
            return m2

        out = []
        for s, r in drive(X, st, fr, it, mk("agg", ("tuple", 0, mk("arr", (), None, t["f"][0]), mk("arr", (), None, t["f"][1])), None, retty), step, key):
            a = r[1]
            if a.op == "agg" and len(a.args) == 4:
                a = mk("agg", ("tuple", 0, coll(a.args[2], t["f"][0]), coll(a.args[3], t["f"][1])), None, retty)
            out.append((s, a))
        return out
    if m == "eq":
        other = itval(X, st, to_iter(X, st, vs[1], vs[1].ty))
        if decided_it(X, st, it) and decided_it(X, st, other):
            push = lambda s, acc, e: [(s, ("cont", mk("agg", ("tuple", 0) + acc.args[2:] + (e,))))]
            out = []
            for s, r in drive(X, st, fr, it, mk("agg", ("tuple", 0)), push, ("itereq", fr.line, 0)):
                for s2, r2 in drive(X, s, fr, other, mk("agg", ("tuple", 0)), push, ("itereq", fr.line, 1)):
                    a, b = r[1].args[2:], r2[1].args[2:]
                    c = I(int(len(a) == len(b)), 1)
                    if len(a) == len(b):
                        for x, y in zip(a, b):
                            c = band(c, eqv(X, s2, x, y))
                    out.append((s2, c))
            return out
        return R(st, app("itereq", (it, other), 1))
    if m == "size_hint":
        return None
    return None


class NoOrd(Exception):
    pass


def ordcmp(X, st, a, b, ty):
    """[(state, -1 | 0 | 1)]: derived/builtin ordering of two values"""
    a, b = deref_all(X, st, a), deref_all(X, st, b)
    P = X.P
    t = P.types[ty] if ty is not None else None
    while t is not None and t["k"] == "ref":
        ty = t["e"]
        t = P.types[ty]
    if a.w is not None and b.w is not None:
        f = slt if ty is not None and P.signed(ty) else lt
        out = []
        for s, q in fork(X, st, f(a, b)):
            if q:
                out.append((s, -1))
            else:
                for s2, q2 in fork(X, s, eq(a, b)):
                    out.append((s2, 0 if q2 else 1))
        return out
    if t is None:
        raise NoOrd()
    if t["k"] == "tuple":
        fs = [(0, i, f) for i, f in enumerate(t["f"])]
        return lexi(X, st, [(X.fld(a, v, i, f), X.fld(b, v, i, f), f) for v, i, f in fs])
    if t["k"] == "adt" and t["adt"].split("::")[-1] in ("Option", "Result", "Reverse"):
        if t["adt"].endswith("Reverse"):
            f = t["v"][0]["f"][0][1]
            return [(s, -r) for s, r in ordcmp(X, st, X.fld(a, 0, 0, f), X.fld(b, 0, 0, f), f)]
        out = []
        for s, q in fork(X, st, eq(X.discr(a, 64), c64(0))):
            for s2, q2 in fork(X, s, eq(X.discr(b, 64), c64(0))):
                if q != q2:
                    out.append((s2, -1 if q else 1))
                    continue
                vi = 0 if q else 1
                fs = t["v"][vi]["f"]
                out += lexi(X, s2, [(X.fld(a, vi, i, f[1]), X.fld(b, vi, i, f[1]), f[1]) for i, f in enumerate(fs)])
        return out
    raise NoOrd()


def lexi(X, st, pairs):
    cur, out = [st], []
    for a, b, ty in pairs:
        nxt = []
        for s in cur:
            for s2, r in ordcmp(X, s, a, b, ty):
                if r:
                    out.append((s2, r))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, 0) for s in cur]


def extremum(X, st, fr, it, m, vs, retty, key):
    """max/min family over an iterator with a decided number of elements"""
    P = X.P
    inner = opt_inner(X, retty)
    mx = m.startswith("max")

    def fty(f):
        f = deref_all(X, st, f)
        t = P.types[f.ty] if f.ty is not None else (P.types[f.args[0]] if f.op == "fnitem" else None)
        g = P.fns.get(t.get("i")) if t else None
        return g["locals"][0] if g and "locals" in g else None

    def upd(s, acc, e):
        e = retype(X, s, e, inner)
        if acc.op != "agg" or acc.args[0] != "best":
            raise NoOrd()
        if acc.args[1] == 0:
            if m in ("max_by_key", "min_by_key"):
                return [(s2, ("cont", mk("agg", ("best", 1, e, k)))) for s2, k in X.call_value(fr, s, vs[1], [X.vref(e)])]
            return [(s, ("cont", mk("agg", ("best", 1, e, e))))]
        out = []
        b, bk = acc.args[2], acc.args[3]
        if m in ("max_by", "min_by"):
            for s2, r in X.call_value(fr, s, vs[1], [X.vref(b), X.vref(e)]):
                d = X.discr(r, 8)
                for s3, neg in fork(X, s2, eq(d, I(255, 8))):
                    if neg:
                        c = -1
                        out.append((s3, c, e, e))
                        continue
                    for s4, z in fork(X, s3, eq(d, I(0, 8))):
                        out.append((s4, 0 if z else 1, e, e))
        else:
            ks = X.call_value(fr, s, vs[1], [X.vref(e)]) if m in ("max_by_key", "min_by_key") else [(s, e)]
            kt = fty(vs[1]) if m in ("max_by_key", "min_by_key") else inner
            for s2, k in ks:
                for s3, c in ordcmp(X, s2, bk, k, kt):
                    out.append((s3, c, e, k))
        # Iterator::max keeps the last maximum, min the first minimum
        return [(s2, ("cont", mk("agg", ("best", 1, e2, k2)) if (c <= 0 if mx else c > 0) else acc)) for s2, c, e2, k2 in out]

    try:
        rs = drive(X, st, fr, it, mk("agg", ("best", 0)), upd, key)
    except NoOrd:
        return None
    out = []
    for s, r in rs:
        v = r[1]
        if v.op != "agg" or v.args[0] != "best":
            return None
        out.append((s, none(X, retty) if v.args[1] == 0 else some(X, retty, v.args[2])))
    return out


def vpush(v, x):
    if v.op == "arr" and len(v.args) < SEQ_MAX:
        return mk("arr", v.args + (x,), None, v.ty)
    return mk("push", (v, x), None, v.ty)


def collect_into(X, st, fr, it, retty):
    P = X.P
    t = P.types[retty]
    key = ("iter", "collect", fr.f["def"], fr.line)
    n = t["adt"].split("::")[-1] if t["k"] == "adt" else t["k"]
    if n in ("Result", "Option"):
        good = 0 if n == "Result" else 1
        inner = t["v"][good]["f"][0][1]
        acc0, push = collector(X, st, inner)
        if acc0 is None:
            return None

        def step(s, acc, e):
            out = []
            if e.op != "agg" and e.ty is None:
                return [(s, ("cont", fresh("coll", None, inner)))]
            et = P.types[e.ty]
            for s2, q in fork(X, s, eq(X.discr(e, 64), c64(good))):
                if q:
                    out.append((s2, ("cont", push(s2, acc, X.fld(e, good, 0, et["v"][good]["f"][0][1])))))
                else:
                    if n == "Result":
                        out.append((s2, ("brk", err(X, retty, X.fld(e, 1, 0, et["v"][1]["f"][0][1])))))
                    else:
                        out.append((s2, ("brk", none(X, retty))))
            return out

        return [(s, r[1] if r[0] == "brk" else mk("agg", (t["n"], good, r[1]), None, retty)) for s, r in drive(X, st, fr, it, acc0, step, key)]
    acc0, push = collector(X, st, retty)
    if acc0 is None:
        return None
    # a copy of a whole sequence
    if n in ("Vec", "Box") and it.args[0] == "seq" and it.args[6] == "val" and it.args[2] is None and isc(it.args[4]) and cv(it.args[4]) == 0:
        return R(st, wrapbox(X, st, it.args[1], retty, n))
    if n in ("Vec", "Box"):
        mv = mapped_seq(X, st, fr, it, retty)
        if mv is not None:
            return R(st, wrapbox(X, st, mv, retty, n))
    out = []
    for s, r in drive(X, st, fr, it, acc0, lambda s, acc, e: [(s, ("cont", push(s, acc, e)))], key):
        out.append((s, wrapbox(X, s, r[1], retty, n)))
    return out


def wrapbox(X, st, v, retty, n):
    if n == "Box":
        loc = X.heap(st, v)
        return mk("agg", (X.P.types[retty]["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, retty)
    return v


def collector(X, st, ty):
    P = X.P
    t = P.types[ty]
    n = t["adt"].split("::")[-1] if t["k"] == "adt" else t["k"]
    if n in ("Vec", "Box", "VecDeque"):
        a = [x for x in (t["a"] or []) if isinstance(x, int)]
        ety = a[0] if a and n != "Box" else None
        return mk("arr", (), None, ty), lambda s, acc, e: vpush(acc, retype(X, s, e, ety))
    if n in ("HashMap", "BTreeMap"):
        def push(s, acc, e):
            e = e if e.op == "agg" else X.expand(e)
            if e.op != "agg":
                return fresh("map", None, ty)
            return map_set(X, s, acc, deref_key(X, s, e.args[2]), e.args[3])

        return mk("mempty", (), None, ty), push
    if n in ("HashSet", "BTreeSet"):
        return mk("mempty", (), None, ty), lambda s, acc, e: map_set(X, s, acc, e, unit(X))
    if n == "String":
        def push(s, acc, e):
            if e.w == 32:
                e = mk("strc", (chr(cv(e)).encode(),)) if isc(e) else mk("app", ("chr", e))
            else:
                e = deref_all(X, s, e)
            return scat(X, acc, e)

        return mk("strc", (b"",), None, None), push
    if n == "tuple" and not t["f"]:
        return unit(X), lambda s, acc, e: acc
    return None, None


def deref_key(X, s, k):
    return k


def mapped_seq(X, st, fr, it, ty):
    """value of a pure map chain over a whole sequence of unknown length"""
    fs = []
    while it.op == "it" and it.args[0] == "map":
        fs.append(it.args[2])
        it = it.args[1]
    if not fs or it.op != "it" or it.args[0] != "seq":
        return None
    _, src, sl, sp, lo, hi, mode, ety = it.args
    if sl is not None or src is None or mode != "val" or not (isc(lo) and cv(lo) == 0) or isc(st.resolve(hi)) or hi is not X.length(st, src):
        return None
    w = X.P.width(ety) if ety is not None else None
    if w is None:
        return None
    ev = fresh("each", w, ety)
    s, r, np = st.copy(), ev, len(X.panics)
    for f in reversed(fs):
        o = X.call_value(fr, s, f, [r])
        if len(o) != 1:
            del X.panics[np:]
            return None
        s, r = o[0]
    if len(X.panics) != np or any(s.store.get(k) is not x for k, x in st.store.items()) or len(s.facts) != len(st.facts):
        del X.panics[np:]
        return None
    return mk("mapped", (src, ev, r), None, ty)


def _extend(X, st, fr, vs, retty, fn):
    loc, path = X.deref_loc(vs[0])
    v = X.load(st, loc, path)
    it = itval(X, st, to_iter(X, st, vs[1], vs[1].ty))
    ty = X.P.types[fn["locals"][1]]["e"] if fn.get("locals") else v.ty
    acc0, push = collector(X, st, ty)
    if acc0 is None:
        return None
    st.emit("extendit", loc, path, it, X.P.loc(fr.f, fr.line))
    # whole-sequence copies
    if acc0.op != "mempty" and it.args[0] in ("seq",) and it.args[6] == "val" and it.args[1] is not None and isc(it.args[4]) and cv(it.args[4]) == 0:
        X.save(st, loc, path, concat(X, v, it.args[1]))
        return R(st, unit(X))
    if acc0.op != "mempty" and it.args[0] in ("copied", "cloned") and it.args[1].args[0] == "seq":
        sq = it.args[1]
        src = X.load(st, sq.args[2], sq.args[3]) if sq.args[2] is not None else sq.args[1]
        if isc(sq.args[4]) and cv(sq.args[4]) == 0 and sq.args[5] is X.length(st, src):
            X.save(st, loc, path, concat(X, v, src))
            return R(st, unit(X))
    mv = mapped_seq(X, st, fr, it, v.ty)
    if mv is not None:
        X.save(st, loc, path, concat(X, v, mv))
        return R(st, unit(X))
    if it.args[0] == "take" and it.args[1].args[0] == "repeat" and (not isc(it.args[2]) or cv(it.args[2]) > 24):
        if st.decide(eq(it.args[2], c64(0))) is True:
            return R(st, unit(X))
        X.save(st, loc, path, concat(X, v, mk("rep", (it.args[1].args[1], it.args[2]), None, v.ty)))
        return R(st, unit(X))
    key = ("iter", "extend", fr.f["def"], fr.line)

    def step(s, acc, e):
        cur = X.load(s, loc, path)
        X.save(s, loc, path, push(s, cur, e))
        return [(s, ("cont", None))]

    return [(s, unit(X)) for s, r in drive(X, st, fr, it, None, step, key)]


MODELS["<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend"] = _extend
MODELS["<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend"] = _extend


# ------------------------------------------------------------------ arrays
@model("std::array::from_fn")
def _fromfn(X, st, fr, vs, retty, fn):
    t = X.P.types[retty]
    n = t["len"]
    if n is None or n > 64:
        return None
    cur = [(st, ())]
    loc = X.heap(st, vs[0])
    f = mk("ref", (loc, ()), None, None)
    for i in range(n):
        cur = [(s2, a + (r,)) for s, a in cur for s2, r in X.call_value(fr, s, f, [c64(i)], t["e"])]
    return [(s, mk("arr", a, None, retty)) for s, a in cur]


@model("std::array::<impl [T; N]>::map")
def _amap(X, st, fr, vs, retty, fn):
    t = X.P.types[retty]
    a = X.expand(vs[0])
    if a.op != "arr":
        return None
    cur = [(st, ())]
    for e in a.args:
        cur = [(s2, acc + (r,)) for s, acc in cur for s2, r in X.call_value(fr, s, vs[1], [e], t["e"])]
    return [(s, mk("arr", acc, None, retty)) for s, acc in cur]


@model("std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from", "std::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from",
       "std::boxed::convert::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for std::boxed::Box<[T; N], A>>::try_from",
       "std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from")
def _arrtry(X, st, fr, vs, retty, fn):
    inner = res_inner(X, retty, 0)
    t = X.P.types[inner]
    isref = t["k"] == "ref"
    box = "Box<" in fn["def"]
    at = X.P.types[t["e"]] if isref else t
    if box:
        at = None
        for a in t["a"]:
            if isinstance(a, int) and X.P.types[a]["k"] == "array":
                at = X.P.types[a]
                aty = a
                break
        if at is None:
            return None
    else:
        aty = t["e"] if isref else inner
    n = at["len"]
    v = deref_all(X, st, vs[0])
    out = []
    for s, q in fork(X, st, eq(X.length(st, v), c64(n))):
        if q:
            if n <= 64:
                a = mk("arr", tuple(X.elem(s, v, c64(i), at["e"]) for i in range(n)), None, aty)
            else:
                a = mk(v.op, v.args, v.w, aty)
            if isref:
                out.append((s, ok(X, retty, vs[0] if vs[0].op == "ref" else X.vref(a))))
            elif box:
                loc = X.heap(s, a)
                out.append((s, ok(X, retty, mk("agg", (t["n"], 0, mk("ref", (loc, ()), None, None), unit(X)), None, inner))))
            else:
                out.append((s, ok(X, retty, a)))
        else:
            ety2 = res_inner(X, retty, 1)
            # Vec -> [T; N] hands the vector back
            out.append((s, err(X, retty, vs[0] if vs[0].ty == ety2 and ety2 is not None else X.fresh("arrerr", ety2))))
    return out


# ------------------------------------------------------------------ misc
@prefix("std::intrinsics::")
def _intr(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    if m in ("likely", "unlikely", "black_box"):
        return R(st, vs[0])
    if m in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid"):
        return R(st, unit(X))
    if m == "is_val_statically_known":
        return R(st, FALSE)
    if m == "ctpop":
        return R(st, mk("popcnt", (vs[0],), 32) if not isc(vs[0]) else I(bin(cv(vs[0])).count("1"), 32))
    if m == "bswap":
        b = bits(vs[0])
        w = vs[0].w
        return R(st, mkbits(sum((b[k : k + 8] for k in range(w - 8, -1, -8)), ())))
    if m == "select_unpredictable":
        return [(s, vs[1] if q else vs[2]) for s, q in fork(X, st, vs[0])]
    return None


@prefix("rand::")
def _rand(X, st, fr, vs, retty, fn):
    m = fn["def"].split("::")[-1]
    st.emit("rand", fn["def"], tuple(vs), X.P.loc(fr.f, fr.line))
    m = fn["def"].split("::")[-1]
    if m == "seed_from_u64":
        return R(st, mk("app", ("rngseed", vs[0]), None, retty))
    if m in ("random", "random_range", "random_bool") and vs and vs[0].op == "ref" and "Rng" in fn["def"]:
        # a generator with a known state: its outputs and its next state are functions of that state
        loc, path = last_ref(X, st, vs[0])
        g = X.load(st, loc, path)
        w = X.P.width(retty)
        if w is not None and (g.op == "app" and g.args[0] in ("rngseed", "rngnext")):
            args = [deref_all(X, st, v) for v in vs[1:]]
            v = mk("app", ("rngval", g, m) + tuple(args), w, retty)
            X.save(st, loc, path, mk("app", ("rngnext", g, m) + tuple(args), None, g.ty))
            return R(st, v)
    return R(st, X.fresh("rand", retty))


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call", "<std::boxed::Box<F, A> as std::ops::FnMut<Args>>::call_mut",
       "<std::boxed::Box<F, A> as std::ops::FnOnce<Args>>::call_once", "<std::boxed::Box<F, A> as std::ops::Fn<Args>>::call")
def _callonce(X, st, fr, vs, retty, fn):
    args = vs[1]
    if args.op == "agg" and args.args[0] == "tuple":
        al = list(args.args[2:])
    else:
        al = list(X.expand(args).args[2:]) if args.ty is not None else [args]
    return X.call_value(fr, st, vs[0], al, retty)


@model("std::thread::LocalKey::<T>::with", "std::alloc::handle_alloc_error")
def _tl(X, st, fr, vs, retty, fn):
    return R(st, X.fresh("tls", retty))


def ctor(X, st, fr, vs, retty, fn):
    """tuple-struct / variant constructors used as functions (no MIR body)"""
    t = X.P.types[retty] if retty is not None else None
    if t is None or t["k"] != "adt":
        return None
    last = fn["def"].split("::")[-1]
    for i, v in enumerate(t["v"]):
        if v["n"].split("::")[-1] == last and len(v["f"]) == len(vs) and vs:
            return R(st, mk("agg", (t["n"], i) + tuple(vs), None, retty))
    return None


from . import lexer as _lexer  # noqa: E402,F401  (registers its models)
