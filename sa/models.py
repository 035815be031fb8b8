"""Library semantics used by the abstract interpreter (numpy, builtins, pydantic, small parts of pandas).

Calls that are not modelled become opaque terms flagged unknown; a verdict never rests on one of them.
"""
from __future__ import annotations

import ast

import terms as X
from interp import Abort, Dead, Func, State, flat, objterm, take
from terms import EMPTY, FALSE, NONE, ONE, TRUE, UNBOUND, ZERO, T, band, bnot, bor, const, cval, is_num, is_str, select

FULL = X.node("slc", (NONE, NONE, NONE), "slc")


# ---------------------------------------------------------------- types
NUMT = {"int", "float", "numpy.integer", "numpy.floating", "numpy.float64", "numpy.int64", "numpy.int32", "numbers.Number", "numbers.Real", "numpy.number", "numpy.generic", "complex", "numpy.float32"}
INTT = {"int", "numpy.integer", "numpy.int64", "numpy.int32", "numbers.Integral"}
FLTT = {"float", "numpy.floating", "numpy.float64", "numpy.float32"}
SEQT = {
    "list": {"list", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Sequence", "collections.abc.Sized", "typing.Iterable", "typing.Sequence", "typing.Collection", "collections.abc.MutableSequence"},
    "tuple": {"tuple", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Sequence", "collections.abc.Sized", "collections.abc.Hashable", "typing.Iterable", "typing.Sequence", "typing.Collection"},
    "ndarray": {"numpy.ndarray", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Sized", "typing.Iterable", "typing.Collection"},
    "set": {"set", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Sized", "typing.Iterable", "typing.Collection", "collections.abc.Set"},
    "generator": {"collections.abc.Iterable", "collections.abc.Iterator", "typing.Iterable", "typing.Generator", "collections.abc.Generator"},
    "dict": {"dict", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Mapping", "collections.abc.Sized", "typing.Iterable", "typing.Mapping", "typing.Collection", "collections.abc.MutableMapping"},
    "df": {"pandas.DataFrame", "pandas.core.frame.DataFrame"},
    "str": {"str", "collections.abc.Collection", "collections.abc.Iterable", "collections.abc.Sequence", "collections.abc.Sized", "collections.abc.Hashable", "typing.Iterable", "typing.Sequence", "typing.Collection"},
    "Series": {"pandas.Series", "collections.abc.Iterable", "collections.abc.Collection", "typing.Iterable"},
}


def tnames(I, t, st):
    """flat list of class terms"""
    if t.op == "tup":
        return [y for x in t.args for y in tnames(I, x, st)]
    if t.op == "ref" and I.cell(st, t).kind in ("list", "set"):
        return [y for x in I.cell(st, t).content.args for y in tnames(I, x, st)]
    return [t]


def extname(t):
    if t.op == "ext":
        n = t.args[0]
        return n[len("builtins."):] if n.startswith("builtins.") else n
    return None


def isinst(I, v, ty, st):
    v = X.constrain(v, st.pc)
    if v.op == "ite":
        return select(X.atom(v.args[0]), isinst(I, v.args[1], ty, st), isinst(I, v.args[2], ty, st))
    names = tnames(I, ty, st)
    ext = {extname(x) for x in names if x.op == "ext"}
    cl = [x.args[0] for x in names if x.op == "cls"]
    if "object" in ext:
        return TRUE
    if v is NONE:
        return TRUE if "types.NoneType" in ext or "NoneType" in ext else FALSE
    kind = None
    if v.op == "ref":
        c = I.cell(st, v)
        if c.kind == "obj":
            if c.cls is None:
                return X.atom(X.uf("?isinstance", [v], "bool", True))
            m = c.cls.mro()
            if any(k in m for k in cl):
                return TRUE
            eb = {b for k in m for b in k.ext_bases}
            if eb & ext:
                return TRUE
            if "collections.abc.Iterable" in ext or "collections.abc.Collection" in ext:
                return TRUE if c.cls.lookup("__iter__")[0] is not None else FALSE
            if "collections.abc.Callable" in ext or "typing.Callable" in ext:
                return TRUE if c.cls.lookup("__call__")[0] is not None else FALSE
            return FALSE
        kind = {"arr": "ndarray", "list": "list", "set": "set", "dict": "dict", "df": "df"}.get(c.kind)
        if c.pytype in SEQT:
            kind = c.pytype
    elif v.op == "tup":
        kind = "tuple"
    elif v.sort == "str":
        kind = "str"
    elif v.sort == "arr":
        kind = "ndarray"
    if kind is not None:
        return TRUE if SEQT.get(kind, {kind}) & ext else FALSE
    if v.sort == "bool" or v in (TRUE, FALSE):
        return TRUE if ext & ({"bool", "numpy.bool_"} | INTT) else FALSE
    if v.sort == "num" or v.op in ("nan", "inf"):
        nt = ext & NUMT
        if not nt:
            return FALSE
        if (ext & INTT) and (ext & FLTT):
            return TRUE
        pt = X.SYM.get(v, {}).get("pytype")
        if pt == "float" or v.op in ("nan", "inf"):
            return TRUE if ext & FLTT else FALSE
        if pt == "int":
            return TRUE if ext & INTT else FALSE
        if "numbers.Number" in ext or "numbers.Real" in ext:
            return TRUE
        if is_num(v) and cval(v).denominator != 1:
            return TRUE if ext & FLTT else FALSE
        if v.op == "uf" and not (ext & INTT):
            pass
        return X.atom(X.uf("isinstance:" + ",".join(sorted(nt)), [v], "bool"))
    if v.op in ("func", "bound", "partial"):
        return TRUE if ext & {"collections.abc.Callable", "typing.Callable", "types.FunctionType"} else FALSE
    if v.op == "cls":
        return TRUE if "type" in ext else FALSE
    allow = X.SYM.get(v, {}).get("types")
    key = ",".join(sorted([str(x) for x in ext] + [c.name for c in cl]))
    return X.atom(X.uf("isinstance:" + key, [v], "bool", v.unk))


# ---------------------------------------------------------------- helpers
def D(I, v, st):
    return I.deep(v, st)


def arrterm(I, v, st):
    """array contents behind a value (scalars stay scalars)"""
    d = I.deep(v, st)
    return toarr(d)


def toarr(d):
    if d.op == "ite":
        return select(X.atom(d.args[0]), toarr(d.args[1]), toarr(d.args[2]))
    if d.op == "tup":
        return X.seq([toarr(x) if x.op == "tup" else x for x in d.args])
    if d.op in ("range",):
        a, b, s = d.args
        if s is ONE:
            i = X.fresh("i", "num", int=True, nonneg=True)
            return X.lam(X.sub(b, a), i, X.add(a, i))
    return d


def at1d(d):
    if d.op == "ite":
        return select(X.atom(d.args[0]), at1d(d.args[1]), at1d(d.args[2]))
    if d.op in ("tup",):
        return X.seq(d.args)
    if d.sort == "arr":
        return d
    if d.sort == "any" and d.op in ("sym", "uf", "var") and not d.unk:
        return X.uf("atleast_1d", [d], "arr")
    if d.sort == "any":
        return X.uf("atleast_1d", [d], "arr", d.unk)
    return X.seq([d])


def ew1(f):
    def g(I, args, kw, st, node):
        r = X.ew(f[0], f[1], arrterm(I, args[0], st))
        if "out" in kw:
            return outstore(I, kw["out"], r, st, node)
        return I.arr(st, r)
    return g


def outstore(I, o, r, st, node):
    if o.op == "tup" and len(o.args) == 1:
        o = o.args[0]
    if o.op == "ref":
        I.write(st, o, node, "out=")
        I.put_content(st, o, r)
    return o


def ew2(name, f):
    def g(I, args, kw, st, node):
        r = X.ew(name, f, arrterm(I, args[0], st), arrterm(I, args[1], st))
        w = kw.get("where")
        o = kw.get("out") if "out" in kw else (args[2] if len(args) > 2 else None)
        if w is not None and w is not TRUE:
            old = D(I, o, st) if o is not None else X.unknown("uninit")
            r = X.ew("where", I._where, D(I, w, st), r, old)
        if o is not None and o is not NONE:
            return outstore(I, o, r, st, node)
        return I.arr(st, r)
    return g


def s_sqrt(x):
    return X.s_pow(x, X.HALF)


def s_log10(x):
    return X.s_div(X.s_log(x), X.t_log(const(10)))


def s_log2(x):
    return X.s_div(X.s_log(x), X.t_log(const(2)))


def s_sign(x):
    return select(X.s_lt(ZERO, x), ONE, select(X.s_lt(x, ZERO), const(-1), ZERO)) if x.op not in ("nan",) else x


def numeric(x):
    """value of a term without symbols (powers of numbers), None when it has some"""
    if is_num(x):
        return cval(x)
    if x.sort != "num" or x.op in ("uf", "sym", "nan", "inf"):
        return None
    try:
        v = 0.0
        for m, c in X.to_poly(x).items():
            q = float(c)
            for b, e in m:
                if not (is_num(b) and is_num(e)):
                    return None
                q *= float(cval(b)) ** float(cval(e))
            v += q
        return v if isinstance(v, float) and abs(v - round(v)) > 1e-9 else None
    except (TypeError, ValueError, OverflowError, ZeroDivisionError, AttributeError):
        return None


def uf1(name, sort="num"):
    def f(x):
        if name in ("floor", "ceil", "rint", "trunc") and not is_num(x) and numeric(x) is not None:
            x = const(X.Fraction(numeric(x)))
        if is_num(x) and name in ("floor", "ceil", "rint", "trunc"):
            import math

            v = cval(x)
            return const({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": lambda q: round(q)}[name](v))
        if name in ("floor", "ceil", "rint", "trunc") and X.is_int(x):
            return x
        if x is ZERO and name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh"):
            return ZERO
        if x is ZERO and name in ("cos", "cosh"):
            return ONE
        if name in ("cos",) and _negl(x):
            x = X.neg(x)
        return X.uf(name, [x], sort)
    return f


def _negl(x):
    p = X.to_poly(x)
    m = min(p.items(), key=lambda kv: str(kv[0]) and tuple((b.id, e.id) for b, e in kv[0])) if p else None
    return bool(m and m[1] < 0)


def s_isnan(x):
    if x is X.NAN:
        return TRUE
    if x.op in ("const", "inf") or x is X.PI:
        return FALSE
    if x.op == "uf" and x.args[0] == "red" and x.args[1] in ("min", "max", "sum", "prod"):
        return X.red("any", X.ew("isnan", s_isnan, x.args[2]))  # these reductions propagate NaN
    return X.atom(X.uf("isnan", [x], "bool")) if not X.SYM.get(x, {}).get("finite") else FALSE


def s_isinf(x):
    if x.op == "inf" or x is X.INF or X.neg(x) is X.INF:
        return TRUE
    if x.op == "const" or x is X.NAN:
        return FALSE
    return X.atom(X.uf("isinf", [x], "bool"))


EW1 = {
    "abs": ("abs", X.s_abs), "absolute": ("abs", X.s_abs), "fabs": ("abs", X.s_abs), "negative": ("neg", X.s_neg), "sqrt": ("sqrt", s_sqrt),
    "log": ("log", X.s_log), "log10": ("log10", s_log10), "log2": ("log2", s_log2), "exp": ("exp", X.s_exp), "square": ("sq", lambda x: X.s_mul(x, x)),
    "sign": ("sign", s_sign), "isnan": ("isnan", s_isnan), "isinf": ("isinf", s_isinf), "isfinite": ("isfinite", lambda x: bnot(bor(s_isnan(x), s_isinf(x)))),
    "logical_not": ("not", lambda x: bnot(X.truth(x))), "reciprocal": ("rec", lambda x: X.s_div(ONE, x)), "log1p": ("log1p", lambda x: X.s_log(X.s_add(ONE, x))),
    "deg2rad": ("d2r", lambda x: X.s_div(X.s_mul(x, X.PI), const(180))), "radians": ("d2r", lambda x: X.s_div(X.s_mul(x, X.PI), const(180))),
}
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "floor", "ceil", "rint", "trunc", "asin", "acos", "atan"):
    _c = {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(_n, _n)
    EW1[_n] = (_c, uf1(_c))
EW2 = {
    "add": ("add", X.s_add), "subtract": ("sub", lambda a, b: X.s_add(a, X.s_neg(b))), "multiply": ("mul", X.s_mul), "divide": ("div", X.s_div), "true_divide": ("div", X.s_div),
    "power": ("pow", X.s_pow), "float_power": ("pow", X.s_pow), "pow": ("pow", X.s_pow), "maximum": ("max2", None), "minimum": ("min2", None), "fmax": ("max2", None), "fmin": ("min2", None),
    "less": ("lt", X.s_lt), "less_equal": ("le", X.s_le), "greater": ("gt", lambda a, b: X.s_lt(b, a)), "greater_equal": ("ge", lambda a, b: X.s_le(b, a)), "equal": ("eq", X.s_eq), "not_equal": ("ne", lambda a, b: bnot(X.s_eq(a, b))),
    "logical_and": ("and", lambda a, b: band(X.truth(a), X.truth(b))), "logical_or": ("or", lambda a, b: bor(X.truth(a), X.truth(b))),
    "bitwise_and": ("and", lambda a, b: band(X.truth(a), X.truth(b))), "bitwise_or": ("or", lambda a, b: bor(X.truth(a), X.truth(b))),
    "logical_xor": ("xor", lambda a, b: select(X.truth(a), bnot(X.truth(b)), X.truth(b))),
    "mod": ("mod", lambda a, b: X.uf("mod", [a, b], "num")), "remainder": ("mod", lambda a, b: X.uf("mod", [a, b], "num")), "floor_divide": ("floordiv", lambda a, b: X.uf("floordiv", [a, b], "num")),
    "arctan2": ("arctan2", lambda a, b: X.uf("arctan2", [a, b], "num")), "hypot": ("hyp", lambda a, b: s_sqrt(X.s_add(X.s_mul(a, a), X.s_mul(b, b)))),
}


def _mx(x, y):
    return x if x is y else select(X.s_lt(x, y), y, x)


def _mn(x, y):
    return x if x is y else select(X.s_lt(y, x), y, x)


for _k in list(EW2):
    if EW2[_k][0] == "max2":
        EW2[_k] = ("max2", _mx)
    elif EW2[_k][0] == "min2":
        EW2[_k] = ("min2", _mn)


def seq_args(I, v, st, node):
    """list of values in a literal sequence argument, or None"""
    v = X.constrain(v, st.pc)
    if v.op == "ref":
        v = I.cell(st, v).content
    if v.op in ("tup", "seq"):
        return list(v.args)
    return None


def concat(I, st, v, node, scalars=True):
    v = X.constrain(v, st.pc)
    if v.op == "ite":
        return I.on_leaves(v, st, lambda l, s: concat(I, s, l, node))
    xs = seq_args(I, v, st, node)
    if xs is None:
        d = D(I, v, st)
        if d.sort == "arr":
            return I.arr(st, flat(d))
        return X.unknown("concat", d)
    parts = [at1d(arrterm(I, x, st)) for x in xs]
    return I.arr(st, X.mk_concat(parts) if parts else EMPTY)


def fcast(x):
    return x


def shape_len(I, v, st):
    d = D(I, v, st)
    if d.op in ("tup", "seq"):
        return d.args
    return (d,)


def alloc(I, st, v, fill):
    dims = shape_len(I, v, st)
    if len(dims) == 1:
        r = X.lift("alloc", lambda n: X.full(n, fill), dims[0])
        return I.arr(st, r) if X.is_arr(r) else I.new(st, "arr", r, pytype="ndarray")
    if len(dims) == 2 and is_num(dims[1]):
        return I.new(st, "arr", X.node("cols", [X.full(dims[0], fill)] * int(cval(dims[1]))), pytype="ndarray")
    return I.new(st, "arr", X.uf("alloc", list(dims) + [fill], "arr"), pytype="ndarray")


UNINIT = X.uf("uninitialised", [], "num")


def diff(d):
    if d.op == "ite":
        return X.lift("diff", diff, d)
    if d.op == "seq":
        return X.seq([X.sub(b, a) for a, b in zip(d.args, d.args[1:])])
    n = X.length(d)
    i = X.fresh("i", "num", int=True, nonneg=True)
    return X.lift("difl", lambda m: X.lam(X.sub(m, ONE), i, X.sub(X.elem(d, X.add(i, ONE)), X.elem(d, i))), n)


def cumsum(d):
    if d.op == "ite":
        return X.lift("cumsum", cumsum, d)
    if d.op == "seq":
        out, a = [], ZERO
        for x in d.args:
            a = X.add(a, x)
            out.append(a)
        return X.seq(out)
    i = X.fresh("i", "num", int=True, nonneg=True)
    j = X.fresh("j", "num", int=True, nonneg=True)
    n = X.length(d)
    return X.lift("cums", lambda m: X.lam(m, i, X.red("sum", X.lam(X.add(i, ONE), j, X.elem(d, j)))), n)


def rounder(x, k):
    if is_num(x) and is_num(k):
        return const(round(cval(x), int(cval(k)))) if cval(k) else const(round(cval(x)))
    if k is ZERO and X.is_int(x):
        return x
    return X.uf("round", [x, k], "num")


def linspace(a, b, n):
    i = X.fresh("i", "num", int=True, nonneg=True)
    return X.lift("linsp", lambda a, b, m: X.lam(m, i, X.add(a, X.div(X.mul(i, X.sub(b, a)), X.sub(m, ONE)))), a, b, n)


def sort_term(d):
    if d.op == "ite":
        return X.lift("sort", sort_term, d)
    if d.op == "seq":
        xs = list(d.args)
        if len(xs) <= 1:
            return d
        if all(is_num(x) for x in xs):
            return X.seq(sorted(xs, key=cval))
        if all(is_str(x) for x in xs):
            return X.seq(sorted(xs, key=cval))
        if len(xs) == 2:
            return X.seq([X.min2(*xs), X.max2(*xs)])
    if d.op == "uf" and d.args[0] == "sort":
        return d
    return X.uf("sort", [d], "arr")


X.REMAKE["sort"] = sort_term


def axis_of(args, kw, pos):
    a = kw.get("axis", args[pos] if len(args) > pos else NONE)
    return a


def reduce_(kind):
    def g(I, args, kw, st, node):
        d = arrterm(I, args[0], st)
        ax = axis_of(args, kw, 1)
        if ax is not NONE:
            if d.op == "cols" and ax is ZERO:
                return I.arr(st, X.seq([X.red(kind, c) for c in d.args]))
            if d.op == "cols" and ax is ONE:
                f = {"sum": X.add, "prod": X.mul, "max": X.max2, "min": X.min2}.get(kind)
                if f:
                    r = d.args[0]
                    for c in d.args[1:]:
                        r = f(r, c)
                    return I.arr(st, r)
            if not (ax is ZERO and X.is_arr(d) and d.op in ("lam", "sym", "filt", "seq", "concat", "slice") and (d.op != "lam" or d.args[1].sort == "num") and (d.op != "seq" or all(x.sort == "num" for x in d.args))):
                return X.uf("?red_axis_" + kind, [d, ax], "any", True)
        if kind in ("max", "min"):
            empty = X.lift("eq0", X.eq0, X.length(d)) if X.is_arr(d) else FALSE
            if "initial" not in kw and I_raise_empty(I, st, empty):
                I.do_raise(st, empty, "ValueError", node)
                d = X.constrain(d, st.pc)
            if "default" in kw:
                return select(empty, kw["default"], red2d(kind, d))
            if "initial" in kw:
                return select(empty, kw["initial"], X.lift("init", _mx if kind == "max" else _mn, kw["initial"], red2d(kind, d)))
        r = red2d(kind, d)
        w = kw.get("where")
        if w is not None:
            return X.uf("?redwhere", [d, D(I, w, st)], "any", True)
        return r
    return g


def I_raise_empty(I, st, c):
    """only a reduction that is certainly empty on some decided path raises"""
    return c is TRUE or X.constrain(c, st.pc) is TRUE


def red2d(kind, d):
    if d.op == "ite":
        return X.lift("red2d" + kind, lambda a: red2d(kind, a), d)
    if d.op == "cols":
        f = {"sum": X.add, "prod": X.mul, "max": X.max2, "min": X.min2, "any": lambda a, b: bor(a, b), "all": lambda a, b: band(a, b)}[kind]
        r = X.red(kind, d.args[0])
        for c in d.args[1:]:
            r = f(r, X.red(kind, c))
        return r
    if d.op == "seq" and d.args and all(x.op in ("seq", "lam", "tup") or x.sort == "arr" for x in d.args):
        f = {"sum": X.add, "prod": X.mul, "max": X.max2, "min": X.min2, "any": lambda a, b: bor(a, b), "all": lambda a, b: band(a, b)}[kind]
        r = red2d(kind, d.args[0])
        for c in d.args[1:]:
            r = f(r, red2d(kind, c))
        return r
    if not X.is_arr(d):
        if kind in ("any", "all"):
            return X.truth(d)
        return d
    return X.red(kind, d)


def mean(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    w = kw.get("weights", NONE)
    ax = kw.get("axis", NONE)
    if d.op == "cols" and ax is ONE:
        r = d.args[0]
        for c in d.args[1:]:
            r = X.add(r, c)
        return I.arr(st, X.div(r, const(len(d.args))))
    if ax is not NONE and not (ax is ZERO and d.op != "cols"):
        if d.op == "cols" and ax is ZERO:
            return I.arr(st, X.seq([X.div(X.red("sum", c), X.length(c)) for c in d.args]))
        return X.uf("?mean_axis", [d, ax], "any", True)
    if w is not NONE:
        wd = arrterm(I, w, st)
        return X.div(X.red("sum", X.mul(d, wd)), X.red("sum", wd))
    if not X.is_arr(d):
        return d
    return X.lift("mean", lambda a: X.div(X.red("sum", a), X.length(a)), d)


def where3(I, args, kw, st, node):
    if len(args) == 1:
        m = arrterm(I, args[0], st)
        return X.tup([X.uf("where", [m], "arr")])
    c, a, b = (arrterm(I, x, st) for x in args[:3])
    return I.arr(st, X.ew("where", I._where, c, a, b))


def delete(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    k = arrterm(I, args[1], st)
    if "axis" in kw and kw["axis"] not in (NONE, ZERO) or len(args) > 2 and args[2] not in (NONE, ZERO):
        return X.uf("?delete_axis", [d, k], "arr", True)
    m = I.mask_of(k)
    if m is None and k.op == "uf" and k.args[0] == "where":
        m = k.args[1]
    if m is not None:
        return I.arr(st, X.mk_filt(d, X.ew("not", lambda x: bnot(X.truth(x)), m)))
    if d.op == "seq" and is_num(k):
        xs = list(d.args)
        del xs[int(cval(k))]
        return I.arr(st, X.seq(xs))
    if d.sort == "arr" and (k.sort == "num"):
        n = X.length(d)
        if is_num(k) and cval(k) < 0:
            k = X.add(n, k)
        return I.arr(st, X.mk_concat([X.mk_slice(d, ZERO, k), X.mk_slice(d, X.add(k, ONE), X.sub(X.sub(n, k), ONE))]))
    return I.arr(st, X.uf("delete", [d, k], "arr"))


def nonzero(m):
    return X.uf("where", [m], "arr")


# ---------------------------------------------------------------- external calls
MUTATORS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "random.shuffle": 0, "numpy.random.shuffle": 0, "heapq.heapify": 0, "heapq.heappush": 0}
# sources whose value depends on anything but the arguments
NONDET = (
    "numpy.random.", "random.", "time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "uuid.", "secrets.", "os.urandom", "os.getenv", "os.environ", "os.getpid", "os.getcwd", "os.listdir", "os.path.exists", "os.path.isfile", "os.path.getmtime", "os.stat",
    "os.cpu_count", "socket.", "platform.", "getpass.", "tempfile.", "subprocess.", "threading.get_ident", "builtins.open", "builtins.input", "builtins.id", "pathlib.Path.read_", "pathlib.Path.cwd", "pathlib.Path.home", "numpy.load", "numpy.loadtxt", "numpy.genfromtxt", "numpy.fromfile", "pandas.read_", "gc.", "sys.getrefcount", "locale.",
)
CLOCK = ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow")
# calls that change settings other code can see
SETTINGS = ("numpy.seterr", "numpy.set_printoptions", "pandas.set_option", "os.putenv", "os.chdir", "sys.setrecursionlimit", "locale.setlocale", "builtins.setattr.module", "numba.set_num_threads", "os.umask", "gc.disable")
RESULTLESS = ("warnings.warn", "builtins.print", "time.sleep", "warnings.simplefilter", "warnings.filterwarnings", "logging.")


def extconst(I, full, st):
    c = {
        "numpy.pi": X.PI, "math.pi": X.PI, "numpy.inf": X.INF, "math.inf": X.INF, "numpy.nan": X.NAN, "math.nan": X.NAN, "numpy.e": X.EUL, "math.e": X.EUL, "numpy.newaxis": NONE, "numpy.Inf": X.INF, "numpy.NaN": X.NAN,
    }.get(full)
    return c


def _isfin(t):
    return t.op == "const"


def b_len(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite":
        return I.on_leaves(v, st, lambda l, s: b_len(I, [l], {}, s, node))
    if v.op == "ref":
        c = I.cell(st, v)
        if c.kind == "dict":
            ps = [p for p, _ in c.fields.values()]
            if all(X.constrain(p, st.pc) in (TRUE, FALSE) for p in ps):
                return const(sum(X.constrain(p, st.pc) is TRUE for p in ps))
            r = ZERO
            for p in ps:
                r = X.add(r, select(p, ONE, ZERO))
            return r
        if c.kind == "df":
            for p, x in c.fields.values():
                d = D(I, x, st)
                if X.is_arr(d):
                    return X.length(d)
            return X.unknown("dflen")
        if c.kind == "obj":
            f, _ = c.cls.lookup("__len__") if c.cls else (None, None)
            if f is not None:
                return I.call(f, [v], {}, st, node)
            I.do_raise(st, TRUE, "TypeError", node)
    d = D(I, v, st)
    if d is NONE or d.sort in ("bool",) or (d.sort == "num"):
        I.do_raise(st, TRUE, "TypeError", node)
    if d.op == "tup":
        return const(len(d.args))
    if is_str(d):
        return const(len(cval(d)))
    return X.length(d)


def pairs(I, v, st, node):
    """the rows a zip or enumerate yields, as an array of tuples"""
    q = I.iter_seq(v, st, node)
    if q[0] == "finite":
        return X.seq(q[1])
    if q[0] == "fork":
        return select(X.atom(q[1]), pairs(I, q[2], st, node), pairs(I, q[3], st, node))
    if q[0] != "sym":
        return X.unknown("pairs", v)
    i = X.fresh("i", "num", int=True, nonneg=True)
    return X.lift("pairs", lambda n: X.lam(n, i, q[2](i)), q[1])


def b_sorted(I, args, kw, st, node):
    v = args[0]
    d = pairs(I, v, st, node) if v.op in ("zip", "enumerate") else arrterm(I, v, st)
    if v.op == "ref" and I.cell(st, v).kind == "dict":
        q = I.dict_keys(I.cell(st, v), st)
        d = X.seq(q[1])
    if "key" in kw or "reverse" in kw:
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        if d.op == "seq" and len(d.args) <= 1:
            return I.newlist(st, list(d.args))
        if key is NONE and rev is FALSE:
            return I.new(st, "list", sort_term(d), pytype="list")
        if key is NONE and rev is TRUE:
            return I.new(st, "list", X.lift("reversed", lambda x: X.uf("reverse", [x], "arr"), sort_term(d)), pytype="list")
        return I.new(st, "list", X.uf("sorted", [d, key if key.op not in ("func", "bound") else const(str(key)), rev], "arr", True), pytype="list")
    return I.new(st, "list", sort_term(d), pytype="list")


def b_sum(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if v.op == "ite":
        return I.on_leaves(v, st, lambda l, s: b_sum(I, [l] + list(args[1:]), kw, s, node))
    ct = None
    if v.op == "ref" and I.cell(st, v).kind in ("list", "set", "arr"):
        ct = I.cell(st, v).content
    elif v.op == "tup":
        ct = v
    if ct is not None and ct.op in ("seq", "tup"):
        r = start
        for x in ct.args:
            r = I.binop(ast.Add(), r, x, st, node)
        return r
    d = arrterm(I, v, st)
    s = X.red("sum", d) if X.is_arr(d) else X.uf("sum", [d], "any", d.unk)
    return I.arr(st, X.add(D(I, start, st), s)) if start is not ZERO else s


def minmax(kind):
    def g(I, args, kw, st, node):
        if len(args) == 1:
            v = args[0]
            d = arrterm(I, v, st)
            if v.op == "ref" and I.cell(st, v).kind == "dict":
                d = X.seq(I.dict_keys(I.cell(st, v), st)[1])
            if not X.is_arr(d) and d.op not in ("tup", "ite"):
                if d.sort == "any" and not d.unk:
                    return X.uf("red", [kind, d], "num")
            if "key" in kw:
                return X.unknown("minmaxkey", d)
            if "default" in kw and X.is_arr(d):
                e = X.lift("eq0", X.eq0, X.length(d))
                if e is TRUE:
                    return kw["default"]
                return select(e, kw["default"], X.red(kind, d))
            if d is EMPTY:
                I.do_raise(st, TRUE, "ValueError", node)
            return X.red(kind, d) if X.is_arr(d) or d.op == "tup" else X.uf("red", [kind, d], "num", d.unk)
        f = ("max2", _mx) if kind == "max" else ("min2", _mn)
        r = D(I, args[0], st)
        for a in args[1:]:
            r = X.lift(f[0], f[1], r, D(I, a, st))
        return r
    return g


def b_range(I, args, kw, st, node):
    a = [D(I, x, st) for x in args]
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = [a[0], a[1], ONE]
    return X.node("range", a, "any")


def b_anyall(kind):
    def g(I, args, kw, st, node):
        v = X.constrain(args[0], st.pc)
        if v.op == "ref" and I.cell(st, v).kind in ("list", "set") and I.cell(st, v).content.op == "seq":
            xs = [I.truthv(x, st) for x in I.cell(st, v).content.args]
            return X.bany(xs) if kind == "any" else X.ball(xs)
        if v.op == "tup":
            xs = [I.truthv(x, st) for x in v.args]
            return X.bany(xs) if kind == "any" else X.ball(xs)
        d = arrterm(I, v, st)
        return red2d(kind, d)
    return g


def setlike(I, v, st, node):
    if v is None:
        return EMPTY
    ct = I.as_content(v, st, node) if v.op != "dictkeys" else X.seq(I.dict_keys(I.cell(st, v.args[0]), st)[1])
    return I.uniq(I.deep(ct, st))


def copyval(I, v, st, deepc, top=True):
    if top:
        v = X.constrain(v, st.pc)
    if v.op == "ite":
        return select(X.atom(v.args[0]), copyval(I, v.args[1], st, deepc, False), copyval(I, v.args[2], st, deepc, False))
    if v.op != "ref":
        if v.op == "tup" and deepc:
            return X.tup([copyval(I, x, st, True) for x in v.args])
        return v
    memo = {}

    def go(r):
        if r.op == "ite":
            return select(X.atom(r.args[0]), go(r.args[1]), go(r.args[2]))
        if r.op == "tup":
            return X.tup([go(x) for x in r.args])
        if r.op == "seq":
            return X.seq([go(x) for x in r.args])
        if r.op != "ref":
            return r
        if r in memo:
            return memo[r]
        c = I.cell(st, r)
        nr = I.new(st, c.kind, c.content, cls=c.cls, pytype=c.pytype, meta=dict(c.meta) if c.meta else None)
        memo[r] = nr
        if c.fields is not None:
            f = {}
            for k, x in c.fields.items():
                if isinstance(x, tuple):
                    f[k] = (x[0], go(x[1]) if deepc else x[1])
                else:
                    f[k] = go(x) if deepc else x
            I.setcell(st, nr, fields=f)
        elif deepc and c.content is not None and I._hasref(c.content):
            I.setcell(st, nr, content=go(c.content) if c.content.op in ("seq", "tup", "ite") else c.content)
        if deepc and c.meta:
            m = {k: (go(x) if isinstance(x, T) else x) for k, x in c.meta.items()}
            I.setcell(st, nr, meta=m)
        return nr

    return go(v)


def hist_edges(I, st, b):
    return D(I, b, st)


def mk_df(I, st, fields, meta=None):
    return I.new(st, "df", fields=fields, meta=meta or {}, pytype="df")


def call(I, name, args, kw, st, node):
    full = name
    root, _, rest = name.partition(".")
    base = name.rsplit(".", 1)[-1]
    if any(v.op == "star" for v in args):
        # star argument of symbolic length
        if name in ("numpy.hstack",) or True:
            if root == "builtins" and base == "zip":
                pass
            else:
                if name == "itertools.zip_longest":
                    return o_zip_longest(I, args, kw, st, node)
                return X.uf("?" + name, [I.freeze(D(I, a, st), st) if a.op != "star" else a.args[0] for a in args], "any", True)
    if name.startswith(NONDET) and not name.startswith("numpy.random.default_rng"):
        I.event("nondet", st, node, what=name)
    if name.startswith("numpy.random.default_rng"):
        seed = D(I, args[0] if args else kw.get("seed", NONE), st)
        unseeded = band(st.pc, X.isnone(seed))
        if unseeded is not FALSE:
            I.event("nondet", st, node, what=name + "()", cond=unseeded)
        return X.uf("rng", [D(I, a, st) for a in args] + [D(I, kw["seed"], st)] if "seed" in kw else [D(I, a, st) for a in args], "any")
    if name in CLOCK:
        I.event("nondet", st, node, what=name)
        return X.uf("now", [], "any")
    if name in SETTINGS:
        I.event("global-write", st, node, what=name)
        return NONE
    if any(name == r or name.startswith(r) for r in RESULTLESS):
        return NONE
    if name in MUTATORS:
        o = args[MUTATORS[name]]
        if o.op == "ref":
            I.write(st, o, node, base)
            if name == "numpy.copyto":
                src = arrterm(I, args[1], st)
                c = I.cell(st, o).content
                src = src if X.is_arr(src) else X.full(X.length(c), src)
                w = kw.get("where")
                if w is not None:
                    src = X.ew("where", I._where, D(I, w, st), src, c)
                I.put_content(st, o, src)
            else:
                I.put_content(st, o, X.unknown(base, D(I, o, st)))
        return NONE
    if root == "numpy":
        args, kw = positional(rest, args, kw)
        h = NP.get(rest)
        if h is not None:
            return h(I, args, kw, st, node)
        if rest in EW1:
            return ew1(EW1[rest])(I, args, kw, st, node)
        if rest in EW2:
            return ew2(*EW2[rest])(I, args, kw, st, node)
        if rest in ("float32", "float16", "single", "half") and args:
            r = BUILT["float"](I, args, kw, st, node)
            return coerce("half" if rest in ("float16", "half") else "single", r) if r.op != "ref" else r
        if rest in ("int8", "uint8", "int16", "uint16") and args:
            r = BUILT["int"](I, args, kw, st, node)
            return coerce("uwrap" if rest[0] == "u" else "wrap", r) if r.op != "ref" else r
        if rest in ("float64", "float32", "int64", "int32", "int8", "int16", "float_", "double", "floating"):
            return BUILT["float" if "float" in rest or rest == "double" else "int"](I, args, kw, st, node)
        if rest.startswith("testing."):
            return NONE
    if root == "math":
        if rest in EW1:
            return ew1(EW1[rest])(I, args, kw, st, node)
        if rest in EW2:
            return ew2(*EW2[rest])(I, args, kw, st, node)
        if rest in ("fsum",):
            return NP["sum"](I, args, kw, st, node)
        if rest == "prod":
            return NP["prod"](I, args, kw, st, node)
        if rest in ("floor", "ceil", "trunc"):
            return X.lift(rest, uf1(rest), D(I, args[0], st))
    if root == "builtins":
        h = BUILT.get(rest)
        if h is not None:
            return h(I, args, kw, st, node)
        if rest.endswith(("Error", "Exception", "Warning", "Interrupt", "Exit", "Iteration")):
            return X.uf("exc:" + rest, [], "any")
        if rest == "dict.fromkeys":
            return o_fromkeys(I, args, kw, st, node)
        if rest.count(".") == 1 and args and rest.split(".")[0] in ("str", "list", "dict", "set", "tuple", "float", "int"):
            return I.call(I.getattr(args[0], base, st, node), list(args[1:]), kw, st, node)
    if root == "operator" and rest in OPER and len(args) == 2:
        return I.binop(OPER[rest](), args[0], args[1], st, node)
    h = OTHER.get(name)
    if h is not None:
        return h(I, args, kw, st, node)
    if root in ("numba",) or name.startswith("numba."):
        return numba_call(I, rest, args, kw, st, node)
    if root in ("matplotlib", "plotly", "mpl"):
        return X.uf("?" + name, [], "any", True)
    if name.startswith("pandas.api.extensions"):
        return I.ext("pandas.accessor")
    if root == "tqdm" or base == "tqdm":
        return args[0] if args else X.unknown("tqdm")
    if root == "typing" or root == "typing_extensions":
        return args[1] if base == "cast" else I.ext(name)
    fa = [I.freeze(D(I, a, st), st) for a in args] + [I.freeze(D(I, v, st), st) for k, v in sorted(kw.items())]
    return X.uf("?ext:" + name + ("(" + ",".join(sorted(kw)) + ")" if kw else ""), fa, "any", True)


def numba_call(I, rest, args, kw, st, node):
    base = rest.rsplit(".", 1)[-1]
    if base in ("njit", "jit", "vectorize", "guvectorize", "jitclass"):
        if args and args[0].op in ("func", "cls"):
            return args[0]
        return I.ext("numba.deco")
    if base == "prange":
        return b_range(I, args, kw, st, node)
    if rest == "deco":
        return args[0]
    if rest.endswith("typed.Dict.empty"):
        return I.new(st, "dict", fields={}, pytype="dict")
    if rest.endswith("typed.List"):
        return I.newlist(st, list(I.as_content(args[0], st).args) if args else [])
    if base in ("int64", "float64", "int8", "boolean"):
        return D(I, args[0], st) if args else I.ext("numba." + rest)
    return X.uf("?ext:numba." + rest, [], "any", True)


# ---------------------------------------------------------------- numpy table
def np_array(I, args, kw, st, node, copy=True):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite" and any(l.op == "ref" for l in X.leaves(v)):
        return I.on_leaves(v, st, lambda l, s: np_array(I, [l] + list(args[1:]), kw, s, node, copy))
    kind = dkind(I, kw.get("dtype", args[1] if len(args) > 1 else NONE), st)
    if kind is not None:
        r = np_array(I, [v], {k: w for k, w in kw.items() if k != "dtype"}, st, node)
        if r.op == "ref" and I.cell(st, r).kind == "arr":
            d = I.cell(st, r).content
            if kind == "bool":
                return I.arr(st, X.ew("bool", X.truth, d))
            r = I.new(st, "arr", d, pytype="ndarray")
            return typed(I, st, r, kind)
        return coerce(kind, r) if r.op != "ref" else r
    if v.op == "ref":
        c = I.cell(st, v)
        if c.kind == "arr":
            if copy and kw.get("copy", TRUE) is TRUE:
                return I.new(st, "arr", c.content, pytype="ndarray")
            return v
        if c.kind == "dict" or c.kind == "obj":
            f, _ = c.cls.lookup("__array__") if c.cls else (None, None)
            if f is not None:
                return I.call(f, [v], {}, st, node)
            return X.unknown("array-of-object")
    d = I.deep(v, st)
    d = toarr(d)
    return array_of(I, d, st)


def dkind(I, t, st):
    """what storing with a data type does to numbers: 'int', 'bool', 'single' or nothing"""
    if t is None or t is NONE:
        return None
    en = extname(t) if t.op == "ext" else (cval(t) if is_str(t) else "")
    en = (en or "").split(".")[-1]
    if en in ("float32", "single", "f4", "<f4"):
        return "single"
    if en in ("float16", "half", "f2", "<f2"):
        return "half"
    if en in ("int8", "uint8", "int16", "uint16", "i1", "i2", "u1", "u2", "byte", "ubyte", "short", "ushort"):
        return "uwrap" if en.startswith("u") else "wrap"
    if "int" in en or en in ("i4", "i8", "u4", "u8", "long"):
        return "int"
    if "bool" in en:
        return "bool"
    return None


def toint(x):
    if X.is_int(x):
        return x
    if is_num(x):
        return const(int(cval(x)))
    if x.sort == "bool" or x in (TRUE, FALSE):
        return select(X.truth(x), ONE, ZERO)
    if x.op == "uf" and x.args[0] in ("sign", "floor", "ceil", "rint", "trunc", "uninitialised"):
        return x
    return X.uf("trunc", [x], "num", x.unk)


def narrow(kind):
    def f(x):
        if X.is_int(x) and is_num(x) and abs(cval(x)) < 2**11:
            return x
        if x.op == "uf" and x.args[0] in (kind, "uninitialised") or x.sort != "num":
            return x
        return X.uf(kind, [x], "num", x.unk)

    return f


def wrap(kind):
    """an integer type of 8 or 16 bits: large numbers wrap around"""
    def f(x):
        x = toint(x)
        if is_num(x) and (0 if kind == "uwrap" else -8) <= cval(x) < 8:
            return x
        if x.op == "uf" and x.args[0] in (kind, "uninitialised", "sign") or x.sort != "num":
            return x
        return X.uf(kind, [x], "num", x.unk)

    return f


COERCE = {"wrap": wrap("wrap"), "uwrap": wrap("uwrap"), "int": toint, "bool": lambda x: x if x is UNINIT else X.truth(x), "single": narrow("single"), "half": narrow("half")}


def coerce(kind, d):
    if d.op == "cols":
        return X.node("cols", [coerce(kind, c) for c in d.args])
    return X.ew("to" + kind, COERCE[kind], d)


def typed(I, st, r, kind):
    """a new array of a data type that cannot hold every number"""
    if kind is None:
        return r
    if r.op == "ite":
        return select(X.atom(r.args[0]), typed(I, st, r.args[1], kind), typed(I, st, r.args[2], kind))
    if r.op == "ref":
        c = I.cell(st, r)
        I.setcell(st, r, content=coerce(kind, c.content), meta={**(c.meta or {}), "#dtype": kind})
    return r


def array_of(I, d, st):
    if d.op == "ite":
        return select(X.atom(d.args[0]), array_of(I, d.args[1], st), array_of(I, d.args[2], st))
    if d.sort == "arr":
        return I.new(st, "arr", matrix(d), pytype="ndarray")
    if d.sort == "any" and d.op in ("sym", "uf", "var"):
        if d.op == "sym" and X.SYM.get(d, {}).get("numeric"):
            return d  # a scalar: zero-dimensional array
        return I.new(st, "arr", X.uf("asarray", [d], "arr", d.unk), pytype="ndarray")
    return d


def matrix(d):
    """nested sequences of equal width become column form"""
    if d.op == "seq" and d.args and all(r.op in ("seq", "tup") for r in d.args):
        w = len(d.args[0].args)
        if all(len(r.args) == w for r in d.args):
            return X.node("cols", [X.seq([r.args[j] for r in d.args]) for j in range(w)])
    return d


def np_asarray(I, args, kw, st, node):
    return np_array(I, args, kw, st, node, copy=False)


def np_atleast(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite" and any(l.op == "ref" for l in X.leaves(v)):
        return I.on_leaves(v, st, lambda l, s: np_atleast(I, [l], kw, s, node))
    if v.op == "ref" and I.cell(st, v).kind == "arr":
        return v
    return I.arr(st, at1d(I.deep(v, st)))


def np_round(I, args, kw, st, node):
    k = kw.get("decimals", args[1] if len(args) > 1 else ZERO)
    d = arrterm(I, args[0], st)
    r = X.ew("round", rounder, d, D(I, k, st))
    if "out" in kw:
        return outstore(I, kw["out"], r, st, node)
    return I.arr(st, r)


def np_append(I, args, kw, st, node):
    a = at1d(arrterm(I, args[0], st))
    b = at1d(arrterm(I, args[1], st))
    return I.arr(st, X.mk_concat([a, b]))


def np_linspace(I, args, kw, st, node):
    n = kw.get("num", args[2] if len(args) > 2 else const(50))
    a, b = D(I, args[0], st), D(I, args[1], st)
    ep = kw.get("endpoint", TRUE)
    if ep is FALSE:
        i = X.fresh("i", "num", int=True, nonneg=True)
        return I.arr(st, X.lam(n, i, X.add(a, X.div(X.mul(i, X.sub(b, a)), n))))
    if is_num(n) and cval(n) == 1:
        return I.arr(st, X.seq([a]))
    if b.sort == "any" and b.unk:
        return X.unknown("linspace", a, b, n)
    if "retstep" in kw:
        return X.unknown("linspace")
    return I.arr(st, linspace(a, b, D(I, n, st)))


def np_logspace(I, args, kw, st, node):
    n = kw.get("num", args[2] if len(args) > 2 else const(50))
    r = linspace(D(I, args[0], st), D(I, args[1], st), D(I, n, st))
    b = kw.get("base", const(10))
    return I.arr(st, X.power(b, r))


def np_arange(I, args, kw, st, node):
    a = [D(I, x, st) for x in args if x.op != "cls"]
    if len(a) == 1:
        lo, hi, step = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], ONE
    else:
        lo, hi, step = a[:3]
    step = kw.get("step", step)
    i = X.fresh("i", "num", int=True, nonneg=True)
    cnt = X.sub(hi, lo) if step is ONE and X.is_int(X.sub(hi, lo)) else X.lift("ceil", uf1("ceil"), X.div(X.sub(hi, lo), step))
    return I.arr(st, X.lift("arange", lambda c: X.lam(c, i, X.add(lo, X.mul(i, step))), cnt))


def np_full(I, args, kw, st, node):
    f = D(I, args[1] if len(args) > 1 else kw["fill_value"], st)
    t = kw.get("dtype", args[2] if len(args) > 2 else NONE)
    # without a data type the array has the one of the fill value
    return typed(I, st, alloc(I, st, args[0], f), dkind(I, t, st) if t is not NONE else ("int" if f.op == "const" and type(cval(f)) is int else None))


def np_like(fill):
    def g(I, args, kw, st, node):
        d = arrterm(I, args[0], st)
        f = fill if fill is not None else D(I, args[1] if len(args) > 1 else kw["fill_value"], st)
        if not X.is_arr(d):
            return f
        t = kw.get("dtype", args[2 if fill is None else 1] if len(args) > (2 if fill is None else 1) else NONE)
        like = (I.cell(st, args[0]).meta or {}).get("#dtype") if args[0].op == "ref" else None
        kind = dkind(I, t, st) if t is not NONE else like
        if d.op == "cols":
            return typed(I, st, I.arr(st, X.node("cols", [X.full(X.length(c), f) for c in d.args])), kind)
        return typed(I, st, I.arr(st, X.lift("like", lambda a: X.full(X.length(a), f), d)), kind)
    return g


def np_searchsorted(I, args, kw, st, node):
    side = kw.get("side", args[2] if len(args) > 2 else const("left"))
    a, x = arrterm(I, args[0], st), arrterm(I, args[1], st)
    return digi(I, st, x, a, side if side.op == "const" else side, False)


def digi(I, st, x, a, side, dec):
    """index of x in sorted a; explicit count form"""
    def one(v):
        def cnt(arr):
            left = is_str(side) and cval(side) == "left"
            if dec:
                f = (lambda e: X.s_lt(v, e)) if left else (lambda e: X.s_le(v, e))
            else:
                f = (lambda e: X.s_lt(e, v)) if left else (lambda e: X.s_le(e, v))
            m = X.ew("cmp%d%d%d" % (v.id, left, dec), lambda e: select(f(e), ONE, ZERO), arr)
            return X.red("sum", m)
        return X.lift("digi%d" % v.id, cnt, a) if a.op == "ite" else cnt(a)
    if a.op == "seq" or (a.sort == "arr" and a.op in ("lam", "sym", "slice", "filt", "concat", "uf", "var")) or a.op == "ite":
        r = X.ew("digit%d_%s_%d" % (a.id, cval(side) if is_str(side) else "?", dec), one, x)
        return I.arr(st, r)
    return I.arr(st, X.ew("dig", lambda v: X.uf("?digitize", [v, a], "num", True), x))


def np_digitize(I, args, kw, st, node):
    x, a = arrterm(I, args[0], st), arrterm(I, args[1], st)
    right = kw.get("right", args[2] if len(args) > 2 else FALSE)
    # monotonic direction is not decided here: increasing bins unless the array is a literal decreasing one
    dec = False
    if a.op == "seq" and len(a.args) >= 2 and all(is_num(q) for q in a.args):
        dec = cval(a.args[0]) > cval(a.args[-1])
    side = const("left") if right is TRUE else const("right")
    if dec:
        return I.arr(st, X.ew("digd", lambda v: X.uf("digitize_dec", [v, a, side], "num"), x))
    return digi(I, st, x, a, side, False)


def np_isclose(I, args, kw, st, node):
    a, b = arrterm(I, args[0], st), arrterm(I, args[1], st)
    rtol = D(I, kw.get("rtol", args[2] if len(args) > 2 else const(1e-05)), st)
    atol = D(I, kw.get("atol", args[3] if len(args) > 3 else const(1e-08)), st)

    def f(x, y):
        if x is y:
            return TRUE
        return X.atom(X.uf("isclose", [x, y, rtol, atol], "bool"))
    return I.arr(st, X.ew("isclose%d_%d" % (rtol.id, atol.id), f, a, b))


def np_allclose(I, args, kw, st, node):
    r = np_isclose(I, args, kw, st, node)
    return red2d("all", D(I, r, st))


def np_array_equal(I, args, kw, st, node):
    a, b = arrterm(I, args[0], st), arrterm(I, args[1], st)
    return I.eqterm(a, b)


def np_cumsum(I, args, kw, st, node):
    return I.arr(st, cumsum(arrterm(I, args[0], st)))


def np_diff(I, args, kw, st, node):
    d = diff(arrterm(I, args[0], st))
    if kw.get("n", ONE) is not ONE or len(args) > 1 and args[1] is not ONE:
        return X.unknown("diffn", d)
    parts = [d]
    if "prepend" in kw or "append" in kw:
        a = arrterm(I, args[0], st)
        p = [at1d(D(I, kw["prepend"], st))] if "prepend" in kw else []
        q = [at1d(D(I, kw["append"], st))] if "append" in kw else []
        d = diff(X.mk_concat(p + [a] + q))
    return I.arr(st, d)


def np_clip(I, args, kw, st, node):
    x = arrterm(I, args[0], st)
    lo = kw.get("a_min", kw.get("min", args[1] if len(args) > 1 else NONE))
    hi = kw.get("a_max", kw.get("max", args[2] if len(args) > 2 else NONE))
    if lo is not NONE:
        x = X.ew("max2", _mx, x, arrterm(I, lo, st))
    if hi is not NONE:
        x = X.ew("min2", _mn, x, arrterm(I, hi, st))
    o = kw.get("out", args[3] if len(args) > 3 else None)
    if o is not None and o is not NONE:
        return outstore(I, o, x, st, node)
    return I.arr(st, x)


def np_repeat(I, args, kw, st, node):
    a, k = at1d(arrterm(I, args[0], st)), arrterm(I, args[1], st)
    if a.op == "seq" and is_num(k):
        return I.arr(st, X.seq([x for x in a.args for _ in range(int(cval(k)))]))
    if a.op == "seq" and len(a.args) == 1 and not X.is_arr(k):
        return I.arr(st, X.full(k, a.args[0]))
    return I.arr(st, X.uf("repeat", [a, k], "arr"))


def np_unique(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    if kw:
        return X.uf("?unique", [d], "any", True)
    return I.arr(st, X.uf("unique", [d], "arr"))


def np_argsort(I, args, kw, st, node):
    return I.arr(st, X.uf("argsort", [arrterm(I, args[0], st)], "arr"))


def np_isin(I, args, kw, st, node):
    a, b = arrterm(I, args[0], st), arrterm(I, args[1], st)
    return I.arr(st, X.ew("isin%d" % b.id, lambda x: X.red("any", X.eq(b, x)), a))


def np_modf(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    ip = X.ew("trunc", uf1("trunc"), d)
    return X.tup([I.arr(st, X.sub(d, ip)), I.arr(st, ip)])


def np_nan_to_num(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    v = kw.get("nan", args[2] if len(args) > 2 else ZERO)
    others = tuple(D(I, kw[k], st) for k in ("posinf", "neginf") if k in kw)
    r = X.ew("nan_to_num%d" % v.id, lambda x: x if x.op == "const" else X.uf("nan_to_num", [x, v, *others], "num"), d)
    if kw.get("copy", TRUE) is FALSE and args[0].op == "ref":
        I.write(st, args[0], node, "copy=False")
        I.put_content(st, args[0], r)
        return args[0]
    return I.arr(st, r)


def np_transpose(I, args, kw, st, node):
    return I.arr(st, transpose(arrterm(I, args[0], st)))


def padded(ct, fill):
    """columns of an array of rows of different lengths, filled up or, without a fill value, cut"""
    if ct.op == "ite":
        return X.lift("padded", lambda d: padded(d, fill), ct)
    if ct.op == "seq" and not ct.args:
        return X.seq([])
    i = X.fresh("i", "num", int=True, nonneg=True)
    k = X.fresh("k", "num", int=True, nonneg=True)
    row = X.elem(ct, k)
    rows = X.length(ct)
    lens = X.lift("lens", lambda n: X.lam(n, k, X.length(row)), rows)
    longest = X.red("max", X.mk_concat([X.seq([ZERO]), lens])) if fill is not None else select(X.lt(ZERO, rows), X.red("min", lens), ZERO)
    cell = X.elem(row, i) if fill is None else select(X.lt(i, X.length(row)), X.elem(row, i), fill)
    return X.lift("padded", lambda m, n: X.lam(m, i, X.lam(n, k, cell)), longest, rows)


def o_zip_longest(I, args, kw, st, node):
    fill = kw.get("fillvalue", NONE)
    if len(args) == 1 and args[0].op == "star":
        ct = arrterm(I, args[0].args[0], st)
    else:
        ct = X.seq([arrterm(I, a, st) for a in args])
    if not X.is_arr(ct):
        return X.unknown("zip_longest", ct)
    return I.new(st, "list", padded(ct, D(I, fill, st)), pytype="list")


def transpose(d):
    if d.op == "ite":
        return X.lift("T", transpose, d)
    if d.op == "seq" and d.args and all(x.sort == "arr" for x in d.args):
        return X.node("cols", list(d.args))
    if d.op == "cols":
        return X.seq(list(d.args))
    if d.op == "seq":
        return d
    if d.op == "uf" and d.args[0] == "transpose":
        return d.args[1]
    return X.uf("transpose", [d], "arr")


def np_vstack(I, args, kw, st, node):
    xs = seq_args(I, args[0], st, node)
    if xs is None:
        return X.unknown("vstack", D(I, args[0], st))
    return I.arr(st, X.seq([arrterm(I, x, st) for x in xs]))


def np_colstack(I, args, kw, st, node):
    xs = seq_args(I, args[0], st, node)
    if xs is None:
        return X.unknown("column_stack", D(I, args[0], st))
    return I.arr(st, X.node("cols", [at1d(arrterm(I, x, st)) for x in xs]))


def np_hstack(I, args, kw, st, node):
    xs = seq_args(I, args[0], st, node)
    if xs is not None and xs and all(x.op == "ref" and I.cell(st, x).kind == "arr" and I.cell(st, x).content.op == "cols" for x in xs):
        return I.arr(st, X.node("cols", [c for x in xs for c in I.cell(st, x).content.args]))
    return concat(I, st, args[0], node)


def np_stack(I, args, kw, st, node):
    ax = kw.get("axis", ZERO)
    if ax is ZERO:
        return np_vstack(I, args, kw, st, node)
    return np_colstack(I, args, kw, st, node)


def np_size(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    return X.length(d) if X.is_arr(d) else ONE


def np_concatenate(I, args, kw, st, node):
    ax = kw.get("axis", args[1] if len(args) > 1 else ZERO)
    if ax in (ZERO, NONE):
        return concat(I, st, args[0], node)
    return X.unknown("concat_axis", D(I, args[0], st))


def np_nonzero(I, args, kw, st, node):
    return X.tup([nonzero(arrterm(I, args[0], st))])


def np_flatnonzero(I, args, kw, st, node):
    return nonzero(arrterm(I, args[0], st))


def np_countnz(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    return X.red("sum", X.ew("b2n", lambda x: select(X.truth(x), ONE, ZERO), d))


def np_dot(I, args, kw, st, node):
    a, b = arrterm(I, args[0], st), arrterm(I, args[1], st)
    return X.red("sum", X.mul(a, b))


def np_squeeze(I, args, kw, st, node):
    return args[0]


def np_ravel(I, args, kw, st, node):
    d = arrterm(I, args[0], st)
    if d.op in ("cols",):
        return X.uf("?ravel", [d], "arr", True)
    return args[0]


def np_interp(I, args, kw, st, node):
    return X.uf("interp", [arrterm(I, a, st) for a in args], "any")


def np_trapz(I, args, kw, st, node):
    return X.uf("trapz", [arrterm(I, a, st) for a in args] + [arrterm(I, v, st) for _, v in sorted(kw.items())], "num")


def np_argm(kind):
    def g(I, args, kw, st, node):
        d = arrterm(I, args[0], st)
        if I.is_bool_arr(d) and kind == "max":
            return select(X.red("any", d), X.uf("firsttrue", [d], "num"), ZERO)
        return X.uf("arg" + kind, [d], "num")
    return g


def np_sort(I, args, kw, st, node):
    return I.arr(st, sort_term(arrterm(I, args[0], st)))


def np_flip(I, args, kw, st, node):
    return I.arr(st, I.slice_term(arrterm(I, args[0], st), X.node("slc", (NONE, NONE, const(-1)), "slc")))


def np_bincount(I, args, kw, st, node):
    return X.uf("bincount", [arrterm(I, a, st) for a in args] + [arrterm(I, v, st) for _, v in sorted(kw.items())], "arr")


def np_compress(I, args, kw, st, node):
    if kw or len(args) != 2:
        return X.unknown("ext:numpy.compress", *[D(I, x, st) for x in args])
    return I.arr(st, X.mk_filt(arrterm(I, args[1], st), X.ew("truth", X.truth, arrterm(I, args[0], st))))


def np_take(I, args, kw, st, node):
    if len(args) != 2 or (kw and (set(kw) != {"axis"} or kw["axis"] not in (ZERO, NONE))):
        return X.unknown("ext:numpy.take", *[D(I, x, st) for x in args])
    return I.getitem(args[0], args[1], st, node)


def np_select(I, args, kw, st, node):
    cs, vs = D(I, args[0], st), D(I, args[1], st)
    if cs.op not in ("seq", "tup") or vs.op not in ("seq", "tup") or len(cs.args) != len(vs.args):
        return X.unknown("ext:numpy.select", cs, vs)
    r = D(I, kw.get("default", args[2] if len(args) > 2 else ZERO), st)
    for c, v in reversed(list(zip(cs.args, vs.args))):
        r = X.ew("where", I._where, c, v, r)
    return I.arr(st, r) if X.is_arr(r) else r


def np_insert(I, args, kw, st, node):
    a, k, v = arrterm(I, args[0], st), D(I, args[1], st), arrterm(I, args[2], st)
    if kw or not is_num(k) or not X.is_arr(a):
        return X.unknown("ext:numpy.insert", a, k, v)
    if X.is_arr(v):
        mid = v
    else:
        mid = X.seq([v])
    if cval(k) >= 0:
        h, t = X.mk_slice(a, ZERO, k), X.mk_slice(a, k, X.sub(X.length(a), k))
    else:
        h, t = X.mk_slice(a, ZERO, X.add(X.length(a), k)), X.mk_slice(a, X.add(X.length(a), k), X.neg(k))
    return I.arr(st, X.mk_concat([h, mid, t]))


def np_ediff1d(I, args, kw, st, node):
    if kw or len(args) != 1:
        return X.unknown("ext:numpy.ediff1d", *[D(I, x, st) for x in args])
    return np_diff(I, args, kw, st, node)


def np_fromiter(I, args, kw, st, node):
    return np_array(I, args[:1], {k: v for k, v in kw.items() if k == "dtype"}, st, node)


# leading parameters that the models below read by position
SIG = {
    "linspace": "start stop", "logspace": "start stop", "hstack": "tup", "vstack": "tup", "column_stack": "tup", "stack": "arrays", "concatenate": "arrays", "append": "arr values",
    "array": "object", "asarray": "a", "zeros": "shape", "ones": "shape", "empty": "shape", "full": "shape fill_value", "zeros_like": "a", "ones_like": "a", "empty_like": "a",
    "full_like": "a fill_value", "repeat": "a repeats", "where": "condition x y", "digitize": "x bins", "searchsorted": "a v", "isclose": "a b", "allclose": "a b", "array_equal": "a1 a2",
    "diff": "a", "cumsum": "a", "clip": "a a_min a_max", "unique": "ar", "argsort": "a", "isin": "element test_elements", "interp": "x xp fp", "trapz": "y x", "round": "a decimals",
    "around": "a decimals", "sum": "a", "prod": "a", "max": "a", "min": "a", "amax": "a", "amin": "a", "any": "a", "all": "a", "mean": "a", "nansum": "a", "delete": "arr obj",
    "nan_to_num": "x", "argmax": "a", "argmin": "a", "sort": "a", "flip": "m", "dot": "a b", "ravel": "a", "copy": "a", "histogram2d": "x y",
    "compress": "condition a", "extract": "condition arr", "take": "a indices axis", "select": "condlist choicelist default", "insert": "arr obj values", "ediff1d": "ary", "fromiter": "iter dtype",
}


def positional(name, args, kw):
    names = SIG.get(name, "").split()
    args = list(args)
    while len(args) < len(names) and names[len(args)] in kw:
        kw = dict(kw)
        args.append(kw.pop(names[len(args)]))
    return args, kw


def stat(name):
    def f(I, a, k, s, n):
        if len(a) != 1 or k:
            return X.unknown("ext:numpy." + name, *[D(I, x, s) for x in a])
        return X.uf(name, [arrterm(I, a[0], s)], "num")

    return f


NP = {
    "array": np_array, "asarray": np_asarray, "ascontiguousarray": np_asarray, "asanyarray": np_asarray, "atleast_1d": np_atleast, "copy": np_array, "hstack": np_hstack, "concatenate": np_concatenate, "append": np_append,
    "vstack": np_vstack, "stack": np_stack, "column_stack": np_colstack, "round": np_round, "around": np_round, "round_": np_round,
    "empty": lambda I, a, k, s, n: typed(I, s, alloc(I, s, a[0], UNINIT), dkind(I, k.get("dtype", a[1] if len(a) > 1 else NONE), s)) if not (D(I, a[0], s) is ZERO) else I.new(s, "arr", EMPTY, pytype="ndarray"),
    "zeros": lambda I, a, k, s, n: typed(I, s, alloc(I, s, a[0], ZERO), dkind(I, k.get("dtype", a[1] if len(a) > 1 else NONE), s)), "ones": lambda I, a, k, s, n: typed(I, s, alloc(I, s, a[0], ONE), dkind(I, k.get("dtype", a[1] if len(a) > 1 else NONE), s)), "full": np_full,
    "zeros_like": np_like(ZERO), "ones_like": np_like(ONE), "empty_like": np_like(UNINIT), "full_like": np_like(None),
    "linspace": np_linspace, "logspace": np_logspace, "arange": np_arange, "searchsorted": np_searchsorted, "digitize": np_digitize, "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_array_equal,
    "cumsum": np_cumsum, "diff": np_diff, "clip": np_clip, "repeat": np_repeat, "unique": np_unique, "argsort": np_argsort, "isin": np_isin, "in1d": np_isin, "modf": np_modf, "nan_to_num": np_nan_to_num,
    "transpose": np_transpose, "size": np_size, "nonzero": np_nonzero, "flatnonzero": np_flatnonzero, "count_nonzero": np_countnz, "dot": np_dot, "squeeze": np_squeeze, "ravel": np_ravel, "interp": np_interp,
    "trapz": np_trapz, "argmax": np_argm("max"), "argmin": np_argm("min"), "sort": np_sort, "flip": np_flip, "where": where3, "delete": delete, "bincount": np_bincount,
    "sum": reduce_("sum"), "nansum": lambda I, a, k, s, n: X.uf("nansum", [arrterm(I, a[0], s)], "num"), "prod": reduce_("prod"), "max": reduce_("max"), "amax": reduce_("max"), "min": reduce_("min"), "amin": reduce_("min"),
    "any": reduce_("any"), "all": reduce_("all"), "mean": mean, "average": mean,
    "nanmean": lambda I, a, k, s, n: X.uf("nanmean", [arrterm(I, a[0], s)], "num"), "nanmax": lambda I, a, k, s, n: X.uf("nanmax", [arrterm(I, a[0], s)], "num"), "nanmin": lambda I, a, k, s, n: X.uf("nanmin", [arrterm(I, a[0], s)], "num"),
    "std": lambda I, a, k, s, n: X.uf("std", [arrterm(I, a[0], s)], "num"), "ndim": lambda I, a, k, s, n: ONE if X.is_arr(arrterm(I, a[0], s)) else ZERO,
    "isscalar": lambda I, a, k, s, n: const(not X.is_arr(arrterm(I, a[0], s))), "dtype": lambda I, a, k, s, n: X.uf("dtype", [], "any"), "trim_zeros": lambda I, a, k, s, n: I.arr(s, X.uf("trim_zeros", [arrterm(I, a[0], s), D(I, a[1], s) if len(a) > 1 else k.get("trim", const("fb"))], "arr")),
    "histogram2d": lambda I, a, k, s, n: X.tup([X.uf("hist2d", [arrterm(I, a[0], s), arrterm(I, a[1], s)] + [D(I, v, s) for q, v in sorted(k.items())], "arr"), X.uf("hist2dx", [D(I, v, s) for q, v in sorted(k.items()) if q == "bins"], "any"), X.uf("hist2dy", [D(I, v, s) for q, v in sorted(k.items()) if q == "bins"], "any")]),
    "histogram": lambda I, a, k, s, n: X.tup([X.uf("hist1d", [arrterm(I, x, s) for x in a] + [D(I, v, s) for q, v in sorted(k.items())], "arr"), X.uf("hist1de", [], "any", True)]),
    "ravel_multi_index": lambda I, a, k, s, n: X.uf("ravel_multi_index", [D(I, x, s) for x in a], "any"),
    "median": stat("median"), "nanmedian": stat("nanmedian"), "var": stat("var"), "nanstd": stat("nanstd"),
    "compress": np_compress, "extract": np_compress, "take": np_take, "select": np_select, "insert": np_insert, "ediff1d": np_ediff1d, "fromiter": np_fromiter,
    "errstate": lambda I, a, k, s, n: X.unknown("errstate"), 
    "iterable": lambda I, a, k, s, n: isinst(I, a[0], I.ext("collections.abc.Iterable"), s),
    "meshgrid": lambda I, a, k, s, n: X.uf("?meshgrid", [], "any", True),
    "shape": lambda I, a, k, s, n: attr(I, a[0], "shape", s, n, None),
    "ptp": lambda I, a, k, s, n: X.sub(X.red("max", arrterm(I, a[0], s)), X.red("min", arrterm(I, a[0], s))),
    "may_share_memory": lambda I, a, k, s, n: X.unknown("share"),
}


# ---------------------------------------------------------------- builtins
def b_float(I, args, kw, st, node):
    if not args:
        return ZERO
    d = D(I, args[0], st)

    def f(x):
        if x in (TRUE, FALSE) or x.sort == "bool":
            return select(X.truth(x), ONE, ZERO)
        if is_str(x):
            s = cval(x).lower()
            if s in ("nan",):
                return X.NAN
            if s in ("inf", "+inf", "infinity"):
                return X.INF
            try:
                return const(float(s))
            except ValueError:
                return X.unknown("float", x)
        if x.sort == "arr":
            if X.length(x) is ONE:
                return X.elem(x, ZERO)
            return X.uf("float", [x], "num")
        if x.sort == "any":
            return X.uf("float", [x], "num", x.unk)
        return x
    return X.lift("float", f, d)


def b_int(I, args, kw, st, node):
    if not args:
        return ZERO
    d = D(I, args[0], st)

    def f(x):
        if x in (TRUE, FALSE) or x.sort == "bool":
            return select(X.truth(x), ONE, ZERO)
        if is_num(x):
            return const(int(cval(x)))
        if x.sort == "num" and X.is_int(x):
            return x
        if is_str(x):
            try:
                return const(int(cval(x)))
            except ValueError:
                return X.unknown("int", x)
        if x.op == "uf" and x.args[0] in ("floor", "ceil", "trunc", "rint"):
            return x
        if x.op == "uf" and x.args[0] == "round" and x.args[2] is ZERO:
            return x
        if x.sort == "num":
            return uf1("trunc")(x)
        return X.uf("trunc", [x], "num", x.unk)
    return X.lift("int", f, d)


def b_list(I, args, kw, st, node):
    if not args:
        return I.newlist(st, [])
    v = X.constrain(args[0], st.pc)
    if v.op == "ite":
        return I.on_leaves(v, st, lambda l, s: b_list(I, [l], kw, s, node))
    return I.new(st, "list", I.as_content(v, st, node), pytype="list")


def b_tuple(I, args, kw, st, node):
    if not args:
        return X.tup([])
    ct = X.constrain(I.as_content(args[0], st, node), st.pc)
    if ct.op == "seq":
        return X.tup(ct.args)
    return I.new(st, "list", ct, pytype="tuple")


def b_dict(I, args, kw, st, node):
    f = {}
    if args:
        v = X.constrain(args[0], st.pc)
        if v.op == "ite":
            return I.on_leaves(v, st, lambda l, s: b_dict(I, [l], kw, s, node))
        if v.op == "ref" and I.cell(st, v).kind == "dict":
            f.update(I.cell(st, v).fields)
        else:
            ct = I.as_content(v, st, node)
            if ct.op == "seq" and all(x.op == "tup" and len(x.args) == 2 for x in ct.args):
                for x in ct.args:
                    f[x.args[0]] = (TRUE, x.args[1])
            else:
                return X.unknown("dict", I.deep(ct, st))
    for k, v in kw.items():
        f[const(k)] = (TRUE, v)
    return I.new(st, "dict", fields=f, pytype="dict")


def b_set(I, args, kw, st, node):
    return I.new(st, "set", setlike(I, args[0] if args else None, st, node), pytype="set")


def b_isinstance(I, args, kw, st, node):
    return isinst(I, args[0], args[1], st)


def b_hasattr(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite":
        return select(X.atom(v.args[0]), b_hasattr(I, [v.args[1], args[1]], kw, st, node), b_hasattr(I, [v.args[2], args[1]], kw, st, node))
    n = cval(args[1]) if is_str(args[1]) else None
    if n is None:
        return X.atom(X.uf("?hasattr", [], "bool", True))
    if v is NONE or v.sort in ("num", "bool", "str") or v.op in ("tup",):
        if n == "__iter__":
            return const(v.sort == "str" or v.op == "tup")
        if n == "__len__":
            return const(v.sort == "str" or v.op == "tup")
        if v is NONE:
            return FALSE
        return X.atom(X.uf("hasattr:" + n, [v], "bool"))
    if v.op == "ref":
        c = I.cell(st, v)
        if c.kind == "obj":
            if n in c.fields:
                return TRUE
            return TRUE if c.cls and c.cls.lookup(n)[0] is not None else FALSE
        if n in ("__iter__", "__len__"):
            return TRUE
        if c.kind == "df" and c.meta and n in c.meta:
            return TRUE
        if c.kind == "df" and const(n) in c.fields:
            return TRUE
        if c.kind == "df":
            return FALSE if c.meta is not None and c.meta.get("closed") else X.atom(X.uf("?hasattr:" + n, [v], "bool", True))
        known = {"arr": ("shape", "dtype", "size", "tolist", "sum", "max", "min", "mean", "copy", "astype"), "list": ("append", "copy"), "dict": ("keys", "items", "values", "get")}
        return TRUE if n in known.get(c.kind, ()) else FALSE
    if v.op in ("cls",):
        return TRUE if v.args[0].lookup(n)[0] is not None else FALSE
    if v.op in ("func",):
        return const(n in ("__name__", "__call__", "__doc__") or n in v.args[0].__dict__.get("attrs", {}))
    return X.atom(X.uf("hasattr:" + n, [v], "bool", v.unk))


def b_getattr(I, args, kw, st, node):
    if not is_str(args[1]):
        o = args[0]
        if args[1].op == "ite":
            return I.on_leaves(args[1], st, lambda l, s: b_getattr(I, [o, l] + list(args[2:]), kw, s, node))
        return X.unknown("getattr", args[1])
    return I.getattr(args[0], cval(args[1]), st, node, args[2] if len(args) > 2 else None)


def b_setattr(I, args, kw, st, node):
    if args[1].op == "ite":
        I.on_leaves(args[1], st, lambda l, s: (b_setattr(I, [args[0], l, args[2]], kw, s, node), NONE)[1])
        return NONE
    if is_str(args[1]):
        I.setattr(args[0], cval(args[1]), args[2], st, node)
    return NONE


def b_zip(I, args, kw, st, node):
    xs = []
    for a in args:
        if a.op == "star":
            ct = a.args[0]
            # zip(*rows): transposition
            return I.new(st, "list", transpose(ct) if all(l.op in ("cols", "seq") for l in X.leaves(ct)) else padded(ct, None) if ct.sort == "arr" else X.unknown("zipstar", ct), pytype="list")
        xs.append(a)
    if not xs:
        return I.newlist(st, [])
    if len(xs) > 1 and len(set(xs)) == 1 and xs[0].op == "ref" and I.cell(st, xs[0]).pytype == "iterator":
        ct, k = I.cell(st, xs[0]).content, len(xs)  # one iterator: consecutive groups
        if ct.op != "seq":
            return X.unknown("zip-groups", ct)
        I.setcell(st, xs[0], content=X.seq(ct.args[len(ct.args) // k * k:]))
        return I.newlist(st, [X.tup(ct.args[j:j + k]) for j in range(0, len(ct.args) // k * k, k)])
    return X.node("zip", xs, "any")


def b_map(I, args, kw, st, node):
    its = X.node("zip", list(args[1:]), "any") if len(args) > 2 else args[1]
    def go(it, s):
        q = I.iter_seq(it, s, node)
        if q[0] == "fork":
            return I.fork(s, q[1], lambda a: go(q[2], a), lambda a: go(q[3], a))
        if q[0] == "finite":
            return I.newlist(s, [I.call(args[0], list(x.args) if len(args) > 2 else [x], {}, s, node) for x in q[1]])
        i = X.fresh("i", "num", int=True, nonneg=True)
        x = q[2](i)
        v = I.call(args[0], list(x.args) if len(args) > 2 else [x], {}, s, node)
        return I.new(s, "list", X.lam(q[1], i, I.freeze(v, s)), pytype="list")
    return go(its, st)


def b_filter(I, args, kw, st, node):
    def go(it, s):
        q = I.iter_seq(it, s, node)
        if q[0] == "fork":
            return I.fork(s, q[1], lambda a: go(q[2], a), lambda a: go(q[3], a))
        test = lambda x: I.truthv(x if args[0] is NONE else I.call(args[0], [x], {}, s, node), s)
        if q[0] == "finite":
            parts = []
            for x in q[1]:
                c = I.cond(test(x), s)
                parts.append(X.seq([x]) if c is TRUE else EMPTY if c is FALSE else select(c, X.seq([x]), EMPTY))
            return I.new(s, "list", X.mk_concat(parts) if parts else EMPTY, pytype="list")
        i = X.fresh("i", "num", int=True, nonneg=True)
        x = q[2](i)
        return I.new(s, "list", X.mk_filt(X.lam(q[1], i, x), X.lam(q[1], i, test(x))), pytype="list")
    return go(args[1], st)


def b_iter(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite":
        return I.on_leaves(v, st, lambda l, s: b_iter(I, [l], kw, s, node))
    if v is NONE or v.sort in ("num", "bool"):
        I.do_raise(st, TRUE, "TypeError", node)
    if v.op in ("sym", "uf") and v.sort == "any":
        I.do_raise(st, bnot(isinst(I, v, I.ext("collections.abc.Iterable"), st)), "TypeError", node)
    if v.op == "ref" and I.cell(st, v).kind in ("list", "arr", "set") and I.cell(st, v).pytype != "iterator":
        return I.new(st, "list", I.cell(st, v).content, pytype="iterator")  # taking from it leaves the sequence alone
    return v


def b_round(I, args, kw, st, node):
    if len(args) == 1 and "ndigits" not in kw:
        return X.lift("round0", lambda x: rounder(x, ZERO), D(I, args[0], st))
    return np_round(I, [args[0], args[1] if len(args) > 1 else kw["ndigits"]], {}, st, node)


def b_str(I, args, kw, st, node):
    if not args:
        return const("")
    d = D(I, args[0], st)
    def f(x):
        if x.sort == "str" or is_str(x):
            return x
        if is_num(x) and cval(x).denominator == 1:
            return X.uf("str", [x], "str")
        return X.uf("str", [I.freeze(x, st)], "str")
    return X.lift("str", f, d)


def b_type(I, args, kw, st, node):
    v = X.constrain(args[0], st.pc)
    if v.op == "ite":
        return X.lift("type", lambda l: b_type(I, [l], kw, st, node), v)
    if v.op == "ref":
        c = I.cell(st, v)
        if c.kind == "obj" and c.cls:
            return objterm("cls", c.cls, "class")
        return I.ext({"arr": "numpy.ndarray", "list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set", "df": "pandas.DataFrame"}.get(c.kind, "?"))
    if v.sort == "str":
        return I.ext("builtins.str")
    if v.op == "tup":
        return I.ext("builtins.tuple")
    if v is NONE:
        return I.ext("builtins.NoneType")
    if v in (X.NAN, X.INF):
        return I.ext("builtins.float")
    return X.uf("type", [v], "any", v.unk)


def b_next(I, args, kw, st, node):
    v = args[0]
    ct = D(I, v, st)
    if ct.op == "seq":
        if ct.args:
            if v.op == "ref":
                I.setcell(st, v, content=X.seq(ct.args[1:]))
            return ct.args[0]
        if len(args) > 1:
            return args[1]
        I.do_raise(st, TRUE, "StopIteration", node)
    if ct.op == "ite" or ct.sort == "arr":
        n = X.length(ct)
        e = X.lift("eq0", X.eq0, n)
        if v.op == "ref" and I.cell(st, v).pytype == "iterator":
            I.setcell(st, v, content=X.lift("rest", lambda a: X.seq(a.args[1:]) if a.op == "seq" else X.mk_slice(a, ONE, X.sub(X.length(a), ONE)), ct))
        if len(args) > 1:
            return select(e, args[1], X.elem(ct, ZERO))
        I.do_raise(st, e, "StopIteration", node)
        return X.elem(ct, ZERO)
    return X.unknown("next", ct)


def b_pow(I, args, kw, st, node):
    return I.arr(st, X.power(arrterm(I, args[0], st), arrterm(I, args[1], st)))


def b_bool(I, args, kw, st, node):
    return I.truthv(args[0], st) if args else FALSE


def b_divmod(I, args, kw, st, node):
    a, b = D(I, args[0], st), D(I, args[1], st)
    return X.tup([X.ew("floordiv", I._floordiv, a, b), X.ew("mod", I._mod, a, b)])


def b_vars(I, args, kw, st, node):
    return I.getattr(args[0], "__dict__", st, node)


BUILT = {
    "len": b_len, "sorted": b_sorted, "sum": b_sum, "min": minmax("min"), "max": minmax("max"), "range": b_range, "any": b_anyall("any"), "all": b_anyall("all"),
    "float": b_float, "int": b_int, "list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set, "frozenset": b_set, "isinstance": b_isinstance, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr,
    "zip": b_zip, "map": b_map, "filter": b_filter, "iter": b_iter, "round": b_round, "str": b_str, "repr": b_str, "type": b_type, "next": b_next, "pow": b_pow, "bool": b_bool, "divmod": b_divmod, "vars": b_vars,
    "enumerate": lambda I, a, k, s, n: X.node("enumerate", (a[0], k.get("start", a[1] if len(a) > 1 else ZERO)), "any"),
    "reversed": lambda I, a, k, s, n: X.node("reversed", (a[0],), "any"),
    "abs": lambda I, a, k, s, n: ew1(EW1["abs"])(I, a, k, s, n),
    "callable": lambda I, a, k, s, n: X.lift("callable", lambda l: const(l.op in ("func", "cls", "bound", "partial", "ext", "meth")) if l.op not in ("sym", "uf", "ref") else (X.atom(X.uf("callable", [l], "bool")) if l.op != "ref" else (TRUE if I.cell(s, l).cls and I.cell(s, l).cls.lookup("__call__")[0] else FALSE)), a[0]),
    "issubclass": lambda I, a, k, s, n: TRUE if a[0].op == "cls" and any(x.op == "cls" and x.args[0] in a[0].args[0].mro() for x in tnames(I, a[1], s)) else (FALSE if a[0].op == "cls" else X.atom(X.uf("?issubclass", [], "bool", True))),
    "id": lambda I, a, k, s, n: X.uf("id", [a[0]], "num"), "hash": lambda I, a, k, s, n: X.uf("hash", [I.freeze(D(I, a[0], s), s)], "num"),
    "identity": lambda I, a, k, s, n: a[0], "object": lambda I, a, k, s, n: X.uf("object", [const(I.newid())], "any"),
    "property": lambda I, a, k, s, n: X._mk("prop", (a[0], a[1] if len(a) > 1 else None), "prop", X._H("prop", id(a[0]))),
    "slice": lambda I, a, k, s, n: X.node("slc", (NONE, a[0], NONE) if len(a) == 1 else tuple(a) + (NONE,) * (3 - len(a)), "slc"),
    "open": lambda I, a, k, s, n: X.unknown("open"), "format": lambda I, a, k, s, n: X.uf("str", [I.freeze(D(I, x, s), s) for x in a], "str"),
    "chr": lambda I, a, k, s, n: X.uf("chr", [D(I, a[0], s)], "str"), "delattr": lambda I, a, k, s, n: (I.write(s, a[0], n, "delattr"), NONE)[1],
}


# ---------------------------------------------------------------- other libraries
def o_partial(I, a, k, s, n):
    return X._mk("partial", (a[0], X.tup(a[1:]), tuple(sorted(k.items()))), "func", X._H("partial", a[0].fp, tuple(x.fp for x in a[1:])))


def o_field(I, a, k, s, n):
    return X._mk("fieldspec", (k.get("default"), k.get("default_factory")), "any", X._H("fieldspec", id(n)))


def o_chain(I, a, k, s, n):
    return I.new(s, "list", X.mk_concat([I.as_content(x, s, n) for x in a]), pytype="list")


def o_chain_fi(I, a, k, s, n):
    xs = seq_args(I, a[0], s, n)
    if xs is not None:
        return o_chain(I, xs, {}, s, n)
    ct = I.as_content(a[0], s, n)
    return I.new(s, "list", flat(I.deep(ct, s)), pytype="list")


def o_cache(I, a, k, s, n):
    if a and a[0].op == "func":
        a[0].args[0].memo = True
        return a[0]
    return I.ext("functools.cache")


def o_reduce(I, a, k, s, n):
    xs = seq_args(I, a[1], s, n)
    if xs is None:
        it = a[1]
        q = I.iter_seq(it, s, n)
        if q[0] == "finite":
            xs = q[1]
    if xs is not None:
        r = a[2] if len(a) > 2 else None
        for x in xs:
            r = x if r is None else I.call(a[0], [r, x], {}, s, n)
        if r is None:
            I.do_raise(s, TRUE, "TypeError", n)
        return r
    # reduction of a symbolic sequence: write it as a loop
    src = ast.parse("def reduce_(f, xs, a):\n    for x in xs:\n        a = f(a, x)\n    return a").body[0]
    f = Func("reduce", src, None, {})
    f.qual = "functools.reduce"
    if len(a) > 2:
        return I.call_func(objterm("func", f, "func"), [a[0], a[1], a[2]], {}, s, n)
    ct = D(I, a[1], s)
    if ct.sort == "arr":
        return I.call_func(objterm("func", f, "func"), [a[0], I.new(s, "list", X.mk_slice(ct, ONE, X.sub(X.length(ct), ONE)), pytype="list"), X.elem(ct, ZERO)], {}, s, n)
    return X.unknown("reduce")


def o_product(I, a, k, s, n):
    lists = [I.as_content(x, s, n) for x in a]
    if all(x.op == "seq" for x in lists):
        import itertools

        return I.newlist(s, [X.tup(c) for c in itertools.product(*[x.args for x in lists])])
    return X.unknown("product")


def o_groupby(I, a, k, s, n):
    return X.uf("?groupby", [], "any", True)


def o_df(I, a, k, s, n):
    v = X.constrain(a[0], s.pc) if a else k.get("data", NONE)
    cols = k.get("columns")
    if v.op == "ref" and I.cell(s, v).kind == "dict":
        f = {}
        for kk, (p, x) in I.cell(s, v).fields.items():
            f[kk] = (TRUE, x)
        return mk_df(I, s, f)
    if v.op == "ref" and I.cell(s, v).kind == "df":
        return copyval(I, v, s, False)
    d = D(I, v, s)
    if cols is not None:
        names = seq_args(I, cols, s, n)
        if names is not None:
            if d.op == "cols" and len(d.args) == len(names):
                return mk_df(I, s, {nm: (TRUE, I.arr(s, c)) for nm, c in zip(names, d.args)})
            if X.is_arr(d):
                return mk_df(I, s, {nm: (TRUE, I.arr(s, I.col(d, const(j)))) for j, nm in enumerate(names)})
    return X.uf("?DataFrame", [I.freeze(d, s)], "any", True)


def o_validator(I, a, k, s, n):
    names = [cval(x) for x in a if is_str(x)]
    return X._mk("decomark", ("validator", tuple(names), tuple(sorted((q, v) for q, v in k.items()))), "decomark", X._H("decomark", tuple(names)))


def o_deepcopy(I, a, k, s, n):
    v = X.constrain(a[0], s.pc)
    if v.op == "ref" and I.cell(s, v).kind == "obj":
        f, _ = I.cell(s, v).cls.lookup("__deepcopy__") if I.cell(s, v).cls else (None, None)
        if f is not None:
            return I.call(f, [v, NONE], {}, s, n)
    return copyval(I, v, s, True)


def o_replace(I, a, k, s, n):
    v = a[0]
    if v.op == "ref" and I.cell(s, v).kind == "obj":
        c = I.cell(s, v)
        vals = {f[0]: c.fields.get(f[0], NONE) for f in c.cls.fields() if "ClassVar" not in ast.unparse(f[3])}
        vals.update(k)
        return I.instantiate(objterm("cls", c.cls, "class"), [], vals, s, n)
    return X.unknown("replace")


def o_asdict(I, a, k, s, n):
    v = a[0]
    if v.op == "ref" and I.cell(s, v).kind == "obj":
        c = I.cell(s, v)
        return I.new(s, "dict", fields={const(f[0]): (TRUE, copyval(I, c.fields.get(f[0], NONE), s, True)) for f in c.cls.fields() if "ClassVar" not in ast.unparse(f[3])}, pytype="dict")
    return X.unknown("asdict")


def o_accumulate(I, a, k, s, n):
    if len(a) > 1 or k:
        return X.unknown("accumulate")
    return I.new(s, "list", cumsum(D(I, a[0], s)), pytype="list")


def o_defaultdict(I, a, k, s, n):
    return I.new(s, "dict", fields={}, pytype="dict", meta={"default": a[0] if a else NONE})


def o_namespace(I, a, k, s, n):
    from interp import Cls
    c = Cls("SimpleNamespace", None, None)
    return I.new(s, "obj", fields=dict(k), cls=c)


def o_pdseries(I, a, k, s, n):
    v = a[0] if a else k.get("data", NONE)
    return v if v.op == "ref" else X.uf("?Series", [D(I, v, s)], "any", True)


OTHER = {
    "functools.wraps": lambda I, a, k, s, n: I.ext("builtins.identity"), "functools.lru_cache": o_cache, "functools.cache": o_cache,
    "functools.partial": o_partial, "functools.reduce": o_reduce, "dataclasses.field": o_field, "dataclasses.dataclass": lambda I, a, k, s, n: I.ext("dataclasses.dataclass"), "pydantic.dataclasses.dataclass": lambda I, a, k, s, n: I.ext("pydantic.dataclasses.dataclass"),
    "dataclasses.replace": o_replace, "dataclasses.asdict": o_asdict, "itertools.chain": o_chain, "itertools.zip_longest": o_zip_longest, "itertools.chain.from_iterable": o_chain_fi, "itertools.product": o_product, "itertools.pairwise": lambda I, a, k, s, n: X.node("zip", [a[0], I.getitem(a[0], X.node("slc", (ONE, NONE, NONE), "slc"), s, n)], "any"), "itertools.groupby": o_groupby, "itertools.accumulate": o_accumulate,
    "copy.deepcopy": o_deepcopy, "copy.copy": lambda I, a, k, s, n: copyval(I, a[0], s, False), "pandas.DataFrame": o_df, "pandas.Series": o_pdseries, "pydantic.validator": o_validator, "pydantic.field_validator": o_validator,
    "pydantic.class_validators.validator": o_validator, "collections.defaultdict": o_defaultdict, "types.SimpleNamespace": o_namespace, "pandas.accessor": lambda I, a, k, s, n: a[0],
    "collections.OrderedDict": b_dict, "numba.typed.Dict.empty": lambda I, a, k, s, n: I.new(s, "dict", fields={}, pytype="dict"), "typing.TypeVar": lambda I, a, k, s, n: X.unknown("TypeVar"), "operator.add": lambda I, a, k, s, n: I.binop(ast.Add(), a[0], a[1], s, n),
    "operator.mul": lambda I, a, k, s, n: I.binop(ast.Mult(), a[0], a[1], s, n), "numba.njit": lambda I, a, k, s, n: numba_call(I, "njit", a, k, s, n), "collections.ChainMap": lambda I, a, k, s, n: o_chainmap(I, a, k, s, n),
    "itertools.repeat": lambda I, a, k, s, n: I.arr(s, X.full(D(I, a[1], s), a[0])) if len(a) > 1 else X.unknown("repeat"),
}


OPER = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod, "pow": ast.Pow, "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor, "matmul": ast.MatMult, "iadd": ast.Add, "imul": ast.Mult}


def o_fromkeys(I, a, k, s, n):
    ct = I.as_content(a[0], s, n)
    v = a[1] if len(a) > 1 else NONE
    if is_str(ct):
        ct = X.seq([const(x) for x in cval(ct)])
    if ct.op not in ("seq", "tup"):
        return X.unknown("dict", I.deep(ct, s))
    return I.new(s, "dict", fields={I.deep(x, s): (TRUE, v) for x in ct.args}, pytype="dict")


def o_chainmap(I, a, k, s, n):
    f = {}
    for x in reversed(a):
        if x.op == "ref" and I.cell(s, x).kind == "dict":
            for kk, pv in I.cell(s, x).fields.items():
                f[kk] = pv
        else:
            return X.unknown("ChainMap")
    return I.new(s, "dict", fields=f, pytype="dict")


# ---------------------------------------------------------------- attributes and methods of values
def attr(I, o, name, st, node, default=None):
    """attribute of a non-object value"""
    kind = None
    if o.op == "ref":
        kind = I.cell(st, o).kind
    elif o.sort == "arr":
        kind = "arr"
    elif o.op == "tup":
        kind = "tup"
    elif o.sort == "str":
        kind = "str"
    elif o.sort in ("num", "bool") or o.op in ("nan", "inf"):
        kind = "num"
    if name == "__dict__" and kind in ("arr", "tup", "str", "num", "list", "dict", "set") and default is None:
        I.do_raise(st, TRUE, "AttributeError", node)
    if kind == "arr":
        d = D(I, o, st)
        if name == "size":
            if d.op == "cols":
                return X.mul(X.length(d.args[0]), const(len(d.args)))
            return X.length(d)
        if name == "shape":
            if d.op == "cols":
                return X.tup([X.length(d.args[0]), const(len(d.args))])
            return X.tup([X.length(d)])
        if name == "ndim":
            return const(2) if d.op == "cols" else ONE
        if name == "T":
            return I.arr(st, transpose(d))
        if name in ("values", "array", "real", "flat", "_values"):
            return o
        if name == "dtype":
            return X.uf("dtype", [], "any")
        if name == "flags":
            return X.uf("flags", [o], "any")
        if name == "index":
            return X.uf("?index", [], "any", True)
        if name in ("str", "dt", "iloc", "loc", "iat", "at"):
            return o
        return X._mk("meth", (name, o), "func", X._H("meth", name, o.fp, o.id))
    if kind == "num":
        if name in ("real",):
            return o
        if name in ("shape",):
            return X.tup([])
        if name in ("size",):
            return ONE
        if name in ("ndim",):
            return ZERO
        if name in ("imag",):
            return ZERO
        if name in ("value",) and o.op == "uf":
            return X.uf("attr:value", [o], "any")
        return X._mk("meth", (name, o), "func", X._H("meth", name, o.fp, o.id))
    if kind in ("list", "dict", "set", "tup", "str", "df"):
        if kind == "df":
            c = I.cell(st, o)
            if name in ("columns", "keys"):
                return I.newlist(st, list(c.fields)) if name == "columns" else X._mk("meth", (name, o), "func", X._H("meth", name, o.fp, o.id))
            if name == "index":
                return X.uf("dfindex", [const(o.args[0])], "any")
            if name in ("loc", "iloc"):
                return o
            if name in ("shape",):
                return X.tup([b_len(I, [o], {}, st, node), const(len(c.fields))])
            if name == "empty":
                return X.lift("eq0", X.eq0, b_len(I, [o], {}, st, node))
            if c.meta is not None and c.meta.get("closed") and name.startswith("_"):
                if default is not None:
                    return default
                I.do_raise(st, TRUE, "AttributeError", node)
        return X._mk("meth", (name, o), "func", X._H("meth", name, o.fp, o.id))
    if o.op == "rngobj" or (o.op == "uf" and o.args[0] == "rng"):
        return X._mk("meth", (name, o), "func", X._H("meth", name, o.fp))
    if o.op == "uf" and str(o.args[0]).startswith("enum:"):
        return X.uf("attr:" + name, [o], "any")
    if o.op in ("meth", "bound", "partial"):
        return X.uf("fnattr:" + name, [], "any")
    # opaque object
    facts = X.SYM.get(o, {})
    at = facts.get("attrs")
    if at and name in at:
        return at[name]
    if default is not None and not (at and name in at):
        return select(X.atom(X.uf("hasattr:" + name, [o], "bool", o.unk)), X.uf("attr:" + name, [o], "any", o.unk), default)
    return X.uf("attr:" + name, [o], "any", o.unk)


STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "swapcase", "replace", "format", "zfill", "join", "encode", "decode"}


def method(I, name, o, args, kw, st, node):
    if name.startswith("super."):
        n = name[6:]
        if n == "__setattr__":
            I.rawset(o, cval(args[0]), args[1], st, node)
            return NONE
        if n == "__init__" or n == "__init_subclass__":
            return NONE
        if n == "__getattribute__" or n == "__getattr__":
            return I.cell(st, o).fields.get(cval(args[0]), X.unknown("super.getattr"))
        if n == "__eq__":
            return TRUE if o is args[0] else FALSE
        return X.unknown("super." + n)
    if name in ("__init__", "__new__") and o.op == "cls":
        return NONE
    if o.op == "ite":
        return I.on_leaves(o, st, lambda l, s: I.call(I.getattr(l, name, s, node), args, kw, s, node))
    kind = I.cell(st, o).kind if o.op == "ref" else ("arr" if o.sort == "arr" else "tup" if o.op == "tup" else "str" if o.sort == "str" else "num" if o.sort in ("num", "bool") else None)
    h = globals().get(f"m_{kind}")
    if h is not None:
        r = h(I, name, o, args, kw, st, node)
        if r is not None:
            return r
    fa = [I.freeze(D(I, a, st), st) if a.op != "star" else a.args[0] for a in [o] + list(args)] + [I.freeze(D(I, v, st), st) for k, v in sorted(kw.items())]
    if kind is None or (o.op == "uf" and o.args[0] == "rng"):
        return X.uf("call:" + name, fa, "any", o.unk)
    return X.uf(f"?{kind}.{name}", fa, "any", True)


def m_str(I, name, o, args, kw, st, node):
    d = o
    av = [D(I, a, st) for a in args]
    if name == "join":
        ct = av[0]
        if ct.op in ("seq", "tup") and is_str(o) and all(is_str(x) for x in ct.args):
            return const(cval(o).join(cval(x) for x in ct.args))
        return X.uf("join", [o, I.freeze(ct, st)], "str")
    if is_str(d) and all(is_str(a) or is_num(a) for a in av) and not kw:
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "replace", "startswith", "endswith", "find", "count", "isdigit", "isalpha", "index", "removeprefix", "removesuffix", "zfill", "isnumeric"):
            pv = [cval(a) if is_str(a) else int(cval(a)) for a in av]
            return const(getattr(cval(d), name)(*pv))
        if name in ("split", "rsplit", "splitlines"):
            pv = [cval(a) if is_str(a) else int(cval(a)) for a in av]
            return I.newlist(st, [const(x) for x in getattr(cval(d), name)(*pv)])
        if name in ("partition", "rpartition"):
            return X.tup([const(x) for x in getattr(cval(d), name)(cval(av[0]))])
    if name in ("startswith", "endswith"):
        if av[0].op == "tup":
            return X.bany(X.truth(m_str(I, name, o, [x], kw, st, node)) for x in av[0].args)
        return X.atom(X.uf(name, [d] + av, "bool"))
    if name in STRM:
        if name == "lower" and d.op == "uf" and d.args[0] == "str.lower":
            return d
        return X.uf("str." + name, [d] + [I.freeze(a, st) for a in av] + [I.freeze(D(I, v, st), st) for _, v in sorted(kw.items())], "str")
    if name in ("isdigit", "isalpha", "isnumeric", "isidentifier"):
        return X.atom(X.uf("str." + name, [d], "bool"))
    if name in ("split", "rsplit"):
        return X.uf("str.split", [d] + av, "arr")
    if name in ("find", "count", "index"):
        return X.uf("str." + name, [d] + av, "num")
    return None


def m_num(I, name, o, args, kw, st, node):
    if name in ("item", "conjugate", "copy", "tolist", "mean", "max", "min", "sum", "squeeze", "ravel", "flatten"):
        return o
    if name == "astype":
        return o
    if name == "is_integer":
        return X.eq(o, X.uf("trunc", [o], "num")) if not X.is_int(o) else TRUE
    if name == "round":
        return np_round(I, [o] + list(args), kw, st, node)
    if name in ("any", "all"):
        return X.truth(o)
    if name == "__add__":
        return I.binop(ast.Add(), o, args[0], st, node)
    if name == "__mul__":
        return I.binop(ast.Mult(), o, args[0], st, node)
    return None


def m_tup(I, name, o, args, kw, st, node):
    if name == "index":
        x = D(I, args[0], st)
        for i, y in enumerate(o.args):
            if y is x:
                return const(i)
        return X.uf("?tupindex", [o, x], "num", True)
    if name == "count":
        return X.uf("?count", [], "num", True)
    return None


def m_arr(I, name, o, args, kw, st, node):
    d = D(I, o, st)
    if name in ("sum", "prod", "max", "min", "any", "all", "mean", "cumsum", "round", "repeat", "argmax", "argmin", "clip", "argsort", "std", "nonzero", "dot", "searchsorted", "ptp", "squeeze", "diff"):
        return NP[name](I, [o] + list(args), kw, st, node)
    if name == "abs":
        return I.arr(st, X.tabs(d))
    if name in ("tolist", "to_list"):
        return I.new(st, "list", tolist(d), pytype="list")
    if name in ("copy", "to_numpy", "__array__", "flatten", "__copy__", "__deepcopy__"):
        if name == "flatten" and d.op == "cols":
            return X.uf("?flatten", [d], "arr", True)
        return I.new(st, "arr", d, pytype="ndarray")
    if name == "ravel":
        if d.op == "cols":
            return X.uf("?ravel", [d], "arr", True)
        return o
    if name == "astype":
        t = args[0] if args else kw.get("dtype", NONE)
        en = extname(t) if t.op == "ext" else (cval(t) if is_str(t) else "")
        en = en or ""
        kind = dkind(I, t, st)
        if kind in ("int", "wrap", "uwrap", "single", "half") and not (kind in ("single", "half") and I.is_bool_arr(d)):
            return typed(I, st, I.new(st, "arr", d, pytype="ndarray"), kind) if X.is_arr(d) else coerce(kind, d)
        if "bool" in en:
            return I.arr(st, X.ew("bool", X.truth, d))
        if I.is_bool_arr(d):
            return I.arr(st, X.ew("b2n", lambda x: select(X.truth(x), ONE, ZERO), d))
        return I.new(st, "arr", d, pytype="ndarray")
    if name == "reshape":
        sh = args[0].args if len(args) == 1 and args[0].op == "tup" else args
        sh = tuple(D(I, x, st) for x in sh)
        if len(sh) == 1:
            return o
        return I.new(st, "arr", X.uf("reshape", [d] + list(sh), "arr"), pytype="ndarray")
    if name == "transpose":
        return I.arr(st, transpose(d))
    if name in ("fill",):
        I.write(st, o, node, ".fill()")
        I.put_content(st, o, X.full(X.length(d), D(I, args[0], st)))
        return NONE
    if name in ("sort",):
        I.write(st, o, node, ".sort()")
        I.put_content(st, o, sort_term(d))
        return NONE
    if name in ("resize", "partition", "put", "itemset", "setfield", "byteswap"):
        I.write(st, o, node, f".{name}()")
        I.put_content(st, o, X.unknown(name, d))
        return NONE
    if name == "setflags":
        I.event("setflags", st, node, ref=o, kw=kw)
        return NONE
    if name == "item":
        return X.elem(d, D(I, args[0], st) if args else ZERO)
    if name in ("isin",):
        return np_isin(I, [o] + list(args), kw, st, node)
    if name == "__len__":
        return X.length(d)
    if name == "__getitem__":
        return I.getitem(o, args[0], st, node)
    if name == "view":
        return o
    if name == "__setitem__":
        I.setitem(o, args[0], args[1], st, node)
        return NONE
    if name == "append":
        return None
    return None


def tolist(d):
    if d.op == "cols":
        n = X.length(d.args[0])
        if is_num(n):
            return X.seq([X.seq([X.elem(c, const(i)) for c in d.args]) for i in range(int(cval(n)))])
        i = X.fresh("i", "num", int=True, nonneg=True)
        return X.lam(n, i, X.seq([X.elem(c, i) for c in d.args]))
    return d


def _upd(I, st, o, new):
    I.setcell(st, o, content=new)


def m_list(I, name, o, args, kw, st, node):
    c = I.cell(st, o)
    ct = c.content
    if name == "append":
        I.write(st, o, node, ".append()")
        _upd(I, st, o, X.mk_concat([ct, X.seq([args[0]])]))
        return NONE
    if name == "extend":
        I.write(st, o, node, ".extend()")
        _upd(I, st, o, X.mk_concat([ct, I.as_content(args[0], st, node)]))
        return NONE
    if name == "insert":
        I.write(st, o, node, ".insert()")
        k = D(I, args[0], st)
        if ct.op == "seq" and is_num(k):
            xs = list(ct.args)
            xs.insert(int(cval(k)), args[1])
            _upd(I, st, o, X.seq(xs))
        elif k is ZERO:
            _upd(I, st, o, X.mk_concat([X.seq([args[1]]), ct]))
        else:
            _upd(I, st, o, X.unknown("insert", ct))
        return NONE
    if name == "pop":
        I.write(st, o, node, ".pop()")
        k = D(I, args[0], st) if args else const(-1)
        if ct.op == "seq" and is_num(k) and ct.args:
            xs = list(ct.args)
            x = xs.pop(int(cval(k)))
            _upd(I, st, o, X.seq(xs))
            return x
        n = X.length(ct)
        if is_num(k) and cval(k) == -1 and ct.sort == "arr":
            x = X.elem(ct, X.sub(n, ONE))
            _upd(I, st, o, X.mk_slice(ct, ZERO, X.sub(n, ONE)))
            return x
        if k is ZERO and ct.sort == "arr":
            x = X.elem(ct, ZERO)
            _upd(I, st, o, X.mk_slice(ct, ONE, X.sub(n, ONE)))
            return x
        _upd(I, st, o, X.unknown("pop", ct))
        return X.unknown("popped", ct)
    if name in ("remove",):
        I.write(st, o, node, ".remove()")
        if ct.op == "seq" and args[0] in ct.args:
            xs = list(ct.args)
            xs.remove(args[0])
            _upd(I, st, o, X.seq(xs))
        else:
            _upd(I, st, o, X.unknown("remove", ct))
        return NONE
    if name == "clear":
        I.write(st, o, node, ".clear()")
        _upd(I, st, o, EMPTY)
        return NONE
    if name in ("sort", "reverse"):
        I.write(st, o, node, f".{name}()")
        if name == "reverse":
            _upd(I, st, o, I.slice_term(ct, X.node("slc", (NONE, NONE, const(-1)), "slc")))
        elif kw:
            _upd(I, st, o, X.unknown("sort", ct))
        else:
            _upd(I, st, o, sort_term(I.deep(ct, st)))
        return NONE
    if name == "copy":
        return I.new(st, "list", ct, pytype="list")
    if name == "index":
        x = D(I, args[0], st)
        if ct.op == "seq":
            r = X.unknown("notfound")
            hit = FALSE
            for i in reversed(range(len(ct.args))):
                e = I.eqterm(I.deep(ct.args[i], st), x)
                r = select(e, const(i), r)
                hit = bor(hit, e)
            I.do_raise(st, bnot(hit), "ValueError", node)
            return X.constrain(r, st.pc)
        return X.uf("listindex", [I.deep(ct, st), x], "num")
    if name == "count":
        x = D(I, args[0], st)
        if ct.op == "seq":
            r = ZERO
            for y in ct.args:
                r = X.add(r, select(I.eqterm(I.deep(y, st), x), ONE, ZERO))
            return r
        return X.uf("listcount", [I.deep(ct, st), x], "num")
    if name in ("tolist",):
        return I.new(st, "list", ct, pytype="list")
    if name in ("issubset", "issuperset", "union", "difference"):
        return m_set(I, name, o, args, kw, st, node)
    if name == "__len__":
        return X.length(I.deep(ct, st))
    return None


def m_set(I, name, o, args, kw, st, node):
    c = I.cell(st, o)
    ct = c.content
    if name == "add":
        I.write(st, o, node, ".add()")
        if ct.op == "seq" and args[0].op == "const" and all(x.op == "const" for x in ct.args):
            _upd(I, st, o, X.seq(list(dict.fromkeys(ct.args + (args[0],)))))
        else:
            _upd(I, st, o, X.unknown("setadd", ct, D(I, args[0], st)))
        return NONE
    if name in ("issubset", "issuperset"):
        b = args[0]
        oc = X.seq(I.dict_keys(I.cell(st, b), st)[1]) if b.op == "ref" and I.cell(st, b).kind == "dict" and all(X.constrain(p, st.pc) in (TRUE, FALSE) for p, _ in I.cell(st, b).fields.values()) else None
        if b.op == "ref" and I.cell(st, b).kind == "dict":
            flds = I.cell(st, b).fields
            has = lambda k: (flds.get(k) or (FALSE,))[0]
            if name == "issubset" and ct.op == "seq":
                return X.ball(has(k) for k in ct.args)
        if b.op == "dictkeys":
            flds = I.cell(st, b.args[0]).fields
            if name == "issubset" and ct.op == "seq":
                return X.ball((flds.get(k) or (FALSE,))[0] for k in ct.args)
        if oc is None:
            oc = I.deep(I.as_content(b, st, node), st)
        a_, b_ = (ct, oc) if name == "issubset" else (oc, ct)
        if a_.op == "seq":
            return X.ball(X.truth(I.contains(b_, x, st, node)) for x in a_.args)
        return X.atom(X.uf("?subset", [a_, b_], "bool", True))
    if name in ("union", "difference", "intersection", "symmetric_difference"):
        op = {"union": ast.BitOr(), "difference": ast.Sub(), "intersection": ast.BitAnd(), "symmetric_difference": ast.BitXor()}[name]
        b = I.new(st, "set", setlike(I, args[0], st, node), pytype="set")
        return I.setop(op, o, b, st)
    if name in ("update", "discard", "remove", "pop", "clear"):
        I.write(st, o, node, f".{name}()")
        if name == "update" and ct.op == "seq":
            b = setlike(I, args[0], st, node)
            if b.op == "seq":
                _upd(I, st, o, X.seq(list(dict.fromkeys(ct.args + b.args))))
                return NONE
        if name in ("discard", "remove") and ct.op == "seq" and args[0].op == "const":
            _upd(I, st, o, X.seq([x for x in ct.args if x is not args[0]]))
            return NONE
        _upd(I, st, o, X.unknown("set." + name, ct))
        return NONE
    if name == "copy":
        return I.new(st, "set", ct, pytype="set")
    return None


def m_dict(I, name, o, args, kw, st, node):
    c = I.cell(st, o)
    f = c.fields
    if name in ("keys", "__iter__"):
        return X.node("dictkeys", (o,), "any") if not all(X.constrain(p, st.pc) in (TRUE, FALSE) for p, _ in f.values()) else I.newlist(st, I.dict_keys(c, st)[1])
    if name == "values":
        return I.variants(c, st, lambda k, v: v, lambda xs: I.newlist(st, xs))
    if name == "items":
        return I.variants(c, st, lambda k, v: X.tup((k, v)), lambda xs: I.newlist(st, xs))
    if name == "get":
        k = D(I, args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        w = I.wild(c, k, st)
        if w is not None:
            return w
        if I.plainkey(c, k):
            p, v = f.get(k, (FALSE, UNBOUND))
            return dflt if p is FALSE else select(p, v, dflt)
        r = dflt
        for kk, (p, v) in f.items():
            r = select(band(p, X.eq(kk, k)), v, r)
        return r
    if name == "pop":
        k = D(I, args[0], st)
        I.write(st, o, node, ".pop()")
        if k.op == "const" and I.wild(c, k, st) is None and I.plainkey(c, k):
            p, v = f.get(k, (FALSE, UNBOUND))
            nf = {a: b for a, b in f.items() if a is not k}
            if len(args) > 1:
                I.setcell(st, o, fields=nf)
                return args[1] if p is FALSE else select(p, v, args[1])
            I.do_raise(st, bnot(p), "KeyError", node)
            I.setcell(st, o, fields=nf)
            return v
        return X.unknown("dictpop", k)
    if name == "update":
        I.write(st, o, node, ".update()")
        nf = dict(f)
        if args:
            d = X.constrain(args[0], st.pc)
            if d.op == "ref" and I.cell(st, d).kind == "dict":
                for k, (p, v) in I.cell(st, d).fields.items():
                    op_, ov = nf.get(k, (FALSE, UNBOUND))
                    nf[k] = (bor(p, op_), v if p is TRUE or op_ is FALSE else select(p, v, ov))
            else:
                ct = I.as_content(d, st, node)
                if ct.op == "seq" and all(x.op == "tup" and len(x.args) == 2 for x in ct.args):
                    for x in ct.args:
                        nf[I.deep(x.args[0], st)] = (TRUE, x.args[1])
                else:
                    nf[X.unknown("update", D(I, d, st))] = (TRUE, d)
        for k, v in kw.items():
            nf[const(k)] = (TRUE, v)
        I.setcell(st, o, fields=nf)
        if c.meta and "dictof" in c.meta:
            t = c.meta["dictof"]
            I.write(st, t, node, "__dict__.update()")
            tc = I.cell(st, t)
            I.setcell(st, t, fields={**tc.fields, **{cval(k): v for k, (p, v) in nf.items() if is_str(k)}})
        return NONE
    if name == "setdefault":
        k = D(I, args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        p, v = f.get(k, (FALSE, UNBOUND))
        if p is TRUE:
            return v
        I.write(st, o, node, ".setdefault()")
        nv = dflt if p is FALSE else select(p, v, dflt)
        I.setcell(st, o, fields={**f, k: (TRUE, nv)})
        return nv
    if name == "copy":
        return I.new(st, "dict", fields=dict(f), pytype="dict", meta={k: v for k, v in (c.meta or {}).items() if k == "default"} or None)
    if name == "clear":
        I.write(st, o, node, ".clear()")
        I.setcell(st, o, fields={})
        return NONE
    if name == "popitem":
        I.write(st, o, node, ".popitem()")
        return X.unknown("popitem")
    if name in ("__contains__", "has_key"):
        return I.contains(o, args[0], st, node)
    if name == "__getitem__":
        return I.getitem(o, args[0], st, node)
    return None


def m_df(I, name, o, args, kw, st, node):
    c = I.cell(st, o)
    if name in ("copy",):
        return copyval(I, o, st, True)
    if name == "set_index":
        nr = copyval(I, o, st, False)
        if kw.get("inplace", FALSE) is TRUE:
            I.write(st, o, node, ".set_index(inplace)")
            return NONE
        return nr
    if name in ("keys",):
        return I.newlist(st, list(c.fields))
    if name in ("drop", "rename", "sort_values", "reset_index", "dropna", "fillna", "insert", "pop", "update"):
        if kw.get("inplace", FALSE) is TRUE or name in ("insert", "pop", "update"):
            I.write(st, o, node, f".{name}()")
    return None


# ---------------------------------------------------------------- pydantic
def pydantic_field(I, n, v, ann, c, good, st, node):
    """validation of one field: returns (value, condition under which the field is valid)"""
    a = ast.unparse(ann)
    ok = TRUE
    # pre validators are not used by the analysed code; post validators get (cls, value, values)
    bad = FALSE
    d = D(I, v, st)
    if "Positive" in a:
        bad = X.lift("npos", lambda x: bnot(X.s_lt(ZERO, x)) if x.sort in ("num", "any") and x is not NONE else TRUE, d)
        if "Optional" in a:
            bad = X.lift("npos2", lambda x: FALSE if x is NONE else bnot(X.s_lt(ZERO, x)), d)
    elif "NonNegative" in a:
        bad = X.lift("nneg", lambda x: X.s_lt(x, ZERO) if x is not NONE else TRUE, d)
    if bad is not FALSE:
        I.do_raise(st, bad, "ValidationError", node)
    for names, fn, opts in [(x[0], x[1], x[2]) for k in reversed(c.mro()) for x in k.validators]:
        if n in names or "*" in names:
            f = fn
            while f.op in ("clsm", "static"):
                f = f.args[0]
            # pydantic turns ValueError, TypeError and AssertionError of a validator into a ValidationError
            caught = []
            I.handlers.append(caught)
            nargs = [objterm("cls", c, "class"), v, good]
            fa = f.args[0].node.args
            npos = len(fa.args)
            kws = {}
            if npos < 3:
                nargs = nargs[:npos]
            if "field" in [x.arg for x in fa.args + fa.kwonlyargs] or fa.kwarg:
                if not fa.kwarg:
                    kws["field"] = X.uf("pydfield", [const(n)], "any")
            try:
                v = I.call(f, nargs, kws, st, node)
                alive = True
            except Dead:
                alive = False
            I.handlers.pop()
            pcs = FALSE
            for pc, exc, hs, where, val in caught:
                e2 = "ValidationError" if exc in ("ValueError", "TypeError", "AssertionError") else exc
                if I.handlers:
                    I.handlers[-1].append((pc, e2, hs, where, val))
                elif not I.quiet:
                    I.events.append(dict(kind="raise", file=where[0], line=where[1], func=where[2], pc=pc, exc=e2, cond=pc, val=val, stack=(), heap=hs.heap))
            if not alive:
                raise Dead
    return v, ok


def r_(I, st, k, which):
    parts = k.args if k.op == "tup" else (k,)
    out = []
    for p in parts:
        if p.op == "slc":
            a, b, s = p.args
            a = ZERO if a is NONE else a
            s = ONE if s is NONE else s
            r = np_arange(I, [a, b, s], {}, st, None)
            out.append(D(I, r, st))
        else:
            out.append(at1d(toarr(p)))
    if which == "numpy.c_":
        return I.arr(st, X.node("cols", out))
    return I.arr(st, X.mk_concat(out))
