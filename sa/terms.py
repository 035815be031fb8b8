"""Value-graph terms.

Terms are hash-consed.  Numeric terms carry a fingerprint in a prime field (global value numbering by random
interpretation, Gulwani & Necula): two rational functions over the same leaves get the same fingerprint iff they are equal (up to
a 2^-61 collision chance), and the first term built with a fingerprint represents the class.  Conditional values are
multi-terminal decision diagrams over canonical comparison atoms, so that gates of branches are compared, not branches.
Arrays are functions of an index (`lam`), so a vectorised expression and the loop that fills the array coincide.
"""
from __future__ import annotations

import hashlib
import math
from fractions import Fraction

P = (1 << 61) - 1


def _H(*xs) -> int:
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") % (P - 3) + 2


class T:
    __slots__ = ("op", "args", "id", "sort", "fp", "unk", "vars", "ht", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_tab: dict = {}
_rep: dict = {}
_next = [0]
_EMPTY = frozenset()


class TooBig(Exception):
    pass


def _mk(op, args, sort, fp, unk=False, vars_=_EMPTY, ht=0):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort, t.fp, t.unk, t.vars, t.ht = op, args, sort, fp, unk, vars_, ht
    t.id = _next[0]
    _next[0] += 1
    if t.id > 6_000_000:
        raise TooBig("term table limit")
    _tab[key] = t
    return t


# ---------------------------------------------------------------- constants and leaves
def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return _mk("const", (("b", v),), "bool", _H("bool", v))
    if isinstance(v, (int, Fraction)):
        v = Fraction(v)
        return _mk("const", (("n", v),), "num", v.numerator * pow(v.denominator, -1, P) % P)
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else neg(INF)
        return const(Fraction(repr(v)))
    if v is None:
        return _mk("const", (("0", None),), "none", _H("none"))
    if isinstance(v, str):
        return _mk("const", (("s", v),), "str", _H("str", v))
    if isinstance(v, bytes):
        return _mk("const", (("y", v),), "bytes", _H("bytes", v))
    if v is Ellipsis:
        return _mk("const", (("e", None),), "any", _H("ellipsis"))
    if isinstance(v, complex):
        return uf("complex", [const(v.real), const(v.imag)], "num")
    raise TypeError(v)


def cval(t):
    """python value of a constant term (Fraction for numbers); raises ValueError otherwise"""
    if t.op != "const":
        raise ValueError
    return t.args[0][1]


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.args[0][0] == "n"


def is_str(t):
    return t.op == "const" and t.args[0][0] == "s"


SYM: dict = {}  # facts about symbols: pos, nonneg, int, length, ...


def sym(name, sort="any", **facts):
    t = _mk("sym", (name, sort), sort, _H("sym", name, sort))
    _rep.setdefault(t.fp, t)
    if facts or t not in SYM:
        SYM.setdefault(t, {}).update(facts)
    return t


_fresh = [0]


def fresh(prefix="v", sort="num", **facts):
    """a variable that can be bound later (loop index, loop-carried value)"""
    _fresh[0] += 1
    n = f"{prefix}~{_fresh[0]}"
    t = _mk("var", (n, sort), sort, _H("var", n, sort))
    if not t.vars:
        t.vars = frozenset([t])
    _rep.setdefault(t.fp, t)
    SYM[t] = dict(facts)
    return t


def bv(h, sort="num", k=0):
    t = _mk("bv", (h, sort, k), sort, _H("bv", h, sort, k), ht=0)
    _rep.setdefault(t.fp, t)
    return t


def _unions(args):
    vs = _EMPTY
    unk = False
    ht = 0
    for a in args:
        if isinstance(a, T):
            if a.vars:
                vs = vs | a.vars if vs else a.vars
            unk = unk or a.unk
            if a.ht > ht:
                ht = a.ht
    return unk, vs, ht


def _fpargs(args):
    return tuple(a.fp if isinstance(a, T) else a for a in args)


def uf(name, args, sort="any", unk=False):
    """uninterpreted (but congruent) operator"""
    args = tuple(args)
    u, vs, ht = _unions(args)
    t = _mk("uf", (name,) + args, sort, _H("uf", name, _fpargs(args)), unk or u, vs, ht)
    if sort in ("num", "any"):
        _rep.setdefault(t.fp, t)
    return t


_unkn = [0]


def unknown(why, *args):
    """a value the analysis does not understand"""
    return uf("?" + str(why), [a for a in args if isinstance(a, T)], "any", True)


LITERALS = set()  # numbers that the analysed code mentions
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
NAN = _mk("nan", (), "num", _H("nan"))
INF = _mk("inf", (), "num", _H("inf"))
PI = sym("pi", "num", pos=True)
EUL = sym("euler", "num", pos=True)
UNBOUND = _mk("unbound", (), "unbound", _H("unbound"))
BOT = _mk("bot", (), "bot", _H("bot"))
ZERO = const(0)
ONE = const(1)
HALF = const(Fraction(1, 2))
_small = {}
for _d in (1, 2, 3, 4, 5, 8, 10):
    for _n in range(-64, 65):
        _c = const(Fraction(_n, _d))
        _small[_c.fp] = _c
EMPTY = None  # set below


# ---------------------------------------------------------------- decision diagrams
def ite(atom, hi, lo):
    if hi is lo:
        return hi
    u, vs, ht = _unions((atom, hi, lo))
    s = hi.sort if hi.sort == lo.sort else ("opt" if "none" in (hi.sort, lo.sort) else "any")
    return _mk("ite", (atom, hi, lo), s, _H("ite", atom.fp, hi.fp, lo.fp), u, vs, ht)


def _top(ts):
    v = None
    for t in ts:
        if t.op == "ite" and (v is None or t.args[0].id < v.id):
            v = t.args[0]
    return v


def cof(t, v, side):
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if side else t.args[2]
    return t


_liftmemo: dict = {}
_budget = [4_000_000]


def lift(name, f, *args):
    """apply f to the leaves of decision diagrams"""
    if _top(args) is None:
        return f(*args)
    memo = _liftmemo
    tag = name
    cells = getattr(f, "__closure__", None)
    if cells:
        # the result also depends on what the function has captured
        got = tuple(c.cell_contents for c in cells)
        if all(isinstance(x, (T, str, int)) for x in got):
            tag = (name, f.__code__, got)
        else:
            memo = {}
    return _lift(memo, tag, f, args)


def _lift(memo, tag, f, args):
    v = _top(args)
    if v is None:
        return f(*args)
    key = (tag, args)
    r = memo.get(key)
    if r is None:
        _budget[0] -= 1
        if _budget[0] < 0:
            raise TooBig("decision diagram budget")
        hi = _lift(memo, tag, f, tuple(cof(a, v, 1) for a in args))
        lo = _lift(memo, tag, f, tuple(cof(a, v, 0) for a in args))
        r = ite(v, hi, lo) if not _nested(v, hi, lo) else _ite_full(v, hi, lo)
        memo[key] = r
    return r


def _nested(v, hi, lo):
    return (hi.op == "ite" and hi.args[0].id <= v.id) or (lo.op == "ite" and lo.args[0].id <= v.id)


def _ite_full(v, hi, lo):
    """ite when hi/lo may test atoms ordered before v (leaf functions may create new atoms)"""
    return select(ite(v, TRUE, FALSE), hi, lo)


def select(c, a, b):
    """if c then a else b, c a boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if c.op != "ite":
        return BOT if c is BOT else select(truth(c), a, b)
    key = ("select", c, a, b)
    r = _liftmemo.get(key)
    if r is not None:
        return r
    _budget[0] -= 1
    if _budget[0] < 0:
        raise TooBig("decision diagram budget")
    v = _top((c, a, b))
    r = ite(v, select(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), select(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
    _liftmemo[key] = r
    return r


def bnot(c):
    return select(c, FALSE, TRUE)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    return select(a, b, FALSE)


def bor(a, b):
    return select(a, TRUE, b)


def ball(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def bany(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def atom(t):
    return ite(t, TRUE, FALSE)


def constrain(f, c):
    """simplify f given that c holds (restrict operator: no new atoms)"""
    if c is TRUE or c is FALSE or f.op != "ite":
        return f
    key = ("constrain", f, c)
    r = _liftmemo.get(key)
    if r is not None:
        return r
    v = _top((f, c))
    c1, c0 = cof(c, v, 1), cof(c, v, 0)
    f1, f0 = cof(f, v, 1), cof(f, v, 0)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    elif f1 is f0:
        r = constrain(f1, bor(c1, c0))  # f does not depend on v: do not introduce it
    else:
        r = ite(v, constrain(f1, c1), constrain(f0, c0))
    _liftmemo[key] = r
    return r


def leaves(t, limit=100000):
    """set of leaf terms of a diagram"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            out.append(x)
    return out


def paths(t, care=TRUE, limit=20000):
    """(list of (atom, side), leaf) for all consistent paths of a diagram"""
    out = []

    def go(x, c, path):
        if c is FALSE:
            return
        if len(out) > limit:
            raise TooBig("paths")
        if x.op != "ite" and c is TRUE:
            out.append((tuple(path), x))
            return
        v = _top((x, c))
        if v is None:
            return
        for side in (1, 0):
            lit = (v, side)
            if consistent(path + [lit]):
                go(cof(x, v, side), cof(c, v, side), path + [lit])

    go(t, care, [])
    return out


def atoms_of(t):
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x.args[0])
            st.append(x.args[1])
            st.append(x.args[2])
    return out


# ---------------------------------------------------------------- numbers
def to_poly(t):
    """dict monomial -> Fraction; a monomial is a tuple of (base, exponent term)"""
    if t.op == "poly":
        return dict(t.args)
    if t.op == "const":
        k, v = t.args[0]
        if k == "n":
            return {(): v} if v else {}
        if k == "b":
            return {(): Fraction(1)} if v else {}
    return {((t, ONE),): Fraction(1)}


def _exp_parts(e):
    """exponent term -> [(monomial term without coefficient, Fraction)]"""
    res = []
    for m, c in to_poly(e).items():
        res.append((from_poly({m: Fraction(1)}) if m else ONE, c))
    return res


def _fp_pow(base, e):
    r = 1
    for m, c in _exp_parts(e):
        if m is ONE:
            b = base.fp
        else:
            b = None
        if c.denominator == 1 and b is not None:
            x = b
        else:
            x = _H("root", base.fp, m.fp, c.denominator)
            if c.denominator != 1 and b is not None:
                # x**(n/d): keep consistent with integer powers of x
                q, rem = divmod(c.numerator, c.denominator)
                r = r * pow(b, q, P) % P
                g = math.gcd(rem, c.denominator)
                x = _H("root", base.fp, m.fp, c.denominator // g)
                r = r * pow(x, rem // g, P) % P
                continue
        r = r * pow(x, c.numerator, P) % P
    return r


def _fp_poly(items):
    s = 0
    for m, c in items:
        r = c.numerator * pow(c.denominator, -1, P) % P
        for b, e in m:
            r = r * _fp_pow(b, e) % P
        s = (s + r) % P
    return s


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((b.id, e.id) for b, e in mc[0])))
    key = ("poly", items)
    t = _tab.get(key)
    if t is not None:
        return t
    fp = _fp_poly(items)
    r = _small.get(fp)
    if r is not None:
        return r
    r = _rep.get(fp)
    if r is not None:
        return r
    unk, vs, ht = False, _EMPTY, 0
    for m, _ in items:
        for b, e in m:
            u, v, h = _unions((b, e))
            unk, vs, ht = unk or u, vs | v, max(ht, h)
    t = _mk("poly", items, "num", fp, unk, vs, ht)
    _rep[fp] = t
    return t


def _mono_mul(m1, m2):
    d = {}
    order = []
    for b, e in m1 + m2:
        if b in d:
            d[b] = add2(d[b], e)
        else:
            d[b] = e
            order.append(b)
    return tuple(sorted(((b, d[b]) for b in d if d[b] is not ZERO), key=lambda be: be[0].id))


MAXTERMS = 40


def add2(a, b):
    pa = to_poly(a)
    pb = to_poly(b)
    if len(pa) < len(pb):
        pa, pb = pb, pa
    r = dict(pa)
    for m, c in pb.items():
        r[m] = r.get(m, 0) + c
    return from_poly(r)


def mul2(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXTERMS and len(pa) > 1 and len(pb) > 1:
        # keep the product of two large sums factored
        return _mono_times(a, b)
    r = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            # x**a merged to an integer power of a sum: multiply out
            sums = [(x, e) for x, e in m if x.op == "poly" and is_num(e) and cval(e).denominator == 1 and 0 < cval(e) <= 4]
            cst = [(x, e) for x, e in m if x.op == "const" and is_num(e) and cval(e).denominator == 1]
            trig = [(x, e) for x, e in m if x.op == "uf" and x.args[0] == "cos" and is_num(e) and cval(e).denominator == 1 and cval(e) >= 2]
            if sums or cst or trig:
                rest = tuple(xe for xe in m if xe not in sums and xe not in cst and xe not in trig)
                t = from_poly({rest: c1 * c2})
                for x, e in sums:
                    for _ in range(int(cval(e))):
                        t = mul2(t, x)
                for x, e in cst:
                    t = mul2(t, const(cval(x) ** int(cval(e))))
                for x, e in trig:
                    n = int(cval(e))
                    s2 = add2(ONE, neg(from_poly({((uf("sin", [x.args[1]], "num"), const(2)),): Fraction(1)})))
                    for _ in range(n // 2):
                        t = mul2(t, s2)
                    if n % 2:
                        t = mul2(t, x)
                extra.append(t)
            else:
                r[m] = r.get(m, 0) + c1 * c2
    t = from_poly(r)
    for x in extra:
        t = add2(t, x)
    return t


def _mono_times(a, b):
    def fac(t):
        p = to_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            return m, c
        return ((t, ONE),), Fraction(1)

    m1, c1 = fac(a)
    m2, c2 = fac(b)
    return from_poly({_mono_mul(m1, m2): c1 * c2})


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def _arith_leaf(x):
    return x.sort in ("num", "any", "bool", "opt", "str") or x.op in ("nan", "inf")


def _badnum(*ts):
    for t in ts:
        if t is NONE or t.sort in ("none", "unbound", "ref", "func", "class", "tup", "bot"):
            return True
    return False


def s_add(a, b):
    if a is BOT or b is BOT:
        return BOT
    if a.sort == "str" or b.sort == "str":
        return s_concat(a, b)
    if _badnum(a, b):
        return unknown("add", a, b)
    if a is NAN or b is NAN:
        return NAN
    return add2(a, b)


def s_concat(a, b):
    if is_str(a) and is_str(b):
        return const(cval(a) + cval(b))
    parts = []
    for x in (a, b):
        if x.op == "uf" and x.args[0] == "strcat":
            parts += list(x.args[1:])
        else:
            parts.append(x)
    return uf("strcat", parts, "str")


def s_mul(a, b):
    if a is BOT or b is BOT:
        return BOT
    if _badnum(a, b):
        return unknown("mul", a, b)
    if a is NAN or b is NAN:
        return NAN
    return mul2(a, b)


def s_neg(a):
    if a is BOT:
        return BOT
    if _badnum(a):
        return unknown("neg", a)
    if a is NAN:
        return NAN
    return neg(a)


def _primitive(t):
    """t = c * t' with t' having leading coefficient 1"""
    p = to_poly(t)
    if not p:
        return Fraction(0), ZERO
    items = sorted(p.items(), key=lambda mc: (len(mc[0]) == 0, tuple((b.id, e.id) for b, e in mc[0])))
    c = items[0][1]
    if c == 1:
        return Fraction(1), t
    return c, from_poly({m: v / c for m, v in p.items()})


def pow2(b, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if is_num(b) and is_num(e):
        x, y = cval(b), cval(e)
        if y.denominator == 1 and abs(y) <= 64 and not (x == 0 and y < 0):
            return const(x ** int(y))
        if x == 0 and y > 0:
            return ZERO
        if y.denominator != 1 and x > 0:
            n = round(float(x.numerator) ** (1 / y.denominator)) if x.numerator < 10**12 else None
            d = round(float(x.denominator) ** (1 / y.denominator)) if x.denominator < 10**12 else None
            if n and d and Fraction(n, d) ** y.denominator == x:
                return const(Fraction(n, d) ** y.numerator)
        if x == 0:
            return unknown("0**", e)
    if b is ZERO and is_num(e) and cval(e) > 0:
        return ZERO
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if m:
            r = pow2(const(c), e) if c != 1 else ONE
            odd = not (is_num(e) and cval(e).denominator == 1)
            for x, k in m:
                if odd and is_num(k) and cval(k).denominator == 1 and cval(k) % 2 == 0 and sign(x) not in ("+", "0+"):
                    x, k = s_abs(x), k
                r = mul2(r, _pow_atom(x, mul2(k, e)))
            return r
        # constant base, symbolic exponent: 10**(a+2) = 100 * 10**a
        pe = to_poly(e)
        c0 = pe.get((), Fraction(0))
        if c0 and c0.denominator == 1 and len(pe) > 1:
            rest = from_poly({k: v for k, v in pe.items() if k})
            return mul2(pow2(b, const(c0)), _pow_atom(b, rest))
        return _pow_atom(b, e)
    if is_num(e) and cval(e).denominator == 1 and 0 < cval(e) <= 4 and len(p) ** int(cval(e)) <= MAXTERMS:
        r = ONE
        for _ in range(int(cval(e))):
            r = mul2(r, b)
        return r
    c, prim = _primitive(b)
    if c != 1 and (c > 0 or (is_num(e) and cval(e).denominator == 1)):
        return mul2(pow2(const(c), e), _pow_atom(prim, e))
    if c < 0:
        c2 = -c
        return mul2(pow2(const(c2), e), _pow_atom(neg(prim), e))
    return _pow_atom(b, e)


def _pow_atom(x, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return x
    # a power with a symbolic exponent: (x**a)**b etc. were merged by the caller
    if x.op == "uf" and x.args[0] == "exp":
        return t_exp(mul2(x.args[1], e))
    return from_poly({((x, e),): Fraction(1)})


def s_pow(b, e):
    if b is BOT or e is BOT:
        return BOT
    if _badnum(b, e):
        return unknown("pow", b, e)
    if b is NAN or e is NAN:
        return NAN
    if b is INF and is_num(e):
        return INF if cval(e) > 0 else ZERO
    return pow2(b, e)


def s_div(a, b):
    if a is BOT or b is BOT:
        return BOT
    if _badnum(a, b):
        return unknown("div", a, b)
    if b is ZERO:
        return unknown("div0", a)
    if b is INF and a is not INF:
        return ZERO
    return s_mul(a, s_pow(b, const(-1)))


def t_log(x):
    if is_num(x) and cval(x) == 1:
        return ZERO
    if x is EUL:
        return ONE
    if x is INF:
        return INF
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if m and (len(m) > 1 or c != 1 or m[0][1] is not ONE) and c > 0:
            r = t_log(const(c)) if c != 1 else ZERO
            for b, e in m:
                r = add2(r, mul2(e, t_log(b)))
            return r
        if not m and c > 0:
            # log of a number: factor powers of small primes for canonicity
            r = {}
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                q = 2
                while n > 1 and q < 1000:
                    while n % q == 0:
                        r[q] = r.get(q, 0) + s
                        n //= q
                    q += 1
                if n > 1:
                    r[n] = r.get(n, 0) + s
            t = ZERO
            for q, k in r.items():
                t = add2(t, mul2(const(k), uf("log", [const(q)], "num")))
            return t
    return uf("log", [x], "num")


def t_exp(x):
    """exp(sum) with c*log(b) terms turned into powers of b"""
    if x is INF:
        return INF
    r = ONE
    rest = {}
    # group terms that are multiples of log(2) and log(5) into powers of ten etc.
    logs = {}
    for m, c in to_poly(x).items():
        lg = [b for b, e in m if b.op == "uf" and b.args[0] == "log" and e is ONE]
        if lg:
            # prefer a log of a symbolic argument; constants are grouped
            lg.sort(key=lambda b: is_num(b.args[1]))
            b = lg[0]
            m2 = tuple(be for be in m if be[0] is not b)
            coef = from_poly({m2: c})
            logs.setdefault(b.args[1], []).append(coef)
        else:
            rest[m] = c
    consts = []
    for b, cs in logs.items():
        e = ZERO
        for c in cs:
            e = add2(e, c)
        if is_num(b):
            consts.append((b, e))
        else:
            r = mul2(r, pow2(b, e))
    # constants: merge bases with equal exponents (2**a * 5**a = 10**a)
    by = {}
    for b, e in consts:
        by[e] = mul2(by[e], b) if e in by else b
    for e, b in by.items():
        r = mul2(r, pow2(b, e))
    if rest:
        r = mul2(r, uf("exp", [from_poly(rest)], "num"))
    return r


def s_abs(x):
    if x is BOT:
        return BOT
    if _badnum(x):
        return unknown("abs", x)
    s = sign(x)
    if s in ("+", "0+", "0"):
        return x
    if s in ("-", "0-"):
        return neg(x)
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] is ONE:
            if m[0][0].op == "uf" and m[0][0].args[0] == "abs":
                return from_poly({m: abs(c)})
            if abs(c) == 1:
                return uf("abs", [m[0][0]], "num")
        r = const(abs(c))
        for b, e in m:
            r = mul2(r, pow2(s_abs(b), e))
        return r
    n = neg(x)
    y = x if x.id < n.id else n
    c, y = _primitive(y)
    y = y if c > 0 else neg(y)
    return mul2(const(abs(c)), uf("abs", [y], "num")) if abs(c) != 1 else uf("abs", [y], "num")


# ---------------------------------------------------------------- signs
_POSUF = {"exp", "count1", "factor"}
_NNUF = {"abs", "len", "count", "sqrt", "iota"}


def sign(t):
    """one of + - 0 0+ 0- ?"""
    if t.op == "const":
        k, v = t.args[0]
        if k == "n":
            return "+" if v > 0 else "-" if v < 0 else "0"
        if k == "b":
            return "+" if v else "0"
        return "?"
    if t is INF:
        return "+"
    if t.op in ("sym", "var"):
        f = SYM.get(t, {})
        return "+" if f.get("pos") else "0+" if f.get("nonneg") else "?"
    if t.op == "bv":
        return "0+" if t.args[2] == 0 else "?"
    if t.op == "uf":
        n = t.args[0]
        if n in _POSUF:
            return "+"
        if n in _NNUF:
            return "0+"
        if n == "log" and is_num(t.args[1]):
            return "+" if cval(t.args[1]) > 1 else "-"
        if n == "idx":
            f = SYM.get(t.args[1], {})
            return "+" if f.get("epos") else "0+" if f.get("enonneg") else "?"
        return "?"
    if t.op == "poly":
        acc = None
        for m, c in t.args:
            s = "+" if c > 0 else "-"
            for b, e in m:
                if is_num(e) and cval(e).denominator == 1 and cval(e) % 2 == 0:
                    sb = sign(b)
                    if cval(e) > 0:
                        sb = "+" if sb in ("+", "-") else "0+"
                    else:
                        sb = "+"
                else:
                    sb = sign(b)
                    if sb == "0+" and is_num(e) and cval(e) < 0:
                        sb = "+"
                    if sb not in ("+", "0+") and not is_num(e):
                        sb = "?" if sb != "+" else "+"
                s = _smul(s, sb)
            acc = s if acc is None else _sadd(acc, s)
            if acc == "?":
                return "?"
        return acc
    if t.op == "ite":
        ss = {sign(x) for x in leaves(t)}
        acc = None
        for s in ss:
            acc = s if acc is None else _sjoin(acc, s)
        return acc
    return "?"


def _smul(a, b):
    if "0" in (a, b):
        return "0"
    if "?" in (a, b):
        return "?"
    z = "0" in a or "0" in b
    n = a.endswith("-") != b.endswith("-")
    return ("0" if z else "") + ("-" if n else "+")


def _sadd(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if "?" in (a, b):
        return "?"
    if a[-1] != b[-1]:
        return "?"
    return a[-1] if "0" not in a or "0" not in b else a


def _sjoin(a, b):
    if a == b:
        return a
    if "?" in (a, b):
        return "?"
    s = {a[-1], b[-1]} - {"0"}
    if len(s) > 1:
        return "?"
    return "0" + (s.pop() if s else "")


def is_int(t):
    if t.op == "const":
        k, v = t.args[0]
        return k == "b" or (k == "n" and v.denominator == 1)
    if t.op in ("sym", "var"):
        return bool(SYM.get(t, {}).get("int"))
    if t.op == "bv":
        return t.args[2] == 0
    if t.op == "uf":
        return t.args[0] in ("len", "count", "int", "floordiv", "mod_int", "iota", "argmin", "argmax", "ceil", "floor") or (
            t.args[0] == "idx" and (SYM.get(t.args[1], {}).get("eint") or (t.args[1].op == "uf" and t.args[1].args[0] in ("where", "digitize", "argsort")))
        )
    if t.op == "poly":
        for m, c in t.args:
            if c.denominator != 1:
                return False
            for b, e in m:
                if not (is_num(e) and cval(e).denominator == 1 and cval(e) > 0 and is_int(b)):
                    return False
        return True
    return False


# ---------------------------------------------------------------- comparisons
def _clear_denominators(p):
    """multiply by positive factors so that no denominator of known sign is left"""
    flip = False
    for _ in range(8):
        den = {}
        for m, _c in to_poly(p).items():
            for b, e in m:
                if is_num(e) and cval(e) < 0 and cval(e).denominator == 1:
                    den[b] = min(den.get(b, 0), cval(e))
        chosen = None
        for b, k in sorted(den.items(), key=lambda be: be[0].id):
            s = sign(b)
            if s in ("+", "-", "0+", "0-"):
                chosen = (b, -k, s)
                break
        if chosen is None:
            break
        b, k, s = chosen
        f = ONE
        for _i in range(int(k)):
            f = mul2(f, b)
        p = mul2(p, from_poly({((b, const(k)),): Fraction(1)})) if b.op != "poly" else mul2_atom(p, b, int(k))
        if "-" in s and int(k) % 2 == 1:
            flip = not flip
    return p, flip


def mul2_atom(p, b, k):
    """p * b**k where b is a sum that appears as a denominator factor"""
    r = ZERO
    for m, c in to_poly(p).items():
        mm = dict(m)
        e = mm.get(b, ZERO)
        rest = from_poly({tuple(x for x in m if x[0] is not b): c})
        n = cval(e) + k if is_num(e) else None
        if n is None:
            r = add2(r, mul2(rest, mul2(_pow_atom(b, e), pow2(b, const(k)))))
            continue
        t = rest
        for _ in range(int(n)):
            t = mul2(t, b)
        r = add2(r, t)
    return r


def _common(p):
    """drop common monomial factors of known positive sign; returns (p, flip)"""
    pp = to_poly(p)
    if not pp:
        return p, False
    ms = list(pp)
    flip = False
    if len(ms) == 1:
        (m, c), = pp.items()
        if c < 0:
            flip = True
        rest = []
        zero_poss = []
        for b, e in m:
            s = sign(b)
            if is_num(e) and cval(e).denominator == 1 and cval(e) % 2 == 0 and cval(e) < 0:
                continue
            if s == "+":
                continue
            if s == "-" and is_num(e) and cval(e).denominator == 1:
                if cval(e) % 2:
                    flip = not flip
                continue
            if is_num(e) and cval(e).denominator == 1:
                if cval(e) % 2:
                    rest.append((b, ONE))
                else:
                    rest.append((b, const(2)))
            else:
                rest.append((b, ONE) if not is_num(e) or cval(e) > 0 else (b, const(1)))
        return from_poly({tuple(rest): Fraction(1)}), flip
    com = None
    for m in ms:
        d = {b: e for b, e in m if is_num(e)}
        if com is None:
            com = d
        else:
            com = {b: (com[b] if cval(com[b]) < cval(d[b]) else d[b]) for b in com if b in d}
    inv = []
    for b, e in (com or {}).items():
        s = sign(b)
        if s == "+":
            inv.append((b, neg(e)))
    if inv:
        inv = tuple(sorted(inv, key=lambda be: be[0].id))
        p = from_poly({_mono_mul(m, inv): c for m, c in pp.items()})
    return p, flip


def lt0(p):
    """p < 0"""
    s = sign(p)
    if s == "-":
        return TRUE
    if s in ("+", "0", "0+"):
        return FALSE
    p, f1 = _clear_denominators(p)
    p, f2 = _common(p)
    flip = f1 != f2
    s = sign(p)
    if s in ("-", "+", "0"):
        return TRUE if (s == "-") != (flip and s != "0") and s != "0" else FALSE
    c, prim = _primitive(p)
    if c < 0:
        flip = not flip
    # now the question is: prim < 0 (not flip) or prim > 0 (flip)
    if is_int(prim) or _int_primitive(prim) is not None:
        q = prim if is_int(prim) else _int_primitive(prim)
        base = from_poly({m: v for m, v in to_poly(q).items() if m})
        k = to_poly(q).get((), Fraction(0))
        k = Fraction(math.floor(k)) if not flip else k
        if flip:
            # q > 0  <=> base + k > 0 <=> not(base + k <= 0) <=> not(base + k - 1 < 0)
            return bnot(_lt_int(base, Fraction(math.ceil(k)) - 1))
        return _lt_int(base, Fraction(math.ceil(k)))
    if _has_inf(prim):
        return _lt_inf(prim, flip)
    if not flip:
        return atom(_cmp_atom("lt0", prim))
    return band(bnot(atom(_cmp_atom("lt0", prim))), bnot(atom(_cmp_atom("eq0", prim))))


def _int_primitive(t):
    """scale to integer coefficients when all leaves are integers"""
    p = to_poly(t)
    for m in p:
        for b, e in m:
            if not (is_num(e) and cval(e).denominator == 1 and cval(e) > 0 and is_int(b)):
                return None
    l = 1
    for c in p.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, int(c * l))
    if not g:
        return None
    return from_poly({m: c * l / g for m, c in p.items()})


def _lt_int(base, k):
    # base + k < 0 over the integers
    s = sign(base)
    if s in ("0+", "+") and k >= 0:
        return FALSE
    if s in ("0-", "-") and k < 0 and False:
        return TRUE
    return atom(_cmp_atom("lt0", add2(base, const(k))))


def _has_inf(p):
    return any(b is INF for m in to_poly(p) for b, _ in m)


def _lt_inf(p, flip):
    """comparison with infinity: x - inf"""
    pp = to_poly(p)
    cinf = sum(c for m, c in pp.items() if any(b is INF for b, _ in m))
    rest = from_poly({m: c for m, c in pp.items() if not any(b is INF for b, _ in m)})
    # p = rest + cinf*inf
    if is_num(rest):
        neg_ = cinf < 0
        return TRUE if (neg_ != flip) else FALSE
    x = rest if cinf < 0 else neg(rest)
    # x < inf  (p<0 when cinf<0; p>0 when cinf>0)
    fin = atom(_cmp_atom("fin", x))
    want = (cinf < 0) != flip
    # want: is "x < inf" asked; otherwise "x > inf" which is never true
    return fin if want else FALSE


_atoms: dict = {}


def _cmp_atom(kind, p):
    key = (kind, p)
    t = _atoms.get(key)
    if t is None:
        t = uf(kind, [p], "bool")
        _atoms[key] = t
    return t


def eq0(p):
    s = sign(p)
    if s in ("+", "-"):
        return FALSE
    if s == "0":
        return TRUE
    p, _ = _clear_denominators(p)
    if _has_inf(p):
        pp = to_poly(p)
        rest = from_poly({m: c for m, c in pp.items() if not any(b is INF for b, _ in m)})
        if is_num(rest):
            return FALSE
        c = [c for m, c in pp.items() if any(b is INF for b, _ in m)][0]
        x = rest if c < 0 else neg(rest)
        return bnot(atom(_cmp_atom("fin", x)))
    pp = to_poly(p)
    if len(pp) == 1:
        (m, _c), = pp.items()
        r = FALSE
        for b, e in m:
            if is_num(e) and cval(e) < 0:
                continue
            sb = sign(b)
            if sb in ("+", "-"):
                continue
            if b.op == "uf" and b.args[0] == "abs":
                r = bor(r, eq0(b.args[1]))
                continue
            if is_int(b) and sb == "0+":
                r = bor(r, _lt_int(b, Fraction(-1)))
            else:
                r = bor(r, atom(_cmp_atom("eq0", b)))
        return r
    _, prim = _primitive(p)
    n = neg(prim)
    if n.id < prim.id and n.op == "poly":
        prim = n if _primitive(n)[0] == 1 else prim
    ip = _int_primitive(prim)
    if ip is not None:
        k = to_poly(ip).get((), Fraction(0))
        if k.denominator != 1:
            return FALSE
        base = from_poly({m: v for m, v in to_poly(ip).items() if m})
        sb = sign(base)
        if k > 0 and sb in ("0+", "+"):
            return FALSE
        if k < 0 and sb in ("0-", "-"):
            return FALSE
    return atom(_cmp_atom("eq0", prim))


def s_lt(a, b):
    if a is BOT or b is BOT:
        return BOT
    if is_str(a) and is_str(b):
        return const(cval(a) < cval(b))
    if a.sort == "str" or b.sort == "str" or _badnum(a, b):
        return atom(uf("lt", [a, b], "bool", _badnum(a, b)))
    if a is NAN or b is NAN:
        return FALSE
    return lt0(add2(a, neg(b)))


def s_le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a is BOT or b is BOT:
        return BOT
    return bnot(s_lt(b, a))


NONNUM = ("none", "str", "ref", "func", "class", "tup", "arr", "module", "ext", "bytes")


def s_eq(a, b):
    if a is BOT or b is BOT:
        return BOT
    if a is b:
        return TRUE if a is not NAN else FALSE
    if a.op == "const" and b.op == "const":
        ka, va = a.args[0]
        kb, vb = b.args[0]
        if {ka, kb} <= {"n", "b"}:
            return const(Fraction(va) == Fraction(vb))
        return const(ka == kb and va == vb)
    if a.sort == "num" and b.sort == "num":
        return eq0(add2(a, neg(b)))
    sa, sb = a.sort, b.sort
    if sa != sb and sa in ("none", "str", "num", "ref", "func", "class", "tup", "arr") and sb in ("none", "str", "num", "ref", "func", "class", "tup", "arr"):
        return FALSE
    if sa in ("func", "class", "module", "ext") and sb == sa:
        return FALSE
    if {sa, sb} == {"ext", "str"}:
        return FALSE
    if (sa == "num" and sb == "any") or (sa == "any" and sb == "num"):
        return eq0(add2(a, neg(b)))
    if a.op == "const" and a.args[0][0] == "b" and b.sort == "bool":
        t = truth(b)
        return t if cval(a) else bnot(t)
    if b.op == "const" and b.args[0][0] == "b" and a.sort == "bool":
        return s_eq(b, a)
    if a.id > b.id:
        a, b = b, a
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return FALSE
        return ball(s_eq(x, y) for x, y in zip(a.args, b.args))
    return atom(uf("eq", [a, b], "bool"))


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "ite":
        return lift("isnone", isnone, t)
    if t.sort not in ("any", "opt"):
        return FALSE
    if t.op in ("sym", "var") and SYM.get(t, {}).get("notnone"):
        return FALSE
    return atom(uf("isnone", [t], "bool"))


def truth(t):
    """boolean diagram of the truth value of a (dereferenced) term"""
    if t.op == "ite":
        return lift("truth", truth, t)
    if t is BOT:
        return BOT
    if t.op == "const":
        return const(bool(t.args[0][1]))
    if t.sort == "bool":
        if t.op == "uf" and t.args[0] in ("lt0", "eq0", "fin"):
            return atom(t)
        return atom(t)
    if t.sort == "num":
        return bnot(eq0(t))
    if t.sort in ("func", "class", "ref", "module", "ext"):
        return TRUE
    if t.op in ("tup", "seq"):
        return const(len(t.args) > 0)
    return atom(uf("truthy", [t], "bool"))


# ---------------------------------------------------------------- consistency of literals
def consistent(lits):
    """False only if the conjunction of literals is contradictory (sound, incomplete)"""
    iv = {}
    eqs = {}
    truths = {}
    for a, s in lits:
        if truths.get(a, s) != s:
            return False
        truths[a] = s
        if a.op != "uf":
            continue
        n = a.args[0]
        if n in ("lt0", "eq0"):
            p = a.args[1]
            pp = to_poly(p)
            k = pp.get((), Fraction(0))
            base = from_poly({m: c for m, c in pp.items() if m})
            c, prim = _primitive(base)
            lo, hi, ne, isint = iv.setdefault(prim, [None, None, set(), is_int(prim)])
            v = -k / c  # c*prim + k = 0 at prim = v
            e = iv[prim]
            if n == "eq0":
                if s:
                    _tight(e, 0, v, False)
                    _tight(e, 1, v, False)
                else:
                    e[2].add(v)
            else:
                less = bool(s) == (c > 0)
                strict = bool(s)
                _tight(e, 1 if less else 0, v, strict)
        elif n == "eq" and s:
            x, y = a.args[1], a.args[2]
            if y.op == "const":
                x, y = y, x
            if x.op == "const":
                if y in eqs and eqs[y] is not x:
                    return False
                eqs[y] = x
        elif n == "isnone" and s:
            eqs[a.args[1]] = NONE
    for prim, (lo, hi, ne, isint) in iv.items():
        s = sign(prim)
        e = [lo, hi, ne, isint]
        if s in ("+", "0+"):
            _tight(e, 0, Fraction(0), s == "+")
        if s in ("-", "0-"):
            _tight(e, 1, Fraction(0), s == "-")
        lo, hi = e[0], e[1]
        if isint:
            if lo is not None:
                v, st = lo
                v = math.floor(v) + 1 if st else math.ceil(v)
                while v in ne:
                    v += 1
                lo = (v, False)
            if hi is not None:
                v, st = hi
                v = math.ceil(v) - 1 if st else math.floor(v)
                while v in ne:
                    v -= 1
                hi = (v, False)
        if lo is not None and hi is not None:
            if lo[0] > hi[0]:
                return False
            if lo[0] == hi[0] and (lo[1] or hi[1] or lo[0] in ne):
                return False
    if not _chain(iv):
        return False
    if eqs:
        for a, s in lits:
            b = subst_atom(a, eqs)
            if b is not None and b is not (TRUE if s else FALSE):
                return False
    return True


def _chain(iv):
    """difference constraints x - y <= c: no negative cycle (Bellman-Ford on the few literals of one path)"""
    edges = []
    nodes = set()

    def split(prim):
        pp = to_poly(prim)
        if len(pp) == 1:
            (m, c), = pp.items()
            if c == 1:
                return from_poly({m: Fraction(1)}), ZERO
        if len(pp) == 2:
            (m1, c1), (m2, c2) = pp.items()
            if {c1, c2} == {Fraction(1), Fraction(-1)}:
                x = from_poly({m1: Fraction(1)})
                y = from_poly({m2: Fraction(1)})
                return (x, y) if c1 == 1 else (y, x)
        return None

    for prim, (lo, hi, _ne, _i) in iv.items():
        sp = split(prim)
        if sp is None:
            continue
        x, y = sp
        nodes |= {x, y}
        if hi is not None:  # x - y <= hi
            edges.append((y, x, hi[0], hi[1]))
        if lo is not None:  # y - x <= -lo
            edges.append((x, y, -lo[0], lo[1]))
    for x in list(nodes):
        s = sign(x)
        if x is not ZERO and s in ("+", "0+"):
            nodes.add(ZERO)
            edges.append((x, ZERO, Fraction(0), s == "+"))
    if len(edges) < 2:
        return True
    dist = {n: (Fraction(0), 0) for n in nodes}
    for it in range(len(nodes) + 1):
        ch = False
        for u, v, w, st in edges:
            d = (dist[u][0] + w, dist[u][1] - (1 if st else 0))
            if d < dist[v]:
                dist[v] = d
                ch = True
        if not ch:
            return True
    return False


def _tight(e, side, v, strict):
    cur = e[side]
    if cur is None:
        e[side] = (v, strict)
    elif side == 0:
        if v > cur[0] or (v == cur[0] and strict):
            e[side] = (v, strict)
    else:
        if v < cur[0] or (v == cur[0] and strict):
            e[side] = (v, strict)


def subst_atom(a, eqs):
    """value of an atom under x=const facts, or None"""
    if a.op != "uf":
        return None
    n = a.args[0]
    if n == "eq":
        x = eqs.get(a.args[1], a.args[1])
        y = eqs.get(a.args[2], a.args[2])
        if (x, y) == (a.args[1], a.args[2]):
            return None
        if x.op == "const" and y.op == "const":
            return s_eq(x, y)
        return None
    if n == "contains":
        x = eqs.get(a.args[1], a.args[1])
        y = eqs.get(a.args[2], a.args[2])
        if is_str(x) and is_str(y):
            return const(cval(y) in cval(x))
        return None
    if n == "isnone":
        x = eqs.get(a.args[1])
        if x is not None:
            return const(x is NONE)
    if n in ("iterable", "truthy") and eqs.get(a.args[1]) is NONE:
        return FALSE
    return None


# ---------------------------------------------------------------- arrays and structure
def tup(xs):
    xs = tuple(xs)
    u, vs, ht = _unions(xs)
    return _mk("tup", xs, "tup", _H("tup", _fpargs(xs)), u, vs, ht)


def seq(xs):
    xs = tuple(xs)
    u, vs, ht = _unions(xs)
    return _mk("seq", xs, "arr", _H("seq", _fpargs(xs)), u, vs, ht)


EMPTY = seq(())


def node(op, args, sort="arr"):
    args = tuple(args)
    u, vs, ht = _unions(args)
    return _mk(op, args, sort, _H(op, _fpargs(args)), u, vs, ht)


ARRAYSYM_LEN = "length"


def is_arr(t):
    if t.op == "ite":
        return all(is_arr(x) for x in (t.args[1], t.args[2]))
    return t.sort == "arr"


def length(t):
    """term for the number of elements (rows) of an array term"""
    if t.op == "ite":
        return lift("length", length, t)
    if t.op in ("seq", "tup"):
        return const(len(t.args))
    if t.op == "lam":
        return t.args[0]
    if t.op == "concat":
        r = ZERO
        for x in t.args:
            r = lift("add", s_add, r, length(x))
        return r
    if t.op == "filt":
        return node("red", ("count", t.args[1]), "num") if False else uf("count", [t.args[1]], "num")
    if t.op == "slice":
        return t.args[2]
    if t.op == "store":
        return length(t.args[0])
    if t.op == "cols":
        return length(t.args[0])
    if t.op in ("sym", "var"):
        l = SYM.get(t, {}).get("length")
        if l is not None:
            return l
    if t.op == "fold" and _keeps_length(t, 0):
        return length(t.args[4].args[0])
    if t.op == "uf":
        n = t.args[0]
        if n in ("sort", "round", "argsort", "cumsum", "sortedrows", "reverse"):
            return length(t.args[1])
        if n == "digitize":
            return length(t.args[1])
        if n == "where":
            return uf("count", [t.args[1]], "num")
        if n == "col" or n == "rows":
            return length(t.args[1])
        if n == "repeat" and t.args[2].sort == "num":
            return lift("mul", s_mul, length(t.args[1]), t.args[2])
        if n == "take":
            return length(t.args[2])
        if n == "alloc":
            return t.args[1]
        if n == "idx" and is2d(t.args[1]):
            w = width(t.args[1])
            if w is not None:
                return w
        if n == "transpose" and t.args[1].op == "seq" and t.args[1].args:
            return length(t.args[1].args[0])
    if t is NONE or t.sort in ("num", "none"):
        return unknown("len", t)
    if is_str(t):
        return const(len(cval(t)))
    r = uf("len", [t], "num")
    return r


def lam(n, var, body):
    """array of length n with element body[var:=i]"""
    if n is ZERO:
        return EMPTY
    # eta
    if body.op == "uf" and body.args[0] == "idx" and body.args[2] is var and var not in body.args[1].vars:
        s = body.args[1]
        if length(s) is n:
            return s
        return mk_slice(s, ZERO, n)
    if body.op == "uf" and body.args[0] == "idx" and var not in body.args[1].vars:
        off = lift("add", s_add, body.args[2], neg(var)) if body.args[2].op == "poly" else None
        if off is not None and var not in off.vars:
            return mk_slice(body.args[1], off, n)
    if is_num(n) and cval(n) <= 16:
        return seq([subst(body, {var: const(i)}) for i in range(int(cval(n)))])
    h = body.ht + 1
    b = bv(h)
    body2 = subst(body, {var: b}) if var in body.vars else body
    u, vs, ht = _unions((n, body2))
    return _mk("lam", (n, body2, h), "arr", _H("lam", n.fp, body2.fp, h), u, vs - {var}, max(h, ht))


def full(n, v):
    return lam(n, fresh("i", "num", int=True, nonneg=True), v)


def mk_slice(s, off, n):
    """s[off : off+n]"""
    if s.op == "ite" or off.op == "ite" or n.op == "ite":
        return lift("mk_slice", mk_slice, s, off, n)
    if off is ZERO and length(s) is n:
        return s
    if n is ZERO:
        return EMPTY
    if s.op == "slice":
        return mk_slice(s.args[0], add2(s.args[1], off), n)
    if s.op in ("seq", "tup") and is_num(off) and is_num(n) and cval(off) >= 0:
        o, k = int(cval(off)), int(cval(n))
        return seq(s.args[o:o + k])
    if s.op == "lam":
        i = fresh("i", "num", int=True, nonneg=True)
        return lam(n, i, elem(s, add2(i, off)))
    if s.op == "concat":
        # whole prefix/suffix of parts
        pos = ZERO
        parts = list(s.args)
        while parts and off is not ZERO:
            l = length(parts[0])
            d = add2(off, neg(l))
            if d is ZERO or sign(d) in ("+", "0+"):
                off = d
                parts.pop(0)
            else:
                break
        if off is ZERO:
            got = []
            rem = n
            while parts:
                l = length(parts[0])
                d = add2(rem, neg(l))
                if d is ZERO:
                    got.append(parts.pop(0))
                    rem = ZERO
                    break
                if sign(d) in ("+", "0+"):
                    got.append(parts.pop(0))
                    rem = d
                    continue
                # the remainder lies inside this part
                got.append(mk_slice(parts[0], ZERO, rem))
                rem = ZERO
                break
            if rem is ZERO:
                return mk_concat(got)
        elif len(parts) == 1:
            return mk_slice(parts[0], off, n)
    if s.op == "cols":
        return node("cols", [mk_slice(x, off, n) for x in s.args])
    if s.op == "store":
        # prefix that excludes the stored index, or includes all
        pass
    return node("slice", (s, off, n))


def mk_concat(parts):
    out = []
    v = _top(parts)
    if v is not None:
        hi = mk_concat([cof(p, v, 1) for p in parts])
        lo = mk_concat([cof(p, v, 0) for p in parts])
        return ite(v, hi, lo) if not _nested(v, hi, lo) else _ite_full(v, hi, lo)
    for p in parts:
        if p.op == "concat":
            out += list(p.args)
        elif p.op == "seq":
            if not p.args:
                continue
            if out and out[-1].op == "seq":
                out[-1] = seq(out[-1].args + p.args)
            else:
                out.append(p)
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and merged[-1].op == "seq" and p.op == "seq":
            merged[-1] = seq(merged[-1].args + p.args)
        else:
            merged.append(p)
    # slices of the same array that touch: s[0:k] + s[k:n]
    k = 0
    while k + 1 < len(merged):
        a, b = merged[k], merged[k + 1]
        if a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0] and add2(a.args[1], a.args[2]) is b.args[1]:
            merged[k:k + 2] = [mk_slice(a.args[0], a.args[1], add2(a.args[2], b.args[2]))]
        else:
            k += 1
    if not merged:
        return EMPTY
    if len(merged) == 1:
        return merged[0]
    if all(p.op == "cols" for p in merged) and len({len(p.args) for p in merged}) == 1:
        return node("cols", [mk_concat([p.args[i] for p in merged]) for i in range(len(merged[0].args))])
    return node("concat", merged)


def mk_filt(x, mask):
    """x[mask]"""
    if x.op == "ite" or mask.op == "ite":
        return lift("mk_filt", mk_filt, x, mask)
    if mask.op == "lam" and mask.args[1] is TRUE:
        return x
    if mask.op == "lam" and mask.args[1] is FALSE:
        return EMPTY
    if mask.op == "seq" and x.op == "seq" and len(mask.args) == len(x.args) and all(m in (TRUE, FALSE) for m in mask.args):
        return seq([e for e, m in zip(x.args, mask.args) if m is TRUE])
    if x.op == "cols":
        return node("cols", [mk_filt(c, mask) for c in x.args])
    if x.op == "concat" and mask.op == "concat" and len(x.args) == len(mask.args) and all(length(a) is length(b) for a, b in zip(x.args, mask.args)):
        return mk_concat([mk_filt(a, b) for a, b in zip(x.args, mask.args)])
    if x.op == "filt":
        # (x[m1])[m2] with m2 = filt(m, m1)
        if mask.op == "filt" and mask.args[1] is x.args[1]:
            return mk_filt(x.args[0], ew("and", band, mask.args[0], x.args[1]))
    return node("filt", (x, mask))


def is2d(t, d=0):
    """an array of rows of run-time width, as far as its construction tells"""
    if t.op == "uf":
        return t.args[0] == "alloc" and len(t.args) > 3
    if t.op in ("store", "filt", "slice"):
        return is2d(t.args[0], d)
    if t.op in ("sym", "var"):
        return SYM.get(t, {}).get("elem") == "arr"
    if t.op == "fold":
        init, step = t.args[4].args
        if init.op == "seq" and not init.args and d < 4:
            # a list the loop appends rows to
            ls = [l for l in leaves(step) if l.op != "bv"]
            return bool(ls) and all(l.op == "concat" and l.args[0].op == "bv" and all(p.op == "seq" and all(x.sort == "arr" for x in p.args) for p in l.args[1:]) for l in ls)
        return is2d(init, d)
    if t.op == "cols":
        return True
    if t.op == "ite" and d < 4:
        ls = [l for l in leaves(t) if l is not BOT]
        return bool(ls) and all(is2d(l, d + 1) for l in ls)
    return False


def width(t, d=0):
    """number of columns of an array of rows, None when not known"""
    if t.op == "uf" and t.args[0] == "alloc" and len(t.args) > 3:
        return t.args[2]
    if t.op in ("store", "filt", "slice"):
        return width(t.args[0], d)
    if t.op == "fold":
        return width(t.args[4].args[0], d)
    if t.op == "cols":
        return const(len(t.args))
    if t.op == "ite" and d < 4:
        ws = [width(l, d + 1) for l in leaves(t) if l is not BOT]
        return ws[0] if ws and all(w is ws[0] for w in ws) else None
    return None


def elem(x, i):
    """x[i]"""
    if x.op == "ite" or i.op == "ite":
        return lift("elem", elem, x, i)
    if x is BOT:
        return BOT
    if i.op == "const" and is_num(i):
        k = int(cval(i))
        if x.op in ("seq", "tup"):
            n = len(x.args)
            if -n <= k < n:
                return x.args[k]
            return unknown("index-out-of-range", x)
        if k < 0:
            return elem(x, lift("add", s_add, length(x), i))
        if x.op == "concat":
            j = k
            for p in x.args:
                l = length(p)
                if is_num(l):
                    if j < cval(l):
                        return elem(p, const(j))
                    j -= int(cval(l))
                else:
                    d = add2(l, const(-j - 1))
                    if sign(d) in ("0+", "+"):
                        return elem(p, const(j))
                    break
    if x.op == "lam":
        b = bv(x.args[2])
        return subst(x.args[1], {b: i})
    if x.op == "slice":
        return elem(x.args[0], add2(x.args[1], i))
    if x.op == "concat":
        # last element
        d = add2(i, neg(length(x)))
        if is_num(d) and cval(d) < 0:
            k = int(cval(d))
            for p in reversed(x.args):
                l = length(p)
                if is_num(l):
                    if -k <= cval(l):
                        return elem(p, const(int(cval(l)) + k))
                    k += int(cval(l))
                else:
                    if k == -1 and sign(l) == "+":
                        return elem(p, add2(l, const(k)))
                    break
        # offset in known leading part
        off = ZERO
        for p in x.args:
            l = length(p)
            d = add2(i, neg(off))
            if sign(d) in ("0+", "+") and sign(add2(d, neg(l))) == "-":
                return elem(p, d)
            off = add2(off, l)
            if sign(add2(i, neg(off))) not in ("0+", "+"):
                break
    if x.op == "store":
        arr, k, v = x.args
        if k.sort == "num" and i.sort == "num":
            return select(s_eq(k, i), v, elem(arr, i))
    if x.op == "cols":
        return seq([elem(c, i) for c in x.args])
    if x.op == "uf":
        n = x.args[0]
        if n == "reverse":
            return elem(x.args[1], add2(add2(length(x.args[1]), const(-1)), neg(i)))
        if n == "take":
            return elem(x.args[1], elem(x.args[2], i))
        if n == "iota":
            return i
        if n == "sort" and x.args[1].op == "lam" and x.args[1].args[1].op == "tup":
            # an array of records: the fields keep their types
            r = uf("idx", [x, i], "any")
            return tup([uf("item", [r, const(k)], f.sort) for k, f in enumerate(x.args[1].args[1].args)])
        if n == "alloc" and len(x.args) == 4:
            return full(x.args[2], x.args[3])
        if n == "rowsof":
            return seq([elem(c, i) for c in x.args[1:]])
        if n == "cumsum" and (i is ZERO):
            return elem(x.args[1], ZERO)
    sort = "any"
    if x.op in ("sym", "var"):
        sort = SYM.get(x, {}).get("elem", "num")
    elif x.op == "uf" and x.args[0] in ("idx", "col", "digitize", "argsort", "sort", "cumsum", "round", "where", "unique", "repeat"):
        sort = "num"
        if x.args[0] == "idx":
            base = x.args[1]
            sort = SYM.get(base, {}).get("elem2", "any") if base.op in ("sym", "var") else "num" if is2d(base) else "any"
        if x.args[0] in ("unique", "sort", "repeat") :
            sort = "num"
    elif x.op in ("filt", "slice", "concat", "store"):
        sort = "arr" if x.op != "concat" and i.sort == "num" and is2d(x) else "num"
    elif x.op == "fold" and i.sort == "num" and is2d(x):
        sort = "arr"
    return uf("idx", [x, i], sort)


def parts_equal(xs):
    ls = [[length(p) for p in x.args] for x in xs]
    return all(l == ls[0] for l in ls[1:])


def scalarlike(t):
    return t.op == "lam" and not _mentions_bv(t.args[1], t.args[2])


_mbv: dict = {}


def _mentions_bv(t, h):
    if t.op == "bv":
        return t.args[0] == h
    if t.ht >= h and t.op in ("lam", "fold", "red"):
        pass
    key = (t, h)
    r = _mbv.get(key)
    if r is None:
        r = any(_mentions_bv(a, h) for a in _children(t))
        _mbv[key] = r
    return r


def _children(t):
    if t.op == "poly":
        for m, _c in t.args:
            for b, e in m:
                yield b
                if e.op != "const":
                    yield e
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def ew(name, f, *args):
    """elementwise application of the scalar function f"""
    v = _top(args)
    if v is not None:
        key = ("ew" + name, args)
        r = _liftmemo.get(key)
        if r is None:
            _budget[0] -= 1
            if _budget[0] < 0:
                raise TooBig("decision diagram budget")
            hi = ew(name, f, *[cof(a, v, 1) for a in args])
            lo = ew(name, f, *[cof(a, v, 0) for a in args])
            r = ite(v, hi, lo) if not _nested(v, hi, lo) else _ite_full(v, hi, lo)
            _liftmemo[key] = r
        return r
    arrs = [a for a in args if a.sort == "arr"]
    if not arrs:
        if any(a.op == "tup" for a in args):
            args = [seq(a.args) if a.op == "tup" else a for a in args]
            return ew(name, f, *args)
        return f(*args)
    fulls = [a for a in arrs if scalarlike(a)]
    # one-element arrays broadcast
    if len(fulls) < len(arrs):
        args = tuple(a.args[1] if (a.sort == "arr" and scalarlike(a)) else a for a in args)
        arrs = [a for a in args if a.sort == "arr"]
    if len(arrs) > 1 and any(a.op == "seq" and len(a.args) == 1 for a in arrs) and not all(a.op == "seq" and len(a.args) == 1 for a in arrs):
        args = tuple(a.args[0] if (a.op == "seq" and len(a.args) == 1) else a for a in args)
        arrs = [a for a in args if a.sort == "arr"]
    ops = {a.op for a in arrs}
    if ops == {"seq"} and len({len(a.args) for a in arrs}) == 1:
        n = len(arrs[0].args)
        return seq([ew(name, f, *[a.args[k] if a.sort == "arr" else a for a in args]) for k in range(n)])
    if ops == {"concat"} and len({len(a.args) for a in arrs}) == 1 and parts_equal(arrs):
        n = len(arrs[0].args)
        return mk_concat([ew(name, f, *[a.args[k] if a.sort == "arr" else a for a in args]) for k in range(n)])
    if ops == {"cols"} and len({len(a.args) for a in arrs}) == 1:
        n = len(arrs[0].args)
        return node("cols", [ew(name, f, *[a.args[k] if a.sort == "arr" else a for a in args]) for k in range(n)])
    if ops == {"filt"} and len({a.args[1] for a in arrs}) == 1:
        return mk_filt(ew(name, f, *[a.args[0] if a.sort == "arr" else a for a in args]), arrs[0].args[1])
    if ops == {"uf"} and len(arrs) == 1 and arrs[0].args[0] == "transpose":
        return uf("transpose", [ew(name, f, *[a.args[1] if a.sort == "arr" else a for a in args])], "arr")
    if ops == {"uf"} and len(arrs) == 1 and arrs[0].args[0] == "sort" and False:
        pass
    n = None
    for a in arrs:
        if a.op == "lam":
            n = a.args[0]
            break
    if n is None:
        n = length(arrs[0])
    i = fresh("i", "num", int=True, nonneg=True)
    vals = []
    for a in args:
        vals.append(elem(a, i) if a.sort == "arr" else a)
    body = ew(name, f, *vals) if any(x.sort == "arr" or x.op in ("ite", "tup") for x in vals) else f(*vals)
    return lam(n, i, body)


def add(a, b):
    return ew("add", s_add, a, b)


def sub(a, b):
    return ew("add", s_add, a, ew("neg", s_neg, b))


def mul(a, b):
    return ew("mul", s_mul, a, b)


def div(a, b):
    return ew("div", s_div, a, b)


def power(a, b):
    return ew("pow", s_pow, a, b)


def lt(a, b):
    return ew("lt", s_lt, a, b)


def le(a, b):
    return ew("le", s_le, a, b)


def eq(a, b):
    return ew("eq", s_eq, a, b)


def tabs(a):
    return ew("abs", s_abs, a)


def s_log(x):
    if _badnum(x):
        return unknown("log", x)
    return t_log(x)


def s_exp(x):
    if _badnum(x):
        return unknown("exp", x)
    if x.op == "uf" and x.args[0] == "red" and x.args[1] in ("max", "min"):
        return red(x.args[1], ew("exp", s_exp, x.args[2]))
    return t_exp(x)


# ---------------------------------------------------------------- reductions
def red(kind, arr):
    """reduction of an array: sum prod max min any all count"""
    if arr.op == "ite":
        return lift("red" + kind, lambda a: red(kind, a), arr)
    if arr.op == "tup":
        arr = seq(arr.args)
    if kind in ("max", "min") and arr.op == "seq" and arr.args:
        r = arr.args[0]
        for x in arr.args[1:]:
            r = max2(r, x) if kind == "max" else min2(r, x)
        return r
    if kind in ("sum", "prod", "any", "all"):
        unit = {"sum": ZERO, "prod": ONE, "any": FALSE, "all": TRUE}[kind]
        f = {"sum": add, "prod": mul, "any": lambda a, b: bor(truth(a), truth(b)), "all": lambda a, b: band(truth(a), truth(b))}[kind]
        if arr.op == "seq":
            r = unit
            for x in arr.args:
                r = f(r, x)
            return r
        if arr.op == "concat":
            r = unit
            for x in arr.args:
                r = f(r, red(kind, x))
            return r
        if kind == "sum" and arr.op == "lam":
            n, body, h = arr.args
            if body.op != "ite":
                # linearity: pull out factors and split sums
                b = bv(h)
                tot = ZERO
                for m, c in to_poly(body).items():
                    out, inn = [], []
                    for x, e in m:
                        (inn if (_mentions_bv(x, h) or _mentions_bv(e, h)) else out).append((x, e))
                    coef = from_poly({tuple(out): c})
                    if not inn:
                        tot = add2(tot, mul2(coef, n)) if n.sort == "num" else add(tot, mul(coef, n))
                    else:
                        i = fresh("i", "num", int=True, nonneg=True)
                        inner = lam(n, i, subst(from_poly({tuple(inn): Fraction(1)}), {b: i}))
                        tot = add2(tot, mul2(coef, uf("red", ["sum", inner], "num")))
                return tot
        if kind in ("any", "all") and arr.op == "lam":
            n, body, h = arr.args
            if body in (TRUE, FALSE):
                if kind == "any":
                    return FALSE if body is FALSE else bnot(eq0(n))
                return TRUE if body is TRUE else eq0(n)
            if not _mentions_bv(body, h):
                return band(bnot(eq0(n)), body) if kind == "any" else bor(eq0(n), body)
            if kind == "all":
                i = fresh("i", "num", int=True, nonneg=True)
                return bnot(atom(uf("red", ["any", lam(n, i, bnot(elem(arr, i)))], "bool")))
            return atom(uf("red", ["any", arr], "bool"))
        if kind in ("any", "all"):
            i = fresh("i", "num", int=True, nonneg=True)
            n = length(arr)
            return red(kind, _mklam(n, i, truth(elem(arr, i))))
    if kind in ("max", "min") and arr.op == "concat":
        rs = [red(kind, x) for x in arr.args]
        r = rs[0]
        for x in rs[1:]:
            r = max2(r, x) if kind == "max" else min2(r, x)
        return r
    if kind in ("max", "min") and arr.op == "lam":
        n, body, h = arr.args
        if not _mentions_bv(body, h):
            return body
        if body.op != "ite":
            # monotone maps: positive factors and shifts come out
            p = to_poly(body)
            shift = {m: c for m, c in p.items() if not any(_mentions_bv(b, h) or _mentions_bv(e, h) for b, e in m)}
            if shift and len(shift) < len(p):
                i = fresh("i", "num", int=True, nonneg=True)
                rest = from_poly({m: c for m, c in p.items() if m not in shift})
                return add(from_poly(shift), red(kind, lam(n, i, subst(rest, {bv(h): i}))))
            com = None
            for m in p:
                d = {b: e for b, e in m if not _mentions_bv(b, h) and not _mentions_bv(e, h) and sign(b) == "+"}
                com = d if com is None else {b: e for b, e in com.items() if d.get(b) is e}
            cs = {abs(c) for c in p.values()}
            k = min(cs)
            neg_ = all(c < 0 for c in p.values()) and len(p) == 1
            if com or k != 1 or neg_:
                inv = tuple(sorted(((b, neg(e)) for b, e in (com or {}).items()), key=lambda be: be[0].id))
                s = -1 if neg_ else 1
                rest = from_poly({_mono_mul(m, inv): s * c / k for m, c in p.items()})
                if rest is not body:
                    i = fresh("i", "num", int=True, nonneg=True)
                    k2 = kind if s == 1 else ("min" if kind == "max" else "max")
                    inner = red(k2, lam(n, i, subst(rest, {bv(h): i})))
                    return mul(mul(const(s * k), from_poly({tuple(sorted((com or {}).items(), key=lambda be: be[0].id)): Fraction(1)})), inner)
    if kind in ("any", "all"):
        return atom(uf("red", [kind, arr], "bool"))
    sort = "num"
    if kind in ("max", "min") and arr.op in ("sym", "var"):
        sort = SYM.get(arr, {}).get("elem", "num")
    return uf("red", [kind, arr], sort)


def _mklam(n, i, body):
    """lam without eta (for boolean bodies)"""
    return lam(n, i, body)


def max2(a, b):
    return ew("max2", lambda x, y: x if x is y else select(s_lt(x, y), y, x), a, b)


def min2(a, b):
    return ew("min2", lambda x, y: x if x is y else select(s_lt(y, x), y, x), a, b)


# ---------------------------------------------------------------- substitution
_submemo: dict = {}


def subst(t, mp):
    if not mp:
        return t
    keyvars = None
    if all(k.op == "var" for k in mp):
        keyvars = frozenset(mp)
    memo = {}
    has = {}

    def contains(t):
        """does a key occur in the term"""
        st = [t]
        while st:
            x = st[-1]
            if x in has:
                st.pop()
                continue
            if x in mp:
                has[x] = True
                st.pop()
                continue
            cs = list(_children(x))
            todo = [c for c in cs if c not in has]
            if todo:
                st.extend(todo)
            else:
                has[x] = any(has[c] for c in cs)
                st.pop()
        return has[t]

    def go(x):
        r = mp.get(x)
        if r is not None:
            return r
        if keyvars is not None and not (x.vars & keyvars):
            return x
        if keyvars is None and not contains(x):
            return x
        if x.op in ("const", "sym", "var", "bv", "nan", "inf", "unbound", "bot"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


def rebuild(x, go):
    op = x.op
    if op == "poly":
        r = ZERO
        ch = False
        new = []
        for m, c in x.args:
            mm = []
            for b, e in m:
                b2, e2 = go(b), go(e)
                if b2 is not b or e2 is not e:
                    ch = True
                mm.append((b2, e2))
            new.append((mm, c))
        if not ch:
            return x
        for mm, c in new:
            t = const(c)
            for b, e in mm:
                t = mul(t, b if e is ONE else power(b, e))
            r = add(r, t)
        return r
    if op == "ite":
        a, h, l = x.args
        a2, h2, l2 = go(a), go(h), go(l)
        if a2 is a and h2 is h and l2 is l:
            return x
        return select(truth(a2) if a2 is not a else atom(a), h2, l2)
    if op == "lam":
        n, body, h = x.args
        i = fresh("i", "num", int=True, nonneg=True)
        b1 = subst(body, {bv(h): i})
        b2 = go(b1)
        n2 = go(n)
        if b2 is b1 and n2 is n:
            return x
        return lam(n2, i, b2)
    if op == "fold":
        return rebuild_fold(x, go)
    args2 = tuple(go(a) if isinstance(a, T) else a for a in x.args)
    if all(a is b for a, b in zip(args2, x.args)):
        return x
    if op == "uf":
        return remake_uf(x.args[0], args2[1:], x.sort, x.unk)
    if op == "concat":
        return mk_concat([a if a.sort == "arr" else seq([a]) for a in args2])
    if op == "slice":
        return mk_slice(*args2)
    if op == "filt":
        return mk_filt(*args2)
    if op == "seq":
        return seq(args2)
    if op == "tup":
        return tup(args2)
    if op == "store":
        return mk_store(*args2)
    return node(op, args2, x.sort)


REMAKE: dict = {}


def remake_uf(name, args, sort, unk):
    if name == "lt0":
        return _as_atomterm(lift("lt0", lt0, args[0]))
    if name == "eq0":
        return _as_atomterm(lift("eq0", eq0, args[0]))
    if name == "fin":
        return _as_atomterm(lift("fin", lambda x: lt0(add2(x, neg(INF))), args[0]))
    if name == "eq":
        return _as_atomterm(eq(args[0], args[1]))
    if name == "isnone":
        return _as_atomterm(isnone(args[0]))
    if name == "truthy":
        return _as_atomterm(truth(args[0]))
    if name == "idx":
        return elem(args[0], args[1])
    if name == "abs":
        return tabs(args[0])
    if name == "log":
        return ew("log", s_log, args[0])
    if name == "exp":
        return ew("exp", s_exp, args[0])
    if name == "len":
        return length(args[0])
    if name == "red":
        return red(args[0], args[1])
    if name == "item" and len(args) == 2 and args[0].op == "tup" and is_num(args[1]) and 0 <= cval(args[1]) < len(args[0].args):
        return args[0].args[int(cval(args[1]))]
    f = REMAKE.get(name)
    if f is not None:
        return f(*args)
    v = _top([a for a in args if isinstance(a, T)])
    if v is not None:
        hi = remake_uf(name, [cof(a, v, 1) if isinstance(a, T) else a for a in args], sort, unk)
        lo = remake_uf(name, [cof(a, v, 0) if isinstance(a, T) else a for a in args], sort, unk)
        return select(atom(v), hi, lo)
    return uf(name, args, sort, unk and name.startswith("?"))


def _as_atomterm(b):
    """a boolean diagram used where an atom term was (caller applies truth())"""
    return b


def mk_store(arr, k, v):
    if arr.op == "store" and arr.args[1] is k:
        arr = arr.args[0]
    if arr.op == "seq" and is_num(k):
        n = len(arr.args)
        j = int(cval(k))
        if -n <= j < n:
            xs = list(arr.args)
            xs[j] = v
            return seq(xs)
    return node("store", (arr, k, v))


# ---------------------------------------------------------------- folds (general loops)
# fold: args = (kind, count, cond, carried...) where carried are tup(init, next); bound variables bv(h, sort, k) k>=1 for
# carried values and bv(h, 'num', 0) for the iteration index.
def mk_fold(kind, count, cond, carried, idxvar):
    """carried: list of (mu, init, next); value of the first carried variable after the loop"""
    hmax = 0
    for _m, i, n in carried:
        hmax = max(hmax, n.ht)
    hmax = max(hmax, cond.ht if cond is not None else 0)
    h = hmax + 1
    mp = {}
    for k, (m, _i, _n) in enumerate(carried):
        mp[m] = bv(h, m.sort, k + 1)
    if idxvar is not None:
        mp[idxvar] = bv(h)
    cs = []
    for m, i, n in carried:
        cs.append(tup((i, subst(n, mp))))
    cnd = subst(cond, mp) if cond is not None else TRUE
    args = (kind, h, count if count is not None else NONE, cnd) + tuple(cs)
    u, vs, ht = _unions([a for a in args if isinstance(a, T)])
    bound = frozenset([m for m, _i, _n in carried] + ([idxvar] if idxvar is not None else []))
    s = carried[0][1].sort
    n0 = carried[0][2].sort
    if s != n0:
        s = "num" if {s, n0} <= {"num", "bool", "any"} else ("arr" if {s, n0} <= {"arr", "any"} else "any")
    return _mk("fold", args, s, _H("fold", _fpargs(args)), u, vs - bound, max(h, ht))


def _keeps_length(x, k):
    """is carried value k of a fold only ever changed element by element"""
    h = x.args[1]
    init, nx = x.args[4 + k].args
    if init.sort != "arr":
        return False
    for l in leaves(nx):
        while l.op == "store":
            l = l.args[0]
        if not (l.op == "bv" and l.args[0] == h and l.args[2] == k + 1):
            return False
    return True


def open_fold(x):
    """(kind, count, cond, [(mu, init, next)], idxvar) with fresh variables"""
    kind, h, count, cond = x.args[:4]
    cs = x.args[4:]
    idx = fresh("i", "num", int=True, nonneg=True)
    mp = {bv(h): idx}
    mus = []
    for k, c in enumerate(cs):
        # sort of the bound variable: find it
        init = c.args[0]
        m = None
        for s in ("num", "arr", "any", "bool", "str", "opt", "tup", "none", "ref"):
            b = _tab.get(("bv", (h, s, k + 1)))
            if b is not None:
                f2 = {"length": length(init)} if s == "arr" and _keeps_length(x, k) else {}
                if s == "arr" and is2d(init):
                    f2.update(elem="arr", elem2="num")
                m2 = fresh("mu", s, **f2)
                mp[b] = m2
                m = m or m2
        mus.append((m, init))
    nexts = [subst(c.args[1], mp) for c in cs]
    cond2 = subst(cond, mp)
    out = []
    for k, (m, init) in enumerate(mus):
        # choose the variable actually used
        used = [v for b, v in mp.items() if b.op == "bv" and b.args[2] == k + 1]
        pick = None
        for v in used:
            if any(v in n.vars for n in nexts) or v in cond2.vars:
                pick = v
        out.append((pick or used[0], init, nexts[k]))
    return kind, (None if count is NONE else count), cond2, out, idx


def rebuild_fold(x, go):
    kind, count, cond, carried, idx = open_fold(x)
    c2 = [(m, go(i), go(n)) for m, i, n in carried]
    count2 = go(count) if count is not None else None
    cond2 = go(cond)
    if count2 is not None and count2 is ZERO:
        return c2[0][1]
    r = mk_fold(kind, count2, cond2, c2, idx)
    return r


# ---------------------------------------------------------------- printing
_shown = [0]


def show(t, d=0):
    if d == 0:
        _shown[0] = 0
    _shown[0] += 1
    if d > 14 or _shown[0] > 4000:
        return "…"
    if t.op == "const":
        k, v = t.args[0]
        if k == "n":
            return str(v) if v.denominator == 1 or v.denominator > 10**6 and False else (str(float(v)) if v.denominator not in (1,) else str(v))
        return repr(v)
    if t.op in ("sym", "var"):
        return t.args[0]
    if t.op == "bv":
        return f"#{t.args[0]}" + (f".{t.args[2]}" if t.args[2] else "")
    if t.op == "poly":
        out = []
        for m, c in t.args:
            fs = []
            for b, e in m:
                s = show(b, d + 1)
                if b.op == "poly":
                    s = f"({s})"
                if e is not ONE:
                    s += "^" + (show(e, d + 1) if e.op != "poly" else f"({show(e, d + 1)})")
                fs.append(s)
            body = "*".join(fs)
            if c == 1 and body:
                out.append(body)
            elif c == -1 and body:
                out.append("-" + body)
            else:
                cs = str(c) if c.denominator < 1000 else str(float(c))
                out.append(cs + ("*" + body if body else ""))
        return " + ".join(out)
    if t.op == "ite":
        a, h, l = t.args
        return f"[{show(a, d + 1)} ? {show(h, d + 1)} : {show(l, d + 1)}]"
    if t.op == "uf":
        n = t.args[0]
        if n == "lt0":
            return f"({show(t.args[1], d + 1)} < 0)"
        if n == "eq0":
            return f"({show(t.args[1], d + 1)} == 0)"
        if n == "idx":
            return f"{show(t.args[1], d + 1)}[{show(t.args[2], d + 1)}]"
        if n == "eq":
            return f"({show(t.args[1], d + 1)} == {show(t.args[2], d + 1)})"
        return n + "(" + ", ".join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args[1:]) + ")"
    if t.op == "lam":
        return f"<#{t.args[2]}<{show(t.args[0], d + 1)}: {show(t.args[1], d + 1)}>"
    if t.op == "slice":
        s, o, n = t.args
        return f"{show(s, d + 1)}[{show(o, d + 1)}:+{show(n, d + 1)}]"
    if t.op in ("nan", "inf", "unbound", "bot"):
        return t.op
    return t.op + "(" + ", ".join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args) + ")"


# ---------------------------------------------------------------- comparison of two graphs
def has_unk(t):
    return t.unk


class Diff:
    __slots__ = ("path", "a", "b", "definite")

    def __init__(self, path, a, b, definite):
        self.path, self.a, self.b, self.definite = path, a, b, definite

    def __repr__(self):
        w = " and ".join((("" if s else "not ") + show(a)) for a, s in self.path if True)
        return (f"when {w}: " if w else "") + f"{show(self.a)[:400]} instead of {show(self.b)[:400]}"


def _eqs_of(path):
    out = []
    for a, s in path:
        if a.op == "uf" and a.args[0] == "eq0" and s:
            out.append(a.args[1])
    return out


def equal_under(a, b, path):
    if a is b:
        return True
    if a.sort in ("num", "any", "bool") and b.sort in ("num", "any", "bool") and not _badnum(a, b) and a.op not in ("nan", "bot") and b.op not in ("nan", "bot"):
        if a.fp == b.fp:
            return True
        d = add2(a, neg(b))
        if d is ZERO:
            return True
        for p in _eqs_of(path):
            c1, q1 = _primitive(d)
            c2, q2 = _primitive(p)
            if q1 is q2:
                return True
            # substitute a linear leaf
            for m, c in to_poly(p).items():
                if len(m) == 1 and m[0][1] is ONE and m[0][0].op in ("sym", "uf", "var"):
                    x = m[0][0]
                    v = from_poly({k: -w / c for k, w in to_poly(p).items() if k != m})
                    if x in _all_leaves(v):
                        continue
                    if subst(a, {x: v}) is subst(b, {x: v}):
                        return True
                    break
    if a.op == b.op and a.op in ("seq", "tup", "concat", "cols", "filt", "lam") and len(a.args) == len(b.args):
        return all((x is y) or (isinstance(x, T) and isinstance(y, T) and not diff(x, y, path=path)) for x, y in zip(a.args, b.args))
    return False


def _all_leaves(t):
    seen, st, out = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        st.extend(_children(x))
    return out


def diff(a, b, care=TRUE, path=(), limit=6):
    """differences between two diagrams on the care set; unknown parts make a difference indefinite.

    An unknown gate only counts if both of its sides differ."""
    out = []
    memo = set()

    def go(x, y, c, p, unkgate):
        if len(out) >= limit:
            return
        if x is y or c is FALSE:
            return
        v = _top((x, y, c))
        if v is None:
            if not equal_under(x, y, p):
                out.append(Diff(tuple(p), x, y, not (x.unk or y.unk or unkgate)))
            return
        key = (x, y, c) if not p else None
        for side in (1, 0):
            lit = (v, side)
            np_ = list(p) + [lit]
            if consistent(np_):
                go(cof(x, v, side), cof(y, v, side), cof(c, v, side), np_, unkgate or v.unk)

    go(a, b, care, list(path), False)
    return out
