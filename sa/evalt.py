"""Random interpretation of value graphs.

Two value graphs that are not identical after normalisation are only called different if a valuation of their free symbols tells
them apart.  A valuation assigns small random numbers, strings and sequences to the symbols of the graphs; operators the engine does
not interpret get a deterministic pseudo-random meaning (equal arguments, equal result).  The graphs are built from the source text;
nothing of the analysed program is imported or run here.
"""
from __future__ import annotations

import bisect
import hashlib
import math
import os
import random
import struct
from fractions import Fraction

import terms as X
from terms import T


class Unk(Exception):
    """the value depends on something the analysis does not know"""


class Bad(Exception):
    """the valuation is outside the domain of an operation"""


TOL = 1e-7


def same(a, b):
    if a is b:
        return True
    na = isinstance(a, (int, float, Fraction)) and not isinstance(a, bool)
    nb = isinstance(b, (int, float, Fraction)) and not isinstance(b, bool)
    if isinstance(a, bool) and nb:
        a, na = int(a), True
    if isinstance(b, bool) and na:
        b, nb = int(b), True
    if na and nb:
        if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
            return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        fa, fb = float(a), float(b)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= TOL * max(1e-6, abs(fa), abs(fb))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    return a == b


def equal(a, b):
    """comparison made by the program: exact for rationals; floating point values that nearly agree are not used"""
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all([equal(x, y) for x, y in zip(a, b)])
    if all(isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) for v in (a, b)):
        if isinstance(a, float) or isinstance(b, float):
            if a != b and same(a, b):
                if abs(a - b) > 1e-12 * max(abs(a), abs(b)):
                    raise Bad("comparison within rounding")
                return True
        else:
            return a == b
    return same(a, b)


def key(v):
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, (int, Fraction, float)):
        f = float(v)
        if math.isinf(f) or math.isnan(f):
            return repr(f)
        return "%.7e" % (f + 0.0) if f else "0"
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(key(x) for x in v) + ")"
    return repr(v)


_free: dict = {}


def freebv(t):
    r = _free.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset([(t.args[0], t.args[2])])
        elif t.op == "lam":
            r = frozenset(x for x in freebv(t.args[1]) if x[0] != t.args[2]) | freebv(t.args[0])
        elif t.op == "fold":
            h = t.args[1]
            r = frozenset()
            for a in t.args[2:]:
                if isinstance(a, T):
                    if a.op == "tup":
                        r |= freebv(a.args[0]) | frozenset(x for x in freebv(a.args[1]) if x[0] != h)
                    else:
                        r |= frozenset(x for x in freebv(a) if x[0] != h)
        else:
            r = frozenset()
            for a in X._children(t):
                r |= freebv(a)
        _free[t] = r
    return r


def num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (Fraction, float)):
        return v
    if isinstance(v, int):
        return Fraction(v)
    raise Bad(f"not a number: {v!r}")


def zeroish(v):
    return v == 0 if isinstance(v, Fraction) else abs(v) < 1e-10


def big(v, bits=240):
    """rationals that grow too long are rounded"""
    if type(v) is Fraction and v.numerator.bit_length() + v.denominator.bit_length() > bits:
        try:
            return float(v)
        except OverflowError:
            raise Bad("overflow")
    return v


def fpow(b, e):
    b, e = num(b), num(e)
    if isinstance(e, Fraction) and e.denominator == 1 and abs(e) <= 64:
        if b == 0 and e < 0:
            raise Bad("0**-n")
        return big(b) ** int(e) if abs(e) < 4 else big(b, 60) ** int(e)
    if b == 0:
        if e < 0:
            raise Bad("0**-x")
        return Fraction(0) if e > 0 else Fraction(1)
    if b < 0:
        raise Bad("negative base")
    try:
        r = float(b) ** float(e)
    except OverflowError:
        raise Bad("overflow")
    if r == 0 and not math.isinf(e) and not math.isinf(b):
        raise Bad("underflow")
    return r


FLOATF = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
          "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh}


def isnanv(x):
    return isinstance(x, float) and math.isnan(x)


def opaques(*ts):
    """names of uninterpreted operators in a graph"""
    out, seen, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "uf":
            out.add(t.args[0])
        todo += X._children(t)
    return out


MISS = object()
WORK = [0]  # node visits so far: the search budgets are in node visits, so that verdicts do not depend on the machine
DEEP = 4 if os.environ.get("VERIF_TIER") == "thorough" else 1
_compiled: dict = {}


def compiled(t):
    """monomials of a polynomial, negative powers last: (coefficient, ((base, integer power or None, exponent term), ...))"""
    r = _compiled.get(t)
    if r is None:
        r = []
        for m, c in t.args:
            fs = []
            for b, e in m:
                k = None
                if X.is_num(e) and X.cval(e).denominator == 1 and abs(X.cval(e)) <= 64:
                    k = int(X.cval(e))
                fs.append((b, k, e))
            fs.sort(key=lambda f: X.is_num(f[2]) and X.cval(f[2]) < 0)
            r.append((c, float(c) if abs(c.numerator) < 10**300 and c.denominator < 10**300 else c, fs))
        _compiled[t] = r
    return r


SUB = {}  # constants that are read as others


class Ev:
    def __init__(self, val, seed=0, allowed=None):
        self.val = val  # symbol -> value
        self.allowed = allowed
        self.seed = seed
        self.memo = {}
        self.keep = {}
        self.env = {}
        self.stamps = {}
        self.interned = {}
        self.steps = 0
        self.noise = None  # random relative perturbation of rounded results
        self.trace = None  # values of the comparisons evaluated

    def h(self, *parts):
        s = "|".join(p if isinstance(p, str) else key(p) for p in parts)
        return int.from_bytes(hashlib.blake2b((str(self.seed) + s).encode(), digest_size=8).digest(), "big")

    def opaque(self, name, args, sort):
        if self.allowed is not None and name not in self.allowed:
            raise Unk(name)  # only one of the graphs uses it: its true meaning would matter
        h = self.h("uf", name, *args)
        if sort == "bool":
            return bool(h & 1)
        if sort == "num":
            return Fraction(h % 97 + 1, 8 if (h >> 32) % 8 else 1024)
        if sort == "str":
            return f"<{name}:{h % 10**6}>"
        if sort in ("arr", "tup"):
            n = h % 4 + (1 if sort == "tup" else 0)
            v = [Fraction(self.h("el", str(h), str(i)) % 97 + 1, 8) for i in range(n)]
            return v if sort == "arr" else tuple(v)
        return ("op", name, h)

    def bind(self, b, v):
        """give a bound variable a value; equal values get equal stamps"""
        self.env[b] = v
        if isinstance(v, (list, tuple)):
            self.keep[id(v)] = v
            self.stamps[b] = ("#", id(v))
        else:
            k = (type(v), v)
            self.stamps[b] = self.interned.setdefault(k, len(self.interned))

    def ev(self, t):
        if t.op == "const":
            v = t.args[0][1]
            if SUB and t.args[0][0] == "n":
                return SUB.get(v, v)
            return v
        fb = _free.get(t)
        if fb is None:
            fb = freebv(t)
        if fb:
            st = self.stamps
            k = (t, *[st.get(b) for b in fb])
        else:
            k = t
        v = self.memo.get(k, MISS)
        if v is not MISS:
            if isinstance(v, Exception):
                raise v
            return v
        self.steps += 1
        WORK[0] += 1
        if self.steps > 200000:
            raise Unk("too long")
        try:
            v = self._ev(t)
        except (Unk, Bad) as e:
            self.memo[k] = e
            raise
        except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError) as e:
            e = Bad(f"{type(e).__name__}: {e} in {t.op}:{t.args[0] if t.op == 'uf' else ''}")
            self.memo[k] = e
            raise e
        if self.noise is not None and type(v) is float:
            v *= 1 + 1e-14 * self.noise.uniform(-1, 1)
        self.memo[k] = v
        return v

    def arr(self, t):
        v = self.ev(t)
        if isinstance(v, tuple) and not (v and v[0] == "op"):
            return list(v)
        if not isinstance(v, list):
            raise Bad(f"not an array: {v!r} from {t.op}")
        return v

    def _ev(self, t):
        op = t.op
        if op == "const":
            return t.args[0][1]
        if t is X.PI:
            return math.pi
        if t is X.EUL:
            return math.e
        if op in ("sym", "var"):
            return self.val(t, self)
        if op == "bv":
            k = (t.args[0], t.args[2])
            if k not in self.env:
                raise Unk("unbound index")
            return self.env[k]
        if op == "nan":
            return float("nan")
        if op == "inf":
            return float("inf")
        if op == "poly":
            tot = Fraction(0)
            for p in self.monos(t):
                tot = tot + p
            return tot
        if op == "ite":
            try:
                c = self.truth(self.ev(t.args[0]))
            except (Unk, Bad) as e:
                # the condition has no value here, for instance an element that does not exist: it may not matter
                a, b = self.ev(t.args[1]), self.ev(t.args[2])
                if same(a, b):
                    return a
                raise e
            return self.ev(t.args[1] if c else t.args[2])
        if op == "tup":
            return tuple(self.ev(a) for a in t.args)
        if op == "seq":
            return [self.ev(a) for a in t.args]
        if op == "cols":
            cs = [self.arr(a) for a in t.args]
            if len({len(c) for c in cs}) > 1:
                raise Bad("ragged columns")
            return [list(r) for r in zip(*cs)]
        if op == "lam":
            n = self.ev(t.args[0])
            if n < 0 or n > 4000:
                raise Bad("length")
            h = t.args[2]
            old = self.env.get((h, 0))
            out = []
            for i in range(int(n)):
                self.bind((h, 0), Fraction(i))
                out.append(self.ev(t.args[1]))
            if old is None:
                self.env.pop((h, 0), None)
                self.stamps.pop((h, 0), None)
            else:
                self.bind((h, 0), old)
            return out
        if op == "slice":
            s, o, n = self.arr(t.args[0]), self.ev(t.args[1]), self.ev(t.args[2])
            if o < 0 or n < 0 or o + n > len(s):
                raise Bad("slice")
            return s[int(o):int(o + n)]
        if op == "concat":
            out = []
            for a in t.args:
                out += self.arr(a)
            return out
        if op == "filt":
            x, m = self.arr(t.args[0]), self.arr(t.args[1])
            if len(x) != len(m):
                raise Bad("mask length")
            return [a for a, b in zip(x, m) if self.truth(b)]
        if op == "store":
            a = list(self.arr(t.args[0]))
            k = self.ev(t.args[1])
            if not isinstance(k, (int, Fraction)) or k != int(k) or not -len(a) <= k < len(a):
                raise Bad("store index")
            a[int(k)] = self.ev(t.args[2])
            return a
        if op == "fold":
            return self.fold(t)
        if op == "uf":
            return self.uf(t)
        if op == "unbound":
            return ("unbound",)
        if op == "bot":
            raise Unk("bottom")
        if op in ("func", "cls", "class", "ext", "module", "ref", "bound"):
            return ("id", op, t.id)
        raise Unk("op " + op)

    def monos(self, t):
        """values of the monomials of a polynomial"""
        ev = self.ev
        for c, fc, fs in compiled(t):
            if SUB and not fs and abs(c) in SUB:
                c = SUB[abs(c)] if c > 0 else -SUB[abs(c)]
            p = c
            for b, k, e in fs:
                v = ev(b)
                if k is None:
                    v = fpow(v, ev(e))
                elif type(v) is float:
                    if k != 1:
                        if v == 0 and k < 0:
                            raise Bad("0**-n")
                        v = v**k
                elif type(v) is not Fraction:
                    v = fpow(v, Fraction(k))
                elif k != 1:
                    if not v and k < 0:
                        raise Bad("0**-n")
                    v = big(v) ** k if abs(k) < 4 else big(v, 60) ** k
                if p is c and type(v) is float:
                    p = fc
                q = p
                p = p * v
                if p == 0:
                    if q != 0 and v != 0:
                        raise Bad("underflow")
                    break
                if type(p) is float and math.isinf(p) and not math.isinf(q) and not math.isinf(v):
                    raise Bad("overflow")
            yield big(p)

    def signed(self, t):
        """a value with the sign of the term; a difference that is neither clearly zero nor clearly not is not used"""
        if t.op != "poly":
            v = num(self.ev(t))
            return v if isinstance(v, Fraction) or not zeroish(v) else 0
        ps = [num(p) for p in self.monos(t)]
        v = sum(ps, Fraction(0))
        if isinstance(v, Fraction) or math.isinf(v):
            return v
        if math.isnan(v):
            return v
        sc = max(abs(float(p)) for p in ps)
        if abs(v) <= 1e-12 * sc:
            return 0
        if abs(v) <= 1e-8 * sc:
            raise Bad("comparison within rounding")
        return v

    def truth(self, v):
        if isinstance(v, tuple) and v and v[0] == "op":
            return bool(self.h("truthy", v) & 1)
        return bool(v)

    def fold(self, t):
        kind, h, count, cond = t.args[:4]
        cs = t.args[4:]
        cur = [self.ev(c.args[0]) for c in cs]
        n = None if count is X.NONE else self.ev(count)
        saved = dict(self.env), dict(self.stamps)
        i = 0
        try:
            while n is None or i < n:
                i += 1
                if i > 3000:
                    raise Unk("long loop")
                self.bind((h, 0), Fraction(i - 1))
                for k, v in enumerate(cur):
                    self.bind((h, k + 1), v)
                if cond is not X.TRUE and not self.truth(self.ev(cond)):
                    break
                cur = [self.ev(c.args[1]) for c in cs]
        finally:
            self.env, self.stamps = saved
        return cur[0]

    def uf(self, t):
        name = t.args[0]
        if name == "uninitialised":
            return ("op", "uninitialised", 0)
        if name == "?" or name.startswith("?"):
            raise Unk(name)
        a = t.args[1:]
        if name in ("lt0", "eq0"):
            v = self.signed(a[0])
            if self.trace is not None and len(self.trace) < 400:
                self.trace.append((a[0], v))
            return v < 0 if name == "lt0" else v == 0
        if name == "fin":
            return not math.isinf(float(num(self.ev(a[0]))))
        if name == "red":
            return self.red(a[0], self.arr(a[1]))
        if t.unk and not any(isinstance(x, T) and x.unk for x in a):
            raise Unk(name)
        v = [self.ev(x) if isinstance(x, T) else x for x in a]
        f = getattr(self, "f_" + name.replace(".", "_"), None)
        if f is not None:
            return f(*v)
        if name in FLOATF:
            return FLOATF[name](float(num(v[0])))
        if name.startswith(("field:", "struct:", "item", "dict")):
            return (name,) + tuple(v)
        if name.startswith("str.") or name in ("startswith", "endswith"):
            m = name.removeprefix("str.")
            if all(isinstance(x, str) for x in v) and m in ("lower", "upper", "strip", "title", "capitalize", "casefold", "startswith", "endswith", "replace", "lstrip", "rstrip", "split"):
                return getattr(v[0], m)(*v[1:])
        return self.opaque(name, v, t.sort)

    def red(self, kind, v):
        if kind == "sum":
            r = Fraction(0)
            for x in v:
                r = r + num(x)
            return r
        if kind == "prod":
            r = Fraction(1)
            for x in v:
                r = r * num(x)
            return r
        if kind == "any":
            return any(self.truth(x) for x in v)
        if kind == "all":
            return all(self.truth(x) for x in v)
        if kind in ("max", "min"):
            if not v:
                raise Bad("empty reduction")
            return (max if kind == "max" else min)(num(x) for x in v)
        raise Unk("red " + str(kind))

    # ---- meanings
    def f_abs(self, x):
        return abs(num(x))

    def f_nan_to_num(self, x, d=0, *r):
        x = num(x)
        return d if isinstance(x, float) and math.isnan(x) else x

    def f_arctan2(self, y, x):
        return math.atan2(float(num(y)), float(num(x)))

    def f_std(self, v, *r):
        m = sum(num(x) for x in v) / len(v)
        return math.sqrt(sum((num(x) - m) ** 2 for x in v) / len(v))

    def f_nansum(self, v, *r):
        return self.red("sum", [x for x in v if not isnanv(x)])

    def f_nanmax(self, v, *r):
        return self.red("max", [x for x in v if not isnanv(x)])

    def f_nanmin(self, v, *r):
        return self.red("min", [x for x in v if not isnanv(x)])

    def f_nanmean(self, v, *r):
        w = [x for x in v if not isnanv(x)]
        if not w:
            raise Bad("mean of nothing")
        return self.red("sum", w) / len(w)

    def f_median(self, v, *r):
        w = sorted(num(x) for x in v)
        if not w:
            raise Bad("median of nothing")
        k = len(w) // 2
        return w[k] if len(w) % 2 else (w[k - 1] + w[k]) / 2

    def f_nanmedian(self, v, *r):
        return self.f_median([x for x in v if not isnanv(x)])

    def f_var(self, v, *r):
        return self.f_std(v) ** 2

    def f_nanstd(self, v, *r):
        return self.f_std([x for x in v if not isnanv(x)])

    def f_exp(self, x):
        return math.exp(num(x))

    def f_log(self, x):
        return math.log(num(x))

    def f_len(self, x):
        return Fraction(len(x)) if isinstance(x, (list, str)) or (isinstance(x, tuple) and not (x and x[0] == "op")) else self.opaque("len", [x], "num")

    def f_count(self, m):
        return Fraction(sum(1 for x in m if self.truth(x)))

    def f_idx(self, x, i):
        if isinstance(x, tuple) and x and x[0] == "op":
            return self.opaque("idx", [x, i], "any")
        if i != int(i) or not -len(x) <= i < len(x):
            raise Bad("index")
        return x[int(i)]

    def f_isnone(self, x):
        return x is None

    def f_truthy(self, x):
        return self.truth(x)

    def f_eq(self, x, y):
        return equal(x, y)

    def f_isclose(self, x, y, rtol, atol):
        if isnanv(x) or isnanv(y):
            return False
        x, y, rtol, atol = num(x), num(y), num(rtol), num(atol)
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= atol + rtol * abs(y)

    def f_alleq(self, x, y):
        return equal(x, y)

    def f_lt(self, x, y):
        if isinstance(x, tuple):
            return bool(self.h("lt", x, y) & 1)
        return x < y

    def f_strcat(self, *xs):
        return "".join(x if isinstance(x, str) else key(x) for x in xs)

    def f_str(self, x, *fmt):
        return x if isinstance(x, str) and not fmt else "<" + key(x) + "".join(key(f) for f in fmt) + ">"

    def f_contains(self, box, x):
        if isinstance(box, str):
            return x in box if isinstance(x, str) else False
        if isinstance(box, list):
            return any(equal(x, y) for y in box)
        return bool(self.h("contains", box, x) & 1)

    def f_sort(self, x):
        return sorted(x)

    def f_argsort(self, x):
        return [Fraction(i) for i in sorted(range(len(x)), key=lambda i: x[i])]

    def f_unique(self, x):
        out = []
        for v in sorted(x):
            if not out or not equal(out[-1], v):
                out.append(v)
        return out

    f_set = f_unique

    def f_round(self, x, k):
        if isinstance(x, list) or isinstance(x, tuple) and not (x and isinstance(x[0], str)):
            return [self.f_round(y, k) for y in x]
        v = num(x)
        return v if isinstance(v, float) and math.isinf(v) else Fraction(round(Fraction(v), int(k)))

    def narrow(self, code, x):
        if isinstance(x, list):
            return [self.narrow(code, y) for y in x]
        v = num(x)
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            return v
        try:
            r = struct.unpack(code, struct.pack(code, float(v)))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
        return Fraction(r) if not math.isinf(r) else r

    def f_single(self, x):
        return self.narrow("f", x)

    def f_half(self, x):
        return self.narrow("e", x)

    def f_rint(self, x):
        return self.f_round(x, 0)

    def f_wrap(self, x):
        """the range of narrow integer types is lowered to four bits"""
        return (num(x) + 8) % 16 - 8

    def f_uwrap(self, x):
        return num(x) % 16

    def f_trunc(self, x):
        return Fraction(math.trunc(num(x) + (Fraction(0) if isinstance(num(x), Fraction) else 1e-10)))

    def f_floor(self, x):
        v = num(x)
        return Fraction(math.floor(v if isinstance(v, Fraction) else v + 1e-10))

    def f_ceil(self, x):
        v = num(x)
        return Fraction(math.ceil(v if isinstance(v, Fraction) else v - 1e-10))

    def f_floordiv(self, x, y):
        return self.f_floor(num(x) / num(y))

    def f_mod(self, x, y):
        x, y = num(x), num(y)
        return x - y * self.f_floor(x / y)

    def f_where(self, m):
        return [Fraction(i) for i, x in enumerate(m) if self.truth(x)]

    def f_firsttrue(self, m):
        for i, x in enumerate(m):
            if self.truth(x):
                return Fraction(i)
        raise Bad("no true")

    def f_lasttrue(self, m):
        for i in reversed(range(len(m))):
            if self.truth(m[i]):
                return Fraction(i)
        raise Bad("no true")

    def f_cumsum(self, x):
        out, s = [], Fraction(0)
        for v in x:
            s = s + num(v)
            out.append(s)
        return out

    def f_reverse(self, x):
        return x[::-1]

    def f_take(self, x, k):
        if k and all(isinstance(b, bool) for b in k):
            if len(k) != len(x):
                raise Bad("mask length")
            return [a for a, b in zip(x, k) if b]
        return [self.f_idx(x, i) for i in k]

    def f_item(self, x, k):
        if isinstance(x, (list, tuple)) and not (x and isinstance(x[0], str)) and isinstance(k, (int, Fraction)) and 0 <= k < len(x):
            return x[int(k)]
        return ("item", x, k)

    def f_alloc(self, n, m, v):
        return [[v] * int(m) for _ in range(int(n))]

    def f_trim_zeros(self, x, how):
        x = list(x)
        while x and "b" in how.lower() and x[-1] == 0:
            x.pop()
        while x and "f" in how.lower() and x[0] == 0:
            x.pop(0)
        return x

    def f_repeat(self, x, k):
        if not isinstance(k, list):
            k = [k] * len(x)
        if len(k) != len(x):
            raise Bad("repeat")
        out = []
        for v, n in zip(x, k):
            if n < 0 or n > 1000:
                raise Bad("repeat")
            out += [v] * int(n)
        return out

    def f_transpose(self, x):
        if x and all(isinstance(r, list) for r in x):
            return [list(r) for r in zip(*x)]
        return x

    def f_col(self, x, j):
        return [self.f_idx(r, j + len(r) if j < 0 and isinstance(r, (list, tuple)) else j) for r in x]

    def f_isnan(self, x):
        return isinstance(x, float) and math.isnan(x)

    def f_isinf(self, x):
        return isinstance(x, float) and math.isinf(x)

    def f_digitize(self, x, bins, *rest):
        if isinstance(x, list):
            return [self.f_digitize(v, bins, *rest) for v in x]
        right = rest and self.truth(rest[0])
        return Fraction((bisect.bisect_left if right else bisect.bisect_right)(list(bins), x))

    def f_delete(self, x, k):
        ks = {int(i) % max(1, len(x)) for i in (k if isinstance(k, list) else [k])}
        return [v for i, v in enumerate(x) if i not in ks]

    def f_atleast_1d(self, x):
        return x if isinstance(x, list) else [x]

    def f_float(self, x):
        return num(x) if isinstance(x, (int, Fraction, float)) else self.opaque("float", [x], "num")

    def f_strided(self, x, lo, hi, st):
        g = [None if v is None else int(v) for v in (lo, hi, st)]
        return x[g[0]:g[1]:g[2]]

    def f_trapz(self, y, x=None, *r):
        if r or x is None:
            return self.opaque("trapz", [y, x, *r], "num")
        s = Fraction(0)
        for i in range(len(y) - 1):
            s = s + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
        return s

    def f_flat(self, x):
        out = []
        for v in x:
            if isinstance(v, list):
                out += self.f_flat(v)
            else:
                out.append(v)
        return out


# ---------------------------------------------------------------- valuations
def symbols(*ts):
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("sym", "var") and x is not X.PI and x is not X.EUL:
            out.append(x)
            f = X.SYM.get(x, {})
            for k in ("length", "ncol"):
                if isinstance(f.get(k), T):
                    st.append(f[k])
        st.extend(X._children(x))
    return sorted(out, key=lambda s: s.args[0])


def constants(*ts):
    nums, strs, seen, st = set(), set(), set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "const":
            k, v = x.args[0]
            if k == "n" and abs(v) < 10**6:
                nums.add(v)
            elif k == "s":
                strs.add(v)
        if x.op == "poly":
            for _m, c in x.args:
                if abs(c) < 10**6:
                    nums.add(c)
        st.extend(X._children(x))
    return sorted(nums), sorted(strs)


NEAR = []  # tolerances that only one of the graphs uses; zero if only one of them depends on an order


class Valuation:
    """random values for symbols, chosen on demand and repeatably"""

    def __init__(self, rng, nums, strs, small=False):
        self.rng, self.nums, self.strs = rng, nums, strs
        self.v = {}
        self.big = rng.random() < 0.5
        self.tiny = None
        small = [abs(c) for c in nums if 0 < abs(c) < 1]
        if small and rng.random() < 0.15:
            self.tiny = rng.choice(small)  # arrays of values below a tolerance

    def close(self, old):
        """a number that differs from another one by less than a tolerance"""
        c = self.rng.choice(NEAR)
        z = self.rng.random()
        return old if z < 0.2 else old + c / 2 if z < 0.6 else old * (1 + c / 2)

    def nearby(self, s, f, sort, n=None):
        """a value close to that of another symbol of the same kind"""
        if sort == "num":
            c = [v for t, v in self.v.items() if t.args[1] == "num" and type(v) is Fraction and not X.SYM.get(t, {}).get("int")]
            if f.get("int") or not c:
                return None
            v = self.close(self.rng.choice(c))
            return v if admits(s, v) else None
        c = [v for t, v in self.v.items() if t.args[1] == "arr" and isinstance(v, list) and len(v) == n and all(type(x) is Fraction for x in v)]
        if not c or not n or f.get("eint"):
            return None
        v = list(self.rng.choice(c))
        if NEAR[0] == 0:
            self.rng.shuffle(v)
        if f.get("epos") and min(v) <= 0 or f.get("enonneg") and min(v) < 0:
            return None
        i = self.rng.randrange(n)
        v[i] = self.close(v[i])
        return v

    def rawnum(self, f):
        r = self.rng
        if f.get("int"):
            z = r.random()
            v = Fraction(r.randint(0, 6)) if z < 0.8 else Fraction(r.randint(0, 40))
            if f.get("nat") is None and not f.get("nonneg") and not f.get("pos") and r.random() < 0.2:
                v = -v
        else:
            z = r.random()
            if z < 0.2 and self.nums:
                c = abs(r.choice(self.nums))
                if r.random() < 0.6:
                    v = c + r.choice([0, 0, Fraction(1, 64), Fraction(-1, 64)])
                else:  # near a threshold on a remainder
                    v = c * r.choice([Fraction(1, 2), Fraction(3, 2), 1]) + (r.randint(0, 3) if c < 1 else 0)
            elif z < 0.7:
                v = Fraction(r.randint(1, 64), r.choice([4, 8, 16]))
            elif z < 0.8:
                v = Fraction(r.randint(1, 999), 1000)
            else:
                v = Fraction(r.randint(1, 4000), 8)
            if not f.get("pos") and not f.get("nonneg") and r.random() < 0.35:
                v = -v
            if not f.get("pos") and r.random() < 0.06:
                v = Fraction(0)
            if f.get("lo") is not None:
                v = f["lo"] + abs(v)
        if (f.get("pos") or f.get("nonneg")) and v < 0:
            v = -v
        if f.get("pos") and v == 0:
            v = Fraction(1)
        return v

    def rawstr(self):
        """a string: one that occurs, a variant of one that occurs (other case, a part of it, something added), or another one"""
        r = self.rng
        seen = self.strs + [v for v in self.v.values() if isinstance(v, str)]
        z = r.random()
        if z < 0.55 or not seen:
            return r.choice(seen + ["u1", "u2", "zz"])
        if z < 0.8:
            x = r.choice(seen)
            return r.choice([x.upper(), x.lower(), x.title(), x.swapcase(), x[1:], x[:-1], x + " ", " " + x, "k" + x, x + "2"]) or "zz"
        return r.choice(["MPa", "Pa", "kPa", "u1", "u2", "zz", ""])

    def __call__(self, s, ev):
        if s in self.v:
            return self.v[s]
        f = X.SYM.get(s, {})
        r = self.rng
        sort = s.args[1]
        if "values" in f:
            v = r.choice(f["values"])
        elif sort == "num":
            v = self.nearby(s, f, sort) if NEAR and r.random() < 0.4 else None
            if v is None:
                v = self.rawnum(f)
        elif sort == "bool":
            v = r.random() < 0.5
        elif sort == "str":
            v = self.rawstr()
        elif sort == "arr":
            l = f.get("length")
            n = int(ev.ev(l)) if l is not None else r.randint(0, 4)
            if n < 0 or n > 500:
                raise Bad("length")
            es = f.get("elem", "num")
            ef = {"pos": f.get("epos"), "nonneg": f.get("enonneg"), "int": f.get("eint"), "values": None}
            if es == "num" and f.get("ncol"):
                nc = int(ev.ev(f["ncol"])) if isinstance(f["ncol"], T) else f["ncol"]
                v = [[self.rawnum(ef) for _ in range(nc)] for _ in range(n)]
            elif es == "num":
                if f.get("evalues"):
                    v = [r.choice(f["evalues"]) for _ in range(n)]
                else:
                    v = self.nearby(s, f, sort, n) if NEAR and r.random() < 0.4 else None
                    if v is None:
                        v = [self.rawnum(ef) for _ in range(n)]
                    if self.tiny is not None and not ef["int"] and r.random() < 0.5:
                        v = [self.tiny * r.choice([Fraction(1, 2), Fraction(1, 4), Fraction(3, 4)]) * (1 if ef["pos"] or ef["nonneg"] or r.random() < 0.6 else -1) for _ in range(n)]
                    if n > 1 and r.random() < 0.25:
                        i, j = r.randrange(n), r.randrange(n)
                        v[i] = v[j]
                    if f.get("sorted"):
                        v = sorted(v, reverse=f["sorted"] == "desc")
            elif es == "bool":
                v = [r.random() < 0.5 for _ in range(n)]
            elif es == "str":
                v = [self.rawstr() for _ in range(n)]
            else:
                v = [("op", s.args[0], r.randint(0, 9)) for _ in range(n)]
        elif sort in ("any", "opt"):
            if not f.get("notnone") and r.random() < 0.35:
                v = None
            elif f.get("string") or (r.random() < 0.2 and self.strs and not f.get("numeric")):
                v = self.rawstr()
            else:
                v = self.rawnum({"int": f.get("int")})
        else:
            v = ("op", s.args[0], 0)
        self.v[s] = v
        return v

    def show(self, limit=12):
        out = []
        for s, v in sorted(self.v.items(), key=lambda kv: kv[0].args[0]):
            out.append(f"{s.args[0]}={pretty(v)}")
        return ", ".join(out[:limit])


def pretty(v):
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else "%.6g" % float(v)
    if isinstance(v, float):
        return "%.6g" % v
    if isinstance(v, list):
        return "[" + ", ".join(pretty(x) for x in v) + "]"
    if isinstance(v, tuple):
        if v and v[0] == "op":
            return f"{v[1]}#{v[2] % 1000}"
        if v and isinstance(v[0], str) and v[0].startswith(("field:", "struct:")):
            return v[0].split(":")[1] + "(" + ", ".join(pretty(x) for x in v[1:]) + ")"
        return "(" + ", ".join(pretty(x) for x in v) + ")"
    return repr(v)


class Witness:
    def __init__(self, val, a, b):
        self.val, self.a, self.b = val, a, b
        self.note = ""

    def __str__(self):
        return f"{pretty(self.a)[:200]} instead of {pretty(self.b)[:200]} for {self.val.show()}{self.note}"


def admits(s, v):
    """does the value satisfy the declared facts of the symbol"""
    f = X.SYM.get(s, {})

    def num(x, pre=""):
        if not isinstance(x, Fraction):
            return not any(f.get(pre + k) for k in ("pos", "nonneg", "int", "values"))
        if f.get(pre + "pos") and x <= 0 or f.get(pre + "nonneg") and x < 0 or f.get(pre + "int") and x.denominator != 1:
            return False
        if f.get(pre + "values") and x not in f[pre + "values"]:
            return False
        return not (not pre and f.get("lo") is not None and x < f["lo"])

    if isinstance(v, list):
        if f.get("sorted") and v != sorted(v, reverse=f["sorted"] == "desc"):
            return False
        return all(num(x, "e") for x in v)
    return num(v) if s.args[1] == "num" else True


def fits(s, w, val):
    """has the value the declared length"""
    l = X.SYM.get(s, {}).get("length")
    if not isinstance(w, list) or l is None:
        return True
    try:
        return Ev(val).ev(l) == len(w)
    except (Unk, Bad):
        return False


def climb(lits, syms, rng, nums, strs, seed, steps=120, stop=float("inf")):
    """a valuation that satisfies the literals (list of (atom, polarity)), by local search"""
    val = Valuation(rng, nums, strs)

    def score(v):
        ev = Ev(v, seed)
        n = 0
        bad = []
        for a, s in lits:
            try:
                if ev.truth(ev.ev(a)) == bool(s):
                    n += 1
                    continue
            except (Bad, Unk):
                pass
            bad.append(a)
        return n, bad

    n, bad = score(val)
    for _ in range(steps):
        if not bad:
            return val
        if WORK[0] > stop:
            return None
        ss = symbols(rng.choice(bad))
        if not ss:
            return None
        v2 = Valuation(rng, nums, strs)
        v2.v = dict(val.v)
        s = rng.choice(ss)
        for x in [s] + [q for q in syms if isinstance(X.SYM.get(q, {}).get("length"), T) and s in symbols(X.SYM[q]["length"])]:
            v2.v.pop(x, None)
        if rng.random() < 0.25:  # make two symbols of the same sort equal
            o = [q for q in ss if q is not s and q.args[1] == s.args[1] and q in val.v]
            if o:
                w = val.v[rng.choice(o)]
                if isinstance(w, Fraction) and rng.random() < 0.3:  # or nearly equal
                    w = w * (1 + rng.choice([-1, 1]) * Fraction(1, 2**rng.randint(10, 24)))
                elif isinstance(w, list) and w and isinstance(w[0], Fraction) and rng.random() < 0.3:
                    w = [x * (1 + Fraction(1, 2**20)) for x in w]
                if admits(s, w) and fits(s, w, v2):
                    v2.v[s] = w
        n2, bad2 = score(v2)
        if n2 >= n:
            val, n, bad = v2, n2, bad2
    return val if not bad else None


STATS = {"valuations": 0, "searches": 0}


def witness(a, b, care=X.TRUE, diffs=(), seed=1, tries=160, unk_ok=False):
    """(Witness or None, number of valuations that could be compared)"""
    STATS["searches"] += 1
    rng = random.Random(seed)
    syms = symbols(a, b, care)
    nums, strs = constants(a, b, care)
    compared = 0
    kept = []
    if not SUB:
        ca, cb = set(constants(a)[0]), set(constants(b)[0])
        NEAR[:] = sorted({abs(c) for c in ca ^ cb if 0 < abs(c) <= Fraction(1, 100)} | ({Fraction(1, 10**6)} if "isclose" in opaques(a, b) else set()) | ({Fraction(0)} if {"sort", "reverse", "argsort"} & (opaques(a) ^ opaques(b)) else set()))
    both = (opaques(a) & opaques(b)) | opaques(care)
    starts = []
    for d in diffs:
        starts += [list(d.path)] * 6
    share = 3 if SUB else 1
    first = WORK[0] + 800_000 * DEEP // share
    last = WORK[0] + 2_000_000 * DEEP // share
    for k in range(tries * DEEP + len(starts)):
        if WORK[0] > last and (compared >= 40 or SUB):
            break
        STATS["valuations"] += 1
        if k < len(starts):
            val = climb(starts[k], syms, rng, nums, strs, k, stop=first)
            if val is None:
                continue
        else:
            val = Valuation(rng, nums, strs)
        ev = Ev(val, k, both)
        try:
            if not ev.truth(ev.ev(care)):
                if k >= len(starts) and care is not X.TRUE and k % 4 == 0:
                    p = X.paths(care)
                    ps = [q for q, l in p if l is X.TRUE] if p else []
                    if ps:
                        val = climb(list(rng.choice(ps)), syms, rng, nums, strs, k, stop=last)
                        if val is None:
                            continue
                        ev = Ev(val, k, both)
                        if not ev.truth(ev.ev(care)):
                            continue
                    else:
                        continue
                else:
                    continue
            va, vb = ev.ev(a), ev.ev(b)
        except (Unk, Bad):
            continue
        except RecursionError:
            continue
        compared += 1
        if not same(va, vb):
            if not stable(val, k, both, a, va) or not stable(val, k, both, b, vb):
                continue
            return Witness(val, va, vb), compared
        if len(kept) < 24:
            kept.append((k, val))
    w, n = ties(a, b, care, kept, both, rng)
    if w is None and not SUB:
        big = gates(a, b)
        if big:
            # a threshold of only one of the graphs that ordinary values do not pass: the same graphs with a lower one
            try:
                for to in (3, 1):
                    for i, k in enumerate(big):
                        for d in (-1, 0, 1) if k.denominator == 1 else (0,):
                            SUB.setdefault(k + d, Fraction(to + 2 * i + d))
                    w, _ = witness(a, b, care, diffs, seed + to, tries // 2)
                    if w is not None:
                        w.note = ", with " + ", ".join(f"{float(k):g} lowered to {to + 2 * i}" for i, k in enumerate(big))
                        break
                    SUB.clear()
            finally:
                SUB.clear()
    return w, compared + n


def gates(a, b):
    """large constants that values of only one of the graphs are compared with"""
    def at(t, everything):
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "uf" and x.args[0] in ("lt0", "eq0") and x.args[1].op == "poly":
                out |= {abs(c) for m, c in x.args[1].args if not m}
            elif everything and x.op == "const" and x.args[0][0] == "n":
                out.add(abs(x.args[0][1]))
            elif everything and x.op == "poly":
                out |= {abs(c) for _m, c in x.args}
            st.extend(X._children(x))
        return out

    out = []
    for x, y in ((a, b), (b, a)):
        known = at(y, True)
        out += [k for k in at(x, False) if 7 <= k <= 10**9 and not known & {k - 1, k, k + 1} and any(k + d in X.LITERALS for d in (-1, 0, 1))]
    return sorted(out)[:3]


def linear(p):
    """(symbol, coefficient) of the scalars that can be moved to make a polynomial zero"""
    if p.op in ("sym", "var"):
        ms = [(((p, X.ONE),), Fraction(1))]
    elif p.op == "poly":
        ms = list(p.args)
    else:
        return []
    out = []
    for i, (m, c) in enumerate(ms):
        if len(m) == 1 and m[0][1] is X.ONE and m[0][0].op == "sym" and m[0][0].args[1] == "num":
            s = m[0][0]
            f = X.SYM.get(s, {})
            if "values" not in f and not f.get("int"):
                out.append((s, c))
    return out


def ties(a, b, care, kept, both, rng, stop=500_000):
    """valuations under which a comparison the values depend on is an equality"""
    n = 0
    last = WORK[0] + stop * DEEP
    for k, val in kept:
        for _ in range(2):
            if WORK[0] > last:
                return None, n
            cur = val
            for _step in range(2):
                ev = Ev(cur, k, both)
                ev.trace = []
                try:
                    ev.ev(a), ev.ev(b)
                except (Unk, Bad, RecursionError):
                    break
                c = [(s, q, v) for p, v in ev.trace for s, q in linear(p) if v != 0 and not (isinstance(v, float) and not math.isfinite(v))]
                if not c:
                    break
                s, q, v = rng.choice(c)
                w = cur.v.get(s)
                if not isinstance(w, Fraction):
                    break
                w = w - Fraction(v) / q
                if not admits(s, w):
                    break
                nxt = Valuation(rng, cur.nums, cur.strs)
                nxt.v = dict(cur.v)
                nxt.v[s] = w
                cur = nxt
                ev = Ev(cur, k, both)
                try:
                    if not ev.truth(ev.ev(care)):
                        break
                    va, vb = ev.ev(a), ev.ev(b)
                except (Unk, Bad, RecursionError):
                    continue
                n += 1
                if not same(va, vb) and stable(cur, k, both, a, va) and stable(cur, k, both, b, vb):
                    return Witness(cur, va, vb), n
    return None, n


def stable(val, k, both, t, v):
    """does the value survive small random perturbations of every rounded intermediate result"""
    for j in range(3):
        ev = Ev(val, k, both)
        ev.noise = random.Random(j + 1)
        try:
            if not same(ev.ev(t), v):
                return False
        except (Unk, Bad):
            return False
    return True
