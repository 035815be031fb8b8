"""C23: compiled parallel kernels."""
import ast
import os

import kit

EXPLANATION = (
    "Dependence analysis over the syntax tree of every compiled function, with imports, option dictionaries and decorator aliases resolved: in each loop that runs in parallel, scalars must be assigned before they are read in the iteration and not be used after the loop, and every array the loop writes must be accessed, in one dimension, at one and the same affine function of the loop index; "
    "functions compiled with relaxed floating point rules must not produce or compare infinities or NaN."
)
COMPILERS = ("numba.njit", "numba.jit", "numba.core.decorators.njit", "numba.core.decorators.jit", "numba.generated_jit", "numba.stencil", "numba.vectorize", "numba.guvectorize")
PRANGE = ("numba.prange", "numba.misc.special.prange")
SPECIAL = ("numpy.inf", "numpy.nan", "numpy.Inf", "numpy.NaN", "numpy.NAN", "numpy.PINF", "numpy.NINF", "numpy.infty", "math.inf", "math.nan")
TESTS = ("numpy.isnan", "numpy.isinf", "numpy.isfinite", "math.isnan", "math.isinf", "math.isfinite", "numpy.nanmax", "numpy.nanmin", "numpy.nansum", "numpy.nan_to_num")
SHAPES = ("size", "shape", "ndim", "dtype", "nbytes", "itemsize")
MUTATING = ("fill", "sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "partition", "resize", "itemset", "put")


class Module:
    def __init__(self, path, rel):
        self.rel = rel
        self.tree = ast.parse(open(path, encoding="utf-8").read(), rel)
        self.names, self.consts, self.defs = {}, {}, {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.names[a.asname or a.name] = f"{n.module}.{a.name}"
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[n.name] = n

    def dotted(self, e, depth=0):
        """fully qualified name of an expression, or None"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, depth)
            return f"{b}.{e.attr}" if b else None
        if isinstance(e, ast.Name):
            if e.id in self.names:
                return self.names[e.id]
            if e.id in self.consts and depth < 5:
                return self.dotted(self.consts[e.id], depth + 1)
        return None

    def options(self, d, depth=0):
        """(compiler, options) of a decorator, or None"""
        if isinstance(d, ast.Call):
            if self.dotted(d.func) == "functools.partial" and d.args:
                r = self.options(d.args[0], depth)
            else:
                r = self.options(d.func, depth)
            if r is None:
                return None
            o = dict(r[1])
            for k in d.keywords:
                if k.arg is not None:
                    o[k.arg] = self.value(k.value)
                else:
                    o.update(self.mapping(k.value))
            return r[0], o
        n = self.dotted(d)
        if n in COMPILERS:
            return n, {}
        if isinstance(d, ast.Name) and d.id in self.consts and depth < 5:
            return self.options(self.consts[d.id], depth + 1)
        return None

    def value(self, e, depth=0):
        if isinstance(e, ast.Name) and e.id in self.consts and depth < 5:
            return self.value(self.consts[e.id], depth + 1)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand)
            return (not v) if v is not None else None
        if isinstance(e, ast.Call):
            return {"?": True} if getattr(e.func, "id", None) == "dict" else None
        try:
            return ast.literal_eval(e)
        except (ValueError, SyntaxError):
            return None

    def mapping(self, e, depth=0):
        if isinstance(e, ast.Name) and e.id in self.consts and depth < 5:
            return self.mapping(self.consts[e.id], depth + 1)
        if isinstance(e, ast.Dict):
            return {k.value: self.value(v) for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant)}
        if isinstance(e, ast.Call) and getattr(e.func, "id", None) == "dict":
            return {k.arg: self.value(k.value) for k in e.keywords if k.arg}
        return {}


def relaxed(opts):
    f = opts.get("fastmath")
    if isinstance(f, (set, frozenset, list, tuple)):
        return bool({"fast", "nnan", "ninf"} & set(f))
    return bool(f)


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            yield n.id


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.comprehension,)):
                out.update(target_names(n.target))
    return out


class Affine(dict):
    """linear form: {None: constant, 'i': coefficient of the loop index, expression text: coefficient}"""

    @property
    def slope(self):
        return self.get("i", 0)

    def plus(self, o, k=1):
        r = Affine(self)
        for a, b in o.items():
            r[a] = r.get(a, 0) + k * b
        return r.clean()

    def times(self, k):
        return Affine({a: b * k for a, b in self.items()}).clean()

    def clean(self):
        return Affine({a: b for a, b in self.items() if b})

    def number(self):
        return self.get(None, 0) if not set(self) - {None} else None


class Loop:
    """one parallel loop of a function"""

    def __init__(self, mod, fn, loop, aliases):
        self.mod, self.fn, self.loop, self.aliases = mod, fn, loop, aliases
        self.index = loop.target.id if isinstance(loop.target, ast.Name) else None
        self.private = assigned(loop.body) | set(target_names(loop.target))
        self.found = []
        self.access = {}  # array -> list of (is write, per dimension form, node)
        self.inner = set()

    def say(self, node, what):
        self.found.append((node.lineno, what))

    # -------------------------------------------------- values
    def form(self, e, env):
        """linear form of an index expression over the loop index and loop invariants, or None"""
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, bool)):
            return Affine({None: int(e.value)}).clean()
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.private:
                return None
            return Affine({e.id: 1})
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            f = self.form(e.operand, env)
            return f.times(-1) if f is not None else None
        if isinstance(e, ast.BinOp):
            l, r = self.form(e.left, env), self.form(e.right, env)
            if l is not None and r is not None:
                if isinstance(e.op, ast.Add):
                    return l.plus(r)
                if isinstance(e.op, ast.Sub):
                    return l.plus(r, -1)
                if isinstance(e.op, ast.Mult):
                    for a, b in ((l, r), (r, l)):
                        if a.number() is not None:
                            return b.times(a.number())
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("int",) and len(e.args) == 1:
            return self.form(e.args[0], env)
        if not any(isinstance(n, ast.Name) and (n.id in self.private or n.id in env) for n in ast.walk(e)):
            return Affine({ast.unparse(e): 1})
        return None

    def dims(self, sl, env):
        out = []
        for d in sl.elts if isinstance(sl, ast.Tuple) else [sl]:
            if isinstance(d, ast.Slice):
                lo, hi = (self.form(x, env) if x is not None else None for x in (d.lower, d.upper))
                if lo is not None and hi is not None and lo.slope and hi.plus(lo, -1).number() is not None and abs(hi.plus(lo, -1).number()) <= abs(lo.slope) and d.step is None:
                    out.append((lo, hi))
                else:
                    out.append(None)
            else:
                f = self.form(d, env)
                out.append(f)
        return out

    def base(self, e):
        """outer array an access chain starts from, with the first subscript"""
        sub = None
        while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            if isinstance(e, ast.Subscript):
                sub = e
            elif isinstance(e, ast.Attribute) and e.attr in SHAPES:
                return None, None
            e = e.value
        if isinstance(e, ast.Name):
            return e.id, sub
        return None, None

    def root(self, name):
        seen = set()
        while name in self.aliases and name not in seen:
            seen.add(name)
            name = self.aliases[name]
        return name

    def touch(self, name, write, dims, node):
        self.access.setdefault(self.root(name), []).append((write, dims, node))

    # -------------------------------------------------- expressions
    def expr(self, e, env, have):
        """reads of an expression"""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if e.id in self.private and e.id not in have and e.id not in self.inner:
                self.say(e, f"{e.id} is read before the iteration assigns it")
            elif e.id not in self.private:
                self.touch(e.id, False, None, e)
            return
        if isinstance(e, ast.Attribute) and e.attr in SHAPES:
            return
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == "len" and len(e.args) == 1:
                return
            if isinstance(f, ast.Attribute):
                nm, _ = self.base(f.value)
                if f.attr in MUTATING and nm is not None and nm not in self.private and not self.mod.dotted(f.value):
                    self.touch(nm, True, None, e)
                else:
                    self.expr(f.value, env, have)
            elif isinstance(f, ast.Name) and f.id in self.mod.defs:
                self.callee(self.mod.defs[f.id], e)
            q = self.mod.dotted(f)
            if q in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask") and e.args:
                nm, sub = self.base(e.args[0])
                if nm is not None and nm not in self.private:
                    self.touch(nm, True, self.dims(sub.slice, env) if sub is not None else None, e)
            for k in e.keywords:
                if k.arg == "out":
                    nm, sub = self.base(k.value)
                    if nm is not None and nm not in self.private:
                        self.touch(nm, True, self.dims(sub.slice, env) if sub is not None else None, e)
                        continue
                self.expr(k.value, env, have)
            for a in e.args:
                self.expr(a, env, have)
            return
        if isinstance(e, (ast.Subscript, ast.Attribute)):
            nm, sub = self.base(e)
            if nm is not None:
                if nm in self.private:
                    if nm not in have and nm not in self.inner:
                        self.say(e, f"{nm} is read before the iteration assigns it")
                else:
                    self.touch(nm, False, self.dims(sub.slice, env) if sub is not None else None, e)
                x = e
                while isinstance(x, (ast.Subscript, ast.Attribute)):
                    if isinstance(x, ast.Subscript):
                        self.expr(x.slice, env, have)
                    x = x.value
                return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            names = set()
            for g in e.generators:
                self.expr(g.iter, env, have | names)
                names |= set(target_names(g.target))
            for g in e.generators:
                for c in g.ifs:
                    self.expr(c, env, have | names)
            for p in [e.elt] if hasattr(e, "elt") else [e.key, e.value]:
                self.expr(p, env, have | names)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env, have)
            elif isinstance(c, ast.Slice):
                for p in (c.lower, c.upper, c.step):
                    self.expr(p, env, have)

    def callee(self, fd, call):
        """a function of the module that writes one of its array parameters"""
        ps = [a.arg for a in fd.args.args]
        written = set()
        for n in ast.walk(fd):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                nm, _ = self.base(n)
                if nm in ps:
                    written.add(nm)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                nm, _ = self.base(n.func.value)
                if nm in ps:
                    written.add(nm)
        for p, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            if p in written:
                nm, _ = self.base(a)
                if nm is not None and nm not in self.private:
                    self.touch(nm, True, None, call)

    # -------------------------------------------------- statements
    def store(self, t, value, env, have):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            fs = [self.form(v, env) if v is not None else None for v in vs]
            for x, f in zip(t.elts, fs):
                if isinstance(x, ast.Name):
                    have.add(x.id)
                    env[x.id] = f
                else:
                    self.store(x, None, env, have)
            return
        if isinstance(t, ast.Name):
            f = self.form(value, env) if value is not None else None
            have.add(t.id)
            env[t.id] = f
            return
        if isinstance(t, ast.Starred):
            return self.store(t.value, None, env, have)
        nm, sub = self.base(t)
        if nm is not None:
            if nm in self.private and nm in have:
                pass
            elif nm in self.private:
                self.say(t, f"{nm} is written before the iteration assigns it")
            else:
                self.touch(nm, True, self.dims(sub.slice, env) if sub is not None else None, t)
        x = t
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            if isinstance(x, ast.Subscript):
                self.expr(x.slice, env, have)
            x = x.value

    def block(self, stmts, env, have):
        """False when control does not reach the end"""
        for s in stmts:
            if not self.stmt(s, env, have):
                return False
        return True

    def join(self, branches, env, have):
        live = [(e, h) for e, h, ok in branches if ok]
        if not live:
            return False
        hs = set.intersection(*(h for _, h in live))
        have.clear()
        have |= hs
        for k in set().union(*(set(e) for e, _ in live)):
            vs = [e.get(k) for e, _ in live]
            env[k] = vs[0] if all(v == vs[0] for v in vs) else None
        return True

    def stmt(self, s, env, have):
        if isinstance(s, ast.Assign):
            self.expr(s.value, env, have)
            for t in s.targets:
                self.store(t, s.value, env, have)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, env, have)
                self.store(s.target, s.value, env, have)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, env, have)
            if isinstance(s.target, ast.Name):
                if s.target.id not in have and s.target.id not in self.inner:
                    self.say(s, f"{s.target.id} is accumulated over the iterations")
                f = self.form(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), env) if s.target.id in env else None
                env[s.target.id] = f
                have.add(s.target.id)
            else:
                nm, sub = self.base(s.target)
                if nm is not None and nm not in self.private:
                    self.touch(nm, False, self.dims(sub.slice, env) if sub is not None else None, s)
                self.store(s.target, None, env, have)
        elif isinstance(s, ast.If):
            self.expr(s.test, env, have)
            e1, h1, e2, h2 = dict(env), set(have), dict(env), set(have)
            a, b = self.block(s.body, e1, h1), self.block(s.orelse, e2, h2)
            return self.join([(e1, h1, a), (e2, h2, b)], env, have)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, env, have)
            else:
                self.expr(s.test, env, have)
            e1, h1 = dict(env), set(have)
            for n in assigned(s.body):
                e1[n] = None
            if isinstance(s, ast.For):
                for n in target_names(s.target):
                    h1.add(n)
                    e1[n] = None
            self.block(s.body, e1, h1)
            for n in assigned(s.body) | (set(target_names(s.target)) if isinstance(s, ast.For) else set()):
                env[n] = None
            self.block(s.orelse, env, have)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, env, have)
            return self.block(s.body, env, have)
        elif isinstance(s, ast.Try):
            self.block(s.body, env, have)
            for h in s.handlers:
                self.block(h.body, dict(env), set(have))
            return self.block(s.finalbody, env, have)
        elif isinstance(s, ast.Return):
            self.say(s, "the loop is left by a return")
            return False
        elif isinstance(s, ast.Continue):
            return False
        elif isinstance(s, ast.Break):
            return False
        elif isinstance(s, ast.Raise):
            return False
        elif isinstance(s, ast.Assert):
            self.expr(s.test, env, have)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, env, have)
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            self.say(s, f"{', '.join(s.names)} is shared between the iterations")
        return True

    def run(self):
        self.expr(self.loop.iter.args[-1] if isinstance(self.loop.iter, ast.Call) and self.loop.iter.args else None, {}, set(self.private))
        self.access = {}
        env = {self.index: Affine({"i": 1})} if self.index else {}
        self.block(self.loop.body, env, set(target_names(self.loop.target)))
        for n in breaks(self.loop.body):
            self.say(n, "the loop is left by a break")
        for a, acc in self.access.items():
            if not any(w for w, _, _ in acc):
                continue
            width = min((len(d) for _, d, _ in acc if d is not None), default=0)
            good = False
            if all(d is not None for _, d, _ in acc):
                for k in range(width):
                    fs = [d[k] for _, d, _ in acc]
                    if all(f is not None for f in fs) and all(f == fs[0] for f in fs) and slope(fs[0]):
                        good = True
            if not good:
                w = next(n for is_w, _, n in acc if is_w)
                culprit = next((n for _, d, n in acc if d is None or not any(f is not None and slope(f) for f in d)), None)
                if culprit is None:
                    culprit = next((n for _, d, n in acc if d != acc[0][1]), w)
                self.say(culprit, f"iterations write {a} where other iterations read or write it ({ast.unparse(w)[:60]} / {ast.unparse(culprit)[:60]})")
        # values of the last iteration
        after, seen = [], False
        body = enclosing(self.fn, self.loop)
        for s in body:
            if s is self.loop:
                seen = True
            elif seen:
                after.append(s)
        dead = set()
        for s in after:
            for n in sorted(reads_before_writes(s, dead)):
                if n in assigned(self.loop.body):
                    self.say(s, f"{n} keeps a value of some iteration and is used after the loop")
            dead |= assigned([s])
        return self.found


def slope(f):
    return f[0].slope if isinstance(f, tuple) else f.slope


def breaks(stmts):
    for s in stmts:
        if isinstance(s, ast.Break):
            yield s
        elif isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            for f in ("body", "orelse", "finalbody"):
                yield from breaks(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []):
                yield from breaks(h.body)


def reads_before_writes(s, dead):
    if isinstance(s, (ast.For, ast.While)):
        own = set(target_names(s.target)) if isinstance(s, ast.For) else set()
        d, out = set(dead) | own, set()
        for n in ast.walk(s.iter if isinstance(s, ast.For) else s.test):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in dead:
                out.add(n.id)
        for b in s.body:
            out |= reads_before_writes(b, d)
            d |= assigned([b])
        return out
    if isinstance(s, ast.If):
        out = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and n.id not in dead}
        for blk in (s.body, s.orelse):
            d = set(dead)
            for b in blk:
                out |= reads_before_writes(b, d)
                d |= assigned([b])
        return out
    out = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in dead}
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id not in dead:
        out.add(s.target.id)
    return out


def enclosing(fn, loop):
    """statement list that contains the loop"""
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and loop in b:
                return b
    return []


def aliases(fn):
    """name -> array it is another name or view of"""
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            while isinstance(v, (ast.Subscript, ast.Attribute, ast.Call)):
                if isinstance(v, ast.Subscript):
                    parts = v.slice.elts if isinstance(v.slice, ast.Tuple) else [v.slice]
                    if not any(isinstance(p, ast.Slice) for p in parts):
                        v = None
                        break
                    v = v.value
                elif isinstance(v, ast.Attribute):
                    if v.attr != "T":
                        v = None
                        break
                    v = v.value
                else:
                    f = v.func
                    if isinstance(f, ast.Attribute) and f.attr in ("ravel", "reshape", "view", "transpose"):
                        v = f.value
                    elif isinstance(f, ast.Attribute) and f.attr in ("asarray", "ravel", "atleast_1d", "ascontiguousarray") and v.args:
                        v = v.args[0]
                    else:
                        v = None
                        break
            if isinstance(v, ast.Name) and v.id != n.targets[0].id:
                out.setdefault(n.targets[0].id, v.id)
    return out


def special(mod, fn):
    """constructs that produce or compare infinities or NaN"""
    for n in ast.walk(fn):
        if n in fn.decorator_list:
            continue
        q = mod.dotted(n) if isinstance(n, (ast.Attribute, ast.Name)) else None
        if q in SPECIAL or q in TESTS:
            yield n, q
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "float" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            if n.args[0].value.strip("+- ").lower() in ("inf", "nan", "infinity"):
                yield n, ast.unparse(n)
        v = n
        if isinstance(n, ast.Name) and n.id in mod.consts:
            v = mod.consts[n.id]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "float" and v.args and isinstance(v.args[0], ast.Constant) and str(v.args[0].value).strip("+- ").lower() in ("inf", "nan", "infinity"):
                yield n, ast.unparse(v)
        if isinstance(v, ast.Constant) and isinstance(v.value, float) and (v.value in (float("inf"), float("-inf")) or v.value != v.value):
            yield n, "an overflowing literal"


def compiled(mod):
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                r = mod.options(d)
                if r is not None:
                    yield n, r[1]
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):  # f = njit(...)(g)
            r = mod.options(n.value)
            for a in n.value.args:
                if r is not None and isinstance(a, ast.Name) and a.id in mod.defs:
                    yield mod.defs[a.id], r[1]


def modules():
    base = os.path.join(kit.REPO, "py_fatigue")
    for dp, dn, fn in sorted(os.walk(base)):
        dn[:] = sorted(d for d in dn if not d.startswith((".", "__")))
        for f in sorted(fn):
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                yield Module(p, os.path.relpath(p, kit.REPO))


def run(K):
    for mod in modules():
        for fn, opts in compiled(mod):
            where = (mod.rel, fn.lineno, fn.name, "")
            with K.ob(f"{mod.rel}:{fn.name}.float", f"{fn.name}: floating point rules") as o:
                bad = list(special(mod, fn)) if relaxed(opts) else []
                for n, q in bad:
                    o.bad(f"relaxed rules with {q}", f"compiled with relaxed floating point rules although it uses {q}", (mod.rel, n.lineno, fn.name, ""))
                o.ok("examined", True)
            if not opts.get("parallel"):
                continue
            loops = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and mod.dotted(n.iter.func) in PRANGE]
            for k, loop in enumerate(loops):
                with K.ob(f"{mod.rel}:{fn.name}.loop{k}", f"{fn.name}: parallel loop {k}") as o:
                    for line, what in sorted(set(Loop(mod, fn, loop, aliases(fn)).run())):
                        o.bad(what.split(" (")[0], what, (mod.rel, line, fn.name, ""))
                    o.ok("examined", True)
