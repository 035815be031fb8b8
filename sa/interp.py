"""Abstract interpreter: turns Python source into gated value graphs (terms) plus an effect log.

Every function is analysed once per call context; at every join the two abstract states are merged into one, loops are summarised
(closed forms for maps, filters, folds; a fold node otherwise).  Nothing of the analysed program is imported or executed.
"""
from __future__ import annotations

import ast
import os

import terms as X
from terms import FALSE, NONE, ONE, TRUE, UNBOUND, ZERO, T, TooBig, band, bnot, bor, const, cval, is_num, is_str, select

MAXUNROLL = 40



class Dead(Exception):
    """no execution continues here"""


class Abort(Exception):
    """analysis gives up"""


class Cell:
    __slots__ = ("kind", "content", "fields", "cls", "origin", "base", "pytype", "meta")

    def __init__(self, kind, content=None, fields=None, cls=None, origin=None, base=None, pytype=None, meta=None):
        self.kind, self.content, self.fields, self.cls = kind, content, fields, cls
        self.origin, self.base, self.pytype, self.meta = origin, base, pytype, meta

    def copy(self):
        return Cell(self.kind, self.content, dict(self.fields) if self.fields is not None else None, self.cls, self.origin, self.base, self.pytype, self.meta)


class Func:
    def __init__(self, name, node, module, closure, cls=None):
        self.name, self.node, self.module, self.closure, self.cls = name, node, module, closure, cls
        self.defaults = {}
        self.deco = []
        self.qual = f"{module.name}.{cls.name + '.' if cls else ''}{name}" if module else name

    def __repr__(self):
        return f"<fn {self.qual}>"


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.ns = {}
        self.ann = []  # (name, annotation ast)
        self.dc = None  # None | 'dataclass' | 'pydantic'
        self.dcopts = {}
        self.ext_bases = []
        self.validators = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def fields(self):
        """dataclass fields in order: (name, default term or None, owner)"""
        out = {}
        for c in reversed(self.mro()):
            if c.dc or c is self or any(x.dc for x in self.mro()):
                for n, a in c.ann:
                    out[n] = (n, c.ns.get(n), c, a)
        return list(out.values())

    def __repr__(self):
        return f"<cls {self.name}>"


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}
        self.tree = None
        self.done = False


class State:
    __slots__ = ("env", "heap", "pc", "stack")

    def __init__(self, env, heap, pc, stack):
        self.env, self.heap, self.pc, self.stack = env, heap, pc, stack

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, list(self.stack))

    def assign(self, o):
        self.env, self.heap, self.pc, self.stack = o.env, o.heap, o.pc, o.stack


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.returns = []
        self.loops = []
        self.gen = None
        self.globals_ = set()


class LoopInfo:
    pass


def objterm(op, obj, sort):
    return X._mk(op, (obj,), sort, X._H(op, getattr(obj, "qual", getattr(obj, "name", repr(obj))), id(obj) if not hasattr(obj, "qual") else 0))


class Interp:
    def __init__(self, root="/repo", package="py_fatigue"):
        self.root = root
        self.package = package
        self.modules = {}
        self.nid = 0
        self.frames = []
        self.events = []
        self.handlers = []
        self.loops = []
        self.callstack = []
        self.calls = []
        self.depth = 0
        self.base_heap = {}
        self.feas = {}
        self.external_hook = None
        self.quiet = 0
        self.overrides = {}
        self.extover = {}  # library function -> function of a model
        self.stored = {}
        self.curnode = None
        self.curmod = None
        self.loading = False
        self.assumed = TRUE
        self.nocall = set()
        self.sites = {}

    # ------------------------------------------------------------ bookkeeping
    def where(self, node=None):
        node = node if node is not None else self.curnode
        fr = self.frames[-1] if self.frames else None
        mod = fr.fn.module if fr and fr.fn and fr.fn.module else self.curmod
        path = os.path.relpath(mod.path, self.root) if mod else "?"
        fn = fr.fn.qual if fr and fr.fn else "<module>"
        return (path, getattr(node, "lineno", 0), fn)

    def event(self, kind, st, node=None, **kw):
        if self.quiet:
            return
        path, line, fn = self.where(node)
        self.events.append(dict(kind=kind, file=path, line=line, func=fn, pc=st.pc if st is not None else TRUE, stack=tuple(f.fn.qual for f in self.frames if f.fn), **kw))

    def newid(self):
        self.nid += 1
        return self.nid

    def ref(self, i):
        return X._mk("ref", (i,), "ref", X._H("ref", i))

    def new(self, st, kind, content=None, **kw):
        i = self.newid()
        st.heap[i] = Cell(kind, content, **kw)
        if kind in ("obj", "dict", "df") and self.frames:
            self.sites[i] = self.where()
        return self.ref(i)

    def cell(self, st, r):
        c = st.heap.get(r.args[0])
        return c if c is not None else self.base_heap[r.args[0]]

    def setcell(self, st, r, **kw):
        c = self.cell(st, r).copy()
        for k, v in kw.items():
            setattr(c, k, v)
        st.heap[r.args[0]] = c

    def newlist(self, st, items):
        return self.new(st, "list", X.seq(items), pytype="list")

    def arr(self, st, content, pytype="ndarray", base=None):
        """array value -> fresh ndarray cell; scalars are returned as they are"""
        if content.op == "ite" and not X.is_arr(content):
            if any(X.is_arr(l) for l in X.leaves(content)):
                v = content.args[0]
                return X.select(X.atom(v), self.arr(st, content.args[1], pytype, base), self.arr(st, content.args[2], pytype, base))
            return content
        if X.is_arr(content):
            return self.new(st, "arr", content, pytype=pytype, base=base)
        if content.unk and content.op == "uf":
            return content
        return content

    # ------------------------------------------------------------ values
    def deep(self, t, st):
        """replace references to arrays/lists by their contents"""
        memo = {}

        def go(x):
            if x.op == "ref":
                c = st.heap.get(x.args[0])
                if c is None:
                    return x
                if c.kind in ("arr", "list", "set"):
                    return go(c.content)
                if c.kind == "obj" and c.cls is not None and c.cls.name == "__accum__":
                    return x
                return x
            if x.op in ("const", "sym", "var", "bv", "nan", "inf", "func", "cls", "ext", "module", "unbound", "bot"):
                return x
            if not self._hasref(x):
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "tup":
                    r = X.tup([go(a) for a in x.args])
                elif x.op == "seq":
                    r = X.seq([go(a) for a in x.args])
                elif x.op == "ite":
                    a, h, l = x.args
                    r = select(X.atom(a), go(h), go(l))
                else:
                    r = X.rebuild(x, go)
                memo[x] = r
            return r

        return go(t)

    _hr: dict = {}

    def _hasref(self, x):
        r = self._hr.get(x)
        if r is None:
            r = x.op == "ref" or any(self._hasref(a) for a in X._children(x))
            self._hr[x] = r
        return r

    def refs_in(self, x):
        if x.op == "ref":
            yield x
        elif self._hasref(x):
            for a in X._children(x):
                yield from self.refs_in(a)

    def freeze(self, t, st, depth=0):
        """value with objects replaced by records, for comparison"""
        memo = {}

        def go(x, d):
            if x.op == "ref":
                c = st.heap.get(x.args[0])
                if c is None:
                    return x
                if c.kind in ("arr", "list", "set"):
                    return go(c.content, d)
                if d > 4:
                    return x
                if c.kind in ("obj", "df"):
                    its = [X.uf("field:" + k, [go(v, d + 1)]) for k, v in sorted(c.fields.items()) if isinstance(v, T)]
                    return X.uf("struct:" + (c.cls.name if c.cls else c.kind), its, "any")
                if c.kind == "dict":
                    its = [X.uf("item", [k, p, go(v, d + 1)]) for k, (p, v) in c.fields.items()]
                    return X.uf("dict", its, "any")
                return x
            if not self._hasref(x):
                return x
            if x.op == "tup":
                return X.tup([go(a, d) for a in x.args])
            if x.op == "seq":
                return X.seq([go(a, d) for a in x.args])
            if x.op == "ite":
                return select(X.atom(x.args[0]), go(x.args[1], d), go(x.args[2], d))
            return X.rebuild(x, lambda y: go(y, d))

        return go(t, depth)

    def truthv(self, t, st):
        t = X.constrain(t, st.pc)
        if t.op == "ite":
            v = t.args[0]
            return select(X.atom(v), self.truthv(t.args[1], st), self.truthv(t.args[2], st))
        if t.op == "ref":
            c = self.cell(st, t)
            if c.kind in ("list", "arr", "set"):
                if c.kind == "arr":
                    ct = c.content
                    l = X.length(ct)
                    if l is ONE:
                        return X.truth(X.elem(ct, ZERO))
                n = X.length(self.deep(t, st))
                return X.lift("truth", X.truth, n)
            if c.kind == "dict":
                return X.bany(p for p, _ in c.fields.values())
            return TRUE
        return X.truth(t)

    def feasible(self, pc):
        if pc is FALSE:
            return False
        if pc is TRUE:
            return True
        r = self.feas.get(pc)
        if r is None:
            cnt = [0]

            def go(x, path):
                cnt[0] += 1
                if cnt[0] > 3000:
                    return True
                if x is TRUE:
                    return True
                if x is FALSE:
                    return False
                if x.op != "ite":
                    return True
                for side in (1, 0):
                    y = x.args[1] if side else x.args[2]
                    if y is FALSE:
                        continue
                    p = path + [(x.args[0], side)]
                    if X.consistent(p) and go(y, p):
                        return True
                return False

            r = go(pc, [])
            self.feas[pc] = r
        return r

    # ------------------------------------------------------------ state merging
    def merge2(self, s1, s2, c):
        """merge s2 into s1 in place; c: condition (relative) under which s1 holds"""
        env = s1.env
        if env is not s2.env:
            names = list(dict.fromkeys(list(env) + list(s2.env)))
            ne = {}
            for n in names:
                a = env.get(n, UNBOUND)
                b = s2.env.get(n, UNBOUND)
                ne[n] = a if a is b else select(c, a, b)
            s1.env = ne
        h1, h2 = s1.heap, s2.heap
        if h1 is not h2:
            nh = dict(h1)
            for i, c2 in h2.items():
                c1 = h1.get(i)
                if c1 is None:
                    nh[i] = c2
                elif c1 is not c2:
                    nh[i] = self.mergecell(c1, c2, c)
            s1.heap = nh
        s1.pc = bor(s1.pc, s2.pc)
        return s1

    def mergecell(self, c1, c2, c):
        n = c1.copy()
        if c1.content is not c2.content and c1.content is not None and c2.content is not None:
            n.content = select(c, c1.content, c2.content)
        if c1.fields is not None and c2.fields is not None:
            f = {}
            for k in dict.fromkeys(list(c1.fields) + list(c2.fields)):
                a, b = c1.fields.get(k), c2.fields.get(k)
                if c1.kind in ("dict", "df") and (isinstance(a, tuple) or isinstance(b, tuple)):
                    a = a or (FALSE, UNBOUND)
                    b = b or (FALSE, UNBOUND)
                    if a == b:
                        f[k] = a
                    else:
                        pa = select(c, a[0], b[0])
                        va = b[1] if a[0] is FALSE else a[1] if b[0] is FALSE else select(c, a[1], b[1])
                        f[k] = (pa, va)
                else:
                    a = UNBOUND if a is None else a
                    b = UNBOUND if b is None else b
                    f[k] = a if a is b else select(c, a, b)
            n.fields = f
        if c1.meta is not c2.meta and isinstance(c1.meta, dict) and isinstance(c2.meta, dict):
            n.meta = {**c2.meta, **c1.meta}
        return n

    def merge_all(self, states):
        """merge disjoint states"""
        acc = states[-1].copy()
        for s in reversed(states[:-1]):
            tot = bor(s.pc, acc.pc)
            c = X.constrain(s.pc, tot)
            m = s.copy()
            self.merge2(m, acc, c)
            acc = m
        return acc

    def cond(self, c, st):
        """simplify a condition under the path condition; detects contradictions"""
        c = X.constrain(c, st.pc)
        if c in (TRUE, FALSE) or c.op != "ite":
            return c
        p1 = band(st.pc, c)
        if not self.feasible(p1):
            return FALSE
        if not self.feasible(band(st.pc, bnot(c))):
            return TRUE
        return c

    def fork(self, st, c, f1, f2):
        """evaluate f1 under c and f2 otherwise; merge states; returns merged value"""
        c = self.cond(c, st)
        if c is X.BOT:
            c = X.atom(X.uf("?bot", [], "bool", True))
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        if c.op != "ite":
            c = X.truth(c)
        s1, s2 = st.copy(), st.copy()
        s1.pc = band(st.pc, c)
        s2.pc = band(st.pc, bnot(c))
        v1 = v2 = None
        try:
            v1 = f1(s1)
        except Dead:
            s1 = None
        try:
            v2 = f2(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            st.pc = FALSE
            raise Dead
        if s1 is None:
            st.assign(s2)
            return v2
        if s2 is None:
            st.assign(s1)
            return v1
        cc = X.constrain(s1.pc, bor(s1.pc, s2.pc))
        self.merge2(s1, s2, cc)
        st.assign(s1)
        if v1 is None and v2 is None:
            return None
        v1 = NONE if v1 is None else v1
        v2 = NONE if v2 is None else v2
        return select(cc, v1, v2)

    def on_leaves(self, t, st, f):
        t = X.constrain(t, st.pc)
        if t.op == "ite":
            return self.fork(st, X.atom(t.args[0]), lambda s: self.on_leaves(t.args[1], s, f), lambda s: self.on_leaves(t.args[2], s, f))
        return f(t, st)

    # ------------------------------------------------------------ exceptions
    def do_raise(self, st, c, exc, node=None, val=None):
        """raise `exc` (name) when c holds; continue otherwise"""
        c = self.cond(c, st)
        if c is FALSE:
            return
        pc = band(st.pc, c)
        if self.handlers:
            h = self.handlers[-1]
            s = st.copy()
            s.pc = pc
            h.append((pc, exc, s, self.where(node), val))
        else:
            self.event("raise", st, node, exc=exc, cond=pc, val=val)
            if not self.quiet:
                self.events[-1]["pc"] = pc
                self.events[-1]["heap"] = st.heap
        st.pc = band(st.pc, bnot(c))
        if st.pc is FALSE or not self.feasible(st.pc):
            st.pc = FALSE
            raise Dead

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel, "__init__.py")
        if not os.path.exists(p):
            p = os.path.join(self.root, rel + ".py")
        if not os.path.exists(p):
            return None
        m = Module(name, p)
        self.modules[name] = m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        with open(p) as f:
            m.tree = ast.parse(f.read(), p)
        st = State(m.env, self.base_heap, TRUE, [])
        m.env["__name__"] = const(name)
        m.env["__file__"] = const(p)
        prev = self.curmod
        self.curmod = m
        fr = Frame(None)
        self.frames.append(fr)
        self.quiet += 1
        hs, self.handlers = self.handlers, []
        try:
            for s in m.tree.body:
                try:
                    self.exec(s, st)
                except Dead:
                    st.pc = TRUE
                st.pc = TRUE
        finally:
            self.frames.pop()
            self.quiet -= 1
            self.curmod = prev
            self.handlers = hs
        m.env = st.env
        self.base_heap = {**self.base_heap, **st.heap}
        if "." in name and parent is not None:
            parent.env.setdefault(name.rsplit(".", 1)[1], objterm("module", m, "module"))
        m.done = True
        return m

    def load_all(self):
        base = os.path.join(self.root, self.package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if not d.startswith((".", "__")))
            for f in sorted(fn):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace("/", ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.load(rel)
        for i, c in self.base_heap.items():
            if c.origin is None:
                c.origin = "global"

    def lookup(self, dotted):
        """module attribute term such as 'py_fatigue.cycle_count.cycle_count:CycleCount'"""
        mod, _, attr = dotted.partition(":")
        m = self.load(mod)
        if m is None:
            return None
        t = m.env.get(attr.split(".")[0])
        if t is None:
            return None
        for a in attr.split(".")[1:]:
            if t.op == "cls":
                t, _o = t.args[0].lookup(a)
            else:
                return None
            if t is None:
                return None
        return t

    def state(self):
        return State({}, dict(self.base_heap), self.assumed, [])

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            self.exec(s, st)

    def exec(self, s, st):
        self.curnode = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Abort(f"statement {type(s).__name__}")
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value, st)
            return
        self.eval(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        self.frames[-1].globals_ |= set(s.names)

    def s_Nonlocal(self, s, st):
        pass

    def s_Assert(self, s, st):
        c = self.truthv(self.eval(s.test, st), st)
        self.do_raise(st, bnot(c), "AssertionError", s)

    def s_Import(self, s, st):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                m = self.load(a.name)
                top = self.load(a.name.split(".")[0])
                st.env[a.asname or a.name.split(".")[0]] = objterm("module", m if a.asname else top, "module")
            else:
                st.env[a.asname or a.name.split(".")[0]] = self.ext(a.name if a.asname else a.name.split(".")[0])

    def ext(self, name):
        return X._mk("ext", (name,), "ext", X._H("ext", name))

    def s_ImportFrom(self, s, st):
        if s.module == "__future__":
            return
        base = s.module or ""
        if s.level:
            cur = self.curmod if self.frames and self.frames[-1].fn is None else self.frames[-1].fn.module
            parts = cur.name.split(".")
            ispkg = cur.path.endswith("__init__.py")
            keep = len(parts) - s.level + (1 if ispkg else 0)
            base = ".".join(parts[:keep] + ([base] if base else []))
        for a in s.names:
            n = a.asname or a.name
            if base.split(".")[0] == self.package:
                m = self.load(base)
                if a.name == "*":
                    if m:
                        for k, v in m.env.items():
                            if not k.startswith("_"):
                                st.env[k] = v
                    continue
                if m is not None and a.name in m.env:
                    st.env[n] = m.env[a.name]
                else:
                    sm = self.load(base + "." + a.name)
                    if sm is not None:
                        st.env[n] = objterm("module", sm, "module")
                    else:
                        st.env[n] = X._mk("lazy", (base, a.name), "lazy", X._H("lazy", base, a.name))
            else:
                st.env[n] = self.ext(base + "." + a.name)

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        mod = fr.fn.module if fr.fn else self.curmod
        f = Func(s.name, s, mod, dict(st.env) if fr.fn else None, getattr(self, "curcls", None) if not fr.fn else None)
        if fr.fn:
            f.qual = fr.fn.qual + ".<locals>." + s.name
            f.cls = fr.fn.cls
        self.bind_defaults(f, s.args, st)
        t = objterm("func", f, "func")
        for d in reversed(s.decorator_list):
            t = self.apply_deco(d, t, st)
        st.env[s.name] = t
        if f.closure is not None:
            f.closure[s.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def bind_defaults(self, f, a, st):
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[p.arg] = self.eval(d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[p.arg] = self.eval(d, st)

    def apply_deco(self, d, t, st):
        dv = self.eval(d, st)
        name = dv.args[0] if dv.op == "ext" else None
        if t.op == "func":
            t.args[0].deco.append((dv, d))
        if dv.op == "ext" or (dv.op == "uf" and str(dv.args[0]).startswith("?ext")):
            name = dv.args[0] if dv.op == "ext" else dv.args[0][5:]
            if name in ("builtins.property", "property", "functools.cached_property"):
                return X._mk("prop", (t, None), "prop", X._H("prop", id(t)))
            if name in ("builtins.staticmethod", "staticmethod"):
                return X._mk("static", (t,), "static", X._H("static", id(t)))
            if name in ("builtins.classmethod", "classmethod"):
                return X._mk("clsm", (t,), "clsm", X._H("clsm", id(t)))
            if name in ("functools.cache", "functools.lru_cache") and t.op == "func":
                t.args[0].memo = True
            return t
        if dv.op == "meth":
            return t
        if dv.op == "propset":
            return X._mk("prop", (dv.args[0].args[0], t), "prop", X._H("prop", id(t), 1))
        if dv.op == "decomark":
            return X._mk("marked", (dv.args[0], t) + dv.args[1:], "marked", X._H("marked", id(t), dv.args[0]))
        if dv.unk or dv.op == "uf":
            return t
        r = self.call(dv, [t], {}, st, d)
        if r.unk:
            return t
        return r

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        mod = fr.fn.module if fr.fn else self.curmod
        c = Cls(s.name, mod, s)
        for b in s.bases:
            bt = self.eval(b, st)
            if bt.op == "cls":
                c.bases.append(bt.args[0])
            elif bt.op == "ext":
                c.ext_bases.append(bt.args[0])
        inner = st.copy()
        inner.env = dict(st.env) if fr.fn else dict(st.env)
        prev = getattr(self, "curcls", None)
        self.curcls = c
        names0 = dict(inner.env)
        try:
            for b in s.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    c.ann.append((b.target.id, b.annotation))
                    if b.value is not None:
                        inner.env[b.target.id] = c.ns[b.target.id] = self.eval(b.value, inner)
                    continue
                before = inner.env.copy()
                self.exec(b, inner)
                for k, v in inner.env.items():
                    if before.get(k) is not v or (isinstance(b, (ast.FunctionDef,)) and b.name == k):
                        c.ns[k] = v
        finally:
            self.curcls = prev
        st.heap = inner.heap
        for k, v in c.ns.items():
            if v.op == "marked" and v.args[0] == "validator":
                c.validators.append((v.args[2], v.args[1], dict(v.args[3]) if len(v.args) > 3 else {}))
        t = objterm("cls", c, "class")
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            n = dv.args[0] if dv.op == "ext" else (dv.args[0][5:] if dv.op == "uf" and str(dv.args[0]).startswith("?ext") else "")
            if n.endswith("pydantic.dataclasses.dataclass"):
                c.dc = "pydantic"
            elif n.endswith("dataclasses.dataclass") or n.endswith(".dataclass"):
                c.dc = "dataclass"
                if isinstance(d, ast.Call):
                    c.dcopts = {k.arg: k.value for k in d.keywords}
            c.__dict__.setdefault("decos", []).append((n, d))
        if any(x.endswith("BaseModel") for x in c.ext_bases):
            c.dc = c.dc or "pydantic"
        st.env[s.name] = t

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.returns.append((st.pc, v, st.copy(), s))
        st.pc = FALSE
        raise Dead

    def s_Raise(self, s, st):
        name, val = "Exception", None
        if s.exc is None:
            name = getattr(self, "active_exc", None) or "Exception"
        else:
            v = self.eval(s.exc, st)
            name, val = self.exc_name(v, st), v
        self.do_raise(st, TRUE, name, s, val)

    def exc_name(self, v, st):
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "uf" and str(v.args[0]).startswith("exc:"):
            return v.args[0][4:]
        if v.op == "cls":
            return v.args[0].name
        if v.op == "ref":
            c = self.cell(st, v)
            if c.cls:
                return c.cls.name
        return "Exception"

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.del_item(o, k, st, s)
            elif isinstance(t, ast.Attribute):
                if self.frames[-1].fn is None:
                    continue
                o = self.eval(t.value, st)
                if o.op == "ref":
                    self.write(st, o, s, "del ." + t.attr)
                    c = self.cell(st, o)
                    f = dict(c.fields or {})
                    f.pop(t.attr, None)
                    self.setcell(st, o, fields=f)

    def del_item(self, o, k, st, node):
        if o.op == "ref":
            c = self.cell(st, o)
            self.write(st, o, node, "del [..]")
            if c.kind in ("dict", "df"):
                f = dict(c.fields)
                f.pop(k, None)
                self.setcell(st, o, fields=f)
                return
            if c.kind == "list":
                ct = c.content
                if ct.op == "seq" and is_num(k):
                    xs = list(ct.args)
                    del xs[int(cval(k))]
                    self.setcell(st, o, content=X.seq(xs))
                    return
                k = self.deep(k, st)
                slc = lambda a, b: self.slice_term(ct, X.node("slc", (a, b, NONE), "slc"))
                if ct.sort == "arr" and k.op == "slc" and k.args[2] is NONE and all(x is NONE or is_num(x) for x in k.args[:2]):
                    lo, hi = k.args[:2]
                    head = X.EMPTY if lo is NONE else slc(NONE, lo)
                    tail = X.EMPTY if hi is NONE else slc(hi, NONE)
                    self.setcell(st, o, content=X.mk_concat([head, tail]))
                    return
                if ct.sort == "arr" and k.sort == "num" and k.op != "ite":
                    nxt = NONE if is_num(k) and cval(k) == -1 else X.add(k, ONE)
                    self.setcell(st, o, content=X.mk_concat([slc(NONE, k), X.EMPTY if nxt is NONE else slc(nxt, NONE)]))
                    return
                self.setcell(st, o, content=X.unknown("del", ct, k))

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.store(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.store(s.target, self.eval(s.value, st), st, s)

    def s_NamedExpr(self, s, st):
        self.eval(s, st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            v = self.eval(s.value, st)
            if cur.op == "ref" and self.cell(st, cur).kind in ("arr", "list", "set"):
                c = self.cell(st, cur)
                # in-place operation on a mutable
                r = self.binop(s.op, cur, v, st, s, inplace=True)
                self.write(st, cur, s, "in-place operator")
                nc = self.deep(r, st) if c.kind == "arr" else self.cell(st, r).content if r.op == "ref" else r
                self.put_content(st, cur, nc)
                return
            if cur.op == "ite" and any(l.op == "ref" for l in X.leaves(cur)):
                def one(leaf, stt):
                    if leaf.op == "ref" and self.cell(stt, leaf).kind in ("arr", "list", "set"):
                        r = self.binop(s.op, leaf, v, stt, s, inplace=True)
                        self.write(stt, leaf, s, "in-place operator")
                        self.put_content(stt, leaf, self.deep(r, stt))
                        return leaf
                    return self.binop(s.op, leaf, v, stt, s)
                st.env[t.id] = self.on_leaves(cur, st, one)
                return
            r = self.binop(s.op, cur, v, st, s)
            self.store(t, r, st, s)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(o, self.mangle(t.attr), st, t)
            v = self.eval(s.value, st)
            if cur.op == "ref" and self.cell(st, cur).kind in ("arr", "list"):
                r = self.binop(s.op, cur, v, st, s, inplace=True)
                self.write(st, cur, s, "in-place operator")
                self.put_content(st, cur, self.deep(r, st))
                return
            r = self.binop(s.op, cur, v, st, s)
            self.setattr(o, self.mangle(t.attr), r, st, s)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            kd = self.deep(k, st)
            v = self.eval(s.value, st)
            if o.op == "ref" and self.cell(st, o).kind == "arr":
                m = self.mask_of(kd)
                vd = self.deep(v, st)
                if m is not None and not X.is_arr(vd):
                    c = self.cell(st, o)
                    new = self.opterm(s.op, c.content, vd)
                    self.write(st, o, s, "masked in-place operator")
                    self.put_content(st, o, X.ew("where", self._where, m, new, c.content))
                    return
            cur = self.getitem(o, k, st, s)
            r = self.binop(s.op, cur, v, st, s)
            self.setitem(o, k, r, st, s)
            return
        raise Abort("augassign target")

    @staticmethod
    def _where(m, a, b):
        return select(X.truth(m), a, b)

    def mask_of(self, k):
        """boolean mask behind an index term, or None"""
        if k.op == "uf" and k.args[0] == "where":
            return k.args[1]
        if k.op == "tup" and len(k.args) == 1:
            return self.mask_of(k.args[0])
        if k.op == "lam":
            b = k.args[1]
            if b.sort == "bool" or all(l in (TRUE, FALSE) for l in X.leaves(b)):
                return k
        if k.op in ("filt", "concat", "slice", "store", "fold") and self.is_bool_arr(k):
            return k
        if k.op == "ite":
            ms = [self.mask_of(k.args[1]), self.mask_of(k.args[2])]
            if all(m is not None for m in ms):
                return select(X.atom(k.args[0]), ms[0], ms[1])
        if k.op == "seq" and k.args and all(l in (TRUE, FALSE) for a in k.args for l in X.leaves(a)):
            return k
        if k.op in ("sym",) and X.SYM.get(k, {}).get("elem") == "bool":
            return k
        return None

    def is_bool_arr(self, t):
        if t.op == "lam":
            return t.args[1].sort == "bool" or all(l in (TRUE, FALSE) for l in X.leaves(t.args[1]))
        if t.op in ("filt", "slice"):
            return self.is_bool_arr(t.args[0])
        if t.op == "concat":
            return all(self.is_bool_arr(p) for p in t.args)
        if t.op == "seq":
            return bool(t.args) and all(l.sort == "bool" or l in (TRUE, FALSE) for a in t.args for l in X.leaves(a))
        if t.op == "store":
            return self.is_bool_arr(t.args[0]) and all(l.sort == "bool" or l in (TRUE, FALSE) for l in X.leaves(t.args[2]))
        if t.op == "ite":
            return self.is_bool_arr(t.args[1]) and self.is_bool_arr(t.args[2])
        if t.op == "sym":
            return X.SYM.get(t, {}).get("elem") == "bool"
        if t.op == "fold" and t.args[4].op == "tup" and X.is_arr(t.args[4].args[0]):
            return self.is_bool_arr(t.args[4].args[0])
        return False

    def store(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals_:
                self.event("global-write", st, node, what=t.id)
                fr.fn.module.env[t.id] = v
                return
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, self.mangle(t.attr), v, st, node)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            self.setitem(o, k, v, st, node)
            return
        if isinstance(t, ast.Starred):
            self.store(t.value, v, st, node)
            return
        raise Abort("store target")

    def unpack(self, elts, v, st, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vd = v
        if v.op == "ref":
            vd = self.cell(st, v).content if self.cell(st, v).kind in ("list", "arr", "set") else v
        if v.op == "ite":
            vv = v
            if any(l.op == "ref" for l in X.leaves(v)):
                vv = self.deep(v, st)
            n = len(elts)
            if not star:
                for i, e in enumerate(elts):
                    self.store(e, X.lift(f"unp{i}", lambda l, i=i: self._elt(l, i, n), vv), st, node)
                return
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if vd.op in ("tup", "seq"):
                xs = list(vd.args)
                for e, x in zip(elts[:i], xs[:i]):
                    self.store(e, x, st, node)
                self.store(elts[i].value, self.newlist(st, xs[i:len(xs) - after]), st, node)
                for e, x in zip(elts[i + 1:], xs[len(xs) - after:]):
                    self.store(e, x, st, node)
                return
            n = X.length(vd)
            for j, e in enumerate(elts[:i]):
                self.store(e, X.elem(vd, const(j)), st, node)
            self.store(elts[i].value, self.new(st, "list", X.mk_slice(vd, const(i), X.sub(n, const(len(elts) - 1))), pytype="list"), st, node)
            for j, e in enumerate(elts[i + 1:]):
                self.store(e, X.elem(vd, X.sub(n, const(after - j))), st, node)
            return
        if vd.op in ("tup", "seq"):
            if len(vd.args) != len(elts):
                self.do_raise(st, TRUE, "ValueError", node)
            for e, x in zip(elts, vd.args):
                self.store(e, x, st, node)
            return
        for i, e in enumerate(elts):
            self.store(e, self._elt(vd, i, len(elts)), st, node)

    def _elt(self, l, i, n):
        if l.op in ("tup", "seq"):
            return l.args[i] if i < len(l.args) else X.unknown("unpack", l)
        if l.sort == "arr" or l.op in ("lam", "cols"):
            return X.elem(l, const(i))
        if l.op == "uf" and l.sort in ("any", "num"):
            return X.uf("item", [l, const(i)], "any", l.unk)
        if l is X.BOT or l is UNBOUND:
            return l
        return X.uf("item", [l, const(i)], "any", l.unk)

    def s_If(self, s, st):
        c = self.truthv(self.eval(s.test, st), st)
        self.fork(st, c, lambda a: self.exec_block(s.body, a), lambda a: self.exec_block(s.orelse, a))

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, st, s)
        self.exec_block(s.body, st)

    EXC = {
        "KeyError": ("LookupError",), "IndexError": ("LookupError",), "LookupError": ("Exception",),
        "ZeroDivisionError": ("ArithmeticError",), "UnboundLocalError": ("NameError",), "ValidationError": ("ValueError",),
        "NotImplementedError": ("RuntimeError",), "UnicodeError": ("ValueError",), "ModuleNotFoundError": ("ImportError",),
    }

    def exc_match(self, exc, names):
        seen = [exc]
        while seen:
            e = seen.pop()
            if e in names:
                return True
            seen += list(self.EXC.get(e, ()))
        return "Exception" in names or "BaseException" in names

    def s_Try(self, s, st):
        caught = []
        self.handlers.append(caught)
        depth = len(st.stack)
        nfr = len(self.frames)
        normal = st.copy()
        # `raise` below may come from an inlined callee: remember the environment of this frame
        try:
            self.exec_block(s.body, normal)
            alive = True
        except Dead:
            alive = False
        self.handlers.pop()
        outs = []
        if alive:
            try:
                self.exec_block(s.orelse, normal)
                outs.append(normal)
            except Dead:
                pass
        for pc, exc, hs, where, val in caught:
            # environment of this frame when the exception was raised
            if len(hs.stack) > depth:
                hs.env = hs.stack[depth]
                hs.stack = hs.stack[:depth]
            done = False
            rest_pc = pc
            for h in s.handlers:
                names = None
                if h.type is not None:
                    tn = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(x).split(".")[-1] for x in tn]
                if names is None or self.exc_match(exc, names):
                    prev = getattr(self, "active_exc", None)
                    self.active_exc = exc
                    if h.name:
                        hs.env = dict(hs.env)
                        hs.env[h.name] = val if val is not None else X.uf("exc:" + exc, [], "any")
                    try:
                        self.exec_block(h.body, hs)
                        outs.append(hs)
                    except Dead:
                        pass
                    self.active_exc = prev
                    done = True
                    break
            if not done:
                if self.handlers:
                    self.handlers[-1].append((pc, exc, hs, where, val))
                elif not self.quiet:
                    self.events.append(dict(kind="raise", file=where[0], line=where[1], func=where[2], pc=pc, exc=exc, cond=pc, val=val, stack=(), heap=hs.heap))
        if not outs:
            st.pc = FALSE
            if s.finalbody:
                pass
            raise Dead
        m = self.merge_all(outs)
        st.assign(m)
        self.exec_block(s.finalbody, st)

    def s_Break(self, s, st):
        self.frames[-1].loops[-1]["brk"].append(st.copy())
        st.pc = FALSE
        raise Dead

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1]["cont"].append(st.copy())
        st.pc = FALSE
        raise Dead

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        self.for_over(s, it, st)

    def for_over(self, s, it, st):
        it = X.constrain(it, st.pc)
        if it.op == "ite":
            self.fork(st, X.atom(it.args[0]), lambda a: self.for_over(s, it.args[1], a), lambda a: self.for_over(s, it.args[2], a))
            return
        sq = self.iter_seq(it, st, s)
        if sq[0] == "fork":
            _, c, a_, b_ = sq
            self.fork(st, c, lambda q: self.for_over(s, a_, q), lambda q: self.for_over(s, b_, q))
            return
        if sq[0] == "finite":
            items = sq[1]
            if len(items) > MAXUNROLL:
                raise Abort("loop too long")
            brks = []
            dead = False
            for x in items:
                self.frames[-1].loops.append({"brk": [], "cont": []})
                try:
                    self.store(s.target, x, st, s)
                    self.exec_block(s.body, st)
                    alive = [st.copy()]
                except Dead:
                    alive = []
                l = self.frames[-1].loops.pop()
                brks += l["brk"]
                alive += l["cont"]
                if not alive:
                    dead = True
                    break
                st.assign(self.merge_all(alive))
            outs = list(brks)
            if not dead:
                try:
                    self.exec_block(s.orelse, st)
                    outs.append(st.copy())
                except Dead:
                    pass
            if not outs:
                st.pc = FALSE
                raise Dead
            st.assign(self.merge_all(outs))
            return
        _, n, el = sq
        self.sym_loop(s, st, n, el)

    def iter_seq(self, it, st, node):
        """('finite', items) | ('sym', count, element function)"""
        if it.op == "ite":
            return ("fork", X.atom(it.args[0]), it.args[1], it.args[2])
        if it.op in ("tup", "seq"):
            return ("finite", list(it.args))
        if it.op == "ref":
            c = self.cell(st, it)
            if c.kind in ("list", "arr", "set"):
                return self.iter_seq(c.content, st, node)
            if c.kind == "dict":
                return self.iter_seq(self.variants(c, st, lambda k, v: k, X.seq), st, node)
            if c.kind == "df":
                return ("finite", list(c.fields))
            if c.kind == "obj":
                f, _ = c.cls.lookup("__iter__") if c.cls else (None, None)
                if f is not None:
                    r = self.call(f, [it], {}, st, node)
                    return self.iter_seq(r, st, node)
        if it.op == "concat" and all(p.op == "seq" for p in it.args):
            return ("finite", [x for p in it.args for x in p.args])
        if it.op == "uf" and it.args[0] == "iter":
            return self.iter_seq(it.args[1], st, node)
        if it.op == "range":
            a, b, stp = it.args
            d = X.sub(b, a)
            if d.op == "ite":
                v = d.args[0]
                return ("fork", X.atom(v), self._cofrange(it, v, 1), self._cofrange(it, v, 0))
            if is_num(d) and is_num(stp):
                import math

                k = max(0, math.ceil(cval(d) / cval(stp)))
                if k <= MAXUNROLL:
                    return ("finite", [X.add(a, X.mul(stp, const(i))) for i in range(k)])
            if stp is ONE:
                n = d
            elif is_num(stp) and cval(stp) == -1:
                n = X.neg(d)
            else:
                n = X.uf("ceil", [X.div(d, stp)], "num")
            return ("sym", n, lambda i: X.add(a, X.mul(stp, i)))
        if it.op == "zip":
            seqs = [self.iter_seq(x, st, node) for x in it.args]
            for k, q in enumerate(seqs):
                if q[0] == "fork":
                    a1 = list(it.args)
                    a1[k] = q[2]
                    a2 = list(it.args)
                    a2[k] = q[3]
                    return ("fork", q[1], X.node("zip", a1, "any"), X.node("zip", a2, "any"))
            fin = [len(q[1]) for q in seqs if q[0] == "finite"]
            if fin:
                m = min(fin)
                cols = []
                for q, x in zip(seqs, it.args):
                    if q[0] == "finite":
                        cols.append(q[1][:m])
                    else:
                        cols.append([q[2](const(i)) for i in range(m)])
                return ("finite", [X.tup(c) for c in zip(*cols)])
            n = seqs[0][1]
            for q in seqs[1:]:
                d = X.sub(q[1], n)
                if d is ZERO:
                    continue
                if is_num(d):
                    n = q[1] if cval(d) < 0 else n
                elif d.sort == "num":
                    n = select(X.lt(q[1], n), q[1], n)
            return ("sym", n, lambda i: X.tup([q[2](i) for q in seqs]))
        if it.op == "enumerate":
            q = self.iter_seq(it.args[0], st, node)
            s0 = it.args[1]
            if q[0] == "fork":
                return ("fork", q[1], X.node("enumerate", (q[2], s0), "any"), X.node("enumerate", (q[3], s0), "any"))
            if q[0] == "finite":
                return ("finite", [X.tup((X.add(s0, const(i)), x)) for i, x in enumerate(q[1])])
            return ("sym", q[1], lambda i: X.tup((X.add(s0, i), q[2](i))))
        if it.op == "reversed":
            q = self.iter_seq(it.args[0], st, node)
            if q[0] == "finite":
                return ("finite", q[1][::-1])
            if q[0] == "sym":
                return ("sym", q[1], lambda i: q[2](X.sub(X.sub(q[1], ONE), i)))
        if is_str(it):
            return ("finite", [const(c) for c in cval(it)])
        if it.op == "cols":
            # iterate rows
            return ("sym", X.length(it), lambda i: X.seq([X.elem(c, i) for c in it.args]))
        n = X.length(it) if it.sort in ("arr", "any", "num") or it.op in ("uf",) else X.unknown("len", it)
        if is_num(n) and cval(n) <= MAXUNROLL and it.sort == "arr":
            return ("finite", [X.elem(it, const(i)) for i in range(int(cval(n)))])
        return ("sym", n, lambda i: X.elem(it, i) if it.sort == "arr" else X.uf("idx", [it, i], "any", it.unk))

    def _cofrange(self, it, v, side):
        return X.node("range", [X.cof(a, v, side) for a in it.args], "any")

    def variants(self, c, st, pick, make):
        """a sequence over the entries of a dict, chosen by which of them are present"""
        todo = [(X.constrain(p, st.pc), pick(k, v)) for k, (p, v) in c.fields.items()]
        if sum(p is not TRUE and p is not FALSE for p, _ in todo) > 3:
            raise Abort("iteration over a dict with optional keys")

        def go(i, acc):
            if i == len(todo):
                return make(acc)
            p, x = todo[i]
            return X.select(p, go(i + 1, acc + [x]) if p is not FALSE else NONE, go(i + 1, acc) if p is not TRUE else NONE)

        return go(0, [])

    def dict_keys(self, c, st):
        ks = []
        for k, (p, v) in c.fields.items():
            p = X.constrain(p, st.pc)
            if p is TRUE:
                ks.append(k)
            elif p is FALSE:
                continue
            else:
                raise Abort("iteration over a dict with optional keys")
        return ("finite", ks)

    def assigned(self, body):
        names = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def sort_of(self, t):
        if t.op == "ite":
            ss = {self.sort_of(l) for l in X.leaves(t)}
            return ss.pop() if len(ss) == 1 else ("any")
        return t.sort if t.sort in ("num", "arr", "bool", "str") else "any"

    def run_body(self, s, st, names, cells, idx, el, test, pc0):
        """one abstract iteration from loop-carried symbols; returns dict"""
        b = st.copy()
        b.env = dict(st.env)
        mus = {}
        for n in sorted(names):
            init = st.env.get(n, UNBOUND)
            if init is UNBOUND:
                b.env.pop(n, None)
                continue
            if init.op in ("func", "cls", "ext", "module"):
                continue
            if init.op == "ref" or (init.op == "ite" and any(l.op == "ref" for l in X.leaves(init))):
                # rebinding a reference in a loop: carried as content
                content = self.deep(init, st)
                if X.is_arr(content) and not (content.op == "ref"):
                    mu = X.fresh("mu_" + n, "arr", **self._arrfacts(content))
                    r = self.new(b, "arr" if init.op != "ref" else self.cell(st, init).kind, mu, pytype=self.cell(st, init).pytype if init.op == "ref" else "ndarray")
                    b.env[n] = r
                    mus[("v", n)] = (mu, content)
                    continue
                mu = X.fresh("mu_" + n, "any")
                b.env[n] = mu
                mus[("v", n)] = (mu, init)
                continue
            so = self.sort_of(init)
            facts = {}
            if so == "num" and X.is_int(init) and self._int_loopvar(s, n):
                facts["int"] = True
            mu = X.fresh("mu_" + n, so if so in ("num", "bool", "str") else "any", **facts)
            b.env[n] = mu
            mus[("v", n)] = (mu, init)
        for k in sorted(cells, key=str):
            if isinstance(k, tuple):
                cid, f = k
                c = b.heap[cid].copy()
                init = c.fields[f]
                if c.kind in ("dict",):
                    pres, val = init
                    mu = X.fresh("mu_item", self.sort_of(val))
                    c.fields[f] = (pres, mu)
                    mus[("f", k)] = (mu, val)
                else:
                    mu = X.fresh("mu_" + f, self.sort_of(init))
                    c.fields[f] = mu
                    mus[("f", k)] = (mu, init)
                b.heap[cid] = c
                continue
            c = b.heap[k].copy()
            init = self.deep(c.content, st)
            mu = X.fresh("mu_cell", "arr", **self._arrfacts(init, c.kind))
            c.content = mu
            b.heap[k] = c
            mus[("c", k)] = (mu, init)
        heap0 = dict(b.heap)
        b.pc = pc0
        fr = self.frames[-1]
        fr.loops.append({"brk": [], "cont": []})
        nret = len(fr.returns)
        caught = []
        self.handlers.append(caught)
        cond = TRUE
        try:
            try:
                if test is not None:
                    cond = self.truthv(self.eval(test, b), b)
                    cond = self.cond(cond, b)
                    b.pc = band(b.pc, cond)
                    if b.pc is FALSE:
                        raise Dead
                if el is not None:
                    self.store(s.target, el, b, s)
                start_env = dict(b.env)
                self.exec_block(s.body, b)
                ends = [b]
            except Dead:
                ends = []
        finally:
            self.handlers.pop()
            l = fr.loops.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        ends += l["cont"]
        end = self.merge_all(ends) if ends else None
        return dict(mus=mus, end=end, brk=l["brk"], rets=rets, raises=caught, cond=cond, heap0=heap0)

    def _int_loopvar(self, s, n):
        """every assignment to n in the loop is an integer step or integer-valued"""
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                if not (isinstance(x.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)) and self._intexpr(x.value)):
                    return False
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == n:
                            if isinstance(t, ast.Name) and self._intexpr(x.value):
                                continue
                            return False
            elif isinstance(x, ast.NamedExpr) and x.target.id == n:
                return False
        return True

    def _intexpr(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int)
        if isinstance(e, ast.Name):
            return True if e.id in getattr(self, "_intnames", ()) else False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            return (self._intexpr(e.left) or isinstance(e.left, ast.Name)) and (self._intexpr(e.right) or isinstance(e.right, ast.Name))
        if isinstance(e, ast.UnaryOp):
            return self._intexpr(e.operand)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "int"):
            return True
        return False

    def _arrfacts(self, content, kind="arr"):
        f = {}
        if kind == "arr" and X.is_arr(content):
            f["length"] = X.length(content)
        ls = X.leaves(content)
        es = set()
        for l in ls:
            if l.op in ("sym", "var"):
                es.add(X.SYM.get(l, {}).get("elem", "num"))
        if len(es) == 1:
            f["elem"] = es.pop()
        if X.is2d(content):
            f["elem"] = "arr"
            f["elem2"] = "num"
        return f

    def changed_cells(self, st, res):
        """heap cells existing before the loop whose content changes in the body"""
        out = set()
        sts = ([res["end"]] if res["end"] else []) + res["brk"] + [r[2] for r in res["rets"]]
        for e in sts:
            for i, c in st.heap.items():
                c2 = e.heap.get(i)
                base = res["heap0"].get(i)
                if c2 is None or c2 is base:
                    continue
                if c.kind in ("arr", "list", "set") and c2.content is not base.content:
                    out.add(i)
                elif c.fields is not None:
                    for f in set(c2.fields) | set(base.fields):
                        if c2.fields.get(f) is not base.fields.get(f) and c2.fields.get(f) != base.fields.get(f):
                            if f not in c.fields:
                                out.add(("newfield", i, f))
                            else:
                                out.add((i, f))
        return out

    def sym_loop(self, s, st, n, el, test=None):
        """loop with a symbolic number of iterations (for: n, el given; while: test given)"""
        info = LoopInfo()
        info.node, info.where = s, self.where(s)
        info.func = self.frames[-1].fn.qual if self.frames[-1].fn else ""
        names = self.assigned(s.body) | (self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))]) if el else set())
        if test is not None:
            names |= {x.target.id for x in ast.walk(test) if isinstance(x, ast.NamedExpr)}
        tnames = self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))]) if el else set()
        idx = X.fresh("i", "num", int=True, nonneg=True)
        if el is not None:
            X.SYM[idx]["below"] = n
        # facts known inside the body
        pc0 = st.pc
        cells = set()
        self._intnames = {k for k, v in st.env.items() if v.sort == "num" and X.is_int(v)} | tnames
        elem_t = el(idx) if el is not None else None
        self.quiet += 1
        cnt = X._fresh[0]
        try:
            for _ in range(6):
                res = self.run_body(s, st, names, {c for c in cells if not (isinstance(c, tuple) and c[0] == "newfield")}, idx, elem_t, test, pc0)
                ch = self.changed_cells(st, res)
                if ch <= cells:
                    break
                cells |= ch
        finally:
            self.quiet -= 1
        cells_k = {c for c in cells if not (isinstance(c, tuple) and c[0] == "newfield")}
        newf = [c for c in cells if isinstance(c, tuple) and c[0] == "newfield"]
        res = self.run_body(s, st, names, cells_k, idx, elem_t, test, pc0)
        mus, end = res["mus"], res["end"]
        info.mus, info.end, info.brk, info.rets, info.raises = mus, end, res["brk"], res["rets"], res["raises"]
        info.idx, info.n, info.cond, info.kind = idx, n, res["cond"], "for" if el is not None else "while"
        info.pc0, info.st0, info.elem = pc0, st.copy(), elem_t
        info.depth = len([x for x in self.loops if getattr(x, "open", False)])
        if not self.quiet:
            self.loops.append(info)
        muset = {m for m, _ in mus.values()}
        nexts = {}
        if end is not None:
            for k, (mu, init) in mus.items():
                if k[0] == "v":
                    v = end.env.get(k[1], UNBOUND)
                    if self._hasref(v):
                        v = self.deep(v, end)
                    nexts[k] = v
                elif k[0] == "f":
                    cid, f = k[1]
                    v = end.heap[cid].fields[f]
                    if isinstance(v, tuple):
                        v = v[1]
                    nexts[k] = self.deep(v, end)
                else:
                    nexts[k] = self.deep(end.heap[k[1]].content, end)
        else:
            for k, (mu, init) in mus.items():
                nexts[k] = mu
        info.nexts = nexts
        # ---- while with a counter: turn into a for
        count = n
        idxmap = {}
        if el is None:
            got = self.counter(mus, nexts, res["cond"], muset)
            if got is not None:
                key, count, start, sign = got
                mu = mus[key][0]
                idxmap = {mu: X.add(start, idx) if sign > 0 else X.sub(start, idx)}
                nexts = {k: X.subst(v, idxmap) for k, v in nexts.items()}
                info.count = count
        info.count = count
        rel = lambda pc: X.constrain(pc, pc0)
        exits = []  # (kind, condition in idx/mus, state/record)
        for b in res["brk"]:
            exits.append(("brk", rel(b.pc), b))
        for r in res["rets"]:
            exits.append(("ret", rel(r[0]), r))
        # ---- raises inside the loop
        sol = Solver(self, mus, nexts, idx, count, el is not None or bool(idxmap), res["cond"], st)
        sol.idxmap = idxmap
        info.solver = sol
        anyraise = FALSE
        for pc, exc, hs, where, val in res["raises"]:
            g = sol.at_iter(X.subst(rel(pc), idxmap))
            if g is FALSE:
                continue
            if g is not None and count is not None and not (g.vars & muset):
                rc = X.red("any", X.lam(count, idx, g)) if idx in g.vars else band(self._pos(count), g)
            else:
                rc = self.fold_raise(rel(pc), [rel(r[0]) for r in res["raises"]] + [x[1] for x in exits], mus, nexts, idx, count, res["cond"], idxmap)
            full = band(st.pc, rc)
            if self.handlers:
                h2 = st.copy()
                h2.pc = full
                self.handlers[-1].append((full, exc, h2, where, val))
            elif not self.quiet:
                self.events.append(dict(kind="raise", file=where[0], line=where[1], func=where[2], pc=full, exc=exc, cond=full, val=val, stack=(), heap=hs.heap, inloop=(rel(pc), idx, count)))
            anyraise = bor(anyraise, rc)
        if anyraise is not FALSE:
            st.pc = band(st.pc, bnot(anyraise))
            if st.pc is FALSE:
                raise Dead
        simple_exit = True
        gs = []
        if exits:
            for kind, g, _r in exits:
                g2 = sol.at_iter(X.subst(g, idxmap))
                if g2 is None or (g2.vars & muset) or count is None:
                    simple_exit = False
                    break
                gs.append(g2)
        if exits and simple_exit:
            ganyi = X.bany(gs)
            arr = X.lam(count, idx, ganyi)
            found = X.red("any", arr)
            first = X.uf("firsttrue", [arr], "num") if idx in ganyi.vars else ZERO
            outs = []
            # normal completion
            fin = st.copy()
            fin.pc = band(st.pc, bnot(found))
            if fin.pc is not FALSE:
                self.apply_solution(fin, sol, count, mus, end, tnames, elem_t, idx, newf)
                if s.orelse:
                    try:
                        self.exec_block(s.orelse, fin)
                        outs.append(fin)
                    except Dead:
                        pass
                else:
                    outs.append(fin)
            prev = FALSE
            for (kind, g, rec), g2 in zip(exits, gs):
                here = X.subst(g2, {idx: first})
                e = st.copy()
                cnd = band(found, band(here, bnot(prev))) if len(exits) > 1 else found
                prev = bor(prev, here)
                e.pc = band(st.pc, cnd)
                if e.pc is FALSE:
                    continue
                src = rec if kind == "brk" else rec[2]
                mp = sol.prefix_map(first)
                mp[idx] = first
                for k2, (mu, init) in mus.items():
                    self.put_key(e, k2, self._sub(self.read_key(src, k2), mp, idxmap, src), src)
                for nm in names:
                    if ("v", nm) not in mus and nm in src.env:
                        e.env[nm] = self._sub(self.deep(src.env[nm], src), mp, idxmap, src)
                for i2, c2 in src.heap.items():
                    if i2 not in e.heap:
                        e.heap[i2] = self._subcell(c2, mp, idxmap)
                if kind == "brk":
                    outs.append(e)
                else:
                    v = self._sub(self.deep(rec[1], rec[2]), mp, idxmap, rec[2])
                    self.frames[-1].returns.append((e.pc, self.arr(e, v) if X.is_arr(v) else v, e, rec[3]))
            if not outs:
                st.pc = FALSE
                raise Dead
            st.assign(self.merge_all(outs))
            return
        if exits and self.fold_exits(st, mus, nexts, exits, idx, count, res["cond"], idxmap, names, tnames, elem_t, s):
            return
        if exits:
            # exits depend on carried values: the result is not expressed in closed form
            outs = []
            tag = const(f"{info.where[0]}:{info.func}:{len(self.loops)}")
            fin = st.copy()
            isret = X.atom(X.uf("?loopexit", [tag], "bool", True))
            anyret = any(k == "ret" for k, _, _ in exits)
            for k2, (mu, init) in mus.items():
                if nexts[k2] is not mu or any(self.read_key(r if k == "brk" else r[2], k2) is not mu for k, _, r in exits):
                    u = X.uf("?loopvar", [tag, const(str(k2[1]) if k2[0] == "v" else k2[0])], mu.sort if mu.sort != "any" else "any", True)
                    if mu.sort == "arr":
                        X.SYM.setdefault(u, {})
                    self.put_key(fin, k2, u, fin)
            for nm in names:
                if ("v", nm) not in mus:
                    fin.env[nm] = X.uf("?loopvar", [tag, const(nm)], "any", True)
            if anyret:
                for kind, g, rec in exits:
                    if kind == "ret":
                        e = fin.copy()
                        e.pc = band(st.pc, isret)
                        v = X.uf("?loopret", [tag], "any", True)
                        self.frames[-1].returns.append((e.pc, v, e, rec[3]))
                        break
                fin.pc = band(st.pc, bnot(isret))
            st.assign(fin)
            if s.orelse:
                self.exec_block(s.orelse, st)
            return
        if end is None:
            # body never completes: at most one iteration happens and it raised
            if count is not None:
                st.pc = band(st.pc, bnot(self._pos(count)))
                if st.pc is FALSE:
                    raise Dead
            return
        self.apply_solution(st, sol, count, mus, end, tnames, elem_t, idx, newf)
        if s.orelse:
            self.exec_block(s.orelse, st)

    def fold_raise(self, g, stops, mus, nexts, idx, count, cond, idxmap):
        """whether some iteration raises, under a condition on carried values: a fold that carries whether it has happened"""
        sub = lambda t: X.subst(t, idxmap) if idxmap else t
        muset = frozenset(m for m, _ in mus.values())
        g, stop = sub(g), sub(X.bany(stops))
        if count is None and idx in g.vars | stop.vars:
            return X.atom(X.uf("?loopraise", [g], "bool", True))
        if not g.vars & muset and not stop.vars & muset and idx not in g.vars | stop.vars:
            return band(self._pos(count) if count is not None else X.subst(cond, {m: i for m, i in mus.values()}), g)
        rm, sm = X.fresh("mu", "num", int=True, nonneg=True), X.fresh("mu", "num", int=True, nonneg=True)
        ONE_ = const(1)
        carried = {"r": (rm, ZERO, select(g, ONE_, ZERO)), "s": (sm, ZERO, select(stop, ONE_, ZERO))}
        for k, (mu, init) in mus.items():
            if mu in idxmap:
                continue
            nx = sub(nexts[k])
            if nx is not mu:
                carried[k] = (mu, init, nx)
        bymu = {m: k for k, (m, _i, _n) in carried.items()}
        go = X.s_eq(sm, ZERO)
        if count is None:
            go = band(go, sub(cond))
        order = []

        def visit(kk):
            if kk in order:
                return
            order.append(kk)
            for mu in sorted(carried[kk][2].vars & frozenset(bymu), key=lambda m: m.id):
                visit(bymu[mu])

        visit("r")
        visit("s")
        for mu in sorted(go.vars & frozenset(bymu), key=lambda m: m.id):
            visit(bymu[mu])
        cs = [carried[kk] for kk in order]
        if count is None:
            r = X.mk_fold("while", None, go, cs, None)
        else:
            mk = lambda c: X.mk_fold("for", c, go, cs, idx)
            r = X.lift("foldq", mk, count) if count.op == "ite" else mk(count)
        return X.s_eq(r, ONE_)

    def fold_exits(self, st, mus, nexts, exits, idx, count, cond, idxmap, names, tnames, elem_t, s):
        """a loop left by break or return under conditions on carried values: a fold that also carries which exit was taken"""
        if len(exits) > 12:
            return False
        inv = dict(idxmap)
        sub = lambda t: X.subst(t, inv) if inv else t
        ex = X.fresh("mu", "num", int=True, nonneg=True)
        at = X.fresh("mu", "num", int=True, nonneg=True)
        gates = [sub(g) for _k, g, _r in exits]
        nex, nat = ZERO, at
        for j in range(len(exits) - 1, -1, -1):
            nex = select(gates[j], const(j + 1), nex)
        nat = select(X.bany(gates), idx if count is not None else ZERO, at)
        carried = {"ex": (ex, ZERO, nex), "at": (at, ZERO, nat)}
        for k, (mu, init) in mus.items():
            if mu in inv:
                continue
            nx = sub(nexts[k])
            for (kind, _g, rec), g in zip(reversed(exits), reversed(gates)):
                src = rec if kind == "brk" else rec[2]
                nx = select(g, sub(self.read_key(src, k)), nx)
            if nx is not mu:
                carried[k] = (mu, init, nx)
        # returned values
        rets = [(j, rec) for j, (kind, _g, rec) in enumerate(exits) if kind == "ret"]
        vals = [self.deep(rec[1], rec[2]) for _j, rec in rets]
        ar = {len(v.args) if v.op == "tup" else -1 for v in vals}
        comps = 0
        if rets:
            if len(ar) != 1:
                return False
            comps = ar.pop()
            for c in range(max(comps, 1)):
                cv = [sub(v.args[c] if comps >= 0 else v) for v in vals]
                so = cv[0].sort
                init = {"num": ZERO, "bool": FALSE, "arr": X.EMPTY}.get(so, NONE)
                mu = X.fresh("mu", so if so in ("num", "bool", "arr") else "any")
                nx = mu
                for (j, _r), v in zip(reversed(rets), reversed(cv)):
                    nx = select(gates[j], v, nx)
                carried[("rv", c)] = (mu, init, nx)
        bymu = {m: k for k, (m, _i, _n) in carried.items()}
        allmu = frozenset(bymu) | frozenset(m for m, _ in mus.values())
        run = X.s_eq(ex, ZERO)
        go = run if count is not None else band(run, sub(cond))

        def final(k):
            order = []

            def visit(kk):
                if kk in order:
                    return
                order.append(kk)
                for mu in sorted(carried[kk][2].vars & allmu, key=lambda m: m.id):
                    if mu in bymu:
                        visit(bymu[mu])

            visit(k)
            visit("ex")
            for mu in sorted(go.vars & allmu, key=lambda m: m.id):
                if mu in bymu:
                    visit(bymu[mu])
            cs = [carried[kk] for kk in order]
            if count is None:
                return X.mk_fold("while", None, go, cs, None)
            mk = lambda c: X.mk_fold("for", c, go, cs, idx)
            return X.lift("foldq", mk, count) if count.op == "ite" else mk(count)

        which = final("ex")
        base = st.pc
        new = {k: final(k) for k in carried if k not in ("ex", "at") and k[0] != "rv"}
        for k2, v in new.items():
            self.put_key(st, k2, v, st)
        if count is not None:
            for mu, e in inv.items():
                for k2, (m, init) in mus.items():
                    if m is mu:
                        # a counter of a while loop: as far as it got
                        a = final("at")
                        cur = select(X.s_eq(which, ZERO), X.add(init, count), X.subst(e, {idx: a}))
                        self.put_key(st, k2, cur, st)
        tag = const(f"{self.where(s)[0]}:{self.where(s)[1]}")
        fin = st.copy()
        fin.pc = band(base, X.s_eq(which, ZERO))
        at_v = final("at") if count is not None else None
        for nm in names:
            if ("v", nm) in mus:
                continue
            fin.env[nm] = X.uf("?loopvar", [tag, const(nm)], "any", True)
        outs = []
        if fin.pc is not FALSE:
            if s.orelse:
                f2 = fin.copy()
                try:
                    self.exec_block(s.orelse, f2)
                    outs.append(f2)
                except Dead:
                    pass
            else:
                outs.append(fin)
        for j, (kind, _g, rec) in enumerate(exits):
            e = fin.copy()
            e.pc = band(base, X.s_eq(which, const(j + 1)))
            if e.pc is FALSE:
                continue
            if kind == "brk":
                if at_v is not None and elem_t is not None:
                    for nm in tnames:
                        v = rec.env.get(nm)
                        if v is not None and not self._hasref(v) and not (v.vars & allmu):
                            e.env[nm] = X.subst(v, {idx: at_v})
                outs.append(e)
            else:
                parts = [final(("rv", c)) for c in range(max(comps, 1))]
                parts = [self.arr(e, p) if X.is_arr(p) else p for p in parts]
                self.frames[-1].returns.append((e.pc, X.tup(parts) if comps >= 0 else parts[0], e, rec[3]))
        if not outs:
            st.pc = FALSE
            raise Dead
        st.assign(self.merge_all(outs))
        return True

    def _pos(self, n):
        return bnot(X.lift("eq0", X.eq0, n)) if n.sort in ("num", "any") else TRUE

    def _sub(self, t, mp, idxmap, st):
        t = self.deep(t, st) if self._hasref(t) else t
        return X.subst(X.subst(t, idxmap), mp)

    def _subcell(self, c, mp, idxmap):
        n = c.copy()
        if n.content is not None:
            n.content = X.subst(X.subst(n.content, idxmap), mp)
        if n.fields is not None:
            n.fields = {k: (v if not isinstance(v, T) else X.subst(X.subst(v, idxmap), mp)) for k, v in n.fields.items()}
        return n

    def read_key(self, st, k):
        if k[0] == "v":
            v = st.env.get(k[1], UNBOUND)
            return self.deep(v, st) if self._hasref(v) else v
        if k[0] == "f":
            v = st.heap[k[1][0]].fields[k[1][1]]
            return v[1] if isinstance(v, tuple) else v
        return self.deep(st.heap[k[1]].content, st)

    def put_key(self, st, k, v, src):
        if k[0] == "v":
            st.env[k[1]] = self.arr(st, v) if X.is_arr(v) else v
        elif k[0] == "f":
            c = st.heap[k[1][0]].copy()
            o = c.fields[k[1][1]]
            c.fields[k[1][1]] = (o[0], v) if isinstance(o, tuple) else v
            st.heap[k[1][0]] = c
        else:
            c = st.heap[k[1]].copy()
            c.content = v
            st.heap[k[1]] = c

    def counter(self, mus, nexts, cond, muset):
        """while i < n: ...; i += 1"""
        for k, (mu, init) in mus.items():
            if mu.sort != "num" or mu not in cond.vars:
                continue
            for sign in (1, -1):
                if nexts[k] is X.add(mu, const(sign)):
                    n = self.bound(cond, mu, init, sign, muset)
                    if n is not None:
                        return k, n, init, sign
        return None

    def bound(self, cond, mu, init, sign, muset, d=0):
        """number of iterations while cond holds for the counter"""
        if cond is FALSE:
            return ZERO
        if cond.op != "ite" or d > 24:
            return None
        a = cond.args[0]
        if not (a.vars & muset):
            b1 = self.bound(cond.args[1], mu, init, sign, muset, d + 1)
            b2 = self.bound(cond.args[2], mu, init, sign, muset, d + 1) if b1 is not None else None
            return None if b2 is None else select(X.atom(a), b1, b2)
        if a.op != "uf" or a.args[0] != "lt0":
            return None
        strict, lo, hi = False, cond.args[1], cond.args[2]
        if hi.op == "ite" and hi.args[0].op == "uf" and hi.args[0].args[0] == "eq0" and hi.args[0].args[1] is a.args[1]:
            # three-way comparison of values not known to be integers
            if hi.args[1] is lo:
                strict, hi = True, hi.args[2]
            elif hi.args[1] is hi.args[2]:
                hi = hi.args[2]
        if not ({lo, hi} == {TRUE, FALSE}):
            return None
        # forms:  mu - n < 0  true ; or  n - mu - 1 < 0 false
        poly = X.to_poly(a.args[1])
        key = ((mu, ONE),)
        c = poly.get(key)
        if c is None:
            return None
        rest = X.from_poly({m: v for m, v in poly.items() if m != key})
        if rest.vars & muset or not X.is_int(init):
            return None
        holds = lo is TRUE
        if sign > 0:
            if c == 1 and holds:
                return X.sub(X.neg(rest) if not strict else X.add(X.neg(rest), ONE), init)  # mu < -rest
            if c == -1 and not holds:
                return X.sub(rest if strict else X.add(rest, ONE), init)  # not (rest - mu < 0): mu <= rest
        else:
            if c == -1 and holds:
                return X.sub(init, rest) if not strict else X.add(X.sub(init, rest), ONE)  # rest < mu
            if c == 1 and not holds:
                return X.add(X.add(init, rest), ZERO if strict else ONE)  # not (mu + rest < 0): mu >= -rest
        return None

    def apply_solution(self, st, sol, count, mus, end, tnames, elem_t, idx, newf):
        out = sol.final()
        for k, (mu, init) in mus.items():
            v = out[k]
            if k[0] == "v" and k[1] in tnames:
                pass
            if v is init and k[0] != "v":
                continue
            if k[0] == "v":
                cur = st.env.get(k[1])
                if v is init and cur is not None:
                    continue
                st.env[k[1]] = self.arr(st, v) if X.is_arr(v) else v
            else:
                self.put_key(st, k, v, st)
        # names first bound inside the loop
        if end is not None:
            for nme, v in end.env.items():
                if ("v", nme) in mus or nme in st.env and st.env[nme] is v:
                    continue
                if nme in st.env and nme not in tnames and ("v", nme) not in mus and st.env[nme].op in ("func", "cls", "ext", "module"):
                    continue
                vd = self.deep(v, end) if self._hasref(v) else v
                last = sol.last(vd)
                if count is not None:
                    st.env[nme] = select(self._pos(count), self.arr(st, last) if X.is_arr(last) else last, st.env.get(nme, UNBOUND))
                else:
                    st.env[nme] = X.unknown("loopvar", last)
            for i, c in end.heap.items():
                if i not in st.heap:
                    nc = c.copy()
                    if nc.content is not None:
                        nc.content = sol.last(nc.content)
                    if nc.fields is not None:
                        nc.fields = {k: (sol.last(v) if isinstance(v, T) else (v[0], sol.last(v[1]))) for k, v in nc.fields.items()}
                    st.heap[i] = nc
            for _, cid, f in newf:
                c2 = end.heap[cid].fields.get(f)
                if c2 is not None:
                    c = st.heap[cid].copy()
                    c.fields[f] = X.unknown("loopfield", const(str(f)))
                    st.heap[cid] = c

    def s_While(self, s, st):
        body = s.body
        # while True: if c: break; rest  ==  while not c: rest
        test = s.test
        if isinstance(test, ast.Constant) and test.value and body and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
            test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=body[0].test), s)
            ast.fix_missing_locations(test)
            s2 = ast.While(test=test, body=body[1:] or [ast.Pass()], orelse=s.orelse)
            ast.copy_location(s2, s)
            s = s2
        c = self.truthv(self.eval(test, st.copy()), st)
        c = self.cond(c, st)
        if c is FALSE:
            self.eval(test, st)
            self.exec_block(s.orelse, st)
            return
        # bounded unrolling when the test folds to a constant each time
        if c is TRUE:
            probe = st.copy()
            ok = True
            steps = 0
            self.quiet += 1
            try:
                while steps < MAXUNROLL:
                    cc = self.cond(self.truthv(self.eval(test, probe), probe), probe)
                    if cc is FALSE:
                        break
                    if cc is not TRUE:
                        ok = False
                        break
                    self.frames[-1].loops.append({"brk": [], "cont": []})
                    nr = len(self.frames[-1].returns)
                    hs, self.handlers = self.handlers, [[]]
                    try:
                        self.exec_block(s.body, probe)
                    except Dead:
                        ok = False
                    self.handlers = hs
                    l = self.frames[-1].loops.pop()
                    del self.frames[-1].returns[nr:]
                    if l["brk"] or l["cont"]:
                        ok = False
                    if not ok:
                        break
                    steps += 1
                else:
                    ok = False
            finally:
                self.quiet -= 1
            if ok:
                for _ in range(steps):
                    self.frames[-1].loops.append({"brk": [], "cont": []})
                    try:
                        self.exec_block(s.body, st)
                    finally:
                        self.frames[-1].loops.pop()
                self.eval(test, st)
                self.exec_block(s.orelse, st)
                return
        self.sym_loop(s, st, None, None, test)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Abort(f"expression {type(e).__name__}")
        old = self.curnode
        if hasattr(e, "lineno"):
            self.curnode = e
        r = m(e, st)
        self.curnode = old
        return r

    def e_Constant(self, e, st):
        if type(e.value) in (int, float):
            X.LITERALS.add(e.value)
        return const(e.value)

    def e_Name(self, e, st):
        n = e.id
        v = st.env.get(n)
        if v is not None and v is not UNBOUND:
            if v.op == "ite" and UNBOUND in X.leaves(v):
                v2 = X.constrain(v, st.pc)
                if v2.op == "ite" and UNBOUND in X.leaves(v2):
                    c = X.lift("isunb", lambda l: TRUE if l is UNBOUND else FALSE, v2)
                    c = self.cond(c, st)
                    if c is not FALSE:
                        self.event("unbound", st, e, name=n, cond=band(st.pc, c))
                        self.do_raise(st, c, "UnboundLocalError", e)
                    v = X.constrain(v2, bnot(c))
                    if v.op == "ite" and UNBOUND in X.leaves(v):
                        keep = [l for l in X.leaves(v) if l is not UNBOUND]
                        if len(keep) == 1:
                            v = keep[0]
                    return self.unlazy(v)
                return self.unlazy(v2)
            return self.unlazy(v)
        fr = self.frames[-1]
        fn = fr.fn
        if fn is not None and n in self.local_names(fn):
            if n not in st.env or v is UNBOUND:
                self.event("unbound", st, e, name=n, cond=st.pc)
                self.do_raise(st, TRUE, "UnboundLocalError", e)
        if fn is not None and fn.closure is not None and n in fn.closure:
            return self.unlazy(fn.closure[n])
        mod = fn.module if fn is not None else self.curmod
        if mod is not None and n in mod.env:
            return self.unlazy(mod.env[n])
        return self.ext("builtins." + n)

    def unlazy(self, v):
        if v.op == "lazy":
            m = self.modules.get(v.args[0])
            if m is not None and v.args[1] in m.env:
                return m.env[v.args[1]]
        return v

    _ln: dict = {}

    def local_names(self, fn):
        r = self._ln.get(fn)
        if r is None:
            r = set()
            if not isinstance(fn.node, ast.Lambda):
                gl = set()
                todo = list(fn.node.body)
                while todo:
                    x = todo.pop()
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        r.add(x.name)
                        continue
                    if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        r.add(x.id)
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        gl |= set(x.names)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            r.add((a.asname or a.name).split(".")[0])
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        r.add(x.name)
                    todo += list(ast.iter_child_nodes(x))
                r -= gl
            self._ln[fn] = r
        return r

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.store(e.target, v, st, e)
        return v

    def e_Tuple(self, e, st):
        return X.tup(self.eval_args(e.elts, st))

    def e_List(self, e, st):
        return self.seqlit(e, st, "list")

    def e_Set(self, e, st):
        return self.seqlit(e, st, "set")

    def seqlit(self, e, st, kind):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, st)
                    parts.append(self.as_content(v, st, x))
                else:
                    parts.append(X.seq([self.eval(x, st)]))
            return self.new(st, kind, X.mk_concat(parts), pytype=kind)
        return self.new(st, kind, X.seq([self.eval(x, st) for x in e.elts]), pytype=kind)

    def as_content(self, v, st, node=None):
        """sequence term behind an iterable value"""
        if v.op == "ref":
            c = self.cell(st, v)
            if c.kind in ("list", "arr", "set"):
                return c.content
        if v.op == "tup":
            return X.seq(v.args)
        if v.op == "ite":
            return select(X.atom(v.args[0]), self.as_content(v.args[1], st), self.as_content(v.args[2], st))
        if v.sort == "arr":
            return v
        q = self.iter_seq(v, st, node)
        if q[0] == "finite":
            return X.seq(q[1])
        if q[0] == "fork":
            return select(q[1], self.as_content(q[2], st), self.as_content(q[3], st))
        i = X.fresh("i", "num", int=True, nonneg=True)
        return X.lam(q[1], i, q[2](i))

    def eval_args(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                ct = self.as_content(v, st, x)
                ct = X.constrain(ct, st.pc)
                if ct.op == "seq":
                    out += list(ct.args)
                else:
                    out.append(X._mk("star", (ct,), "star", X._H("star", ct.fp), ct.unk, ct.vars, ct.ht))
            else:
                out.append(self.eval(x, st))
        return out

    def e_Dict(self, e, st):
        f = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st)
                if d.op == "ref" and self.cell(st, d).kind == "dict":
                    f.update(self.cell(st, d).fields)
                else:
                    f[X.unknown("dictstar", d)] = (TRUE, d)
                continue
            kk = self.eval(k, st)
            f[kk] = (TRUE, self.eval(v, st))
        return self.new(st, "dict", fields=f, pytype="dict")

    def e_IfExp(self, e, st):
        c = self.truthv(self.eval(e.test, st), st)
        return self.fork(st, c, lambda a: self.eval(e.body, a), lambda a: self.eval(e.orelse, a))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.eval(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.truthv(v, s)
            if isand:
                return self.fork(s, c, lambda a: go(i + 1, a), lambda a: v)
            return self.fork(s, c, lambda a: v, lambda a: go(i + 1, a))

        return go(0, st)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truthv(v, st))
        d = self.deep(v, st)
        if isinstance(e.op, ast.USub):
            return self.arr(st, X.ew("neg", X.s_neg, d))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.arr(st, X.ew("not", lambda x: bnot(X.truth(x)), d))
        raise Abort("unary")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        r = self.binop(e.op, a, b, st, e)
        if is_num(r) and isinstance(e.left, ast.Constant) and isinstance(e.right, ast.Constant):
            X.LITERALS.add(cval(r))
        return r

    DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.MatMult: "matmul"}

    def binop(self, op, a, b, st, node, inplace=False):
        a = X.constrain(a, st.pc)
        b = X.constrain(b, st.pc)
        if a.op == "ite" and any(l.op in ("ref", "tup") for l in X.leaves(a)):
            return self.fork(st, X.atom(a.args[0]), lambda s: self.binop(op, a.args[1], b, s, node), lambda s: self.binop(op, a.args[2], b, s, node))
        if b.op == "ite" and any(l.op in ("ref", "tup") for l in X.leaves(b)):
            return self.fork(st, X.atom(b.args[0]), lambda s: self.binop(op, a, b.args[1], s, node), lambda s: self.binop(op, a, b.args[2], s, node))
        if a.op == "ref":
            c = self.cell(st, a)
            if c.kind == "obj" and c.cls is not None:
                f, _ = c.cls.lookup("__" + self.DUNDER.get(type(op), "?") + "__")
                if f is not None:
                    return self.call(f, [a, b], {}, st, node)
        if b.op == "ref":
            c = self.cell(st, b)
            if c.kind == "obj" and c.cls is not None:
                f, _ = c.cls.lookup("__r" + self.DUNDER.get(type(op), "?") + "__")
                if f is not None:
                    return self.call(f, [b, a], {}, st, node)
        for x in (a, b):
            if x.op not in ("ref", "tup", "ite") and self._hasref(x) and any(st.heap[r.args[0]].kind == "obj" for r in self.refs_in(x) if r.args[0] in st.heap):
                raise Abort("operator on one of several objects")
        la = a.op == "ref" and self.cell(st, a).kind == "list"
        lb = b.op == "ref" and self.cell(st, b).kind == "list"
        if isinstance(op, ast.Add) and (la and (lb or b.op == "tup") or (inplace and la)):
            cb = self.as_content(b, st, node)
            return self.new(st, "list", X.mk_concat([self.cell(st, a).content, cb]), pytype="list")
        if isinstance(op, ast.Add) and a.op == "tup" and b.op == "tup":
            return X.tup(a.args + b.args)
        if isinstance(op, ast.Mult) and (la or lb) and not (la and lb) and (b if la else a).op != "ref":
            l, n = (a, b) if la else (b, a)
            ct = self.cell(st, l).content
            if is_num(n) and ct.op == "seq":
                return self.newlist(st, list(ct.args) * int(cval(n)))
            if ct.op == "seq" and len(ct.args) == 1:
                return self.new(st, "list", X.lift("full", lambda k: X.full(k, ct.args[0]), n), pytype="list")
            return X.unknown("listmul", ct, n)
        if isinstance(op, ast.BitOr) and all(x.op == "ref" and self.cell(st, x).kind == "dict" for x in (a, b)):
            fa, fb = self.cell(st, a).fields, self.cell(st, b).fields
            f = dict(fa)
            for k, (p, v) in fb.items():
                op_, ov = f.get(k, (FALSE, UNBOUND))
                f[k] = (bor(p, op_), v if p is TRUE or op_ is FALSE else select(p, v, ov))
            return self.new(st, "dict", fields=f, pytype="dict")
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and any(x.op == "ref" and self.cell(st, x).kind == "set" for x in (a, b)):
            return self.setop(op, a, b, st)
        da, db = self.deep(a, st), self.deep(b, st)
        return self.arr(st, self.opterm(op, da, db))

    def setop(self, op, a, b, st):
        ca, cb = self.as_content(a, st), self.as_content(b, st)
        if ca.op == "seq" and cb.op == "seq" and all(x.op == "const" for x in ca.args + cb.args):
            if isinstance(op, ast.Sub):
                r = [x for x in ca.args if x not in cb.args]
            elif isinstance(op, ast.BitAnd):
                r = [x for x in ca.args if x in cb.args]
            elif isinstance(op, ast.BitOr):
                r = list(dict.fromkeys(ca.args + cb.args))
            else:
                r = [x for x in ca.args if x not in cb.args] + [x for x in cb.args if x not in ca.args]
            return self.new(st, "set", X.seq(r), pytype="set")
        return X.unknown("setop", ca, cb)

    def opterm(self, op, a, b):
        if isinstance(op, ast.Add):
            return X.add(a, b)
        if isinstance(op, ast.Sub):
            return X.sub(a, b)
        if isinstance(op, ast.Mult):
            return X.mul(a, b)
        if isinstance(op, ast.Div):
            return X.div(a, b)
        if isinstance(op, ast.Pow):
            return X.power(a, b)
        if isinstance(op, ast.Mod):
            if a.sort == "str":
                return X.uf("fmt", [a, b], "str")
            return X.ew("mod", lambda x, y: self._mod(x, y), a, b)
        if isinstance(op, ast.FloorDiv):
            return X.ew("floordiv", lambda x, y: self._floordiv(x, y), a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isinstance(op, ast.BitAnd):
                return X.ew("and", lambda x, y: band(X.truth(x), X.truth(y)), a, b)
            if isinstance(op, ast.BitOr):
                return X.ew("or", lambda x, y: bor(X.truth(x), X.truth(y)), a, b)
            return X.ew("xor", lambda x, y: select(X.truth(x), bnot(X.truth(y)), X.truth(y)), a, b)
        return X.uf("?" + type(op).__name__, [a, b], "any", True)

    @staticmethod
    def _mod(x, y):
        if is_num(x) and is_num(y) and cval(y):
            return const(cval(x) % cval(y))
        return X.uf("mod", [x, y], "num")

    @staticmethod
    def _floordiv(x, y):
        if is_num(x) and is_num(y) and cval(y):
            return const(cval(x) // cval(y))
        return X.uf("floordiv", [x, y], "num")

    def e_Compare(self, e, st):
        a = self.eval(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, st)
            v = self.compare(op, a, b, st, e)
            if res is None:
                res = v
            else:
                res = band(self.truthv(res, st), self.truthv(v, st))
            a = b
        return res

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = X.lift("is", self._is, X.constrain(a, st.pc), X.constrain(b, st.pc))
            return bnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st, node)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        a = X.constrain(a, st.pc)
        b = X.constrain(b, st.pc)
        if a.op == "ite" and any(l.op == "ref" for l in X.leaves(a)):
            return self.fork(st, X.atom(a.args[0]), lambda s: self.compare(op, a.args[1], b, s, node), lambda s: self.compare(op, a.args[2], b, s, node))
        if b.op == "ite" and any(l.op == "ref" for l in X.leaves(b)):
            return self.fork(st, X.atom(b.args[0]), lambda s: self.compare(op, a, b.args[1], s, node), lambda s: self.compare(op, a, b.args[2], s, node))
        if a.op == "ref" and self.cell(st, a).kind == "obj":
            c = self.cell(st, a)
            nm = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
            f, _ = c.cls.lookup(nm) if c.cls else (None, None)
            if f is not None:
                return self.call(f, [a, b], {}, st, node)
            if isinstance(op, ast.NotEq) and c.cls:
                f, _ = c.cls.lookup("__eq__")
                if f is not None:
                    return bnot(self.truthv(self.call(f, [a, b], {}, st, node), st))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if c.cls is not None and c.cls.dc and b.op == "ref" and self.cell(st, b).cls is c.cls and a is not b:
                    r = TRUE
                    for n, _d, _o, _a in c.cls.fields():
                        x = self.deep(c.fields.get(n, NONE), st)
                        y = self.deep(self.cell(st, b).fields.get(n, NONE), st)
                        r = band(r, self.eqterm(x, y))
                else:
                    r = TRUE if a is b else FALSE
                return bnot(r) if isinstance(op, ast.NotEq) else r
        if b.op == "ref" and self.cell(st, b).kind == "obj" and isinstance(op, (ast.Eq, ast.NotEq)):
            return FALSE if isinstance(op, ast.Eq) else TRUE
        isl = any(x.op == "ref" and self.cell(st, x).kind in ("list", "set", "dict") for x in (a, b))
        da, db = self.deep(a, st), self.deep(b, st)
        if isinstance(op, (ast.Eq, ast.NotEq)) and (isl or da.op == "tup" or db.op == "tup"):
            if any(x.op == "ref" and self.cell(st, x).kind == "arr" for x in (a, b)):
                r = X.eq(da, db)
            else:
                r = self.eqterm(da, db)
                if any(x.op == "ref" and self.cell(st, x).kind == "set" for x in (a, b)) and da.op == "seq" and db.op == "seq":
                    r = const(set(da.args) == set(db.args)) if all(x.op == "const" for x in da.args + db.args) else X.atom(X.uf("?seteq", [da, db], "bool", True))
            return bnot(r) if isinstance(op, ast.NotEq) else r
        if any(x.op == "ref" and self.cell(st, x).kind == "set" for x in (a, b)):
            if da.op == "seq" and db.op == "seq" and all(x.op == "const" for x in da.args + db.args):
                sa, sb = set(da.args), set(db.args)
                return const({ast.LtE: sa <= sb, ast.Lt: sa < sb, ast.GtE: sa >= sb, ast.Gt: sa > sb}[type(op)])
        if isinstance(op, ast.Eq):
            r = X.eq(da, db)
        elif isinstance(op, ast.NotEq):
            r = X.ew("ne", lambda x, y: bnot(X.s_eq(x, y)), da, db)
        elif isinstance(op, ast.Lt):
            r = X.lt(da, db)
        elif isinstance(op, ast.LtE):
            r = X.le(da, db)
        elif isinstance(op, ast.Gt):
            r = X.lt(db, da)
        else:
            r = X.le(db, da)
        return self.arr(st, r)

    def eqterm(self, a, b):
        """whole-value equality"""
        def f(x, y):
            if x is y:
                return TRUE
            if x.op in ("seq", "tup") and y.op in ("seq", "tup"):
                if len(x.args) != len(y.args):
                    return FALSE
                return X.ball(self.eqterm(p, q) for p, q in zip(x.args, y.args))
            if x.sort == "arr" or y.sort == "arr":
                if x.id > y.id:
                    x, y = y, x
                if x is X.EMPTY or y is X.EMPTY:
                    z = y if x is X.EMPTY else x
                    if z.sort == "arr":
                        return X.lift("eq0", X.eq0, X.length(z))
                return X.atom(X.uf("alleq", [x, y], "bool"))
            return X.s_eq(x, y)
        return X.lift("eqterm", f, a, b)

    @staticmethod
    def _is(a, b):
        if a is NONE or b is NONE:
            return X.isnone(b if a is NONE else a)
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            return FALSE
        if a.op in ("ref", "cls", "func", "ext", "const") and b.op in ("ref", "cls", "func", "ext", "const"):
            return FALSE
        if TRUE in (a, b) or FALSE in (a, b):
            o, k = (a, b) if b in (TRUE, FALSE) else (b, a)
            if o.sort == "bool":
                t = X.truth(o)
                return t if k is TRUE else bnot(t)
        return X.s_eq(a, b)

    def wild(self, c, k, st):
        """what a lookup in a mapping with entries the analysis does not know gives"""
        ws = [x for x in c.fields if x.op == "uf" and str(x.args[0]).startswith("?")]
        if not ws or X.constrain(c.fields.get(k, (FALSE,))[0], st.pc) is TRUE:
            return None
        return X.unknown("dictitem", k, *ws)

    def plainkey(self, c, k):
        """the key names one entry or none"""
        if k.op == "const":
            return all(x.op in ("const", "tup", "cls", "ext", "func") for x in c.fields) or c.fields.get(k, (FALSE,))[0] is TRUE
        return k in c.fields

    def contains(self, box, x, st, node):
        box = X.constrain(box, st.pc)
        if box.op == "ite":
            return self.fork(st, X.atom(box.args[0]), lambda s: self.contains(box.args[1], x, s, node), lambda s: self.contains(box.args[2], x, s, node))
        if box.op == "ref":
            c = self.cell(st, box)
            if c.kind == "dict":
                xv = X.constrain(x, st.pc)
                w = self.wild(c, self.deep(xv, st), st)
                if w is not None:
                    return X.atom(X.uf("?inmap", [w], "bool", True))
                if self.plainkey(c, xv):
                    p = c.fields.get(xv)
                    return p[0] if p else FALSE
                r = FALSE
                for k, (p, _v) in c.fields.items():
                    r = bor(r, band(p, X.eq(k, self.deep(xv, st))))
                return r
            if c.kind == "df":
                return TRUE if x in c.fields else (FALSE if x.op == "const" else X.atom(X.uf("?incol", [x], "bool", True)))
            if c.kind in ("list", "set", "arr"):
                return self.contains(c.content, x, st, node)
            if c.kind == "obj":
                f, _ = c.cls.lookup("__contains__") if c.cls else (None, None)
                if f is not None:
                    return self.truthv(self.call(f, [box, x], {}, st, node), st)
        xd = self.deep(x, st)
        if box.op in ("tup", "seq"):
            return X.bany(self.eqterm(self.deep(k, st), xd) for k in box.args)
        if is_str(box) and is_str(xd):
            return const(cval(xd) in cval(box))
        if box.sort == "str" or is_str(xd) and box.sort == "any":
            return X.lift("contains", lambda b, y: const(cval(y) in cval(b)) if is_str(b) and is_str(y) else X.atom(X.uf("contains", [b, y], "bool")), box, xd)
        if box.op == "dictkeys":
            return self.contains(box.args[0], x, st, node)
        if box.op == "dictvals":
            c = self.cell(st, box.args[0])
            return X.bany(band(p, self.eqterm(self.deep(v, st), xd)) for p, v in c.fields.values())
        if box.op == "range":
            a, b, s_ = box.args
            if s_ is ONE:
                return band(X.le(a, xd), X.lt(xd, b))
        if box.sort == "arr":
            return X.red("any", X.eq(box, xd))
        return X.atom(X.uf("contains", [box, xd], "bool", box.unk))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                d = self.deep(x, st)
                fs = self.eval(v.format_spec, st) if v.format_spec is not None else None
                if is_str(d) and fs is None and v.conversion in (-1, 115):
                    parts.append(d)
                elif d.sort == "str" and fs is None and v.conversion in (-1, 115):
                    parts.append(d)
                else:
                    parts.append(X.uf("str", [self.freeze(d, st)] + ([fs] if fs is not None else []), "str"))
        r = const("")
        for p in parts:
            r = p if (is_str(r) and cval(r) == "") else X.lift("add", X.s_add, r, p)
        return r

    def e_FormattedValue(self, e, st):
        return X.uf("str", [self.deep(self.eval(e.value, st), st)], "str")

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        f = Func("<lambda>", e, fr.fn.module if fr.fn else self.curmod, dict(st.env) if fr.fn else None, fr.fn.cls if fr.fn else None)
        f.qual = (fr.fn.qual if fr.fn else self.curmod.name) + f".<lambda>@{e.lineno}:{e.col_offset}"
        self.bind_defaults(f, e.args, st)
        return objterm("func", f, "func")

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        fr = self.frames[-1]
        v = self.eval(e.value, st) if e.value is not None else NONE
        g = fr.gen
        c = self.cell(st, g)
        self.setcell(st, g, content=X.mk_concat([c.content, X.seq([v])]))
        return NONE

    def e_YieldFrom(self, e, st):
        fr = self.frames[-1]
        v = self.as_content(self.eval(e.value, st), st, e)
        g = fr.gen
        c = self.cell(st, g)
        self.setcell(st, g, content=X.mk_concat([c.content, v]))
        return NONE

    # comprehensions
    def e_ListComp(self, e, st):
        return self.new(st, "list", self.comp(e.generators, lambda s: self.eval(e.elt, s), st), pytype="list")

    def e_GeneratorExp(self, e, st):
        return self.new(st, "list", self.comp(e.generators, lambda s: self.eval(e.elt, s), st), pytype="generator")

    def e_SetComp(self, e, st):
        ct = self.comp(e.generators, lambda s: self.eval(e.elt, s), st)
        return self.new(st, "set", self.uniq(ct), pytype="set")

    def uniq(self, ct):
        if ct.op == "seq":
            return X.seq(list(dict.fromkeys(ct.args)))
        return X.uf("set", [ct], "arr")

    def e_DictComp(self, e, st):
        ct = self.comp(e.generators, lambda s: X.tup((self.eval(e.key, s), self.eval(e.value, s))), st)
        ct = X.constrain(ct, st.pc)
        if ct.op == "seq":
            f = {}
            for x in ct.args:
                f[x.args[0]] = (TRUE, x.args[1])
            return self.new(st, "dict", fields=f, pytype="dict")
        if ct.op == "optseq":
            f = {}
            for c, x in zip(ct.args[::2], ct.args[1::2]):
                f[x.args[0]] = (c, x.args[1])
            return self.new(st, "dict", fields=f, pytype="dict")
        return X.unknown("dictcomp", ct)

    def comp(self, gens, elt, st):
        """content of a comprehension"""
        saved = dict(st.env)
        try:
            r = self._comp(gens, 0, elt, st)
        finally:
            # comprehension variables are local
            for k in list(st.env):
                if k not in saved:
                    pass
            env = dict(st.env)
            tn = set()
            for g in gens:
                tn |= self.assigned([ast.Assign(targets=[g.target], value=ast.Constant(0))])
            for k in tn:
                if k in saved:
                    env[k] = saved[k]
                else:
                    env.pop(k, None)
            st.env = env
        return r

    def _comp(self, gens, k, elt, st):
        g = gens[k]
        it = self.eval(g.iter, st)
        return self._comp_over(gens, k, elt, st, it)

    def _comp_over(self, gens, k, elt, st, it):
        g = gens[k]
        it = X.constrain(it, st.pc)
        q = self.iter_seq(it, st, g.iter)
        if q[0] == "fork":
            return self.fork(st, q[1], lambda s: self._comp_over(gens, k, elt, s, q[2]), lambda s: self._comp_over(gens, k, elt, s, q[3]))
        last = k == len(gens) - 1

        def one(s):
            if last:
                return X.seq([elt(s)])
            return self._comp(gens, k + 1, elt, s)

        if q[0] == "finite":
            parts = []
            opt = []
            symbolic = False
            for x in q[1]:
                self.store(g.target, x, st, g.iter)
                c = TRUE
                s2 = st
                for t in g.ifs:
                    c = band(c, self.truthv(self.eval(t, st), st))
                c = self.cond(c, st)
                if c is FALSE:
                    continue
                if c is TRUE:
                    v = one(st)
                    parts.append(v)
                    opt.append((TRUE, v))
                else:
                    symbolic = True
                    box = []

                    def yes(s):
                        box.append(one(s))
                        return box[0]

                    v = self.fork(st, c, yes, lambda s: X.EMPTY)
                    parts.append(v)
                    opt.append((c, box[0] if box else v))
            if symbolic and last and all(v.op == "seq" and len(v.args) == 1 and v.args[0].op == "tup" for _c, v in opt):
                return X._mk("optseq", tuple(y for c, v in opt for y in (c, v.args[0])), "arr", X._H("optseq", tuple(y.fp for c, v in opt for y in (c, v))))
            return X.mk_concat(parts) if parts else X.EMPTY
        _, n, el = q
        i = X.fresh("i", "num", int=True, nonneg=True)
        s = st.copy()
        self.store(g.target, el(i), s, g.iter)
        mask = TRUE
        for t in g.ifs:
            mask = band(mask, self.truthv(self.eval(t, s), s))
        s.pc = band(s.pc, mask)
        if s.pc is FALSE:
            return X.EMPTY
        caught = []
        self.handlers.append(caught)
        try:
            v = one(s)
        except Dead:
            v = X.unknown("comp-dead")
        self.handlers.pop()
        st.heap = s.heap
        for pc, exc, hs, where, val in caught:
            gcond = X.constrain(pc, st.pc)
            rc = X.red("any", X.lam(n, i, gcond)) if i in gcond.vars else band(self._pos(n), gcond)
            self.do_raise(st, rc, exc, g.iter, val)
        if last:
            el_ = v.args[0] if v.op == "seq" and len(v.args) == 1 else v
            body = self.freeze(el_, s) if el_.op != "ref" or True else el_
            r = X.lam(n, i, body)
        else:
            inner = self.deep(v, s)
            if i in inner.vars or not X.is_const(inner):
                r = flat(X._mk_lam_any(n, i, inner) if hasattr(X, "_mk_lam_any") else X.lam(n, i, inner))
            else:
                r = X.unknown("nestcomp", inner)
        if mask is not TRUE:
            r = X.mk_filt(r, X.lam(n, i, mask))
        return r

    # ------------------------------------------------------------ attribute access
    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__"):
            fr = self.frames[-1]
            c = fr.fn.cls if fr.fn else getattr(self, "curcls", None)
            if c is not None:
                return "_" + c.name.lstrip("_") + n
        return n

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(o, self.mangle(e.attr), st, e)

    def getattr(self, o, name, st, node, default=None):
        o = X.constrain(o, st.pc)
        if o.op == "ite":
            if all(l.op not in ("ref", "cls") for l in X.leaves(o)) and False:
                pass
            return self.on_leaves(o, st, lambda l, s: self.getattr(l, name, s, node, default))
        op = o.op
        if op == "module":
            m = o.args[0]
            if name in m.env:
                return self.unlazy(m.env[name])
            sm = self.load(m.name + "." + name)
            if sm is not None:
                return objterm("module", sm, "module")
            return X.unknown("modattr:" + name)
        if op == "ext":
            return self.extattr(o, name, st, node)
        if op == "cls":
            c = o.args[0]
            if name == "__name__":
                return const(c.name)
            if name == "__qualname__":
                return const(c.name)
            if name == "__doc__":
                return X.sym("doc", "any")
            v, own = c.lookup(name)
            if v is None:
                if name in ("__init__", "__new__"):
                    return X._mk("meth", (name, o), "func", X._H("meth", name, o.fp))
                if default is not None:
                    return default
                if name.startswith("__"):
                    return X.uf("clsattr:" + name, [o], "any")
                if c.ext_bases:
                    return X.uf("attr:" + name, [o], "any")
                self.do_raise(st, TRUE, "AttributeError", node)
            if v.op == "static":
                return v.args[0]
            if v.op == "clsm":
                return X.node("bound", (v.args[0], o), "func")
            if v.op == "prop":
                return v
            if v.op == "marked":
                return v.args[1]
            return v
        if op == "func":
            if name == "__name__":
                return const(o.args[0].name)
            if name in o.args[0].__dict__.get("attrs", {}):
                return o.args[0].attrs[name]
            return X.uf("fnattr:" + name, [o], "any")
        if op == "prop":
            if name == "setter":
                return X._mk("propset", (o,), "propset", X._H("propset", id(o)))
            if name in ("getter", "deleter"):
                return self.ext("builtins.identity")
            if name == "fget":
                return o.args[0]
        if op == "super":
            return self.superattr(o, name, st, node)
        if op == "ref":
            c = self.cell(st, o)
            if c.kind in ("obj",):
                if name == "__class__":
                    return objterm("cls", c.cls, "class") if c.cls else X.unknown("class")
                if name == "__dict__":
                    return self.new(st, "dict", fields={const(k): (TRUE, v) for k, v in c.fields.items()}, pytype="dict", meta={"dictof": o})
                cv, own = c.cls.lookup(name) if c.cls else (None, None)
                if cv is not None and cv.op == "prop":
                    return self.call(cv.args[0], [o], {}, st, node)
                if name in c.fields:
                    v = c.fields[name]
                    if v.op == "ite" and UNBOUND in X.leaves(v):
                        v = X.constrain(v, st.pc)
                        cnd = X.lift("isunb", lambda l: TRUE if l is UNBOUND else FALSE, v)
                        self.do_raise(st, cnd, "AttributeError", node)
                        v = X.constrain(v, bnot(cnd))
                    if v is UNBOUND:
                        self.do_raise(st, TRUE, "AttributeError", node)
                    return v
                if cv is not None:
                    if cv.op == "static":
                        return cv.args[0]
                    if cv.op == "clsm":
                        return X.node("bound", (cv.args[0], objterm("cls", c.cls, "class")), "func")
                    if cv.op == "func":
                        return X.node("bound", (cv, o), "func")
                    if cv.op == "marked":
                        return X.node("bound", (cv.args[1], o), "func")
                    if cv.op == "ref" and self.cell(st, cv).kind == "obj" and self.cell(st, cv).cls and self.cell(st, cv).cls.lookup("__get__")[0]:
                        g, _ = self.cell(st, cv).cls.lookup("__get__")
                        return self.call(g, [cv, o, objterm("cls", c.cls, "class")], {}, st, node)
                    return cv
                ga, _ = c.cls.lookup("__getattr__") if c.cls else (None, None)
                if ga is not None:
                    return self.call(ga, [o, const(name)], {}, st, node)
                if default is not None:
                    return default
                if c.cls is not None and (c.cls.ext_bases and any(x.split(".")[-1] not in ("ABC", "object") for k in c.cls.mro() for x in k.ext_bases)):
                    return X.uf("attr:" + name, [o], "any", True)
                self.event("noattr", st, node, name=name)
                self.do_raise(st, TRUE, "AttributeError", node)
            if c.kind == "df":
                k = const(name)
                if k in c.fields:
                    return c.fields[k][1]
                if c.meta and name in c.meta:
                    return c.meta[name]
                acc = self.accessors().get(name)
                if acc is not None:
                    return self.instantiate(acc, [o], {}, st, node)
                if default is not None:
                    return default
        if op == "slc" and name in ("start", "stop", "step"):
            return o.args[("start", "stop", "step").index(name)]
        if name == "__class__" and (o.op != "ref" or self.cell(st, o).kind != "obj"):
            return self.models.b_type(self, [o], {}, st, node)
        if name == "__name__" and o.op == "uf" and o.args[0] == "type" and o.args[1].sort in ("num", "bool"):
            f = X.SYM.get(o.args[1], {})
            return const(f.get("pytype") or ("bool" if o.args[1].sort == "bool" else "int" if f.get("int") else "float"))
        if o is NONE and name not in ("__class__",):
            if default is not None:
                return default
            self.event("none-attr", st, node, name=name)
            self.do_raise(st, TRUE, "AttributeError", node)
        return self.models.attr(self, o, name, st, node, default)

    def accessors(self):
        if not hasattr(self, "_acc"):
            self._acc = {}
            for m in self.modules.values():
                for v in m.env.values():
                    if v.op == "cls":
                        for n, d in getattr(v.args[0], "decos", []):
                            if isinstance(d, ast.Call) and "accessor" in ast.unparse(d.func) and d.args and isinstance(d.args[0], ast.Constant):
                                self._acc[d.args[0].value] = v
        return self._acc

    def superattr(self, o, name, st, node):
        cls, inst, kind = o.args
        c = cls.args[0]
        ic = c
        if inst.op == "ref" and self.cell(st, inst).cls is not None:
            ic = self.cell(st, inst).cls
        elif inst.op == "cls":
            ic = inst.args[0]
        mro = ic.mro()
        if c in mro:
            mro = mro[mro.index(c) + 1:]
        for k in mro:
            if name in k.ns:
                v = k.ns[name]
                if v.op == "prop":
                    return self.call(v.args[0], [inst], {}, st, node)
                if v.op == "func":
                    return X.node("bound", (v, inst), "func")
                if v.op == "clsm":
                    return X.node("bound", (v.args[0], inst if inst.op == "cls" else objterm("cls", ic, "class")), "func")
                if v.op == "static":
                    return v.args[0]
                return v
        return X._mk("meth", ("super." + name, inst), "func", X._H("supermeth", name, inst.fp))

    def extattr(self, o, name, st, node):
        if name in ("__name__", "__qualname__"):
            return const(o.args[0].split(".")[-1])
        full = o.args[0] + "." + name
        r = self.models.extconst(self, full, st)
        return r if r is not None else self.ext(full)

    def setattr(self, o, name, v, st, node):
        o = X.constrain(o, st.pc)
        if o.op == "ite":
            self.on_leaves(o, st, lambda l, s: self.setattr(l, name, v, s, node))
            return
        if o.op == "ref":
            c = self.cell(st, o)
            if c.kind == "obj":
                cv, _ = c.cls.lookup(name) if c.cls else (None, None)
                if cv is not None and cv.op == "prop":
                    if cv.args[1] is None:
                        self.event("set-readonly", st, node, name=name)
                        self.do_raise(st, TRUE, "AttributeError", node)
                    self.call(cv.args[1], [o, v], {}, st, node)
                    return
                sa, _ = c.cls.lookup("__setattr__") if c.cls else (None, None)
                if sa is not None:
                    self.call(sa, [o, const(name), v], {}, st, node)
                    return
                if c.cls is not None and c.cls.dcopts.get("frozen") is not None and getattr(c.cls.dcopts["frozen"], "value", False) and not getattr(self, "in_init", None) == o:
                    self.do_raise(st, TRUE, "FrozenInstanceError", node)
                self.rawset(o, name, v, st, node)
                return
            if c.kind == "df":
                self.write(st, o, node, "." + name)
                k = const(name)
                if k in c.fields:
                    self.setcell(st, o, fields={**c.fields, k: (TRUE, v)})
                else:
                    self.setcell(st, o, meta={**(c.meta or {}), name: v})
                return
            self.write(st, o, node, "." + name)
            return
        if o.op == "cls":
            self.event("global-write", st, node, what=f"{o.args[0].name}.{name}")
            o.args[0].ns[name] = v
            return
        if o.op == "func":
            self.event("global-write", st, node, what=f"{o.args[0].name}.{name}")
            o.args[0].__dict__.setdefault("attrs", {})[name] = v
            return
        if o.op in ("module", "ext"):
            self.event("global-write", st, node, what=f"{o}.{name}")
            return
        if o is NONE:
            self.do_raise(st, TRUE, "AttributeError", node)
        self.event("attr-write", st, node, what=name, obj=o)

    def rawset(self, o, name, v, st, node):
        c = self.cell(st, o)
        old = c.fields.get(name)
        self.write(st, o, node, "." + name, old=old, new=v)
        self.setcell(st, o, fields={**c.fields, name: v})

    # ------------------------------------------------------------ subscripts
    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            f = lambda x: self.deep(self.eval(x, st), st) if x is not None else NONE
            return X.node("slc", (f(sl.lower), f(sl.upper), f(sl.step)), "slc")
        if isinstance(sl, ast.Tuple):
            return X.tup([self.eval_index(x, st) for x in sl.elts])
        return self.eval(sl, st)

    def e_Slice(self, e, st):
        return self.eval_index(e, st)

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if o.op in ("cls",) or (o.op == "ext" and o.args[0].split(".")[0] in ("typing", "builtins", "collections", "typing_extensions", "nptyping")) or (o.op == "ext" and o.args[0].startswith("numpy.typing")):
            return o
        k = self.eval_index(e.slice, st)
        return self.getitem(o, k, st, e)

    def getitem(self, o, k, st, node):
        o = X.constrain(o, st.pc)
        k = X.constrain(k, st.pc)
        if o.op == "ite" and any(l.op in ("ref", "cls") for l in X.leaves(o)):
            return self.on_leaves(o, st, lambda l, s: self.getitem(l, k, s, node))
        if k.op == "ite" and any(l.op in ("tup", "const", "ref") and (l.op != "const" or not is_num(l)) for l in X.leaves(k)):
            return self.on_leaves(k, st, lambda l, s: self.getitem(o, l, s, node))
        if o.op == "ref":
            c = self.cell(st, o)
            if c.kind == "dict":
                kd = self.deep(k, st)
                w = self.wild(c, kd, st)
                if w is not None:
                    return w
                if self.plainkey(c, kd):
                    p, v = c.fields.get(kd, (FALSE, UNBOUND))
                    d = (c.meta or {}).get("default", NONE)
                    if d is not NONE and X.constrain(p, st.pc) is FALSE:
                        v = self.call(d, [], {}, st, node)
                        self.write(st, o, node, "missing key")
                        if v.op == "ref" and c.origin is not None and self.cell(st, v).origin is None:
                            self.setcell(st, v, origin=c.origin)  # what it holds belongs to it
                        self.setcell(st, o, fields={**self.cell(st, o).fields, kd: (TRUE, v)})
                        return v
                    self.do_raise(st, bnot(p), "KeyError", node)
                    return v
                r = None
                hit = FALSE
                for kk, (p, v) in c.fields.items():
                    e_ = band(p, X.eq(kk, kd))
                    hit = bor(hit, e_)
                    r = v if r is None else select(e_, v, r)
                if r is None:
                    self.do_raise(st, TRUE, "KeyError", node)
                self.do_raise(st, bnot(hit), "KeyError", node)
                return r
            if c.kind == "df":
                kd = self.deep(k, st)
                if kd in c.fields:
                    return c.fields[kd][1]
                if kd.op == "const":
                    self.do_raise(st, TRUE, "KeyError", node)
                return X.uf("dfitem", [kd], "any", True)
            if c.kind == "obj":
                f, _ = c.cls.lookup("__getitem__") if c.cls else (None, None)
                if f is not None:
                    return self.call(f, [o, k], {}, st, node)
                return X.unknown("getitem", k)
            ct = c.content
            if c.kind in ("list",) and k.op != "slc":
                kd = self.deep(k, st)
                if kd.sort == "num" or kd.op == "ite":
                    return self.list_elem(ct, kd, st, node)
                if kd.op == "tup" and c.pytype == "list":
                    self.do_raise(st, TRUE, "TypeError", node)
            ctd = self.deep(ct, st)
            kd = self.deep(k, st)
            r = self.index_term(ctd, kd, st, node)
            if X.is_arr(r):
                view = c.kind == "arr" and self.is_view_key(kd)
                if c.kind == "list" and kd.op == "slc":
                    # list slices keep the element references
                    r0 = self.index_term(ct, kd, st, node)
                    return self.new(st, "list", r0, pytype="list")
                return self.new(st, "arr", r, pytype=c.pytype if c.pytype in ("list",) and kd.op == "slc" else "ndarray", base=(o if view else None), **({"meta": {"row": kd}} if view and kd.sort == "num" and X.is2d(ct) else {}))
            if r.op == "ite":
                return self.arr(st, r)
            return r
        kd = self.deep(k, st)
        if o.op == "tup" and is_num(kd):
            i = int(cval(kd))
            if -len(o.args) <= i < len(o.args):
                return o.args[i]
            self.do_raise(st, TRUE, "IndexError", node)
        if o.op == "tup" and kd.op == "slc":
            r = self.index_term(X.seq(o.args), kd, st, node)
            return X.tup(r.args) if r.op == "seq" else r
        if o.op == "tup":
            return self.index_term(X.seq(o.args), kd, st, node)
        if o.op == "ite":
            return X.lift("getitem", lambda l: self.index_term(X.seq(l.args) if l.op == "tup" else l, kd, st, node), o)
        if o is NONE:
            self.do_raise(st, TRUE, "TypeError", node)
        if o.op == "ext" and o.args[0] in ("numpy.r_", "numpy.c_", "numpy.s_"):
            return self.models.r_(self, st, kd, o.args[0])
        if is_str(o):
            if is_num(kd):
                return const(cval(o)[int(cval(kd))])
            if kd.op == "slc" and all(x is NONE or is_num(x) for x in kd.args):
                return const(cval(o)[slice(*[None if x is NONE else int(cval(x)) for x in kd.args])])
        if o.sort == "str":
            return X.uf("strindex", [o, kd], "str")
        return self.arr(st, self.index_term(o, kd, st, node))

    def list_elem(self, ct, k, st, node):
        if ct.op == "ite":
            return self.fork(st, X.atom(ct.args[0]), lambda s: self.list_elem(ct.args[1], k, s, node), lambda s: self.list_elem(ct.args[2], k, s, node))
        if ct.op == "seq" and is_num(k):
            i = int(cval(k))
            if -len(ct.args) <= i < len(ct.args):
                return ct.args[i]
            self.event("index-error", st, node)
            self.do_raise(st, TRUE, "IndexError", node)
        r = X.elem(ct, k) if ct.sort == "arr" else X.uf("idx", [ct, k], "any", ct.unk)
        return self.arr(st, r) if X.is_arr(r) else r

    def is_view_key(self, k):
        if k.op == "slc":
            return True
        if k.op == "tup":
            return all(x.op == "slc" or x.sort == "num" or x is NONE or (x.op == "const") for x in k.args)
        return k.sort == "num" and k.op != "ite"

    def index_arms(self, c, f1, f2, st):
        """index both arms of a gated value; what an arm raises holds under its condition only"""
        c = X.atom(c)
        out, ends, raised = [], [], False
        for g, f in ((c, f1), (bnot(c), f2)):
            s = st.copy()
            s.pc = p = band(st.pc, g)
            try:
                out.append(f(s))
                raised = raised or s.pc is not p
                ends.append(s.pc)
            except Dead:
                out.append(None)
                raised = True
        if raised:
            if not ends:
                st.pc = FALSE
                raise Dead
            st.pc = ends[0] if len(ends) == 1 else X.bor(*ends)
            if out[0] is None or out[1] is None:
                return out[0] if out[1] is None else out[1]
        return select(c, *out)

    def index_term(self, ct, k, st, node):
        """pure indexing of an array term"""
        if ct.op == "ite":
            return self.index_arms(ct.args[0], lambda s: self.index_term(ct.args[1], k, s, node), lambda s: self.index_term(ct.args[2], k, s, node), st)
        if k.op == "ite":
            return self.index_arms(k.args[0], lambda s: self.index_term(ct, k.args[1], s, node), lambda s: self.index_term(ct, k.args[2], s, node), st)
        if k.op == "slc":
            return self.slice_term(ct, k)
        if k.op == "tup":
            ks = list(k.args)
            if len(ks) == 1:
                return self.index_term(ct, ks[0], st, node)
            full = X.node("slc", (NONE, NONE, NONE), "slc")
            if ks and ks[0].op == "const" and ks[0].args[0][0] == "e":
                ks = [full] + ks[1:]
            if len(ks) == 2:
                a, b = ks
                if a is full and b.sort == "num":
                    return self.col(ct, b)
                if a.sort == "num" and b is full:
                    return self.index_term(ct, a, st, node)
                if a is full and b.op == "slc":
                    if ct.op == "cols":
                        r = self.slice_term(X.seq(ct.args), b)
                        if r.op == "seq":
                            return X.node("cols", r.args)
                    if b is full:
                        return ct
                    return X.uf("cols_slice", [ct, b], "arr")
                if a is full and b is NONE:
                    return X.uf("column", [ct], "arr")
                if a is NONE and b is full:
                    return X.uf("row", [ct], "arr")
                if a.sort == "num" and b.sort == "num":
                    row = self.index_term(ct, a, st, node)
                    return self.index_term(row, b, st, node)
                if a.op == "slc" and b.sort == "num":
                    return self.slice_term(self.col(ct, b), a)
                if a.op == "slc" and b.op == "slc":
                    inner = self.slice_term(ct, a)
                    if b is full:
                        return inner
                    return self.index_term(inner, X.tup((full, b)), st, node)
                m = self.mask_of(a)
                if m is not None and b.sort == "num":
                    return X.mk_filt(self.col(ct, b), m)
                if m is not None and b is full:
                    return X.mk_filt(ct, m)
                if a.sort == "num" and b.op == "slc":
                    return self.slice_term(self.index_term(ct, a, st, node), b)
                if a.sort == "arr" and b.sort == "num":
                    return self.index_term(self.col(ct, b), a, st, node)
                if a.sort == "arr" and b is full:
                    return X.uf("rows_at", [ct, a], "arr")
                if a is full and b.sort == "arr":
                    if ct.op == "cols" and b.op == "seq" and all(is_num(x) for x in b.args):
                        return X.node("cols", [ct.args[int(cval(x))] for x in b.args])
            return X.uf("index", [ct, k], "any")
        if ct.op in ("seq",) and is_num(k):
            i = int(cval(k))
            if -len(ct.args) <= i < len(ct.args):
                return ct.args[i]
            self.do_raise(st, TRUE, "IndexError", node)
        m = self.mask_of(k)
        if m is not None and ct.sort == "arr":
            return X.mk_filt(ct, m)
        if k.sort == "num" or k.op in ("poly", "var", "bv"):
            if ct.sort == "arr":
                if self._negidx(k):
                    return X.elem(ct, X.add(X.length(ct), k))
                if ct is X.EMPTY:
                    self.do_raise(st, TRUE, "IndexError", node)
                return X.elem(ct, k)
            if ct.op in ("sym", "var", "uf", "fold"):
                s_ = X.SYM.get(ct, {}).get("elem", "any")
                return X.uf("idx", [ct, k], s_, ct.unk)
        if k.sort == "arr" and ct.sort == "arr":
            return take(ct, k)
        if k.sort in ("str", "any") or ct.sort == "any":
            return X.uf("getitem", [ct, k], "any", ct.unk)
        return X.uf("?index", [ct, k], "any", True)

    def _negidx(self, k):
        return is_num(k) and cval(k) < 0

    def col(self, ct, j):
        if ct.op == "ite":
            return select(X.atom(ct.args[0]), self.col(ct.args[1], j), self.col(ct.args[2], j))
        if ct.op == "cols" and is_num(j):
            return ct.args[int(cval(j))]
        if ct.op == "seq" and is_num(j) and ct.args and all(r.op in ("seq", "tup") for r in ct.args):
            return X.seq([r.args[int(cval(j))] for r in ct.args])
        if ct.op == "lam" and is_num(j) and ct.args[1].op in ("seq", "tup"):
            i = X.fresh("i", "num", int=True, nonneg=True)
            row = X.elem(ct, i)
            return X.lam(ct.args[0], i, row.args[int(cval(j))])
        if ct.op == "filt":
            return X.mk_filt(self.col(ct.args[0], j), ct.args[1])
        if ct.op == "concat":
            return X.mk_concat([self.col(p, j) for p in ct.args])
        if ct.op == "slice":
            return X.mk_slice(self.col(ct.args[0], j), ct.args[1], ct.args[2])
        if ct.op == "uf" and ct.args[0] == "transpose":
            return X.elem(ct.args[1], j) if X.is_arr(ct.args[1]) else X.uf("col", [ct, j], "arr")
        return X.uf("col", [ct, j], "arr", ct.unk)

    def slice_term(self, ct, k):
        lo, hi, stp = k.args
        if lo.op == "ite" or hi.op == "ite":
            return X.lift("slice3", lambda a, b: self.slice_term(ct, X.node("slc", (a, b, stp), "slc")), lo, hi)
        if ct.op == "tup":
            ct = X.seq(ct.args)
        if is_str(ct):
            return X.uf("strslice", [ct, k], "str")
        if stp is not NONE and stp is not ONE:
            if is_num(stp) and cval(stp) == -1 and lo is NONE and hi is NONE:
                if ct.op == "seq":
                    return X.seq(ct.args[::-1])
                return X.uf("reverse", [ct], "arr")
            if ct.op == "seq" and all(x is NONE or is_num(x) for x in (lo, hi, stp)):
                return X.seq(ct.args[slice(*[None if x is NONE else int(cval(x)) for x in (lo, hi, stp)])])
            if lo is NONE or lo is ZERO:
                if hi is NONE and is_num(stp) and cval(stp) > 0:
                    pass
            return X.uf("strided", [ct, lo, hi, stp], "arr")
        n = X.length(ct)
        if n.op == "ite":
            v = n.args[0]
        if ct.op == "seq" and all(x is NONE or is_num(x) for x in (lo, hi)):
            return X.seq(ct.args[slice(*[None if x is NONE else int(cval(x)) for x in (lo, hi)])])
        if ct.sort != "arr":
            return X.uf("sliceof", [ct, k], "any", ct.unk)
        off = ZERO if lo is NONE else lo
        if is_num(off) and cval(off) < 0:
            off = X.add(n, off)
        if hi is NONE:
            cnt = X.sub(n, off)
        elif is_num(hi) and cval(hi) < 0:
            cnt = X.sub(X.add(n, hi), off)
        else:
            cnt = X.sub(hi, off)
        return X.mk_slice(ct, off, cnt)

    def setitem(self, o, k, v, st, node):
        o = X.constrain(o, st.pc)
        if o.op == "ite":
            self.on_leaves(o, st, lambda l, s: self.setitem(l, k, v, s, node))
            return
        if o.op != "ref":
            if o.op == "ext":
                self.event("global-write", st, node, what=f"{o}[]")
                return
            self.event("item-write", st, node, obj=o)
            return
        c = self.cell(st, o)
        kd = self.deep(k, st)
        if c.kind == "obj":
            f, _ = c.cls.lookup("__setitem__") if c.cls else (None, None)
            if f is not None:
                self.call(f, [o, k, v], {}, st, node)
                return
            self.event("item-write", st, node, obj=o)
            return
        self.write(st, o, node, "[..] =")
        if c.kind == "dict":
            if kd.op == "ite":
                self.on_leaves(kd, st, lambda l, s: self.setitem(o, l, v, s, node))
                return
            self.setcell(st, o, fields={**c.fields, kd: (TRUE, v)})
            if c.meta and "dictof" in c.meta:
                self.write(st, c.meta["dictof"], node, "__dict__[..] =")
            return
        if c.kind == "df":
            self.setcell(st, o, fields={**c.fields, kd: (TRUE, v)})
            return
        ct = self.deep(c.content, st)
        vd = self.deep(v, st)
        if c.kind == "list" and c.content.op == "seq" and is_num(kd):
            xs = list(c.content.args)
            i = int(cval(kd))
            if -len(xs) <= i < len(xs):
                xs[i] = v
                self.setcell(st, o, content=X.seq(xs))
                return
        if c.meta and "#dtype" in c.meta:
            from models import coerce
            vd = coerce(c.meta["#dtype"], vd)
        self.put_content(st, o, self.store_term(ct, kd, vd))

    def put_content(self, st, o, new):
        """update the content of an array cell and of the arrays it is a view of"""
        c = self.cell(st, o)
        self.setcell(st, o, content=new)
        if c.base is not None and c.base.op == "ref":
            b = self.cell(st, c.base)
            if c.meta and "row" in c.meta:
                self.put_content(st, c.base, X.mk_store(b.content, c.meta["row"], new))
            elif b.content is not None and X.length(b.content) is X.length(new) and b.content.op != "cols":
                self.put_content(st, c.base, new)
            else:
                self.put_content(st, c.base, X.unknown("view-store", b.content if b.content is not None else NONE, new))

    def store_term(self, ct, k, v):
        if ct.op == "ite":
            memo = self.stored
            if (ct, k, v) not in memo:
                memo[ct, k, v] = select(X.atom(ct.args[0]), self.store_term(ct.args[1], k, v), self.store_term(ct.args[2], k, v))
            return memo[ct, k, v]
        m = self.mask_of(k)
        if m is not None:
            if X.is_arr(v):
                # x[m] = y[m]
                if v.op == "filt" and v.args[1] is m:
                    return X.ew("where", self._where, m, v.args[0], ct)
                if X.length(v) is X.length(ct) or True:
                    return X.uf("?maskstore", [ct, m, v], "arr", True)
            return X.ew("where", self._where, m, v, ct)
        if k.op == "slc":
            lo, hi, stp = k.args
            if lo is NONE and hi is NONE and stp is NONE:
                if X.is_arr(v):
                    return v
                return X.full(X.length(ct), v)
            n = X.length(ct)
            off = ZERO if lo is NONE else lo
            if is_num(off) and cval(off) < 0:
                off = X.add(n, off)
            end = n if hi is NONE else (X.add(n, hi) if is_num(hi) and cval(hi) < 0 else hi)
            if stp is NONE and all(x.op != "ite" for x in (off, end, n)):
                mid = v if X.is_arr(v) else X.full(X.sub(end, off), v)
                return X.mk_concat([X.mk_slice(ct, ZERO, off), mid, X.mk_slice(ct, end, X.sub(n, end))])
            return X.uf("?slicestore", [ct, k, v], "arr", True)
        if k.op == "tup":
            full = X.node("slc", (NONE, NONE, NONE), "slc")
            if len(k.args) == 2 and k.args[1] is full and k.args[0].sort == "num":
                return X.lift("store", X.mk_store, ct, k.args[0], v) if v.op != "ite" else X.lift("store", X.mk_store, ct, k.args[0], v)
            if len(k.args) == 2 and k.args[0] is full and is_num(k.args[1]) and ct.op == "cols":
                cs = list(ct.args)
                j = int(cval(k.args[1]))
                cs[j] = v if X.is_arr(v) else X.full(X.length(cs[j]), v)
                return X.node("cols", cs)
            return X.node("store", (ct, k, v))
        if k.op == "ite":
            return select(X.atom(k.args[0]), self.store_term(ct, k.args[1], v), self.store_term(ct, k.args[2], v))
        if is_num(k) and cval(k) < 0:
            k = X.add(X.length(ct), k)
        if ct.op == "lam" and k.sort == "num" and v.sort != "arr" and False:
            pass
        return X.mk_store(ct, k, v)

    # ------------------------------------------------------------ effects
    def write(self, st, o, node, how, **kw):
        seen = set()
        while o is not None and o.op == "ref" and o not in seen:
            seen.add(o)
            c = st.heap.get(o.args[0])
            if c is None:
                return
            if c.origin is not None:
                self.event("write", st, node, origin=c.origin, how=how, ref=o, **kw)
            o = c.base

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and e.func.id not in st.env:
            return self.do_super(e, st)
        f = self.eval(e.func, st)
        args = self.eval_args(e.args, st)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                v = X.constrain(v, st.pc)
                if v.op == "ref" and self.cell(st, v).kind == "dict":
                    for kk, (p, vv) in self.cell(st, v).fields.items():
                        if is_str(kk):
                            p = X.constrain(p, st.pc)
                            if p is TRUE:
                                kw[cval(kk)] = vv
                            elif p is FALSE:
                                pass
                            else:
                                kw[cval(kk)] = select(p, vv, X._mk("absent", (), "absent", X._H("absent")))
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def do_super(self, e, st):
        fr = self.frames[-1]
        cls = objterm("cls", fr.fn.cls, "class")
        first = fr.fn.node.args.args[0].arg if fr.fn.node.args.args else None
        inst = st.env.get(first, NONE)
        return X._mk("super", (cls, inst, "s"), "super", X._H("super", cls.fp, inst.fp))

    def call(self, f, args, kw, st, node):
        f = X.constrain(f, st.pc)
        if f.op == "ite":
            return self.on_leaves(f, st, lambda l, s: self.call(l, args, kw, s, node))
        if any(v.op == "ite" and any(l.op == "absent" for l in X.leaves(v)) for v in kw.values()):
            k = next(k for k, v in kw.items() if v.op == "ite" and any(l.op == "absent" for l in X.leaves(v)))
            v = kw[k]
            c = X.lift("isabs", lambda l: TRUE if l.op == "absent" else FALSE, v)
            rest = {a: b for a, b in kw.items() if a != k}
            return self.fork(st, c, lambda s: self.call(f, args, rest, s, node), lambda s: self.call(f, args, {**kw, k: X.constrain(v, bnot(c))}, s, node))
        op = f.op
        if op == "func":
            return self.call_func(f, args, kw, st, node)
        if op == "bound":
            return self.call(f.args[0], [f.args[1]] + list(args), kw, st, node)
        if op == "cls":
            return self.instantiate(f, args, kw, st, node)
        if op == "meth":
            return self.models.method(self, f.args[0], f.args[1], args, kw, st, node)
        if op == "ext":
            if f.args[0] in self.extover:
                return self.call(self.extover[f.args[0]], args, kw, st, node)
            return self.models.call(self, f.args[0], args, kw, st, node)
        if op == "partial":
            pa, pk = f.args[1], f.args[2]
            return self.call(f.args[0], list(pa.args) + list(args), {**dict(pk), **kw}, st, node)
        if op == "static":
            return self.call(f.args[0], args, kw, st, node)
        if op == "marked":
            return self.call(f.args[1], args, kw, st, node)
        if op == "ref":
            c = self.cell(st, f)
            if c.kind == "obj" and c.cls:
                m, _ = c.cls.lookup("__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kw, st, node)
        if f is NONE:
            self.do_raise(st, TRUE, "TypeError", node)
        if op == "uf" and str(f.args[0]).startswith("?ext"):
            return X.uf("?call:" + str(f.args[0]), [self.freeze(self.deep(a, st), st) for a in args], "any", True)
        if op == "uf" and str(f.args[0]).startswith("attr:"):
            # method of an opaque input object: pure function of its arguments
            nm = f.args[0][5:]
            return X.uf("call:" + nm, [f.args[1]] + [self.freeze(self.deep(a, st), st) for a in args] + [self.freeze(self.deep(a, st), st) for _, a in sorted(kw.items())], "any", f.unk)
        if op == "decofactory":
            return args[0] if args else X.unknown("deco")
        return X.uf("?call", [f] + [self.deep(a, st) for a in args], "any", True)

    def bind(self, f, args, kw, st, node):
        """parameter environment, or raises TypeError in the analysed program"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        extra = []
        star = None
        for i, v in enumerate(args):
            if v.op == "star":
                star = v
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if star is not None:
            k = len([x for x in args if x.op != "star"])
            j = 0
            for p in pos[k:]:
                if p not in kw:
                    env[p] = X.elem(star.args[0], const(j)) if star.args[0].sort == "arr" else X.unknown("star", star.args[0])
                    j += 1
            if a.vararg:
                extra.append(star)
        if extra and not a.vararg and star is None:
            self.do_raise(st, TRUE, "TypeError", node)
        if a.vararg:
            if any(x.op == "star" for x in extra):
                ct = X.mk_concat([x.args[0] if x.op == "star" else X.seq([x]) for x in extra])
                env[a.vararg.arg] = self.new(st, "list", ct, pytype="tuple")
            else:
                env[a.vararg.arg] = X.tup(extra)
        rest = {}
        kwo = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                continue
            if k in pos or k in kwo:
                if k in env and k not in f.defaults and False:
                    self.do_raise(st, TRUE, "TypeError", node)
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.event("bad-call", st, node, what=f"unexpected keyword {k} in call of {f.qual}")
                self.do_raise(st, TRUE, "TypeError", node)
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, "dict", fields={const(k): (TRUE, v) for k, v in rest.items()}, pytype="dict", meta={"kwargs": True})
        for p in pos + kwo:
            if p not in env:
                if p in f.defaults:
                    env[p] = f.defaults[p]
                elif "**" in kw:
                    env[p] = X.unknown("kw:" + p, kw["**"])
                else:
                    self.event("bad-call", st, node, what=f"missing argument {p} in call of {f.qual}")
                    self.do_raise(st, TRUE, "TypeError", node)
        return env

    def call_func(self, ft, args, kw, st, node):
        f = ft.args[0]
        if f.qual in self.overrides:
            return self.overrides[f.qual](self, args, kw, st, node)
        if self.depth > 40 or self.callstack.count(f) >= 2 or f.qual in self.nocall:
            return X.uf("?rec:" + f.qual, [self.deep(a, st) for a in args if isinstance(a, T)], "any", True)
        if getattr(f, "memo", False):
            self.event("global-write", st, node, what=f"cache of {f.name}")
        env = self.bind(f, args, kw, st, node)
        if not self.quiet:
            self.calls.append((f.qual, self.where(node), st.pc))
        isgen = not isinstance(f.node, ast.Lambda) and self.is_gen(f)
        fr = Frame(f)
        self.frames.append(fr)
        self.callstack.append(f)
        self.depth += 1
        st.stack = st.stack + [st.env]
        st.env = env
        oldint = getattr(self, "_intnames", set())
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st)
                fr.returns.append((st.pc, v, st.copy(), f.node))
            else:
                if isgen:
                    fr.gen = self.newlist(st, [])
                try:
                    self.exec_block(f.node.body, st)
                    fr.returns.append((st.pc, NONE, st.copy(), f.node))
                except Dead:
                    pass
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.depth -= 1
            self._intnames = oldint
        outer = st.stack[-1]
        rets = [r for r in fr.returns if r[0] is not FALSE]
        if not rets:
            st.stack = st.stack[:-1]
            st.env = outer
            st.pc = FALSE
            raise Dead
        # merge return completions
        acc = None
        for pc, v, s, _n in reversed(rets):
            if acc is None:
                acc = (s.copy(), v)
                continue
            s0, v0 = acc
            c = X.constrain(s.pc, bor(s.pc, s0.pc))
            m = s.copy()
            m.env = {}
            s0.env = {}
            self.merge2(m, s0, c)
            acc = (m, select(c, v, v0))
        s, v = acc
        s.env = outer
        s.stack = s.stack[:-1]
        st.assign(s)
        if isgen:
            return fr.gen
        return v

    _gen: dict = {}

    def is_gen(self, f):
        r = self._gen.get(f)
        if r is None:
            r = False
            todo = list(f.node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                todo += list(ast.iter_child_nodes(x))
            self._gen[f] = r
        return r

    def instantiate(self, ct, args, kw, st, node):
        c = ct.args[0]
        if any(b.endswith(("Exception", "Error", "Warning")) for k in c.mro() for b in k.ext_bases):
            o = self.new(st, "obj", fields={}, cls=c)
            return o
        if any(b.split(".")[-1] in ("Enum", "IntEnum") for k in c.mro() for b in k.ext_bases):
            return X.uf("enum:" + c.name, [self.deep(a, st) for a in args])
        new, _ = c.lookup("__new__")
        o = self.new(st, "obj", fields={}, cls=c)
        init, own = c.lookup("__init__")
        dcown = next((k for k in c.mro() if k.dc), None)
        if init is not None and not (dcown is not None and c.mro().index(own) > c.mro().index(dcown)):
            self.call(init, [o] + list(args), kw, st, node)
            return o
        if dcown is not None:
            self.dc_init(o, c, args, kw, st, node)
            return o
        if args or kw:
            if not c.ext_bases:
                self.event("bad-call", st, node, what=f"{c.name}() takes no arguments")
        return o

    def dc_init(self, o, c, args, kw, st, node):
        flds = [f for f in c.fields() if not ("ClassVar" in ast.unparse(f[3]))]
        vals = {}
        posi = [f for f in flds]
        if len([a for a in args if a.op != "star"]) > len(posi):
            self.do_raise(st, TRUE, "TypeError", node)
        for (n, d, own, ann), v in zip(posi, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in [f[0] for f in flds]:
                self.event("bad-call", st, node, what=f"unexpected keyword {k} for {c.name}")
                self.do_raise(st, TRUE, "TypeError", node)
            vals[k] = v
        for n, d, own, ann in flds:
            if n not in vals:
                if d is None:
                    self.event("bad-call", st, node, what=f"missing field {n} for {c.name}")
                    self.do_raise(st, TRUE, "TypeError", node)
                vals[n] = self.field_default(d, st, node)
        # pydantic validation in field order
        good = self.new(st, "dict", fields={}, pytype="dict")
        for n, d, own, ann in flds:
            v = vals[n]
            if c.dc == "pydantic" or own.dc == "pydantic":
                v, ok = self.models.pydantic_field(self, n, v, ann, c, good, st, node)
                g = self.cell(st, good).fields
                self.setcell(st, good, fields={**g, const(n): (ok, v)})
            cc = self.cell(st, o)
            self.setcell(st, o, fields={**cc.fields, n: v})
        pi, _ = c.lookup("__post_init__")
        if pi is not None:
            self.call(pi, [o], {}, st, node)

    def field_default(self, d, st, node):
        if d.op == "fieldspec":
            df, fac = d.args
            if fac is not None:
                return self.call(fac, [], {}, st, node)
            if df is not None:
                return df
            self.do_raise(st, TRUE, "TypeError", node)
        return d

    # ------------------------------------------------------------ entry points
    def run(self, fterm, args, kw, st):
        """analyse one call; returns (value or None if it never returns, final state)"""
        fr = Frame(Func("<entry>", ast.parse("def entry(): pass").body[0], None, None))
        fr.fn.qual = "<entry>"
        self.frames.append(fr)
        try:
            v = self.call(fterm, args, kw, st, None)
        except Dead:
            v = None
        finally:
            self.frames.pop()
        return v

    def entry(self):
        """context manager-like helper for specs: push an entry frame"""
        fr = Frame(Func("<entry>", ast.parse("def entry(): pass").body[0], None, None))
        fr.fn.qual = "<entry>"
        self.frames.append(fr)
        return fr


def take(ct, k):
    """fancy indexing"""
    if ct.op == "ite" or k.op == "ite":
        return X.lift("take", take, ct, k)
    n = X.length(k)
    if k.op == "seq":
        return X.seq([X.elem(ct, x) for x in k.args])
    if k.op == "lam" or (k.op == "uf" and k.args[0] in ("iota",)):
        i = X.fresh("i", "num", int=True, nonneg=True)
        return X.lam(n, i, X.elem(ct, X.elem(k, i)))
    return X.uf("take", [ct, k], "arr")


def flat(t):
    """concatenation of an array of arrays"""
    if t.op == "seq":
        return X.mk_concat([x if x.sort == "arr" else X.seq([x]) for x in t.args])
    if t.op == "lam" and t.args[1].op == "seq" and len(t.args[1].args) == 1:
        i = X.fresh("i", "num", int=True, nonneg=True)
        return X.lam(t.args[0], i, X.elem(t, i).args[0])
    return X.uf("flat", [t], "arr")


X.REMAKE["take"] = take
X.REMAKE["flat"] = flat


class Solver:
    """recurrences of the loop-carried values"""

    def __init__(self, I, mus, nexts, idx, count, counted, cond, st):
        self.I, self.mus, self.nexts, self.idx, self.count, self.counted, self.cond, self.st = I, mus, nexts, idx, count, counted, cond, st
        self.idxmap = {}
        self.cache = {}
        self.muset = {m for m, _ in mus.values()}
        self.bymu = {m: k for k, (m, _) in mus.items()}
        self.sol = None

    def deps(self, t):
        return t.vars & self.muset

    def solve(self):
        """key -> function(k) giving the value before iteration k"""
        if self.sol is not None:
            return self.sol
        sol = {}
        pending = dict(self.nexts)
        idx, count = self.idx, self.count
        # a counter of a while loop
        for mu, expr in self.idxmap.items():
            k = self.bymu[mu]
            init = self.mus[k][1]
            sol[k] = lambda q, init=init: X.add(init, q)
            pending.pop(k)
        progress = True
        while progress and pending:
            progress = False
            for k in list(pending):
                mu, init = self.mus[k]
                nx = pending[k]
                f = self.solve_one(k, mu, init, nx, sol)
                if f is not None:
                    sol[k] = f
                    pending.pop(k)
                    progress = True
        for k in pending:
            sol[k] = self.general(k)
        self.sol = sol
        return sol

    def subst_solved(self, t, sol, exclude):
        """replace carried values that already have a closed form by their value before iteration idx"""
        mp = {}
        for mu in self.deps(t):
            k = self.bymu[mu]
            if k in sol and mu is not exclude:
                mp[mu] = sol[k](self.idx)
        if not mp:
            return t
        # value after the update in the same iteration
        pre = {}
        for mu in list(mp):
            k = self.bymu[mu]
            nx = self.nexts[k]
            if nx is not mu and nx.op not in ("const",) and self._occurs(t, nx):
                pre[nx] = sol[k](X.add(self.idx, ONE))
        if pre:
            t = X.subst(t, pre)
        return X.subst(t, mp)

    def _occurs(self, t, x):
        seen = set()
        st = [t]
        while st:
            y = st.pop()
            if y is x:
                return True
            if y in seen or x.id > y.id:
                continue
            seen.add(y)
            st.extend(X._children(y))
        return False

    def solve_one(self, k, mu, init, nx, sol):
        idx = self.idx
        if nx is mu or nx is init and not self.deps(nx) and idx not in nx.vars:
            return lambda q: init
        if not self.counted:
            return None
        nx = self.subst_solved(nx, sol, mu)
        d = self.deps(nx)
        if not d:
            def f(q, nx=nx):
                last = X.subst(nx, {idx: X.sub(q, ONE)}) if idx in nx.vars else nx
                c = X.lift("eq0", X.eq0, q)
                return select(c, init, last)
            return f
        if d != {mu}:
            return None
        if mu.sort == "arr":
            return self.solve_array(mu, init, nx)
        # sum
        if mu.sort in ("num", "any"):
            e = self.peel_add(nx, mu)
            if e is not None:
                return lambda q: X.add(init, X.red("sum", self.tab(q, e)))
            e = self.peel_mul(nx, mu)
            if e is not None:
                return lambda q: X.mul(init, X.red("prod", self.tab(q, e)))
            e = self.peel_max(nx, mu)
            if e is not None:
                kind, body = e
                g = X.max2 if kind == "max" else X.min2

                def f(q, kind=kind, body=body, g=g):
                    # fold the initial value into the range when it is element -1
                    ext = X.subst(body, {idx: const(-1)}) if idx in body.vars else None
                    if ext is not None and ext is init:
                        return X.red(kind, self.tab(X.add(q, ONE), X.subst(body, {idx: X.sub(idx, ONE)})))
                    return select(X.lift("eq0", X.eq0, q), init, g(init, X.red(kind, self.tab(q, body))))

                return f
        if mu.sort == "bool" or nx.sort == "bool":
            # flag set/cleared under a condition
            atom = X.truth(mu)
            v = atom.args[0] if atom.op == "ite" else None
            if v is not None:
                hi = _cof(nx, v, 1)
                lo = _cof(nx, v, 0)
                if not self.deps(hi) and not self.deps(lo):
                    ti = X.truth(init)
                    if hi is TRUE:  # mu or lo
                        return lambda q: bor(ti, X.red("any", self.tab(q, lo)))
                    if lo is FALSE:  # mu and hi
                        return lambda q: band(ti, X.red("all", self.tab(q, hi)))
        # conditional overwrite: g ? e : mu
        if nx.op == "ite":
            hit = X.lift("isother", lambda l: FALSE if l is mu else TRUE, nx)
            if not self.deps(hit):
                other = [l for l in X.leaves(nx) if l is not mu]
                if all(not self.deps(l) for l in other):
                    val = X.lift("dropmu", lambda l: other[0] if l is mu else l, nx)
                    if idx not in val.vars:
                        return lambda q: select(X.red("any", self.tab(q, hit)), val, init)

                    def f(q, hit=hit, val=val):
                        m = self.tab(q, hit)
                        return select(X.red("any", m), X.subst(val, {idx: X.uf("lasttrue", [m], "num")}), init)

                    return f
        return None

    def tab(self, n, body):
        return X.lift("tab", lambda c: X.lam(c, self.idx, body) if True else None, n) if n.op == "ite" else X.lam(n, self.idx, body)

    def peel_add(self, nx, mu):
        """nx = mu + e on every leaf"""
        def f(l):
            if mu not in l.vars:
                return X.BOT
            d = X.add2(l, X.neg(mu)) if l.sort in ("num", "any") and l.op != "ref" else None
            if d is None or mu in d.vars:
                return X.BOT
            return d
        r = X.lift("peel%d" % mu.id, f, nx)
        if X.BOT in X.leaves(r) or self.deps(r):
            return None
        return r

    def peel_mul(self, nx, mu):
        def f(l):
            if mu not in l.vars:
                return X.BOT
            d = X.s_div(l, mu)
            if mu in d.vars:
                return X.BOT
            return d
        r = X.lift("peelm%d" % mu.id, f, nx)
        if X.BOT in X.leaves(r) or self.deps(r):
            return None
        return r

    def peel_max(self, nx, mu):
        ls = X.leaves(nx)
        others = [l for l in ls if l is not mu]
        if mu not in ls or len(others) != 1:
            return None
        e = others[0]
        if self.deps(e):
            return None
        if nx is X.max2(mu, e) or nx is X.max2(e, mu) or self._same(nx, X.max2(mu, e)):
            return "max", e
        if nx is X.min2(mu, e) or nx is X.min2(e, mu) or self._same(nx, X.min2(mu, e)):
            return "min", e
        return None

    def _same(self, a, b):
        return not X.diff(a, b)

    def solve_array(self, mu, init, nx):
        idx = self.idx
        # append patterns: concat(mu, parts) on every leaf
        def app(l):
            if l is mu:
                return X.EMPTY
            if l.op == "concat" and l.args[0] is mu:
                rest = X.mk_concat(list(l.args[1:]))
                return rest if not self.deps(rest) else X.BOT
            return X.BOT
        r = X.lift("app%d" % mu.id, app, nx)
        ls = X.leaves(r)
        if X.BOT not in ls and not self.deps(r) and any(l is not X.EMPTY for l in ls):
            return lambda q: X.mk_concat([init, self.flatmap(q, r)])
        # stores at idx + c
        st = self.peel_store(nx, mu)
        if st is not None:
            off, val = st
            if not self.deps(val):
                n0 = X.length(init)

                def f(q, off=off, val=val, n0=n0):
                    j = X.fresh("i", "num", int=True, nonneg=True)
                    if X.is_arr(init) and init.op == "cols":
                        pass
                    inside = X.subst(val, {idx: X.sub(j, off)})
                    old = X.elem(init, j)
                    inside = X.lift("keepold", lambda l: old if l is KEEP else l, inside) if KEEP in X.leaves(inside) else inside
                    if off is ZERO and (q is n0):
                        return X.lam(n0, j, inside)
                    if off is ZERO:
                        cond = X.s_lt(j, q) if q.op != "ite" else X.lift("lt", X.s_lt, j, q)
                    else:
                        cond = band(X.lift("le", X.s_le, off, j), X.lift("lt", X.s_lt, j, X.add(q, off)))
                    return X.lam(n0, j, select(cond, inside, old))

                return f
        return None

    def peel_store(self, nx, mu):
        """nx = mu with one element (idx+c) conditionally overwritten"""
        off = []

        def f(l):
            if l is mu:
                return KEEP
            v = None
            cur = l
            if cur.op == "store" and cur.args[0] is mu and cur.args[1].sort == "num":
                d = X.sub(cur.args[1], self.idx)
                if self.idx in d.vars or self.deps(d):
                    return X.BOT
                off.append(d)
                return cur.args[2]
            return X.BOT

        r = X.lift("pst%d" % mu.id, f, nx)
        if X.BOT in X.leaves(r) or not off or len(set(off)) != 1:
            return None
        # reads of the element being overwritten (x[i] += e) refer to its old value
        old = X.uf("idx", [mu, X.add(self.idx, off[0])], "num")
        for so in ("num", "any"):
            o = X._tab.get(("uf", ("idx", mu, X.add(self.idx, off[0]))))
            if o is not None and self._occurs(r, o):
                init = self.bymu and self.mus[self.bymu[mu]][1]
                r = X.subst(r, {o: X.elem(init, X.add(self.idx, off[0]))})
        return off[0], r

    def flatmap(self, q, r):
        idx = self.idx
        ls = X.leaves(r)
        if all(l.op == "seq" and len(l.args) == 1 for l in ls):
            body = X.lift("first", lambda l: l.args[0], r)
            return self.tab(q, body)
        if all(l is X.EMPTY or (l.op == "seq" and len(l.args) == 1) for l in ls):
            mask = X.lift("nonempty", lambda l: FALSE if l is X.EMPTY else TRUE, r)
            anyv = [l for l in ls if l is not X.EMPTY][0].args[0]
            body = X.lift("first0", lambda l: anyv if l is X.EMPTY else l.args[0], r)
            return X.mk_filt(self.tab(q, body), self.tab(q, mask))
        return flat(self.tab(q, r))

    def general(self, k):
        """fold node for a system of mutually dependent recurrences"""
        order = []

        def visit(kk):
            if kk in order:
                return
            order.append(kk)
            nx = self.nexts[kk]
            for mu in sorted(self.deps(nx), key=lambda m: m.id):
                visit(self.bymu[mu])

        visit(k)
        if not self.counted:
            for mu in sorted(self.deps(self.cond), key=lambda m: m.id):
                visit(self.bymu[mu])
        carried = [(self.mus[kk][0], self.mus[kk][1], self.nexts[kk]) for kk in order]
        idx = self.idx
        inv = {m: X.sub(e, ZERO) for m, e in self.idxmap.items()}

        def f(q):
            cs = [(m, i, X.subst(n, inv) if inv else n) for m, i, n in carried if m not in inv]
            if self.counted:
                return X.lift("foldq", lambda c: X.mk_fold("for", c, None, cs, idx), q) if q.op == "ite" else X.mk_fold("for", q, None, cs, idx)
            return X.mk_fold("while", None, self.cond, cs, None)

        return f

    def at_iter(self, g):
        """condition at iteration idx with carried values expressed in closed form (None when impossible)"""
        if not self.deps(g):
            return g
        sol = self.solve()
        if not self.counted:
            return None
        mp = {}
        for mu in self.deps(g):
            mp[mu] = sol[self.bymu[mu]](self.idx)
        g2 = X.subst(g, mp)
        if any(X_has_fold(v) for v in mp.values()):
            return None
        return g2

    def prefix_map(self, q):
        sol = self.solve()
        return {mu: sol[k](q) for k, (mu, _i) in self.mus.items()}

    def final(self):
        sol = self.solve()
        out = {}
        for k, (mu, init) in self.mus.items():
            if self.count is not None:
                v = sol[k](self.count)
            else:
                v = sol[k](None) if self.nexts[k] is not mu else init
            out[k] = v
        return out

    def last(self, v):
        """value of a body-local variable after the last iteration"""
        if not (v.vars & (self.muset | {self.idx})) and not any(m in v.vars for m in self.idxmap):
            return v
        if self.count is None:
            mp = {}
            sol = self.solve()
            return X.unknown("last", v) if False else X.uf("?last", [], "any", True)
        v = X.subst(v, self.idxmap)
        q = X.sub(self.count, ONE)
        mp = self.prefix_map(q) if self.deps(v) else {}
        mp[self.idx] = q
        return X.subst(v, mp)


KEEP = X._mk("keep", (), "any", X._H("keep"))


def _cof(t, v, side):
    """cofactor with respect to an atom anywhere in the diagram"""
    if t.op != "ite":
        return t
    if t.args[0] is v:
        return t.args[1] if side else t.args[2]
    return X.ite(t.args[0], _cof(t.args[1], v, side), _cof(t.args[2], v, side))


def X_has_fold(t):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y.op == "fold":
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(X._children(y))
    return False
