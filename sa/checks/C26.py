"""C26: material curves are values."""
import terms as X
from cc import CC, Table
from curves import SN, Paris, inputs
from geo import Integrator, geometry
from kit import Undecided
from terms import FALSE, INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "Both curve classes are analysed: construction from arrays, lists and numbers (reported values, refusal of unequal numbers), assignment to every parameter (must raise), modification of the arrays the curve was built from after construction (alias analysis on the abstract heap: the reported values must not change), "
    "every method of the curve and every library function that receives one (no write reaches an object of the curve and the parameters read back are unchanged), and comparison of two arbitrary curves (never equal when a parameter differs)."
)
SL = "py_fatigue.damage.stress_life:"
CG = "py_fatigue.damage.crack_growth:"
KINDS = {
    "SNCurve": ("slope", "intercept", "endurance", "unit", "linear"),
    "ParisCurve": ("slope", "intercept", "threshold", "critical", "unit", "linear"),
}
SET = "def assign(c, v):\n" + "    c.{} = v\n"
EQ = "def equal(a, b):\n    return a == b\ndef differ(a, b):\n    return a != b\n"
P = lambda nm: sym(nm, "num", pos=True, finite=True)


def raw(S, cls, kind, p="q", m=None, share=None):
    """arguments of a curve and its expected parameters"""
    m = sym(p + ".m", "num", int=True, pos=True) if m is None else const(m)
    f = dict(elem="num", epos=True, finite=True)
    if kind == "scalar":
        sl, ic = P(p + ".slope0"), P(p + ".icpt0")
        a = {"slope": sl, "intercept": ic}
        w = {"slope": X.seq([sl]), "intercept": X.seq([ic]), "linear": TRUE}
    else:
        sl, ic = sym(p + ".slope", "arr", length=m, **f), sym(p + ".icpt", "arr", length=m, **f)
        k = ("arr", "ndarray") if kind == "array" else ("list", "list")
        mk = lambda t, n: S.I.new(S.st, k[0], t, pytype=k[1], origin="arg:" + n)
        a = {"slope": mk(sl, p + ".slope"), "intercept": mk(ic, p + ".intercept")}
        w = {"slope": sl, "intercept": ic, "linear": X.eq(m, ONE)}
    u = sym(p + ".unit", "str")
    a["unit_string"] = w["unit"] = u
    for k in ("endurance",) if cls == "SNCurve" else ("threshold", "critical"):
        a[k] = w[k] = P(f"{p}.{k}")
    return a, w


def run(K):
    for cls, names in KINDS.items():
        for kind in ("array", "list", "scalar"):
            with K.ob(f"reported.{cls}.{kind}", f"{cls} built from {kind}s reports what it was given") as o:
                S = K.scen()
                a, w = raw(S, cls, kind)
                out = S.call(cls, **a)
                K.note_calls(S)
                for k in names:
                    o.eq(k, out.attr(k), w[k], out.ret, out.entry)
        with K.ob(f"alias.{cls}", f"{cls} does not share the arrays it was built from") as o:
            S = K.scen()
            a, w = raw(S, cls, "array")
            out = S.call(cls, **a)
            K.note_calls(S)
            for k in ("slope", "intercept"):
                c = S.I.cell(S.st, a[k])
                S.I.setcell(S.st, a[k], content=sym("later." + k, "arr", length=X.length(c.content), elem="num", epos=True, finite=True))
            for k in ("slope", "intercept", "linear"):
                o.eq(f"{k} after the array changed", out.attr(k), w[k], out.ret, out.entry)
        for k in names:
            with K.ob(f"assign.{cls}.{k}", f"assigning {k} of a {cls}") as o:
                S = K.scen()
                c = (SN if cls == "SNCurve" else Paris)(S, m=1)
                care = S.st.pc
                before = S.attr(c.ref, k)
                out = S.spec(SET.format(k), "assign", c.ref, sym("new." + k, "arr" if k in ("slope", "intercept") else "any", elem="num"))
                K.note_calls(S)
                o.always("refused", out.raises("AttributeError", "TypeError"), care, k)
        with K.ob(f"numbers.{cls}", f"{cls} with slopes and intercepts of other numbers") as o:
            S = K.scen()
            a, w = raw(S, cls, "array")
            n = sym("q.k", "num", int=True, pos=True)
            a["intercept"] = S.arr("q.other", n, epos=True, finite=True)
            out = S.call(cls, **a)
            K.note_calls(S)
            differ = bnot(X.eq(n, sym("q.m", "num")))
            o.always("refused", out.raises("ValueError"), differ, out.entry)
            o.never("built", out.ret, differ, out.entry)
        # ---- comparison
        with K.ob(f"equality.{cls}", f"two {cls}s are equal only if all parameters are") as o:
            S = K.scen()
            mk = SN if cls == "SNCurve" else Paris
            col = dict(color=sym("color", "str"))
            a, b = mk(S, "p1", m=1, **col), mk(S, "p2", m=1, **col)
            care = S.st.pc
            e = S.spec(EQ, "equal", a.ref, b.ref)
            K.note_calls(S)
            t = X.truth(e.val())
            for k in names:
                va, vb = S.attr(a.ref, k), S.attr(b.ref, k)
                if X.is_arr(va):
                    va, vb = X.elem(va, ZERO), X.elem(vb, ZERO)
                if va is vb:
                    continue
                o.never(f"equal although {k} differs", t, band(e.ret, bnot(X.eq(va, vb))), k)
        with K.ob(f"equality.{cls}.number", f"{cls}s with other numbers of segments are not equal") as o:
            S = K.scen()
            mk = SN if cls == "SNCurve" else Paris
            col = dict(color=sym("color", "str"))
            a, b = mk(S, "p4", m=2, **col), mk(S, "p3", m=2, **col)
            e = S.spec(EQ, "equal", a.ref, b.ref)
            for k in ("slope", "intercept"):
                va, vb = X.elem(S.attr(a.ref, k), ONE), X.elem(S.attr(b.ref, k), ONE)
                o.never(f"equal although the second {k} differs", X.truth(e.val()), band(e.ret, bnot(X.eq(va, vb))), k)
            a, b = mk(S, "p1", m=1, **col), mk(S, "p3", m=2, **col)
            e = S.spec(EQ, "equal", a.ref, b.ref)
            o.never("equal", X.truth(e.val()), e.ret, "__eq__")
        texts = ("curve", "environment", "norm", "color")
        for k in ("",) + texts:
            with K.ob(f"equality.{cls}.{k or 'same'}", f"two {cls}s with the same parameters, " + (f"{k} may differ" if k else "all the same")) as o:
                S = K.scen()
                mk = SN if cls == "SNCurve" else Paris
                one = {t: sym(t, "str") for t in texts}
                two = {**one, k: sym(k + "2", "str")} if k else one
                a, b = mk(S, "p1", m=1, **one), mk(S, "p1", m=1, **two)
                same = X.eq(one[k], two[k]) if k else TRUE
                e = S.spec(EQ, "equal", a.ref, b.ref)
                K.note_calls(S)
                o.iff("equal", X.truth(e.val()), same, e.ret, "__eq__")
    with K.ob("equality.classes", "curves of different classes are not equal") as o:
        S = K.scen()
        a, b = SN(S, "p1", m=1), Paris(S, "p2", m=1)
        for x, y in ((a, b), (b, a)):
            e = S.spec(EQ, "equal", x.ref, y.ref)
            o.never("equal", X.truth(e.val()), e.ret, "__eq__")

    # ---- computations
    def untouched(o, S, out, c, names, before):
        K.note_calls(S)
        own = "arg:" + c.p
        for ev in out.events:
            if ev["kind"] == "write" and (ev["origin"] == own or ev["origin"].startswith(own + ".")) and not ev["origin"].startswith(own + ".name"):
                if written(ev) in ("name", "color", "id"):
                    continue
                o.never(f"written: {ev['origin'][4:]}", ev["pc"], TRUE, ev)
        for k in names:
            o.eq(f"{k} afterwards", S.attr(c.ref, k), before[k], S.st.pc if out.v is not None else FALSE, out.entry)

    x = lambda S, nm="x": S.arr(nm, sym("nx", "num", int=True, pos=True), epos=True, finite=True)
    methods = {
        "SNCurve": {"get_cycles": lambda S: (x(S),), "get_stress": lambda S: (x(S),), "get_knee_cycles": lambda S: (), "get_knee_stress": lambda S: (), "format_name": lambda S: (TRUE,), "plot": lambda S: ()},
        "ParisCurve": {"get_growth_rate": lambda S: (x(S),), "get_sif": lambda S: (x(S),), "get_knee_sif": lambda S: (), "get_knee_growth_rate": lambda S: (), "format_name": lambda S: (TRUE,), "plot": lambda S: ()},
    }
    for cls, ms in methods.items():
        names = KINDS[cls]
        for m, args in ms.items():
            with K.ob(f"method.{cls}.{m}", f"{cls}.{m} leaves the curve as it is") as o:
                S = K.scen()
                c = (SN if cls == "SNCurve" else Paris)(S, m=2)
                c.p = "sn" if cls == "SNCurve" else "pc"
                before = {k: S.attr(c.ref, k) for k in names}
                if m == "plot":
                    # the points are opaque here: the functions that compute them have obligations of their own
                    for f in methods[cls]:
                        if f.startswith("get_") and "knee" not in f:
                            S.I.overrides[S.method_qual(c.ref, f)] = lambda I, a, kw, st, node: I.new(st, "arr", sym("points", "arr", length=sym("npoints", "num", int=True, pos=True), elem="num"), pytype="ndarray")
                out = S.meth(c.ref, m, *args(S))
                untouched(o, S, out, c, names, before)
    fns = {
        "get_pm": lambda S, c: S.call(SL + "get_pm", CC(S, "a", unit=c.unit).ref, c.ref),
        "calc_pm": lambda S, c: S.call(SL + "calc_pm", x(S, "s"), x(S, "n"), c.ref),
        "miner": lambda S, c: S.meth(Table(S, unit=c.unit).accessor("miner").v, "damage", c.ref),
        "gassner": lambda S, c: S.meth(Table(S, unit=c.unit).accessor("gassner").v, "g", c.ref),
    }
    for rule in ("pavlou", "manson", "leve", "si jian"):
        fns["nonlinear." + rule] = lambda S, c, rule=rule: S.call(SL + "calc_nonlinear_damage", const(rule), x(S, "s"), x(S, "n"), c.ref)
    for nm, f in fns.items():
        with K.ob(f"function.{nm}", f"{nm} leaves the S-N curve as it is") as o:
            S = K.scen()
            c = SN(S, m=1)
            c.p = "sn"
            before = {k: S.attr(c.ref, k) for k in KINDS["SNCurve"]}
            out = f(S, c)
            untouched(o, S, out, c, KINDS["SNCurve"], before)
    for nm in ("function", "table"):
        with K.ob(f"growth.{nm}", f"crack growth ({nm}) leaves the curve as it is") as o:
            S = K.scen()
            c = Paris(S, m=2, unit=const("MPa √mm"))
            c.p = "pc"
            Integrator(S)
            before = {k: S.attr(c.ref, k) for k in KINDS["ParisCurve"]}
            g = geometry(S, "surface")[0].v
            if nm == "function":
                out = S.call(CG + "get_crack_growth", CC(S, "a", unit=const("MPa")).ref, c.ref, g)
            else:
                out = S.meth(Table(S, unit=const("MPa")).accessor("cg").v, "calc_growth", c.ref, g)
            untouched(o, S, out, c, KINDS["ParisCurve"], before)


def written(ev):
    return str(ev.get("attr") or ev.get("how", "")).strip(".").split(" ")[0]
