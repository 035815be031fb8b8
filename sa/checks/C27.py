"""C27: malformed inputs."""
from functools import reduce

import terms as X
from cc import CC, Table
from curves import SN, Paris
from geo import Integrator, geometry
from terms import FALSE, NAN, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, select, sym

EXPLANATION = (
    "Every entry point of the property is analysed with malformed inputs described symbolically: signals of another type, signals with NaN at arbitrary places, time arrays and counts of arbitrary other lengths, tables without one of the required columns or with the result column; "
    "the condition under which it raises is compared with the condition of the property, so a rejection that is missing, too narrow or too wide on any route shows as a difference."
)
SL = "py_fatigue.damage.stress_life:"
CG = "py_fatigue.damage.crack_growth:"
N = lambda nm, **f: sym(nm, "num", int=True, **{"nonneg": True, **f})


def signal(S, kind, n, p="x", nan=False):
    """a signal with n samples as array or list; nan: samples may be missing"""
    v = sym(p, "arr", length=n, elem="num", finite=True)
    if nan:
        i = X.fresh("i", "num", int=True, nonneg=True)
        m = sym(p + ".nan", "arr", length=n, elem="bool")
        v = X.lam(n, i, select(X.truth(X.elem(m, i)), NAN, X.elem(v, i)))
    return S.I.new(S.st, "arr" if kind == "array" else "list", v, pytype="ndarray" if kind == "array" else "list", origin="arg:" + p)


def others(S):
    """values that are neither array nor list"""
    n = N("k", pos=True)
    yield "tuple", X.tup([sym("t0", "num", finite=True), sym("t1", "num", finite=True), sym("t2", "num", finite=True)])
    yield "number", sym("x0", "num", finite=True)
    yield "text", const("1, 2, 3")
    yield "dictionary", S.dict_({"a": sym("t0", "num", finite=True)})


def run(K):
    routes = {
        "rainflow": lambda S, d, t: S.call("rainflow", d, t),
        "rainflow short": lambda S, d, t: S.call("rainflow", d, t, FALSE),
        "cycle count": lambda S, d, t: S.meth(S.get("CycleCount"), "from_timeseries", d, t),
    }
    # ---- the signal is of another type
    for rt, f in routes.items():
        for nm in ("tuple", "number", "text", "dictionary", "nothing"):
            with K.ob(f"signal.{rt}.{nm}", f"{rt}: signal given as {nm}") as o:
                S = K.scen()
                d = NONE if nm == "nothing" else dict(others(S))[nm]
                out = f(S, d, NONE)
                K.note_calls(S)
                o.eq("refused", out.raises(), TRUE, TRUE, out.entry)
        for nm in ("tuple", "number", "text", "dictionary"):
            with K.ob(f"time.{rt}.{nm}", f"{rt}: time given as {nm}") as o:
                S = K.scen()
                out = f(S, signal(S, "array", const(3)), dict(others(S))[nm])
                K.note_calls(S)
                o.eq("refused", out.raises(), TRUE, TRUE, out.entry)
        # ---- lengths of signal and time
        for kd in ("array", "list"):
            for kt in ("array", "list"):
                with K.ob(f"length.{rt}.{kd}.{kt}", f"{rt}: {kd} signal and {kt} time of other lengths") as o:
                    S = K.scen()
                    summarise_counting(S)
                    n, m = N("n", pos=True), N("m")
                    out = f(S, signal(S, kd, n), signal(S, kt, m, "tm"))
                    K.note_calls(S)
                    o.eq("refused", out.raises(), bnot(X.eq(n, m)), TRUE, out.entry)
            with K.ob(f"notime.{rt}.{kd}", f"{rt}: {kd} signal without time") as o:
                S = K.scen()
                summarise_counting(S)
                out = f(S, signal(S, kd, N("n", pos=True)), NONE)
                K.note_calls(S)
                o.never("refused", out.raises(), TRUE, out.entry)
            # ---- NaN
            with K.ob(f"nan.{rt}.{kd}", f"{rt}: {kd} signal with NaN at arbitrary places") as o:
                S = K.scen()
                summarise_crossings(S)
                n = N("n", pos=True)
                out = f(S, signal(S, kd, n, nan=True), NONE)
                K.note_calls(S)
                mask = sym("x.nan", "arr", length=n, elem="bool")
                o.eq("refused", out.raises(), X.red("any", mask), X.s_lt(ONE, n), out.entry)
    # ---- level crossings
    with K.ob("nan.crossings", "level crossings of a signal with NaN") as o:
        S = K.scen()
        summarise_crossings(S)
        n = N("n", pos=True)
        out = S.call("py_fatigue.cycle_count.rainflow:findcross", signal(S, "array", n, nan=True))
        K.note_calls(S)
        o.eq("refused", out.raises(), X.red("any", sym("x.nan", "arr", length=n, elem="bool")), TRUE, out.entry)
    # ---- stress containers
    for cls in ("py_fatigue.stress_range:StressRange", "py_fatigue.mean_stress:MeanStress"):
        for given in (True, False):
            with K.ob(f"container.{cls.split(':')[1]}.{'given' if given else 'derived'}", f"{cls}: lengths of counts and values, bounds {'given' if given else 'derived'}") as o:
                S = K.scen()
                n, m = N("n"), N("m")
                kw = dict(_bin_lb=sym("lb", "num", finite=True), _bin_ub=sym("ub", "num", finite=True)) if given else {}
                out = S.call(cls, _counts=S.arr("c", n, finite=True, epos=True), _values=S.arr("v", m, finite=True), bin_width=sym("w", "num", pos=True, finite=True), **kw)
                K.note_calls(S)
                bad = bor(bor(X.eq(n, ZERO), X.eq(m, ZERO)), bnot(X.eq(n, m)))
                o.eq("refused", out.raises(), bad, TRUE, out.entry)
    # ---- damage
    n, m = N("n", pos=True), N("m", pos=True)
    pos = dict(epos=True, finite=True)
    sl, ne, ro = sym("m0", "num", pos=True, finite=True), sym("neq", "num", pos=True, finite=True), sym("ro", "num", pos=True, finite=True)

    def loads(S):
        return S.arr("s", n, **pos), S.arr("c", m, **pos)

    damage = {
        "calc_pm": lambda S: (lambda c, l: lambda: S.call(SL + "calc_pm", *l, c.ref))(SN(S, m=1), loads(S)),
        "calc_des": lambda S: (lambda l: lambda: S.call(SL + "calc_des", *l, sl, ne))(loads(S)),
        "calc_dem": lambda S: (lambda l: lambda: S.call(SL + "calc_dem", ro, ZERO, *l, sl, ne))(loads(S)),
    }
    for rule in ("pavlou", "manson", "leve", "si jian"):
        damage["calc_nonlinear_damage." + rule] = lambda S, rule=rule: (lambda c, l: lambda: S.call(SL + "calc_nonlinear_damage", const(rule), *l, c.ref))(SN(S, m=1), loads(S))
    for nm, f in damage.items():
        with K.ob(f"damage.{nm}", f"{nm}: counts and ranges of other lengths") as o:
            S = K.scen()
            g = f(S)
            care = S.st.pc
            out = g()
            K.note_calls(S)
            o.eq("refused", out.raises(), bnot(X.eq(n, m)), care, out.entry)
    with K.ob("damage.get_pm", "get_pm: counts and ranges of other lengths") as o:
        S = K.scen()
        s, c = loads(S)
        sn = SN(S, m=1)
        a = CC(S, "a", unit=sn.unit, stress_range=s, count_cycle=c, mean_stress=S.arr("ms", n, finite=True))
        care = S.st.pc
        out = S.call(SL + "get_pm", a.ref, sn.ref)
        K.note_calls(S)
        o.eq("refused", out.raises(), bnot(X.eq(n, m)), care, out.entry)

    # ---- table accessors
    P = lambda nm: sym(nm, "num", pos=True, finite=True)
    tabs = {
        "miner": ("cycles_to_failure", lambda S, x: (lambda c: lambda: S.meth(x(c.unit), "damage", c.ref))(SN(S, m=1))),
        "gassner": ("shift_factor", lambda S, x: (lambda c: lambda: S.meth(x(c.unit), "g", c.ref))(SN(S, m=1))),
        "cg": ("crack_depth", lambda S, x: (lambda c, g: lambda: S.meth(x(const("MPa")), "calc_growth", c.ref, g.v))(Paris(S, m=1, unit=const("MPa √mm")), geometry(S, "surface")[0])),
    }
    for acc, (res, f) in tabs.items():
        for case in ("complete", "count_cycle", "mean_stress", "stress_range", "result"):
            with K.ob(f"table.{acc}.{case}", f"accessor {acc}: " + {"complete": "complete table", "result": "result already computed"}.get(case, f"no column {case}")) as o:
                S = K.scen()
                Integrator(S)
                events, gone = [], []

                def make(unit):
                    t = Table(S, unit=unit, drop=() if case in ("complete", "result") else (case,), extra=(res,) if case == "result" else ())
                    start = S.st.pc
                    q = t.accessor(acc)
                    gone.append((q, start))
                    if q.v is None:
                        raise Refused(q)
                    return q.v

                g = f(S, make)
                try:
                    out = g()
                    q = gone[0][0]
                    refused = bor(q.raises(), out.raises())
                    ent = out.entry
                except Refused as e:
                    refused, ent = e.args[0].raises(), e.args[0].entry
                K.note_calls(S)
                care = gone[0][1]
                if case == "complete":
                    o.never("refused", refused, care, ent)
                else:
                    o.eq("refused", refused, TRUE, care, ent)


class Refused(Exception):
    pass


def summarise_counting(S):
    """cycle extraction is an opaque function of the signal here"""
    for nm in ("py_fatigue.cycle_count.rainflow:findtp", "py_fatigue.cycle_count.rainflow:findrfc_astm"):
        t = S.I.lookup(nm)
        if t is None or t.op != "func":
            continue
        f = t.args[0]

        def over(I, args, kw, st, node, nm=nm):
            n = sym("rows:" + nm.split(":")[1], "num", int=True, pos=True)
            if nm.endswith("findtp"):
                return I.arr(st, sym("points", "arr", length=n, elem="num", eint=True, enonneg=True))
            cols = [sym(f"row{k}", "arr", length=n, elem="num", finite=True) for k in range(5)]
            return I.arr(st, X.node("cols", cols))

        S.I.overrides[f.qual] = over


def summarise_crossings(S):
    """everything after the crossings of a signal were looked up is an opaque function here"""
    for nm in ("py_fatigue.cycle_count.rainflow:findcross_indices", "py_fatigue.cycle_count.rainflow:_findcross", "py_fatigue.cycle_count.rainflow:findrfc_astm"):
        t = S.I.lookup(nm)
        while t is not None and t.op in ("marked", "static"):
            t = t.args[-1]
        if t is None or t.op != "func":
            continue

        def over(I, args, kw, st, node, nm=nm):
            n = sym("cross:" + nm.split(":")[1], "num", int=True, pos=True)
            if nm.endswith("_findcross"):
                return n
            if nm.endswith("findrfc_astm"):
                return I.arr(st, X.node("cols", [sym(f"row{k}", "arr", length=n, elem="num", finite=True) for k in range(5)]))
            return I.arr(st, sym("crossings", "arr", length=n, elem="num", eint=True, enonneg=True))

        S.I.overrides[t.args[0].qual] = over
