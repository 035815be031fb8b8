"""C17: linear damage, damage equivalent stress and moment."""
import terms as X
from C14 import SPEC as LIFE
from cc import CC, Table
from curves import SN, inputs
from terms import INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "The array functions, the functions on a cycle count and the table accessor are analysed for load sequences of arbitrary length and curves with any number of segments, with and without endurance; "
    "damage, equivalent stress and equivalent moment are compared with the reference formulas, the results of the entry points with each other, and the refusal of a non-positive wall with the condition of the property."
)
SPEC = LIFE + '''
def pm(s, n, slope, icpt, end):
    return np.asarray([c / life1(x, slope, icpt, end) for c, x in zip(n, s)])
def pm1(s, n, slope, icpt, end):
    return n / life1(s, slope, icpt, end)
def des(s, n, m, neq):
    return (np.sum(n * s ** m) / neq) ** (1 / m)
def dem(ro, ri, s, n, m, neq):
    return np.pi / 4 * (ro ** 4 - ri ** 4) / ro * des(s, n, m, neq) * 1e6
'''
SL = "py_fatigue.damage.stress_life:"
P = lambda nm: sym(nm, "num", pos=True, finite=True)


def run(K):
    for end in ("finite", "inf"):
        for kind in ("array", "list", "scalar"):
            with K.ob(f"calc_pm.{end}.{kind}", f"damage function on {kind}s, {end} endurance") as o:
                S = K.scen()
                c = SN(S, end=end)
                s, sv, sc = next((a, v, q) for k, a, v, q in inputs(S, "s") if k == kind)
                if sc:
                    n = nv = P("n0")
                else:
                    n = S.I.new(S.st, "arr" if kind == "array" else "list", sym("nn", "arr", length=X.length(sv), elem="num", epos=True, finite=True), pytype="ndarray" if kind == "array" else "list", origin="arg:n")
                    nv = S.val(n)
                care = S.st.pc
                out = S.call(SL + "calc_pm", s, n, c.ref)
                K.note_calls(S)
                o.eq("accepted", out.ret, care, care, out.entry)
                want = S.spec(SPEC, "pm1" if sc else "pm", sv, nv, c.slope, c.icpt, c.end).val()
                got = out.val()
                if sc and X.is_arr(got):
                    got = X.elem(got, ZERO)
                o.eq("damage", got, want, out.ret, out.entry)
        with K.ob(f"get_pm.{end}", f"damage of a cycle count, {end} endurance") as o:
            S = K.scen()
            u = sym("unit", "str")
            c = SN(S, end=end)
            a = CC(S, "a", unit=c.unit)
            out = S.call(SL + "get_pm", a.ref, c.ref)
            K.note_calls(S)
            o.eq("damage", out.val(), S.spec(SPEC, "pm", a["stress_range"], a["count_cycle"], c.slope, c.icpt, c.end).val(), out.ret, out.entry)
        with K.ob(f"accessor.{end}", f"damage of a table, {end} endurance") as o:
            S = K.scen()
            c = SN(S, end=end)
            t = Table(S, unit=c.unit)
            acc = t.accessor("miner")
            out = S.meth(acc.v, "damage", c.ref)
            K.note_calls(S)
            o.eq("damage", out.item("pm_damage"), S.spec(SPEC, "pm", t["stress_range"], t["count_cycle"], c.slope, c.icpt, c.end).val(), out.ret, out.entry)
            o.eq("life", out.item("cycles_to_failure"), S.spec(SPEC, "life", t["stress_range"], c.slope, c.icpt, c.end).val(), out.ret, out.entry)
            for k in ("count_cycle", "stress_range", "mean_stress"):
                o.eq(k, out.item(k), t[k], out.ret, out.entry)

    m, neq, ro, ri = P("m"), P("neq"), P("ro"), sym("ri", "num", nonneg=True, finite=True)
    nn = sym("k", "num", int=True, pos=True)
    for dflt in (False, True):
        tag = "default" if dflt else "given"
        ne = const(10**7) if dflt else neq
        extra = () if dflt else (neq,)

        def entries(S, name):
            """(entry point, call, range, count) of the equivalent stress (des) or moment (dem)"""
            pre = () if name == "des" else (ro, ri)
            pos = dict(epos=True, finite=True)
            s, n = S.arr("s", nn, **pos), S.arr("n", nn, **pos)
            yield "arrays", (lambda: S.call(SL + "calc_" + name, *pre, s, n, m, *extra)), sym("s", "arr"), sym("n", "arr")
            a = CC(S, "a")
            yield "cycle count", (lambda: S.call(SL + "get_" + name, *(pre + (a.ref,)), m, *extra)), a["stress_range"], a["count_cycle"]
            t = Table(S)
            yield "table", (lambda: S.meth(t.accessor("miner").v, name, *pre, m, *extra)), t["stress_range"], t["count_cycle"]

        for ent in ("arrays", "cycle count", "table"):
            with K.ob(f"des.{tag}.{ent}", f"damage equivalent stress from {ent}, equivalent cycles {tag}") as o:
                S = K.scen()
                _e, f, s, n = next(x for x in entries(S, "des") if x[0] == ent)
                care = S.st.pc
                out = f()
                K.note_calls(S)
                o.eq("accepted", out.ret, care, care, out.entry)
                o.eq("equivalent stress", out.val(), S.spec(SPEC, "des", s, n, m, ne).val(), out.ret, out.entry)
            with K.ob(f"dem.{tag}.{ent}", f"damage equivalent moment from {ent}, equivalent cycles {tag}") as o:
                S = K.scen()
                _e, f, s, n = next(x for x in entries(S, "dem") if x[0] == ent)
                care = S.st.pc
                out = f()
                K.note_calls(S)
                o.eq("refused", out.raises("ValueError"), bnot(X.s_lt(ri, ro)), care, out.entry)
                o.eq("accepted", out.ret, band(care, X.s_lt(ri, ro)), care, out.entry)
                o.eq("equivalent moment", out.val(), S.spec(SPEC, "dem", ro, ri, s, n, m, ne).val(), out.ret, out.entry)
