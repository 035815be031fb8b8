"""C01: derived cycle counts keep the stress unit of their operands."""
import terms as X
from cc import CC, RF, Json
from terms import FALSE, NONE, TRUE, band, bnot, const, s_eq, sym

EXPLANATION = (
    "Each operation that derives a cycle count is analysed as a whole (all callees, all paths) on a cycle count with arbitrary contents and unit; "
    "the graph of the unit of the result must be the unit symbol of the operand on every returning path."
)


def run(K):
    def unit(o, out, want, care=TRUE):
        K.note_calls(out.S)
        o.eq("unit", out.attr("unit"), want, X.band(care, out.ret), out.where())

    for op in ("__mul__", "__rmul__"):
        with K.ob(f"scale.{op}", "scaling keeps the unit") as o:
            S = K.scen()
            a = CC(S, "a")
            unit(o, S.meth(a.ref, op, sym("k", "num")), a["unit"])
    for op in ("__add__", "__radd__"):
        with K.ob(f"sum.{op}", "summation keeps the common unit") as o:
            S = K.scen()
            a, b = CC(S, "a"), CC(S, "b")
            out = S.meth(a.ref, op, b.ref)
            if out.v is None and op == "__radd__":
                continue  # only reached for an operand that is not a cycle count
            unit(o, out, a["unit"], s_eq(a["unit"], b["unit"]))
        with K.ob(f"sum.none.{op}", "adding nothing keeps the unit") as o:
            S = K.scen()
            a = CC(S, "a")
            unit(o, S.meth(a.ref, op, NONE), a["unit"])
    for mode in ("Residuals", "min-max"):
        with K.ob(f"lffd.{mode}", f"resolving residuals keeps the unit ({mode})") as o:
            S = K.scen()
            RF(S)
            a = CC(S, "a", lffd_solved=FALSE)
            unit(o, S.meth(a.ref, "solve_lffd", const(mode)), a["unit"])
    for law, kw in (("DNVGL-RP-C203", dict(detail_factor=const(X.Fraction(8, 10)))), ("walker", dict(gamma=const(X.Fraction(1, 3)))), ("swt", {})):
        for solved in (TRUE, FALSE):
            with K.ob(f"msc.{law}.{'resolved' if solved is TRUE else 'unresolved'}", f"mean stress correction keeps the unit ({law})") as o:
                S = K.scen()
                RF(S)
                a = CC(S, "a", lffd_solved=solved, mean_stress_corrected=const("No"))
                unit(o, S.meth(a.ref, "mean_stress_correction", const(law), **kw), a["unit"])
    for time in (True, False):
        with K.ob(f"timeseries.{'time' if time else 'notime'}", "a counted signal has the unit the caller passed") as o:
            S = K.scen()
            RF(S)
            n = sym("n", "num", int=True, pos=True)
            u = sym("u", "str")
            kw = dict(time=S.arr("time", n, finite=True)) if time else {}
            unit(o, S.meth(S.get("CycleCount"), "from_timeseries", S.arr("data", n, finite=True), timestamp=sym("ts", "any", notnone=True), unit=u, **kw), u)
    for means in (True, False):
        with K.ob(f"import.{'matrix' if means else 'legacy'}", "an imported count has the unit the caller passed") as o:
            S = K.scen()
            j = Json(S, means=means)
            u = sym("u", "str")
            unit(o, S.meth(S.get("CycleCount"), "from_rainflow", j.ref, timestamp=sym("ts", "any", notnone=True), unit=u), u)
