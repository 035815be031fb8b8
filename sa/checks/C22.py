"""C22: stress intensity and geometry factor."""
import terms as X
from geo import FACTOR, cyl_dict, cyl_ok, lengths
from terms import NONE, ONE, PI, TRUE, ZERO, band, bnot, const, mul, power, sym

EXPLANATION = (
    "The geometry factor and the stress intensity are analysed as value graphs over arbitrary depth, dimensions and stress, through the factor function, the intensity function and the growth step of the integrator, "
    "and compared with the reference formula of the external crack (one reference function, analysed by the same engine); dimensionlessness is decided by comparing the factor graph with itself after multiplying all lengths by an arbitrary positive number."
)
CG = "py_fatigue.damage.crack_growth:"


def run(K):
    a, s = sym("a", "num", pos=True, finite=True), sym("s", "num", nonneg=True, finite=True)
    k = sym("k", "num", pos=True, finite=True)

    with K.ob("factor.formula", "the factor of an external crack is the published net-section bending factor, zero through the wall") as o:
        S = K.scen()
        out = S.call("py_fatigue.geometry:f_hol_cyl_01", a, cyl_dict(S))
        K.note_calls(S)
        want = S.spec(FACTOR, "factor", a, *lengths()).val()
        o.eq("factor", out.val(), want, band(out.ret, cyl_ok()), out.entry)
        o.never("raises", out.raises(), cyl_ok(), out.entry)
        through = bnot(X.lt(a, lengths()[1]))
        o.eq("factor through the wall", out.val(), ZERO, band(out.ret, through), out.entry)
        m = {t: mul(k, t) for t in (a, *lengths()[:2])}
        o.eq("factor with all lengths scaled", X.subst(out.val(), m), out.val(), band(out.ret, cyl_ok()), out.entry)

    for typ in ("HOL_CYL_01", "INF_SUR_00"):
        with K.ob(f"factor.{typ}", f"factor selected for {typ}") as o:
            S = K.scen()
            d = cyl_dict(S)
            out = S.call(CG + "get_geometry_factor", a, const(typ), d)
            K.note_calls(S)
            want = S.spec(FACTOR, "factor", a, *lengths()).val() if typ == "HOL_CYL_01" else ONE
            o.eq("factor", out.val(), want, band(out.ret, cyl_ok()), out.entry)
            o.never("raises", out.raises(), cyl_ok(), out.entry)

        with K.ob(f"sif.{typ}", f"stress intensity for {typ}") as o:
            S = K.scen()
            out = S.call(CG + "get_sif", s, a, const(typ), cyl_dict(S))
            K.note_calls(S)
            f = S.spec(FACTOR, "factor", a, *lengths()).val() if typ == "HOL_CYL_01" else ONE
            want = mul(mul(s, power(mul(PI, a), const(0.5))), f)
            o.eq("stress intensity", out.item(0), want, band(out.ret, cyl_ok()), out.entry)
            o.eq("factor next to it", out.item(1), f, band(out.ret, cyl_ok()), out.entry)
            o.eq("stress intensity at a multiple of the stress", X.subst(out.item(0), {s: mul(k, s)}), mul(k, out.item(0)), band(out.ret, cyl_ok()), out.entry)

    with K.ob("factor.unsupported", "no factor is returned for other crack types") as o:
        S = K.scen()
        t = sym("crack_type", "str")
        out = S.call(CG + "get_geometry_factor", a, t, cyl_dict(S))
        other = band(bnot(X.s_eq(t, const("HOL_CYL_01"))), bnot(X.s_eq(t, const("INF_SUR_00"))))
        o.never("returns a factor", band(out.ret, TRUE), other, out.entry)

    for typ in ("HOL_CYL_01", "INF_SUR_00"):
        with K.ob(f"step.{typ}", f"stress intensity and factor recorded by the first integration step for {typ}") as o:
            S = K.scen()
            pos = dict(epos=True, finite=True)
            n = const(1)
            out = S.call(CG + "CalcCrackGrowth", S.arr("sr", n, **pos), S.arr("nc", n, **pos), S.arr("pc.slope", n, **pos), S.arr("pc.icpt", n, **pos), sym("pc.thr", "num", pos=True, finite=True), X.INF, const(typ), cyl_dict(S))
            K.note_calls(S)
            obj = S.call(CG + "CalcCrackGrowth", S.arr("sr", n, **pos), S.arr("nc", n, **pos), S.arr("pc.slope", n, **pos), S.arr("pc.icpt", n, **pos), sym("pc.thr", "num", pos=True, finite=True), X.INF, const(typ), cyl_dict(S))
            a0 = sym("g.depth", "num", pos=True)
            f = S.spec(FACTOR, "factor", a0, *lengths()).val() if typ == "HOL_CYL_01" else ONE
            want = mul(mul(X.elem(sym("sr", "arr"), ZERO), power(mul(PI, a0), const(0.5))), f)
            care = band(band(out.ret, cyl_ok(a0)), X.lt(ZERO, X.length(out.attr("sif"))))
            o.eq("stress intensity", X.elem(out.attr("sif"), ZERO), want, care, out.entry)
            o.eq("factor", X.elem(out.attr("geometry_factor"), ZERO), f, care, out.entry)
