"""C21: crack geometries."""
from functools import reduce

import terms as X
from cc import CC, Table
from curves import Paris
from geo import Integrator, geometry, lengths
from kit import Undecided
from terms import FALSE, INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, mul, sym

EXPLANATION = (
    "Construction of every geometry is analysed with arbitrary real dimensions and an arbitrary crack position; the condition under which it is accepted is compared with the one of the property. "
    "Both crack growth entry points are analysed with every geometry of the library: which ones reach the integrator, that the others are refused without integrating, and that the dimensions read by the geometry factor are among those handed over."
)
CG = "py_fatigue.damage.crack_growth:"
R = lambda nm: sym("r." + nm, "num", finite=True, pytype="float")


def run(K):
    unit = const("MPa √mm")
    pos = lambda *xs: reduce(band, [X.s_lt(ZERO, x) for x in xs])

    for nm, cls, dims in (("surface", "InfiniteSurface", ("initial_depth",)), ("full", "Cylinder", ("initial_depth", "diameter", "height"))):
        with K.ob(f"valid.{nm}", f"accepted dimensions: {cls}") as o:
            S = K.scen()
            d = {k: R(k) for k in dims}
            out = S.call("py_fatigue.geometry:" + cls, **d)
            K.note_calls(S)
            want = pos(*d.values())
            o.eq("accepted", out.ret, want, TRUE, out.entry)
            for k, v in d.items():
                o.eq(k, out.attr(k), v, out.ret, out.entry)
    for where in ("internal", "external", "other", "default ratio"):
        with K.ob(f"valid.hollow.{where}", f"accepted dimensions: HollowCylinder, crack position {where}") as o:
            S = K.scen()
            d = {k: R(k) for k in ("initial_depth", "outer_diameter", "thickness", "height", "width_to_depth_ratio")}
            if where == "default ratio":
                del d["width_to_depth_ratio"]
            cp = {"other": sym("r.pos", "str"), "default ratio": const("external")}.get(where, const(where))
            out = S.call("py_fatigue.geometry:HollowCylinder", crack_position=cp, **d)
            K.note_calls(S)
            t = d["thickness"]
            want = band(pos(*d.values()), band(X.s_lt(d["initial_depth"], t), X.s_lt(mul(const(2), t), d["outer_diameter"])))
            if where == "other":
                want = band(want, bor(X.eq(cp, const("internal")), X.eq(cp, const("external"))))
            o.eq("accepted", out.ret, want, TRUE, out.entry)
            for k, v in d.items():
                o.eq(k, out.attr(k), v, out.ret, out.entry)
            o.eq("crack_position", out.attr("crack_position"), cp, out.ret, out.entry)

    def entries(S, pc, g):
        n = sym("b.n", "num", int=True, pos=True)
        r, c = S.arr("b.range", n, epos=True, finite=True), S.arr("b.count", n, epos=True, finite=True, evalues=[X.Fraction(1), X.Fraction(2)])
        m = S.arr("b.mean", n, finite=True)
        a = CC(S, "a", unit=const("MPa"), stress_range=r, count_cycle=c, mean_stress=m)
        yield "function", lambda: S.call(CG + "get_crack_growth", a.ref, pc.ref, g)
        t = Table(S, unit=const("MPa"), stress_range=r, count_cycle=c, mean_stress=m)
        yield "table", lambda: S.meth(t.accessor("cg").v, "calc_growth", pc.ref, g)

    for typ in ("surface", "external", "internal", "full"):
        for ent in ("function", "table"):
            with K.ob(f"supported.{typ}.{ent}", f"{ent} with geometry {typ}") as o:
                S = K.scen()
                pc = Paris(S, m=1, unit=unit)
                g, dims = geometry(S, typ)
                rec = Integrator(S)
                f = next(f for e, f in entries(S, pc, g.v) if e == ent)
                care = S.st.pc
                out = f()
                K.note_calls(S)
                done = reduce(bor, [c for c, _ in rec.calls], FALSE)
                if typ in ("surface", "external"):
                    o.eq("accepted", out.ret, care, care, out.entry)
                    o.eq("integrated", done, care, care, out.entry)
                else:
                    o.eq("refused", out.raises("ValueError"), TRUE, care, out.entry)
                    o.never("integrated", done, care, out.entry)
    for typ in ("surface", "external"):
        with K.ob(f"dimensions.{typ}", f"dimensions needed by the geometry factor of {typ}") as o:
            S = K.scen()
            pc = Paris(S, m=1, unit=unit)
            g, dims = geometry(S, typ)
            care = S.st.pc
            nd = S.call("py_fatigue.utils:to_numba_dict", dict_of(S, g.v))
            out = S.call(CG + "get_geometry_factor", sym("q.a", "num", pos=True, finite=True), const({"surface": "INF_SUR_00", "external": "HOL_CYL_01"}[typ]), nd.v)
            K.note_calls(S)
            o.never("missing dimension", out.raises("KeyError"), care, out.entry)
            o.never("not implemented", out.raises("NotImplementedError"), care, out.entry)


def dict_of(S, g):
    fr = S.I.entry()
    try:
        return S.I.getattr(g, "__dict__", S.st, None)
    finally:
        S.I.frames.pop()
