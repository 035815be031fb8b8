"""C16: crack growth law and its inverse."""
import terms as X
from curves import Paris, inputs
from terms import INF, NONE, ONE, TRUE, ZERO, band, bnot, const, sym

EXPLANATION = (
    "The growth law and its inverse are analysed for curves with one to three segments and arbitrary parameters, threshold zero or positive, critical value finite or infinite, for array, list and scalar arguments of arbitrary length, "
    "and the growth rate inside the integrator for an arbitrary stress and depth; each value graph is compared with the reference law wherever the curve is valid (knees increasing between threshold and critical value)."
)
SPEC = '''
import numpy as np
def rate1(k, slope, icpt, thr, crit):
    if k < thr:
        return 0.0
    if k > crit:
        return np.inf
    j = 0
    for i in range(len(slope) - 1):
        if k >= (icpt[i] / icpt[i + 1]) ** (1 / (slope[i + 1] - slope[i])):
            j = i + 1
    return icpt[j] * k ** slope[j]
def sif1(r, slope, icpt, thr, crit):
    if r < icpt[0] * thr ** slope[0]:
        return thr
    if r > icpt[-1] * crit ** slope[-1]:
        return crit
    j = 0
    for i in range(len(slope) - 1):
        if r >= icpt[i] * ((icpt[i] / icpt[i + 1]) ** (1 / (slope[i + 1] - slope[i]))) ** slope[i]:
            j = i + 1
    return (r / icpt[j]) ** (1 / slope[j])
def rate(x, slope, icpt, thr, crit):
    return np.asarray([rate1(v, slope, icpt, thr, crit) for v in x])
def sif(x, slope, icpt, thr, crit):
    return np.asarray([sif1(v, slope, icpt, thr, crit) for v in x])
'''


def run(K):
    for thr in ("pos", "zero"):
        for crit in ("finite", "inf"):
            for m in (1, 2, 3):
                for meth, fn in (("get_growth_rate", "rate"), ("get_sif", "sif")):
                    for kind in (("array", "scalar", "list") if m == 2 and thr == "pos" and crit == "finite" else ("scalar",)):
                        with K.ob(f"{fn}.{m}.{thr}.{crit}.{kind}", f"{fn} of a curve with {m} segments, threshold {thr}, critical value {crit}, {kind} argument") as o:
                            S = K.scen()
                            c = Paris(S, m=m, thr=thr, crit=crit)
                            arg, v, sc = next((a, v, sc) for k, a, v, sc in inputs(S, "x") if k == kind)
                            out = S.meth(c.ref, meth, arg)
                            K.note_calls(S)
                            want = S.spec(SPEC, fn + ("1" if sc else ""), v, c.slope, c.icpt, c.thr, c.crit).val()
                            o.eq(fn, out.val(), want, out.ret, out.entry)

    CG = "py_fatigue.damage.crack_growth:CalcCrackGrowth"
    a, st = X.sym("a", "num", pos=True, finite=True), X.sym("s", "num", pos=True, finite=True)
    pos = dict(epos=True, finite=True)
    for m in (1, 2, 3):
        for crit in ("finite", "inf"):
            with K.ob(f"integrator.{m}.{crit}", f"growth rate of one integration step, {m} segments, critical value {crit}") as o:
                S = K.scen()
                slope, icpt = S.arr("pc.slope", const(m), **pos), S.arr("pc.icpt", const(m), **pos)
                thr = sym("pc.thr", "num", pos=True, finite=True)
                cr = INF if crit == "inf" else sym("pc.crit", "num", pos=True, finite=True)
                geo = S.dict_({"initial_depth": a})
                obj = S.new(CG, stress_range=S.arr("sr", const(1), **pos), count_cycle=S.arr("nc", const(1), **pos), slope=slope, intercept=icpt, threshold=thr, critical=cr, crack_type=const("INF_SUR_00"), crack_geometry=geo)
                out = S.meth(obj, "calc_growth_rate", st, a)
                K.note_calls(S)
                sif = X.mul(st, X.power(X.mul(X.PI, a), const(0.5)))
                o.eq("growth rate", out.item(0), S.spec(SPEC, "rate1", sif, slope, icpt, thr, cr).val(), out.ret, out.entry)
