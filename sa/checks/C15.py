"""C15: knee points lie on both adjacent segments of the curve."""
import terms as X
from curves import SN, Paris
from terms import INF, NONE, ONE, TRUE, ZERO, band, bnot, const, s_eq, sub, sym

EXPLANATION = (
    "Knee methods of both kinds of curve are analysed for an arbitrary number of segments. The knee ordinate must be the graph of either adjacent segment law applied to the knee abscissa, "
    "the number of knees one less than the number of segments, the condition for refusing a list of expected knees the mismatch of its length, and the abscissae that separate the segments in the growth law the knees."
)
SN_SPEC = '''
import numpy as np
def left(x, slope, icpt):
    return np.asarray([10 ** icpt[j] * x[j] ** (-slope[j]) for j in range(len(slope) - 1)])
def right(x, slope, icpt):
    return np.asarray([10 ** icpt[j + 1] * x[j] ** (-slope[j + 1]) for j in range(len(slope) - 1)])
def knees(slope, icpt):
    return np.asarray([10 ** ((icpt[j + 1] - icpt[j]) / (slope[j + 1] - slope[j])) for j in range(len(slope) - 1)])
'''
PC_SPEC = '''
import numpy as np
def left(x, slope, icpt):
    return np.asarray([icpt[j] * x[j] ** slope[j] for j in range(len(slope) - 1)])
def right(x, slope, icpt):
    return np.asarray([icpt[j + 1] * x[j] ** slope[j + 1] for j in range(len(slope) - 1)])
def knees(slope, icpt):
    return np.asarray([(icpt[j] / icpt[j + 1]) ** (1 / (slope[j + 1] - slope[j])) for j in range(len(slope) - 1)])
'''
KINDS = {
    "sn": (SN, SN_SPEC, "get_knee_stress", "get_knee_cycles"),
    "paris": (Paris, PC_SPEC, "get_knee_sif", "get_knee_growth_rate"),
}


def run(K):
    for kind, (mk, spec, xs, ys) in KINDS.items():
        for m in (None, 1, 2, 3):
            with K.ob(f"{kind}.{'any' if m is None else m}", f"{kind}: knees are the intersections of adjacent segments ({'any number of' if m is None else m} segments)") as o:
                S = K.scen()
                c = mk(S, m=m, **({"end": "inf"} if kind == "sn" else {}))
                x = S.meth(c.ref, xs)
                y = S.meth(c.ref, ys)
                K.note_calls(S)
                distinct = TRUE
                if m is None:
                    j = X.fresh("i", "num", int=True, nonneg=True)
                    distinct = bnot(X.truth(X.red("any", X.lam(sub(c.m, ONE), j, s_eq(X.elem(c.slope, j), X.elem(c.slope, X.add(j, ONE)))))))
                else:
                    for j in range(m - 1):
                        distinct = band(distinct, bnot(s_eq(X.elem(c.slope, const(j)), X.elem(c.slope, const(j + 1)))))
                care = band(S.st.pc, distinct)
                o.eq("number of knees", X.length(x.val()), sub(c.m, ONE), care, x.entry)
                if m == 1:
                    o.eq("number of knees", X.length(y.val()), ZERO, care, y.entry)
                    continue
                o.eq("knee abscissa", x.val(), S.spec(spec, "knees", c.slope, c.icpt).val(), care, x.entry)
                for side in ("left", "right"):
                    o.eq(f"knee on the {side} segment", y.val(), S.spec(spec, side, x.val(), c.slope, c.icpt).val(), care, y.entry)
        for meth in (xs, ys):
            with K.ob(f"{kind}.check.{meth}", f"{kind}: a list of expected knees of another length is refused") as o:
                S = K.scen()
                c = mk(S, m=3, **({"end": "inf"} if kind == "sn" else {}))
                n = sym("nk", "num", int=True, pos=True)
                base = S.st.pc
                out = S.meth(c.ref, meth, S.arr("knees", n, epos=True, finite=True))
                K.note_calls(S)
                o.iff("refused", out.raises("ValueError"), bnot(s_eq(n, const(2))), base, out.entry)
                S = K.scen()
                c = mk(S, m=1, **({"end": "inf"} if kind == "sn" else {}))
                base = S.st.pc
                out = S.meth(c.ref, meth, S.arr("knees", n, epos=True, finite=True))
                o.always("refused for a single segment", out.raises("ValueError"), base, out.entry)
