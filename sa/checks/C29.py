"""C29: views of a cycle count."""
import terms as X
from cc import CC
from terms import FALSE, INF, NONE, ONE, TRUE, ZERO, add, band, bnot, bor, const, mul, sym

EXPLANATION = (
    "The views of a cycle count and of the stress containers are analysed for counts of arbitrary length and value (whole, half and mixed) and compared with reference selections: full cycles repeated by the integer part, residuals where the fraction is one half, mean and range side by side; "
    "amplitude, minimum and maximum with their formulas; bin edges and centers with the reference partition."
)
SPEC = '''
import numpy as np
def full(c, x):
    return np.asarray([x[i] for i in range(len(c)) for k in range(int(c[i]))])
def half(c, x):
    return np.asarray([x[i] for i in range(len(c)) if c[i] - int(c[i]) == 0.5])
def col(v, k):
    return np.asarray([r[k] for r in v])
def edges(lb, w, top):
    return np.around(np.asarray([lb + k * w for k in range(int(np.ceil((top - lb) / w)) + 1)]), 5)
def centers(lb, w, top):
    return edges(lb, w, top)[:-1] + w / 2
'''
VALUES = [X.Fraction(x) for x in ("1/2", "1", "2", "3", "3/2", "5/2", "0", "20", "41/2", "1/4", "9/4", "27/50")]


def run(K):
    def count(S):
        n = sym("a.n", "num", int=True, pos=True)
        c = S.arr("c.mixed", n, enonneg=True, finite=True, evalues=VALUES)
        return CC(S, "a", count_cycle=c), sym("c.mixed", "arr")

    for view, ref in (("full_cycles", "full"), ("residuals", "half"), ("half_cycles", "half")):
        with K.ob(view, f"{view} of a cycle count") as o:
            S = K.scen()
            a, c = count(S)
            got = S.attr(a.ref, view)
            K.note_calls(S)
            for k, f in enumerate(("mean_stress", "stress_range")):
                o.eq(f, S.spec(SPEC, "col", got, const(k)).val(), S.spec(SPEC, ref, c, a[f]).val(), S.st.pc, view)
    with K.ob("amplitudes", "amplitude, minimum and maximum") as o:
        S = K.scen()
        a, c = count(S)
        r, m = a["stress_range"], a["mean_stress"]
        i = X.fresh("i", "num", int=True, nonneg=True)
        K.note_calls(S)
        ew = lambda f: X.lam(a.n, i, f(X.elem(r, i), X.elem(m, i)))
        hf = const(X.Fraction(1, 2))
        o.eq("amplitude", S.attr(a.ref, "stress_amplitude"), ew(lambda x, y: mul(hf, x)), S.st.pc, "stress_amplitude")
        o.eq("minimum", S.attr(a.ref, "min_stress"), ew(lambda x, y: add(y, mul(const(-X.Fraction(1, 2)), x))), S.st.pc, "min_stress")
        o.eq("maximum", S.attr(a.ref, "max_stress"), ew(lambda x, y: add(y, mul(hf, x))), S.st.pc, "max_stress")
    for k, (nm, f) in enumerate((("mean", "mean_stress"), ("range", "stress_range"))):
        with K.ob(f"bins.{nm}", f"bin bounds, edges and centers of the {nm} axis") as o:
            S = K.scen()
            a, c = count(S)
            lb, w = a[f"{nm}_bin_lower_bound"], a[f"{nm}_bin_width"]
            fl = S.spec(SPEC, "full", c, a[f]).val()
            top = X.red("max", fl)
            # there is a full cycle and the largest one does not lie below the lower bound
            care = band(S.st.pc, band(X.s_lt(ZERO, X.length(fl)), bnot(X.s_lt(top, lb))))
            o.eq("upper bound", S.attr(a.ref, f"{nm}_bin_upper_bound"), add(lb, mul(w, X.uf("ceil", [X.s_div(add(top, X.neg(lb)), w)], "num"))), care, f"{nm}_bin_upper_bound")
            for view, ref in (("bin_edges", "edges"), ("bin_centers", "centers")):
                both = S.attr(a.ref, view)
                K.note_calls(S)
                got = both.args[k] if both.op == "tup" else X.elem(both, const(k))
                o.eq(view, got, S.spec(SPEC, ref, lb, w, top).val(), care, view)
    for cls in ("py_fatigue.stress_range:StressRange", "py_fatigue.mean_stress:MeanStress"):
        short = cls.split(":")[1]
        with K.ob(f"container.{short}", f"full, half, edges and centers of {short}") as o:
            S = K.scen()
            n = sym("a.n", "num", int=True, pos=True)
            c, v = S.arr("c.mixed", n, enonneg=True, finite=True, evalues=VALUES), S.arr("v", n, finite=True)
            cv, vv = sym("c.mixed", "arr"), sym("v", "arr")
            lb, w = sym("lb", "num", finite=True), sym("w", "num", pos=True, finite=True)
            b = S.new(cls, _counts=c, _values=v, bin_width=w, _bin_lb=lb)
            fl = S.spec(SPEC, "full", cv, vv).val()
            top = X.select(X.s_lt(ZERO, X.length(fl)), X.red("max", fl), X.red("max", vv))
            o.eq("full", S.attr(b, "full"), fl, S.st.pc, "full")
            o.eq("half", S.attr(b, "half"), S.spec(SPEC, "half", cv, vv).val(), S.st.pc, "half")
            # with no value above the lower bound the partition is only required to exist (see C12)
            care = band(S.st.pc, X.s_lt(lb, top))
            K.note_calls(S)
            o.eq("bin_edges", S.attr(b, "bin_edges"), S.spec(SPEC, "edges", lb, w, top).val(), care, "bin_edges")
            o.eq("bin_centers", S.attr(b, "bin_centers"), S.spec(SPEC, "centers", lb, w, top).val(), care, "bin_centers")
