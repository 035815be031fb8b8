"""C04: summing cycle counts keeps every cycle and all bookkeeping of both."""
import terms as X
from cc import CC
from terms import FALSE, NAN, NONE, TRUE, ZERO, add, band, bnot, bor, const, div, max2, min2, mk_concat, s_eq, s_lt, sym

EXPLANATION = (
    "Addition is analysed on two cycle counts with arbitrary contents; every public attribute of the sum is compared with the stated combination of the operands' attributes, "
    "the raise condition with 'the second starts before the end of the first' (or other unit / type), and adding nothing must return the operand itself."
)


def run(K):
    with K.ob("add", "attributes of the sum") as o:
        S = K.scen()
        ta, tb = (S.arr(p + ".tseq", sym(p + ".ntq", "num", int=True, pos=True), finite=True, sorted=True) for p in "ab")
        a, b = CC(S, "a", _time_sequence=ta), CC(S, "b", _time_sequence=tb)
        out = S.meth(a.ref, "__add__", b.ref)
        K.note_calls(S)
        w = out.where()
        care = out.ret
        # an operand without extremes of its own reports those of its residuals, if it has any
        has = band(*(X.lift("has", lambda x: s_lt(ZERO, X.length(x)), p["min_max_sequence"]) for p in (a, b)))
        for f in ("count_cycle", "stress_range", "mean_stress", "residuals_sequence", "min_max_sequence"):
            o.eq(f, out.attr(f), mk_concat([a[f], b[f]]), band(care, has) if f == "min_max_sequence" else care, w)
        o.eq("nr_small_cycles", out.attr("nr_small_cycles"), add(a["nr_small_cycles"], b["nr_small_cycles"]), care, w)
        for f in ("range_bin_lower_bound", "mean_bin_lower_bound"):
            o.eq(f, out.attr(f), min2(a[f], b[f]), care, w)
        for f in ("range_bin_width", "mean_bin_width"):
            o.eq(f, out.attr(f), max2(a[f], b[f]), care, w)
        o.eq("timestamp", out.attr("timestamp"), min2(a["timestamp"], b["timestamp"]), care, w)
        o.eq("stress_concentration_factor", out.attr("stress_concentration_factor"), div(add(a["stress_concentration_factor"], b["stress_concentration_factor"]), const(2)), care, w)
        o.eq("time_sequence", out.attr("time_sequence"), S.spec("import numpy as np\ndef f(a, b):\n    return np.unique(np.hstack([a, b]))\n", "f", a["time_sequence"], b["time_sequence"]).val(), care, w)
        o.eq("lffd_solved", X.truth(out.attr("lffd_solved")), FALSE, care, w)
        o.eq("mean_stress_corrected", out.attr("mean_stress_corrected"), const("No"), care, w)
    with K.ob("add.refuse", "a second operand that starts before the end of the first is refused") as o:
        S = K.scen()
        ta, tb = (S.arr(p + ".tseq", sym(p + ".ntq", "num", int=True, pos=True), finite=True, sorted=True) for p in "ab")
        a, b = CC(S, "a", _time_sequence=ta), CC(S, "b", _time_sequence=tb)
        out = S.meth(a.ref, "__add__", b.ref)
        K.note_calls(S)
        late = X.s_le(X.red("max", a["time_sequence"]), X.red("min", b["time_sequence"]))
        o.iff("accepted", out.ret, late, s_eq(a["unit"], b["unit"]), out.entry)
    with K.ob("add.other", "other operands are refused") as o:
        for what, v in (("string", const("x")), ("number", const(3))):
            S = K.scen()
            a = CC(S, "a")
            out = S.meth(a.ref, "__add__", v)
            K.note_calls(S)
            o.never(f"adding a {what} returns a result", out.ret, TRUE, out.entry)
    for op in ("__add__", "__radd__"):
        for nm, v in (("None", NONE), ("0", ZERO), ("nan", NAN)):
            with K.ob(f"nothing.{op}.{nm}", f"{op} with {nm} returns the operand itself") as o:
                S = K.scen()
                a = CC(S, "a")
                out = S.meth(a.ref, op, v)
                K.note_calls(S)
                o.always("returns", out.ret, TRUE, out.entry)
                o.ok("operand itself", out.v == a.ref, f"{op} with {nm} does not return the operand itself", out.entry)
