"""C05: scaling by a stress factor scales stresses only, and all of them."""
import terms as X
from cc import CC, FIELDS
from terms import FALSE, NONE, TRUE, band, bnot, const, mul, sym

EXPLANATION = (
    "Multiplication of a cycle count from either side is analysed on a cycle count with arbitrary contents and an arbitrary factor. "
    "The value graph of every public attribute of the result is compared with factor times the operand's attribute (stress-valued) or the attribute itself (others); "
    "a factor that is not a plain number must be refused on every path."
)
STRESS = ("stress_range", "mean_stress", "residuals_sequence", "min_max_sequence", "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width", "stress_concentration_factor")


def run(K):
    for op in ("__mul__", "__rmul__"):
        for kind in ("float", "int", "float, no residual sequence"):
            with K.ob(f"{op}.{kind}", f"{op} with a {kind} scales stress-valued attributes and keeps the others") as o:
                S = K.scen()
                none = "no" in kind
                a = CC(S, "a", **({"residuals_sequence": NONE} if none else {}))
                k = sym("k", "num", pytype=kind.split(",")[0], int=kind == "int")
                out = S.meth(a.ref, op, k)
                K.note_calls(S)
                o.always("accepted", out.ret, TRUE, out.entry)
                for f in FIELDS:
                    want = mul(a[f], k) if f in STRESS and a[f] != NONE else a[f]
                    if a[f] == NONE and out.attr(f) == X.EMPTY:
                        continue  # no sequence at all
                    if f in ("unit", "name"):
                        continue
                    o.eq(f, out.attr(f), want, out.ret, out.where())
        for what, mk in (("cycle count", lambda S, a: a.ref), ("string", lambda S, a: const("2")), ("None", lambda S, a: NONE), ("list", lambda S, a: S.list_([const(2)])), ("array", lambda S, a: S.arr("z"))):
            with K.ob(f"{op}.refuse.{what.replace(' ', '_')}", f"{op} refuses a {what}") as o:
                S = K.scen()
                a = CC(S, "a")
                out = S.meth(a.ref, op, mk(S, a))
                K.note_calls(S)
                o.never("returns a result", out.ret, TRUE, out.entry)
