"""C14: S-N curve life and stress."""
import terms as X
from curves import SN, inputs
from terms import INF, NONE, ONE, TRUE, ZERO, band, bnot, const, sym

EXPLANATION = (
    "Curve construction and the two evaluation methods are analysed for an arbitrary number of segments, with and without finite endurance, for array, list and scalar arguments of arbitrary length. "
    "The value graph of the result is compared with the reference formula (maximum over the segments, infinite past the endurance, stress floor at the endurance)."
)
SPEC = '''
import numpy as np
def life1(s, slope, icpt, end):
    v = np.max(10 ** icpt * s ** (-slope))
    return np.inf if v > end else v
def stress1(n, slope, icpt, end):
    v = np.max((10 ** icpt / n) ** (1 / slope))
    if end < np.inf:
        f = (10 ** icpt[-1] / end) ** (1 / slope[-1])
        return f if v < f else v
    return v
def life(s, slope, icpt, end):
    return np.asarray([life1(x, slope, icpt, end) for x in s])
def stress(n, slope, icpt, end):
    return np.asarray([stress1(x, slope, icpt, end) for x in n])
'''


def run(K):
    for end in ("finite", "inf"):
        for m in (None, 1):
            for meth, fn in (("get_cycles", "life"), ("get_stress", "stress")):
                for kind in ("array", "list", "scalar"):
                    with K.ob(f"{fn}.{end}.{'any' if m is None else m}.{kind}", f"{fn} of a curve with {'any number of' if m is None else m} segments, {end} endurance, {kind} argument") as o:
                        S = K.scen()
                        c = SN(S, m=m, end=end)
                        arg, v, sc = next((a, v, sc) for k, a, v, sc in inputs(S, "x") if k == kind)
                        care = S.st.pc
                        out = S.meth(c.ref, meth, arg)
                        K.note_calls(S)
                        o.eq("accepted", out.ret, care, care, out.entry)
                        want = S.spec(SPEC, fn + ("1" if sc else ""), v, c.slope, c.icpt, c.end).val()
                        o.eq(fn, out.val(), want, out.ret, out.entry)
    for m in (1, 2):
        with K.ob(f"inverse.{m}", f"life and stress invert each other ({m} segments)") as o:
            S = K.scen()
            c = SN(S, m=m, end="inf")
            x = sym("x", "num", pos=True, finite=True)
            y = S.meth(c.ref, "get_cycles", x)
            z = S.meth(c.ref, "get_stress", y.v)
            K.note_calls(S)
            care = z.ret
            if m == 2:
                g = lambda a, i: X.elem(a, const(i))
                care = band(care, X.s_lt(g(c.slope, 0), g(c.slope, 1)))
            o.eq("stress of the life", z.val(), x, care, z.entry)
            y = S.meth(c.ref, "get_stress", x)
            z = S.meth(c.ref, "get_cycles", y.v)
            o.eq("life of the stress", z.val(), x, care, z.entry)
    for end in ("finite", "inf"):
        with K.ob(f"endurance_stress.{end}", "the endurance stress of a curve with knees is the stress at the endurance") as o:
            S = K.scen()
            c = SN(S, m=2, end=end)
            got = S.attr(c.ref, "endurance_stress")
            if end == "finite":
                want = S.spec(SPEC, "stress1", c.end, c.slope, c.icpt, c.end).val()
            else:
                want = ZERO
            o.eq("endurance stress", got, want, S.st.pc)
