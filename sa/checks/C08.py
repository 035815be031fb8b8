"""C08: mean stress laws."""
import terms as X
from terms import FALSE, HALF, NONE, ONE, TRUE, ZERO, add, band, bnot, const, lt, mul, sub, sym

EXPLANATION = (
    "Each law is analysed on mean and amplitude arrays of arbitrary length; the value graph of the result is compared entry by entry with the documented formula, "
    "its raise condition with the set of accepted parameters, and the graph for stresses multiplied by a positive number with that number times the graph."
)
MOD = "py_fatigue.mean_stress.corrections:"
SPEC = '''
import numpy as np
def dnv(mean, ampl, p, low):
    out = []
    for m, a in zip(mean, ampl):
        hi = m + a
        lo = m - a
        if lo >= 0:
            f = 1
        elif hi <= 0:
            f = low
        else:
            f = (hi + p * abs(lo)) / (hi + abs(lo))
        out.append(2 * f * a)
    return np.asarray(out)
def walker(mean, ampl, g):
    return (mean + ampl) ** (1 - g) * ampl ** g
'''


def arrays(S):
    n = sym("n", "num", int=True, pos=True)
    return S.arr("mean", n, finite=True), S.arr("ampl", n, epos=True, finite=True), n


def run(K):
    P = {"0.8": X.Fraction(8, 10), "0.6": X.Fraction(6, 10)}
    for p, v in P.items():
        with K.ob(f"dnv.{p}", f"DNV correction with p = {p}") as o:
            S = K.scen()
            m, a, n = arrays(S)
            out = S.call(MOD + "dnvgl_mean_stress_correction", m, a, const(v))
            K.note_calls(S)
            o.always("accepted", out.ret, TRUE, out.entry)
            want = S.spec(SPEC, "dnv", S.val(m), S.val(a), const(v), const(v) if p == "0.8" else ZERO).val()
            # the limit between compression and tension-compression belongs to both formulas
            limit = X.truth(X.red("any", X.eq(add(S.val(m), S.val(a)), ZERO)))
            o.eq("corrected range", out.val(), want, band(out.ret, bnot(limit)), out.entry)
        with K.ob(f"dnv.{p}.homogeneous", "DNV correction scales with stress") as o:
            S = K.scen()
            m, a, n = arrays(S)
            k = sym("k", "num", pos=True)
            one = S.call(MOD + "dnvgl_mean_stress_correction", m, a, const(v)).val()
            two = S.call(MOD + "dnvgl_mean_stress_correction", mul(S.val(m), k), mul(S.val(a), k), const(v))
            K.note_calls(S)
            o.eq("scaled result", two.val(), mul(k, one), TRUE, two.entry)
    with K.ob("dnv.default", "DNV default detail factor is 0.8") as o:
        S = K.scen()
        m, a, n = arrays(S)
        out = S.call(MOD + "dnvgl_mean_stress_correction", m, a)
        o.eq("corrected range", out.val(), S.call(MOD + "dnvgl_mean_stress_correction", m, a, const(P["0.8"])).val(), TRUE, out.entry)
    with K.ob("dnv.parameter", "DNV accepts only 0.6 and 0.8") as o:
        S = K.scen()
        m, a, n = arrays(S)
        p = sym("p", "num", values=[X.Fraction(8, 10), X.Fraction(6, 10), X.Fraction(7, 10), X.Fraction(1), X.Fraction(0)])
        out = S.call(MOD + "dnvgl_mean_stress_correction", m, a, p)
        K.note_calls(S)
        o.iff("accepted", out.ret, X.bor(X.s_eq(p, const(P["0.8"])), X.s_eq(p, const(P["0.6"]))), TRUE, out.entry)
    for fn, gs in (("walker_mean_stress_correction", (sym("g", "num", nonneg=True, values=[X.Fraction(1, 2), X.Fraction(1, 4), X.Fraction(3, 4), X.Fraction(1, 3), X.Fraction(0), X.Fraction(1)]), None)), ("swt_mean_stress_correction", (None,))):
        for g in gs:
            nm = fn.split("_")[0]
            with K.ob(f"{nm}.{'gamma' if g is not None else 'default'}", f"{nm} formula") as o:
                S = K.scen()
                m, a, n = arrays(S)
                args = [g] if g is not None else []
                out = S.call(MOD + fn, m, a, *args)
                K.note_calls(S)
                o.always("accepted", out.ret, TRUE, out.entry)
                want = S.spec(SPEC, "walker", S.val(m), S.val(a), g if g is not None else HALF).val()
                positive = X.truth(X.red("all", lt(ZERO, add(S.val(m), S.val(a)))))
                o.eq("corrected range", out.val(), want, band(out.ret, positive), out.entry)
            with K.ob(f"{nm}.{'gamma' if g is not None else 'default'}.homogeneous", f"{nm} scales with stress") as o:
                S = K.scen()
                m, a, n = arrays(S)
                args = [g] if g is not None else []
                k = sym("k", "num", pos=True)
                one = S.call(MOD + fn, m, a, *args).val()
                two = S.call(MOD + fn, mul(S.val(m), k), mul(S.val(a), k), *args)
                positive = X.truth(X.red("all", lt(ZERO, add(S.val(m), S.val(a)))))
                o.eq("scaled result", two.val(), mul(k, one), positive, two.entry)
