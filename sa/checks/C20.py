"""C20: splitting of load blocks before crack growth integration."""
import terms as X
from cc import CC, Table
from curves import Paris
from geo import Integrator, geometry, history
from kit import Undecided
from terms import FALSE, INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "The crack growth function and the table accessor are analysed up to the integrator, whose arguments are recorded instead of integrating. "
    "For arbitrary (also fractional) block sizes, with and without express mode, the counts of the sub-blocks at each range are compared with the block, the order of the ranges with the original order, and the curve and geometry arguments with the ones passed; "
    "the rows of the table after an integration without failure are compared with the history at the last sub-block of each block."
)
SPEC = '''
import numpy as np
def total(sr, nc, r):
    return np.asarray([np.sum(np.asarray([c if s == x else 0.0 for s, c in zip(sr, nc)])) for x in r])
def order(sr):
    return np.asarray([sr[i] for i in range(len(sr)) if i == 0 or sr[i] != sr[i - 1]])
def distinct(r):
    return np.all(np.asarray([r[i] != r[i + 1] for i in range(len(r) - 1)]))
def last(sr, hist):
    return np.asarray([hist[i] for i in range(len(sr)) if i == len(sr) - 1 or sr[i] != sr[i + 1]])
def cumulative(sr, n):
    return np.cumsum(n)
'''
CG = "py_fatigue.damage.crack_growth:"
COUNTS = [X.Fraction(x) for x in ("1", "2", "3", "1/2", "7/2", "12", "25/2", "121", "201/2", "250", "1/4", "201/200", "1/300")]


def run(K):
    unit = const("MPa √mm")
    n = sym("b.n", "num", int=True, pos=True)

    def load(S):
        r = S.arr("b.range", n, epos=True, finite=True)
        c = S.arr("b.count", n, epos=True, finite=True, evalues=COUNTS)
        return r, c, sym("b.range", "arr"), sym("b.count", "arr")

    def function(S, pc, g, express):
        r, c, rv, cv = load(S)
        a = CC(S, "a", unit=const("MPa"), stress_range=r, count_cycle=c, mean_stress=S.arr("b.mean", n, finite=True))
        return S.call(CG + "get_crack_growth", a.ref, pc.ref, g, *express), rv, cv, None

    def table(S, pc, g, express):
        r, c, rv, cv = load(S)
        t = Table(S, unit=const("MPa"), stress_range=r, count_cycle=c, mean_stress=S.arr("b.mean", n, finite=True))
        return S.meth(t.accessor("cg").v, "calc_growth", pc.ref, g, *express), rv, cv, t

    for ent, f in (("function", function), ("table", table)):
        for mode, express in (("default", ()), ("normal", (FALSE,)), ("express", (TRUE,))):
            for typ in ("surface", "external"):
                if typ == "external" and mode != "normal":
                    continue
                with K.ob(f"{ent}.{mode}.{typ}", f"what is integrated: {ent}, {mode} mode, geometry {typ}") as o:
                    S = K.scen()
                    pc = Paris(S, m=2, unit=unit)
                    g, dims = geometry(S, typ)
                    rec = Integrator(S)
                    out, rv, cv, t = f(S, pc, g.v, express)
                    K.note_calls(S)
                    if len(rec.calls) != 1:
                        raise Undecided(f"{len(rec.calls)} integrations")
                    cond, env = rec.calls[0]
                    sr, nc = env["stress_range"], env["count_cycle"]
                    care = band(cond, S.spec(SPEC, "distinct", rv).val())
                    if mode != "default":
                        o.never("raises", out.raises(), care, out.entry)
                    o.eq("number of sub-blocks", X.length(sr), X.length(nc), care, out.entry)
                    o.eq("cycles per range", S.spec(SPEC, "total", sr, nc, rv).val(), S.spec(SPEC, "total", rv, cv, rv).val(), care, out.entry)
                    o.eq("order of ranges", S.spec(SPEC, "order", sr).val(), rv, care, out.entry)
                    for k, w in (("slope", pc.slope), ("intercept", pc.icpt), ("threshold", pc.thr), ("critical", pc.crit), ("crack_type", const("INF_SUR_00" if typ == "surface" else "HOL_CYL_01"))):
                        o.eq(k, env[k], w, cond, out.entry)
                    o.ok("dimensions passed", set(dims) <= set(rec.geometry[0]), f"the integrator is given {sorted(rec.geometry[0])} of {sorted(dims)}", out.entry)
                    for k, w in dims.items():
                        if k in rec.geometry[0]:
                            o.eq(k, rec.geometry[0][k], w, cond, out.entry)
                    if t is not None and mode != "default":
                        for k in ("crack_depth", "sif", "geometry_factor"):
                            o.eq("column " + k, out.item(k), S.spec(SPEC, "last", sr, history(X.length(sr), k)).val(), band(out.ret, care), out.entry)
                        o.eq("column cumul_cycle", out.item("cumul_cycle"), S.spec(SPEC, "cumulative", rv, cv).val(), band(out.ret, care), out.entry)
    for mode, express in (("default", ()), ("normal", (FALSE,)), ("express", (TRUE,))):
        with K.ob(f"same.{mode}", f"function and table integrate the same sub-blocks, {mode} mode") as o:
            got = []
            for f in (function, table):
                S = K.scen()
                pc = Paris(S, m=2, unit=unit)
                g, dims = geometry(S, "surface")
                rec = Integrator(S)
                out, rv, cv, t = f(S, pc, g.v, express)
                K.note_calls(S)
                if len(rec.calls) != 1:
                    raise Undecided(f"{len(rec.calls)} integrations")
                got.append((*rec.calls[0], out))
            (c1, e1, out), (c2, e2, tab) = got
            care = band(band(c1, c2), S.spec(SPEC, "distinct", rv).val())
            for k, w in (("stress_range", "ranges of the sub-blocks"), ("count_cycle", "cycles of the sub-blocks")):
                o.eq(w, e2[k], e1[k], care, tab.entry)
