"""C19: crack growth integration."""
import terms as X
from geo import FACTOR, cyl_dict, cyl_ok, lengths, spec_factor, summarise_factor
from terms import INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "The integrator is analysed for load sequences of arbitrary length, arbitrary curve parameters (one and two segments, critical value finite or infinite) and both supported geometries: its loop becomes a fold over the steps that also carries which exit was taken. "
    "Depth, intensity and factor histories, final cycles and the failure flag are compared with a reference integration, and with the stop rule, the length rule and the monotonicity of the depth."
)
SPEC = FACTOR + '''
def grow(sr, nc, slope, icpt, thr, crit, a0, D, t, w, infinite):
    n = len(sr)
    depth, sif, fac = np.empty(n), np.empty(n), np.empty(n)
    a, k, failed = a0, 0, False
    for i in range(n):
        y = 1.0 if infinite else factor(a, D, t, w)
        s = sr[i] * np.sqrt(np.pi * a) * y
        if s < thr:
            b = a
        else:
            j = 0
            for q in range(len(slope) - 1):
                if s >= (icpt[q] / icpt[q + 1]) ** (1 / (slope[q + 1] - slope[q])):
                    j = q + 1
            b = a + icpt[j] * s ** slope[j] * nc[i]
        if y == 0 or s >= crit or b > 10 * a:
            failed = True
            break
        depth[i], sif[i], fac[i] = a, s, y
        a = b
        k = i + 1
    return depth[:k], sif[:k], fac[:k], np.sum(nc[:k]), failed
'''
CG = "py_fatigue.damage.crack_growth:CalcCrackGrowth"
NAMES = ("crack_depth", "sif", "geometry_factor", "final_cycles", "failure")


def setup(K, m, crit, typ, n=None):
    S = K.scen()
    summarise_factor(S)
    spec_factor(S)
    pos = dict(epos=True, finite=True)
    n = sym("n", "num", int=True, pos=True) if n is None else const(n)
    sr, nc = S.arr("sr", n, **pos), S.arr("nc", n, **pos)
    slope, icpt = S.arr("pc.slope", const(m), **pos), S.arr("pc.icpt", const(m), **pos)
    thr = sym("pc.thr", "num", pos=True, finite=True)
    cr = INF if crit == "inf" else sym("pc.crit", "num", pos=True, finite=True)
    out = S.call(CG, sr, nc, slope, icpt, thr, cr, const(typ), cyl_dict(S))
    K.note_calls(S)
    args = (sr, nc, slope, icpt, thr, cr, sym("g.depth", "num"), *lengths(), const(typ == "INF_SUR_00"))
    return S, out, args


def run(K):
    a0 = sym("g.depth", "num", pos=True, finite=True)
    for typ, m, crit in (("INF_SUR_00", 1, "finite"), ("INF_SUR_00", 1, "inf"), ("INF_SUR_00", 2, "finite"), ("HOL_CYL_01", 1, "finite")):
        with K.ob(f"integration.{typ}.{m}.{crit}", f"histories, final cycles and failure flag, {typ}, {m} segments, critical value {crit}") as o:
            S, out, args = setup(K, m, crit, typ)
            want = S.spec(SPEC, "grow", *args)
            care = band(out.ret, cyl_ok())
            for k, nm in enumerate(NAMES):
                o.eq(nm, out.attr(nm), want.item(k), care, out.entry)
            le = [X.length(out.attr(nm)) for nm in NAMES[:3]]
            o.eq("number of intensities", le[1], le[0], care, out.entry)
            o.eq("number of factors", le[2], le[0], care, out.entry)
            if typ == "INF_SUR_00":
                o.always("starts at the initial depth", X.eq(X.elem(out.attr("crack_depth"), ZERO), a0), band(care, X.lt(ZERO, le[0])), out.entry)
    for typ in ("INF_SUR_00", "HOL_CYL_01"):
        for step in (0, 1):
            with K.ob(f"step{step}.{typ}", f"step {step + 1} of at most two, {typ}") as o:
                S, out, args = setup(K, 1, "finite", typ, n=step + 1)
                want = S.spec(SPEC, "grow", *args)
                care = band(out.ret, cyl_ok())
                for k, nm in enumerate(NAMES):
                    o.eq(nm, out.attr(nm), want.item(k), care, out.entry)
    with K.ob("refused", "never refuses equally long positive loads") as o:
        S, out, args = setup(K, 1, "inf", "INF_SUR_00")
        o.never("raises", out.raises(), TRUE, out.entry)
