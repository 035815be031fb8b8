"""C13: exported dictionaries can be imported."""
import terms as X
from cc import CC, Json
from terms import EMPTY, FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, const, lt, sym

EXPLANATION = (
    "The import is analysed for dictionaries with arbitrary contents in both layouts, with and without histogram, large cycles and residuals, and for the older key spellings; counts, means and ranges of the imported count are compared entry by entry with a reference over the dictionary. "
    "The export of an arbitrary count is then handed to the import: it must be accepted and give as many cycles as the count keeps, and every key of the import's contract must be written."
)
F = X.Fraction
SPEC = '''
import math
import numpy as np
def nonzero(row):
    return np.asarray([x for x in row if x != 0])
def centers(row, lb, w, dec):
    return np.asarray([np.around(lb + (k + 0.5) * w, dec) for k in range(len(row)) if row[k] != 0])
def middles(row, idx, lb, w):
    return np.asarray([lb + (idx + 0.5) * w for k in range(len(row)) if row[k] != 0])
def column(v, k):
    return v[:, k]
def total(c):
    n = 0
    for x in c:
        n = n + x
    return n
def kept(c, r, lb):
    n = 0
    for k in range(len(c)):
        if r[k] >= lb:
            n = n + c[k]
    return n
def any_kept(c, r, lb):
    n = 0
    for k in range(len(c)):
        if r[k] >= lb:
            n = n + 1
    return n
'''


def load(S, j, **kw):
    return S.meth(S.get("CycleCount"), "from_rainflow", j.ref, timestamp=sym("ts", "any", notnone=True), **kw)


def contents(K, o, means, **parts):
    S = K.scen()
    dec = sym("decimals", "num", int=True, nonneg=True, values=[F(2), F(3), F(4), F(6)])
    j = Json(S, means=means, **parts)
    out = load(S, j, round_decimals=dec)
    K.note_calls(S)
    o.always("accepted", out.ret, TRUE, out.entry)
    sp = lambda f, *a: S.spec(SPEC, f, *a).val()
    cnt, rng, avg = [], [], []
    for i, row in enumerate(j.rows):
        cnt.append(sp("nonzero", row))
        rng.append(sp("centers", row, j.rlb, j.rbw, dec))
        avg.append(sp("middles", row, const(i), j.mlb, j.mbw))
    for part, w in ((j.lg, ONE), (j.rs, X.HALF)):
        if part is not None:
            cnt.append(X.full(part[0], w))
            avg.append(part[1])
            rng.append(part[2])
    w = out.where()
    cat = lambda xs: X.mk_concat(xs) if xs else EMPTY
    o.eq("counts", out.attr("count_cycle"), cat(cnt), TRUE, w)
    o.eq("ranges", out.attr("stress_range"), cat(rng), TRUE, w)
    if means:
        o.eq("means", out.attr("mean_stress"), cat(avg), TRUE, w)
    else:
        o.eq("means", out.attr("mean_stress"), X.lift("zeros", lambda n: X.full(n, ZERO), X.length(cat(cnt))), TRUE, w)
    same(o, out, j, means)
    return S, j, out


def same(o, out, j, means):
    w = out.where()
    o.eq("range_bin_lower_bound", out.attr("range_bin_lower_bound"), j.rlb, TRUE, w)
    o.eq("range_bin_width", out.attr("range_bin_width"), j.rbw, TRUE, w)
    o.eq("nr_small_cycles", out.attr("nr_small_cycles"), j.nsc, TRUE, w)
    o.eq("residuals_sequence", out.attr("residuals_sequence"), j.sig, TRUE, w)
    if means:
        o.eq("mean_bin_lower_bound", out.attr("mean_bin_lower_bound"), j.mlb, TRUE, w)
        o.eq("mean_bin_width", out.attr("mean_bin_width"), j.mbw, TRUE, w)


def run(K):
    for means in (True, False):
        tag = "means" if means else "legacy"
        for hist in (0, 1, 2, 3):
            if hist > 1 and not means:
                continue
            for lg in (True, False):
                for res in (True, False):
                    if not (hist or lg or res):
                        continue
                    with K.ob(f"{tag}.{hist}.{'lg' if lg else 'none'}.{'res' if res else 'none'}", f"imported entries ({tag}, {hist} histogram rows, {'with' if lg else 'no'} large cycles, {'with' if res else 'no'} residuals)") as o:
                        contents(K, o, means, hist=hist, lg=lg, res=res)
        with K.ob(f"{tag}.duration", f"a dictionary with the duration of the signal ({tag})") as o:
            contents(K, o, means, extra={"as_dur": sym("dur", "num", pos=True)})
        with K.ob(f"{tag}.aliases", f"older key spellings ({tag})") as o:
            S = K.scen()
            j = Json(S, means=means)
            j2 = Json(S, means=means, drop=("range_bin_lower_bound", "range_bin_width", "nr_small_cycles"), extra={"bin_lb": j.rlb, "bin_width": j.rbw, "no_sm_c": j.nsc})
            a, b = load(S, j), load(S, j2)
            K.note_calls(S)
            o.always("accepted", b.ret, TRUE, b.entry)
            for f in ("count_cycle", "stress_range", "mean_stress", "nr_small_cycles", "range_bin_lower_bound", "range_bin_width", "residuals_sequence"):
                o.eq(f, b.attr(f), a.attr(f), TRUE, b.where())
        with K.ob(f"{tag}.no_sequence", f"a dictionary without residual sequence ({tag})") as o:
            S = K.scen()
            j = Json(S, means=means, drop=("res_sig",))
            out = load(S, j)
            o.always("accepted", out.ret, TRUE, out.entry)
        with K.ob(f"{tag}.no_histogram", f"a dictionary without histogram ({tag})") as o:
            S = K.scen()
            j, j2 = Json(S, means=means, hist=0), Json(S, means=means, drop=("hist",), hist=0)
            a, b = load(S, j), load(S, j2)
            o.always("accepted", b.ret, TRUE, b.entry)
            for f in ("count_cycle", "stress_range", "mean_stress"):
                o.eq(f, b.attr(f), a.attr(f), TRUE, b.where())
        for what, extra in (("unknown", {"hist2": ZERO}), ("misspelt", {"range_bin_lb": ZERO}), ("contradictory", {"bin_lb": sym("lb2", "num")})):
            with K.ob(f"{tag}.refuse.{what}", f"{what} keys are refused ({tag})") as o:
                S = K.scen()
                j = Json(S, means=means, extra=extra)
                out = load(S, j)
                K.note_calls(S)
                o.never("accepted", out.ret, TRUE, out.entry)
    for legacy in (False, True):
        tag = "legacy" if legacy else "means"
        for kind, vals in (("both", (1, 2, 4, 3)), ("half", (1,)), ("full", (2, 4))):
            with K.ob(f"trip.{tag}.{kind}", f"what the export writes can be imported ({tag}, {kind} cycles)") as o:
                S = K.scen()
                n = sym("a.nn", "num", int=True, pos=True, values=[F(x) for x in range(1, 6)])
                c = S.arr("c." + kind, n, epos=True, finite=True, evalues=[F(x, 2) for x in vals])
                r = S.arr("r4", n, epos=True, finite=True, evalues=[F(k, 4) for k in range(1, 21)])
                m = S.arr("m4", n, finite=True, evalues=[F(k, 4) for k in range(-20, 21)])
                rlb = sym("rlb4", "num", nonneg=True, values=[F(0), F(1, 4), F(1)])
                a = CC(S, "a", count_cycle=c, stress_range=r, mean_stress=m, range_bin_lower_bound=rlb, range_bin_width=sym("rbw4", "num", pos=True, values=[F(1, 2), F(1), F(2)]),
                       _mean_bin_lower_bound=sym("mlb4", "num", values=[F(-5), F(-6), F(-21, 4)]), mean_bin_width=sym("mbw4", "num", pos=True, values=[F(2), F(10)]))
                ex = S.meth(a.ref, "as_dict", damage_tolerance_for_binning=sym("tol", "num", pos=True, values=[F(1, 1000), F(1, 10), F(2)]), legacy_export=const(legacy))
                sp = lambda f, *x: S.spec(SPEC, f, *x).val()
                some, want = lt(ZERO, sp("any_kept", c, r, rlb)), sp("kept", c, r, rlb)
                out = S.meth(S.get("CycleCount"), "from_rainflow", ex.v)
                K.note_calls(S)
                if not o.always("accepted", out.ret, band(ex.ret, some), out.entry):
                    continue
                w = out.where()
                care = band(out.ret, some)
                o.eq("number of cycles", sp("total", out.attr("count_cycle")), want, care, w)
                for f in ("range_bin_lower_bound", "range_bin_width") + (() if legacy else ("mean_bin_lower_bound", "mean_bin_width")):
                    o.eq(f, out.attr(f), a[f], care, w)
                o.eq("lengths", X.length(out.attr("mean_stress")), X.length(out.attr("count_cycle")), care, w)
