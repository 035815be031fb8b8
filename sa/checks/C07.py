"""C07: mean stress correction changes ranges and means once, and nothing else."""
import terms as X
from cc import CC, RF
from terms import FALSE, HALF, NONE, TRUE, ZERO, band, bnot, const, mul, sym

EXPLANATION = (
    "The correction is analysed for every accepted law, with and without its optional parameter, on resolved and unresolved counts with arbitrary contents. "
    "Ranges must be the graph of the public law function applied to the means and amplitudes of the (resolved) operand; every other attribute must be that of the resolved operand; "
    "refusal conditions and the early return of corrected counts are compared as decision diagrams."
)
SAME = ("count_cycle", "timestamp", "time_sequence", "name", "unit", "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles",
        "residuals_sequence", "min_max_sequence", "stress_concentration_factor")
LAWS = (
    ("DNVGL-RP-C203", "dnvgl_mean_stress_correction", "detail_factor", X.Fraction(8, 10)),
    ("dnvgl-rp-c203", "dnvgl_mean_stress_correction", "detail_factor", X.Fraction(8, 10)),
    ("walker", "walker_mean_stress_correction", "gamma", X.Fraction(1, 2)),
    ("Walker", "walker_mean_stress_correction", "gamma", X.Fraction(1, 2)),
    ("swt", "swt_mean_stress_correction", None, None),
    ("SWT", "swt_mean_stress_correction", None, None),
    ("smith-watson-topper", "swt_mean_stress_correction", None, None),
)


def strings(t, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if t.op == "const" and isinstance(X.cval(t), str):
        out.append(X.cval(t))
    for c in X._children(t):
        strings(c, out, seen)
    return out


def run(K):
    for law, fn, par, dflt in LAWS:
        for given in ([True, False] if par else [False]):
            for solved in (True, False):
                with K.ob(f"result.{law}.{par if given else 'default'}.{'resolved' if solved else 'unresolved'}", f"{law}: ranges by the law, everything else kept") as o:
                    S = K.scen()
                    rf = RF(S)
                    a = CC(S, "a", lffd_solved=TRUE if solved else FALSE, mean_stress_corrected=const("No"))
                    p, kw = None, {}
                    if given:
                        p = const(X.Fraction(6, 10)) if par == "detail_factor" else sym("g.any", "num", nonneg=True, values=[X.Fraction(v) for v in ("0", "1/3", "3/4", "1", "1/2")])
                        kw[par] = p
                    elif par:
                        p = const(dflt)
                    base = a.ref if solved else S.meth(a.ref, "solve_lffd").v
                    if base is None:
                        o.und("no resolved operand")
                        continue
                    b = {f: S.attr(base, f) for f in SAME + ("mean_stress", "stress_amplitude", "lffd_solved", "stress_range")}
                    out = S.meth(a.ref, "mean_stress_correction", const(law), **kw)
                    K.note_calls(S)
                    w = out.where()
                    want = S.call(f"py_fatigue.mean_stress.corrections:{fn}", b["mean_stress"], b["stress_amplitude"], *([p] if p is not None else []))
                    care = band(out.ret, want.ret)
                    wr = want.val()
                    o.eq("stress_range", out.attr("stress_range"), wr, care, w)
                    for f in SAME:
                        o.eq(f, out.attr(f), b[f], care, w)
                    o.eq("lffd_solved", X.truth(out.attr("lffd_solved")), X.truth(b["lffd_solved"]), care, w)
                    o.eq("mean_stress", out.attr("mean_stress"), mul(HALF, wr) if law.lower().startswith("dnv") else mul(ZERO, wr), care, w)
                    mark = out.attr("mean_stress_corrected")
                    for m in X.leaves(mark):
                        o.ok("marked", m != const("No"), "the corrected count is not marked as corrected", w)
                        if not m.unk:
                            o.ok("marked with the law", any(law.lower() in s.lower() for s in strings(m)), "the mark does not name the law", w)
    for law in ("DNVGL-RP-C203", "walker", "swt"):
        with K.ob(f"zero.{law}", f"{law}: an all-zero mean is refused unless a pulsating load is enforced") as o:
            for enforce in (False, True):
                S = K.scen()
                rf = RF(S)
                a = CC(S, "a", lffd_solved=TRUE, mean_stress_corrected=const("No"))
                kw = {"walker": dict(gamma=const(X.Fraction(1, 3))), "DNVGL-RP-C203": dict(detail_factor=const(X.Fraction(8, 10)))}.get(law, {})
                out = S.meth(a.ref, "mean_stress_correction", const(law), enforce_pulsating_load=TRUE if enforce else FALSE, **kw)
                K.note_calls(S)
                zero = X.red("all", X.eq(a["mean_stress"], ZERO))
                o.iff(f"accepted (enforced: {enforce})", out.ret, TRUE if enforce else bnot(X.truth(zero)), TRUE, out.entry)
                if enforce:
                    for z, mean in ((X.truth(zero), a["stress_range"]), (bnot(X.truth(zero)), None)):
                        m = mul(HALF, mean) if mean is not None else a["mean_stress"]
                        fn = [l[1] for l in LAWS if l[0] == law][0]
                        want = S.call(f"py_fatigue.mean_stress.corrections:{fn}", m, mul(HALF, a["stress_range"]), *kw.values())
                        o.eq("pulsating ranges" if mean is not None else "ranges", out.attr("stress_range"), want.val(), band(z, band(out.ret, want.ret)), out.where())
    with K.ob("once", "a corrected count is returned unchanged") as o:
        for law in ("DNVGL-RP-C203", "walker", "swt"):
            S = K.scen()
            rf = RF(S)
            a = CC(S, "a", mean_stress_corrected=const("DNVGL-RP-C203: {}"))
            out = S.meth(a.ref, "mean_stress_correction", const(law))
            K.note_calls(S)
            o.always("returns", out.ret, TRUE, out.entry)
            o.ok("operand itself", out.v == a.ref, f"{law}: a corrected count is corrected again", out.entry)
            o.ok("unchanged", not [e for e in out.events if e["kind"] in ("write", "attr-write", "item-write") and str(e.get("origin", "")).startswith("arg")], "the corrected count is modified", out.entry)
    with K.ob("status", "the early return depends on the correction status only") as o:
        S = K.scen()
        rf = RF(S)
        a = CC(S, "a", lffd_solved=TRUE)
        out = S.meth(a.ref, "mean_stress_correction", const("swt"))
        K.note_calls(S)
        no = X.s_eq(a["mean_stress_corrected"], const("No"))
        zero = X.truth(X.red("all", X.eq(a["mean_stress"], ZERO)))
        o.iff("accepted", out.ret, X.bor(bnot(no), bnot(zero)), TRUE, out.entry)
        same = X.lift("same", lambda x: TRUE if x == a.ref else FALSE, out.v)
        o.iff("operand itself", same, bnot(no), out.ret, out.entry)
    for law in ("foo", "", "goodman", "dnv", "walker "):
        with K.ob(f"refuse.{law.strip() or 'empty'}{len(law)}", f"law '{law}' is refused") as o:
            S = K.scen()
            rf = RF(S)
            a = CC(S, "a")
            out = S.meth(a.ref, "mean_stress_correction", const(law))
            K.note_calls(S)
            o.never("returns a result", out.ret, TRUE, out.entry)
