"""C06: resolving residuals replaces only half cycles and keeps everything else."""
import terms as X
from cc import CC, RF
from terms import FALSE, HALF, NONE, TRUE, ZERO, band, bnot, bor, const, lt, mk_concat, mk_filt, mul, s_lt, sym

EXPLANATION = (
    "Residual resolution is analysed for every accepted mode name on a cycle count with arbitrary contents; rainflow counting of the selected sequence is an opaque function of that sequence. "
    "Ranges, means and counts of the result must be the rows of that count together with the operand's entries above one half cycle, and every other attribute that of the operand; "
    "the condition for returning the operand itself and the refusal of unknown modes are compared as decision diagrams."
)
SAME = ("timestamp", "name", "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles", "stress_concentration_factor", "mean_stress_corrected", "unit")
MODES = ("Residuals", "residuals", "min-max", "min/max", "min max", "Min-Max")


def run(K):
    for mode in MODES:
        src = "residuals_sequence" if "esid" in mode else "min_max_sequence"
        with K.ob(f"result.{mode.replace(' ', '_')}", f"attributes of the resolved count, mode {mode}") as o:
            S = K.scen()
            rf = RF(S)
            tq = S.arr("a.tseq", sym("a.ntq", "num", int=True, pos=True), finite=True, sorted=True)
            a = CC(S, "a", lffd_solved=FALSE, _time_sequence=tq)
            out = S.meth(a.ref, "solve_lffd", const(mode))
            K.note_calls(S)
            seqn = a[src]
            short = X.lift("short", lambda x: s_lt(X.length(x), const(3)), seqn)
            care = bnot(short)
            w = out.where()
            o.always("returns", out.ret, TRUE, out.entry)
            if len(rf.calls) == 0:
                o.bad("counted", "no rainflow count of the selected sequence", out.entry)
                continue
            for d, t, e, wh, pc in rf.calls:
                o.eq("counted sequence", d, seqn, band(pc, care), wh)
            if o.status:
                continue
            r = rf.of(rf.calls[0][0])
            full = lt(HALF, a["count_cycle"])
            cols = (("count_cycle", r["count"]), ("stress_range", mul(const(2), r["ampl"])), ("mean_stress", r["mean"]))

            def order(first):
                def f(t):
                    for f, new in cols:
                        keep = mk_filt(a[f], full)
                        t.eq(f, out.attr(f), mk_concat([new, keep] if first else [keep, new]), care, w)
                return f

            o.any_of(order(True), order(False))
            o.eq("residuals_sequence", out.attr("residuals_sequence"), r["res"], care, w)
            o.eq("lffd_solved", X.truth(out.attr("lffd_solved")), TRUE, care, w)
            for f in SAME:
                o.eq(f, out.attr(f), a[f], care, w)
            uniq = lambda x: S.spec("import numpy as np\ndef f(a):\n    return np.unique(a)\n", "f", x).val()
            o.eq("time_sequence", uniq(out.attr("time_sequence")), uniq(a["time_sequence"]), care, w)
    for what, fix in (("resolved", dict(lffd_solved=TRUE)), ("no residual sequence", dict(lffd_solved=FALSE, residuals_sequence=NONE)), ("few points", None)):
        for mode in ("Residuals", "min-max"):
            with K.ob(f"self.{what.replace(' ', '_')}.{mode}", f"an operand that is {what} is returned as it is ({mode})") as o:
                S = K.scen()
                rf = RF(S)
                if fix is None:
                    fix_ = dict(lffd_solved=FALSE, residuals_sequence=S.arr("a.res2", const(2), finite=True), _min_max_sequence=S.arr("a.mm2", const(2), finite=True))
                else:
                    fix_ = fix
                a = CC(S, "a", **fix_)
                out = S.meth(a.ref, "solve_lffd", const(mode))
                K.note_calls(S)
                o.always("returns", out.ret, TRUE, out.entry)
                o.ok("operand itself", out.v == a.ref, "the operand itself is not returned", out.entry)
                o.ok("operand unchanged", not [e for e in out.events if e["kind"] in ("write", "attr-write", "item-write") and str(e.get("origin", "")).startswith("arg")], "the operand is modified", out.entry)
    for mode in ("foo", "", "resid", "min", "max"):
        with K.ob(f"refuse.{mode or 'empty'}", f"mode '{mode}' is refused") as o:
            S = K.scen()
            rf = RF(S)
            a = CC(S, "a")
            out = S.meth(a.ref, "solve_lffd", const(mode))
            K.note_calls(S)
            o.never("returns a result", out.ret, TRUE, out.entry)
    with K.ob("default", "the default mode and the alias resolve the residual sequence") as o:
        for meth in ("solve_lffd", "resolve_residuals"):
            S = K.scen()
            rf = RF(S)
            a = CC(S, "a", lffd_solved=FALSE)
            out = S.meth(a.ref, meth)
            K.note_calls(S)
            if not rf.calls:
                o.bad("counted", f"{meth}: no rainflow count", out.entry)
            for d, t, e, wh, pc in rf.calls:
                o.eq("counted sequence", d, a["residuals_sequence"], pc, wh)
