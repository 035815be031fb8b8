"""Catalogue of the public operations: each entry analyses one call with arbitrary arguments of the caller."""
from __future__ import annotations

import terms as X
from cc import CC, Json, Table
from cc import RF as Counting
from curves import SN, Paris
from geo import Integrator, geometry
from terms import FALSE, NONE, ONE, TRUE, ZERO, const, sym

RF = "py_fatigue.cycle_count.rainflow:"
HI = "py_fatigue.cycle_count.histogram:"
CO = "py_fatigue.mean_stress.corrections:"
SL = "py_fatigue.damage.stress_life:"
CG = "py_fatigue.damage.crack_growth:"
UT = "py_fatigue.utils:"
CU = "py_fatigue.cycle_count.utils:"
POS = dict(epos=True, finite=True)
RULES = ("pavlou", "manson", "leve", "si jian")


def P(nm):
    return sym(nm, "num", pos=True, finite=True)


def N(nm):
    return sym(nm, "num", int=True, pos=True)


def seq(S, kind, nm, n=None, **f):
    """a caller's array or list"""
    n = N("n") if n is None else n
    f.setdefault("finite", True)
    v = sym(nm, "arr", length=n, elem="num", **f)
    return S.I.new(S.st, "arr" if kind == "array" else "list", v, pytype="ndarray" if kind == "array" else "list", origin="arg:" + nm)


def same_bins(S):
    """two counts that can be added"""
    a = CC(S, "a")
    return a, CC(S, "b", unit=a["unit"], range_bin_width=a["range_bin_width"], mean_bin_width=a["mean_bin_width"], range_bin_lower_bound=a["range_bin_lower_bound"], mean_stress_corrected=a["mean_stress_corrected"])


def box(S, cls, p, given=True):
    n = N("n")
    kw = dict(_bin_lb=P(p + ".lb")) if given else {}
    r = S.new(cls, _counts=S.arr("counts", n, **POS), _values=S.arr(p + ".values", n, **POS), bin_width=P(p + ".w"), **kw)
    S.own(r, p)
    return r


def quiet_counting(S):
    from checks.C27 import summarise_counting

    summarise_counting(S)


OPS = {}
TABLE = set()  # operations that may add columns and attributes to the table


def op(name, table=False):
    def put(f):
        OPS[name] = f
        if table:
            TABLE.add(name)
        return f

    return put


def add(name, f, table=False):
    op(name, table)(f)


# ---- rainflow counting
for kind in ("array", "list"):
    for ext in (True, False):
        for tm in (True, False):
            nm = f"rainflow.{kind}.{'extended' if ext else 'short'}.{'time' if tm else 'notime'}"
            add(nm, lambda S, kind=kind, ext=ext, tm=tm: S.call("rainflow", seq(S, kind, "data"), seq(S, kind, "time") if tm else NONE, const(ext)))
add("findtp", lambda S: S.call(RF + "findtp", seq(S, "array", "data")))
add("findextrema", lambda S: S.call(RF + "findextrema", seq(S, "array", "data")))
for kind in (None, "u", "d"):
    add(f"findcross.{kind}", lambda S, kind=kind: S.call(RF + "findcross", seq(S, "array", "data"), sym("level", "num", finite=True), const(kind) if kind else NONE))
add("findrfc", lambda S: S.call(RF + "findrfc_astm", seq(S, "array", "points")))
add("findrfc.time", lambda S: S.call(RF + "findrfc_astm", seq(S, "array", "points"), seq(S, "array", "time")))

# ---- construction
for kind in ("array", "list"):
    for tm in (True, False):
        add(f"from_timeseries.{kind}.{'time' if tm else 'notime'}", lambda S, kind=kind, tm=tm: S.meth(S.get("CycleCount"), "from_timeseries", seq(S, kind, "data"), seq(S, kind, "time") if tm else NONE))
for means in (True, False):
    add(f"from_rainflow.{'means' if means else 'nomeans'}", lambda S, means=means: S.meth(S.get("CycleCount"), "from_rainflow", Json(S, means=means).ref))
add("binned_rainflow", lambda S: (quiet_counting(S), S.call(HI + "binned_rainflow", seq(S, "array", "data"), seq(S, "array", "time")))[1])

# ---- cycle counts
for legacy in (True, False):
    add(f"as_dict.{'legacy' if legacy else 'new'}", lambda S, legacy=legacy: S.meth(CC(S, "a").ref, "as_dict", legacy_export=const(legacy)))
for m in ("to_df", "resolve_residuals", "__str__", "_repr_html_", "plot_residuals_sequence", "plot_half_cycles_sequence"):
    add(f"CycleCount.{m}", lambda S, m=m: S.meth(CC(S, "a").ref, m))
for mode in ("Residuals", "Rainflow"):
    for solved in (False, True):
        add(f"solve_lffd.{mode}.{solved}", lambda S, mode=mode, solved=solved: (quiet_counting(S), S.meth(CC(S, "a", lffd_solved=const(solved)).ref, "solve_lffd", const(mode)))[1])
add("CycleCount.__eq__", lambda S: S.meth(CC(S, "a").ref, "__eq__", CC(S, "b").ref))


@op("CycleCount.__add__")
def _(S):
    a, b = same_bins(S)
    return S.meth(a.ref, "__add__", b.ref)


for left, right in ((True, False), (False, True), (False, False)):
    @op(f"CycleCount.__add__.residuals.{left}.{right}")
    def _(S, left=left, right=right):
        a = CC(S, "a", **({} if left else {"residuals_sequence": NONE}))
        b = CC(S, "b", unit=a["unit"], range_bin_width=a["range_bin_width"], mean_bin_width=a["mean_bin_width"], range_bin_lower_bound=a["range_bin_lower_bound"], mean_stress_corrected=a["mean_stress_corrected"], **({} if right else {"residuals_sequence": NONE}))
        return S.meth(a.ref, "__add__", b.ref)


@op("CycleCount.__add__.bins")
def _(S):
    a = CC(S, "a")
    return S.meth(a.ref, "__add__", CC(S, "b", unit=a["unit"], mean_stress_corrected=a["mean_stress_corrected"]).ref)


add("CycleCount.__add__.zero", lambda S: S.meth(CC(S, "a").ref, "__radd__", ZERO))
for m in ("__mul__", "__rmul__"):
    for k, v in (("factor", P("factor")), ("one", ONE), ("zero", ZERO)):
        add(f"CycleCount.{m}.{k}", lambda S, m=m, v=v: S.meth(CC(S, "a").ref, m, v))
for n in (1, 2, 3):
    @op(f"pbar_sum.{n}")
    def _(S, n=n):
        a = CC(S, "a")
        cs = [a.ref] + [CC(S, f"b{k}", unit=a["unit"], range_bin_width=a["range_bin_width"], mean_bin_width=a["mean_bin_width"], range_bin_lower_bound=a["range_bin_lower_bound"], mean_stress_corrected=a["mean_stress_corrected"]).ref for k in range(1, n)]
        return S.call("pbar_sum", S.list_(cs, origin="arg:list"))


LAWS = (("DNVGL-RP-C203", dict(detail_factor=lambda: const(X.Fraction(8, 10)))), ("Walker", dict(gamma=lambda: P("gamma"))), ("SWT", {}))
for law, kw in LAWS:
    for plot in (False, True):
        add(f"mean_stress_correction.{law}.{'plot' if plot else 'plain'}", lambda S, law=law, kw=kw, plot=plot: (Counting(S), S.meth(CC(S, "a").ref, "mean_stress_correction", const(law), const(plot), **{k: v() for k, v in kw.items()}))[1])
    add(f"mean_stress_correction.{law}.enforced", lambda S, law=law, kw=kw: (Counting(S), S.meth(CC(S, "a").ref, "mean_stress_correction", const(law), FALSE, TRUE, **{k: v() for k, v in kw.items()}))[1])
VIEWS = ("time_sequence", "min_max_sequence", "residuals", "full_cycles", "half_cycles", "mean_bin_upper_bound", "range_bin_upper_bound", "bin_centers", "bin_edges", "stress_amplitude", "min_stress", "max_stress", "statistical_moments")
GET = "def get(a):\n    return a.{}\n"
for v in VIEWS:
    add(f"CycleCount.{v}", lambda S, v=v: S.spec(GET.format(v), "get", CC(S, "a").ref))
for t in ("min-max", "mean-range"):
    add(f"CycleCount.plot_histogram.{t}", lambda S, t=t: S.meth(CC(S, "a").ref, "plot_histogram", const(t)))

# ---- corrections
for f, kw in (("dnvgl_mean_stress_correction", dict(detail_factor=lambda: const(X.Fraction(8, 10)))), ("walker_mean_stress_correction", dict(gamma=lambda: P("gamma"))), ("swt_mean_stress_correction", {})):
    for plot in (False, True):
        add(f"{f}.{'plot' if plot else 'plain'}", lambda S, f=f, kw=kw, plot=plot: S.call(CO + f, S.arr("mean", N("n"), finite=True), S.arr("ampl", N("n"), **POS), plot=const(plot), **{k: v() for k, v in kw.items()}))

# ---- damage
for f in ("calc_pm",):
    add(f, lambda S: S.call(SL + "calc_pm", S.arr("s", N("n"), **POS), S.arr("c", N("n"), **POS), SN(S, m=1).ref))
add("calc_des", lambda S: S.call(SL + "calc_des", S.arr("s", N("n"), **POS), S.arr("c", N("n"), **POS), P("m0"), P("neq")))
add("calc_dem", lambda S: S.call(SL + "calc_dem", P("ro"), P("ri"), S.arr("s", N("n"), **POS), S.arr("c", N("n"), **POS), P("m0"), P("neq")))
add("get_pm", lambda S: S.call(SL + "get_pm", CC(S, "a").ref, SN(S, m=1).ref))
add("get_des", lambda S: S.call(SL + "get_des", CC(S, "a").ref, P("m0"), P("neq")))
add("get_dem", lambda S: S.call(SL + "get_dem", P("ro"), P("ri"), CC(S, "a").ref, P("m0"), P("neq")))
add("manson exponents", lambda S: S.call(SL + "calc_manson_halford_exponents", S.arr("nf", N("n"), **POS)))
add("pavlou exponents", lambda S: S.call(SL + "calc_pavlou_exponents", S.arr("s", N("n"), **POS)))
add("si jian exponents", lambda S: S.call(SL + "calc_si_jian_exponents", S.arr("s", N("n"), **POS)))
for rule in RULES:
    add(f"calc_nonlinear_damage.{rule}", lambda S, rule=rule: S.call(SL + "calc_nonlinear_damage", const(rule), S.arr("s", N("n"), **POS), S.arr("c", N("n"), **POS), SN(S, m=1).ref))
    add(f"get_nonlinear_damage.{rule}", lambda S, rule=rule: S.call(SL + "get_nonlinear_damage", const(rule), CC(S, "a").ref, SN(S, m=1).ref))
add("table.miner.damage", lambda S: S.meth(Table(S).accessor("miner").v, "damage", SN(S, m=1).ref), table=True)
add("table.miner.des", lambda S: S.meth(Table(S).accessor("miner").v, "des", P("m0"), P("neq")), table=True)
add("table.miner.dem", lambda S: S.meth(Table(S).accessor("miner").v, "dem", P("ro"), P("ri"), P("m0"), P("neq")), table=True)
add("table.gassner.g", lambda S: S.meth(Table(S).accessor("gassner").v, "g", SN(S, m=1).ref), table=True)

# ---- material curves
X2 = lambda S: S.arr("x", N("nx"), **POS)
for m in (1, 2):
    for f in ("get_cycles", "get_stress"):
        add(f"SNCurve.{f}.{m}", lambda S, f=f, m=m: S.meth(SN(S, m=m).ref, f, X2(S)))
    for f in ("get_growth_rate", "get_sif"):
        add(f"ParisCurve.{f}.{m}", lambda S, f=f, m=m: S.meth(Paris(S, m=m).ref, f, X2(S)))
for f in ("get_knee_cycles", "get_knee_stress"):
    add(f"SNCurve.{f}", lambda S, f=f: S.meth(SN(S, m=2).ref, f))
    add(f"SNCurve.{f}.given", lambda S, f=f: S.meth(SN(S, m=2).ref, f, S.I.new(S.st, "list", X.seq([P("knee")]), pytype="list", origin="arg:knee")))
for f in ("get_knee_growth_rate", "get_knee_sif"):
    add(f"ParisCurve.{f}", lambda S, f=f: S.meth(Paris(S, m=2).ref, f))
    add(f"ParisCurve.{f}.given", lambda S, f=f: S.meth(Paris(S, m=2).ref, f, S.I.new(S.st, "list", X.seq([P("knee")]), pytype="list", origin="arg:knee")))
add("SNCurve.__eq__", lambda S: S.meth(SN(S, "p1", m=1).ref, "__eq__", SN(S, "p2", m=1).ref))
add("ParisCurve.__eq__", lambda S: S.meth(Paris(S, "p1", m=1).ref, "__eq__", Paris(S, "p2", m=1).ref))
for kind in ("array", "list"):
    add(f"SNCurve.{kind}", lambda S, kind=kind: S.call("SNCurve", seq(S, kind, "slope", **POS), seq(S, kind, "intercept", **POS), P("end")))
    add(f"ParisCurve.{kind}", lambda S, kind=kind: S.call("ParisCurve", seq(S, kind, "slope", **POS), seq(S, kind, "intercept", **POS), P("thr"), P("crit")))

# ---- geometries and crack growth
GEOS = ("surface", "external", "internal", "full")
for g in GEOS:
    add(f"geometry.{g}", lambda S, g=g: geometry(S, g)[0])

    @op(f"geometry.{g}.text")
    def _(S, g=g):
        r = geometry(S, g)[0].v
        S.own(r, "g")
        return S.meth(r, "__str__")

    @op(f"get_crack_growth.{g}")
    def _(S, g=g):
        Integrator(S)
        c = Paris(S, m=1, unit=const("MPa √mm"))
        r = geometry(S, g)[0].v
        S.own(r, "g")
        return S.call(CG + "get_crack_growth", CC(S, "a", unit=const("MPa")).ref, c.ref, r)


@op("table.cg.calc_growth", table=True)
def _(S):
    Integrator(S)
    c = Paris(S, m=1, unit=const("MPa √mm"))
    r = geometry(S, "surface")[0].v
    S.own(r, "g")
    return S.meth(Table(S, unit=const("MPa")).accessor("cg").v, "calc_growth", c.ref, r)


def integrator(S, m):
    n = N("n")
    A = lambda nm, k, **f: S.arr(nm, k, finite=True, **f)
    d = S.dict_({"initial_depth": P("a0")}, origin="arg:geometry")
    return S.call(CG + "CalcCrackGrowth", A("s", n, epos=True), A("c", n, epos=True), A("slope", const(m), epos=True), A("icpt", const(m), epos=True), P("thr"), P("crit"), const("INF_SUR_00"), d)


for m in (1, 2):
    add(f"integrator.{m}", lambda S, m=m: integrator(S, m))

# ---- histograms and containers
add("make_histogram", lambda S: S.call(HI + "make_histogram", S.arr("mean", N("n"), finite=True), S.arr("range", N("n"), **POS)))
add("map_hist", lambda S: S.call(HI + "map_hist", S.arr("x", N("n"), finite=True), S.arr("y", N("n"), finite=True), S.I.new(S.st, "arr", sym("h", "arr", length=N("nh"), elem="num", ncol=N("mh")), pytype="ndarray", origin="arg:h"), X.tup([S.arr("ex", N("nex"), finite=True, sorted="asc"), S.arr("ey", N("ney"), finite=True, sorted="asc")])))
for c in ("py_fatigue.stress_range:StressRange", "py_fatigue.mean_stress:MeanStress"):
    short = c.split(":")[1]
    add(f"{short}", lambda S, c=c: S.call(c, _counts=S.arr("counts", N("n"), **POS), _values=S.arr("values", N("n"), **POS), bin_width=P("w")))
    for v in ("bin_edges", "bin_centers", "full", "half", "bins_idx", "binned_values"):
        add(f"{short}.{v}", lambda S, c=c, v=v: S.spec(GET.format(v), "get", box(S, c, "q")))


def boxes(S):
    return box(S, "py_fatigue.stress_range:StressRange", "rng"), box(S, "py_fatigue.mean_stress:MeanStress", "mns")


for mean in (True, False):
    add(f"rainflow_binner.{'means' if mean else 'nomeans'}", lambda S, mean=mean: S.call(HI + "rainflow_binner", boxes(S)[0], boxes(S)[1] if mean else NONE))
add("calc_full_cycles", lambda S: S.call(UT + "calc_full_cycles", S.arr("s", N("n"), finite=True), S.arr("c", N("n"), **POS)))
add("calc_half_cycles", lambda S: S.call(UT + "calc_half_cycles", S.arr("s", N("n"), finite=True), S.arr("c", N("n"), **POS)))
add("split_full_cycles_and_residuals", lambda S: S.call(UT + "split_full_cycles_and_residuals", S.arr("c", N("n"), **POS)))
add("compare", lambda S: S.call(UT + "compare", S.arr("a", N("n"), finite=True), S.arr("b", N("n"), finite=True)))
add("to_numba_dict", lambda S: S.call(UT + "to_numba_dict", S.dict_({"a": P("a0"), "b": P("b0")}, origin="arg:dict")))
add("split", lambda S: S.call(UT + "split", N("what"), N("by")))

# ---- aggregation of tables of cycle counts
def table(S, labels, miss="none"):
    from checks import C28

    df = C28.table(S, labels, miss)[-1]
    S.own(df, "df")
    return df


def aggregate(S, by, save, miss="none", labels=("a", "a", "b")):
    df = table(S, labels, miss)
    Counting(S)
    return S.call(CU + "aggregate_cc", df, const(by), const(save))


for by in ("M", "all"):
    for save in (False, True):
        add(f"aggregate_cc.{by}.{'residuals' if save else 'plain'}", lambda S, by=by, save=save: aggregate(S, by, save))
add("aggregate_cc.missing", lambda S: aggregate(S, "M", True, "first"))


@op("calc_aggregated_damage")
def _(S):
    from checks import C28

    df = table(S, ("a", "b"))
    C28.Damage(S)
    return S.call(CU + "calc_aggregated_damage", df, S.dict_({"x": SN(S, "sn", m=1).ref, "y": SN(S, "sn2", m=1).ref}, origin="arg:curves"))


# ---- signals for tests
TE = "py_fatigue.testing:"
add("get_sampled_time", lambda S: S.call(TE + "get_sampled_time", P("fs"), P("duration"), P("start")))
for kind in ("normal", "uniform", "random"):
    add(f"get_random_data.{kind}", lambda S, kind=kind: S.call(TE + "get_random_data", seq(S, "array", "time"), sym("seed", "num", int=True, nonneg=True), const(kind), P("least"), P("width")))
