"""Abstract cycle counts used by the checks."""
from __future__ import annotations

import terms as X
from kit import Undecided
from terms import NONE, ONE, TRUE, ZERO, const, isnone, select, sym

FIELDS = ("count_cycle", "stress_range", "mean_stress", "timestamp", "unit", "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width",
          "nr_small_cycles", "residuals_sequence", "min_max_sequence", "lffd_solved", "mean_stress_corrected", "stress_concentration_factor", "name", "time_sequence")


class CC:
    """a cycle count with arbitrary contents"""

    def __init__(self, S, p, **fix):
        self.S, self.p = S, p
        n = sym(p + ".n", "num", int=True, pos=True)
        self.n = n
        v = {}
        v["count_cycle"] = S.arr(p + ".count", n, epos=True, finite=True, evalues=[X.Fraction(1, 2), X.Fraction(1), X.Fraction(3, 2), X.Fraction(2), X.Fraction(3)])
        v["stress_range"] = S.arr(p + ".range", n, epos=True, finite=True)
        v["mean_stress"] = S.arr(p + ".mean", n, finite=True)
        v["timestamp"] = sym(p + ".ts", "any", notnone=True, numeric=True)
        v["unit"] = sym(p + ".unit", "str")
        v["range_bin_lower_bound"] = sym(p + ".rlb", "num", nonneg=True)
        v["range_bin_width"] = sym(p + ".rbw", "num", pos=True)
        v["_mean_bin_lower_bound"] = sym(p + ".mlb", "num")
        v["mean_bin_width"] = sym(p + ".mbw", "num", pos=True)
        v["nr_small_cycles"] = sym(p + ".nsc", "num", nonneg=True, int=True)
        v["residuals_sequence"] = S.arr(p + ".res", finite=True)
        v["_min_max_sequence"] = S.arr(p + ".mm", finite=True)
        v["lffd_solved"] = sym(p + ".lffd", "bool")
        v["mean_stress_corrected"] = sym(p + ".msc", "str")
        v["stress_concentration_factor"] = sym(p + ".scf", "num", pos=True)
        v["name"] = sym(p + ".name", "any", string=True)
        v["_time_sequence"] = select(isnone(sym(p + ".hastq", "any")), NONE, S.arr(p + ".tseq", sym(p + ".ntq", "num", int=True, pos=True), finite=True))
        v.update(fix)
        cls = S.get("CycleCount")
        names = {f[0] for f in cls.args[0].fields()}
        kw = {k: w for k, w in v.items() if k in names}
        self.ref = S.new("CycleCount", **kw)
        S.own(self.ref, p)
        self.v = {}
        for f in FIELDS:
            self.v[f] = S.attr(self.ref, f)

    def __getitem__(self, f):
        return self.v[f]


class RF:
    """rainflow counting as an opaque function of its signal: equal signals give equal counts"""

    NAME = "py_fatigue.cycle_count.rainflow:rainflow"

    def __init__(self, S):
        self.S = S
        self.known = {}
        self.calls = []
        f = S.get("rainflow")
        self.fn = f.args[0]
        S.I.overrides[self.fn.qual] = self.over

    def of(self, data):
        if data not in self.known:
            p = f"rf{len(self.known)}"
            n = sym(p + ".n", "num", int=True, pos=True)
            r = sym(p + ".m", "num", int=True, pos=True)
            A = lambda x, k=n, **f: sym(f"{p}.{x}", "arr", length=k, elem="num", finite=True, **f)
            self.known[data] = dict(
                ampl=A("ampl", epos=True), mean=A("mean"), count=A("count", epos=True, evalues=[X.Fraction(1, 2), X.Fraction(1)]), start=A("start", enonneg=True, eint=True), period=A("period", epos=True),
                res=A("res", r), idx=A("idx", r, enonneg=True, eint=True), rtime=A("rtime", r))
        return self.known[data]

    def over(self, I, args, kw, st, node):
        env = I.bind(self.fn, args, kw, st, node)
        data, time, ext = (env[k] for k in ("data", "time", "extended_output"))
        d = self.of(I.deep(data, st))
        self.calls.append((I.deep(data, st), I.deep(time, st), ext, I.where(node), st.pc))
        rfs = I.arr(st, X.node("cols", [d[k] for k in ("ampl", "mean", "count", "start", "period")]))
        if ext is X.FALSE:
            return rfs
        out = [rfs, I.arr(st, d["res"]), I.arr(st, d["idx"])]
        if time is NONE:
            return X.tup(out)
        return X.tup(out + [I.arr(st, d["rtime"])])


class Json:
    """an exported dictionary with symbolic contents; parts: lengths of hist rows etc. are arbitrary"""

    def __init__(self, S, means=True, hist=2, lg=True, res=True, drop=(), extra=None, tag=""):
        self.S = S
        I, st = S.I, S.st
        N = lambda nm, **f: sym(tag + nm, "num", **f)
        A = lambda nm, n, **f: sym(tag + nm, "arr", length=n, elem="num", finite=True, **f)
        L = lambda content, nm="": I.new(st, "list", content, pytype="list", origin="arg:data" + nm)
        n = lambda nm: sym(tag + nm, "num", int=True, pos=True)
        self.rlb, self.rbw, self.mlb, self.mbw, self.nsc = N("rlb"), N("rbw", pos=True), N("mlb"), N("mbw", pos=True), N("nsc", int=True, nonneg=True)
        self.rd = const(4)
        d = {"range_bin_lower_bound": self.rlb, "range_bin_width": self.rbw, "nr_small_cycles": self.nsc}
        if means:
            d["mean_bin_lower_bound"], d["mean_bin_width"] = self.mlb, self.mbw
        ev = [X.Fraction(0), X.Fraction(1), X.Fraction(2), X.Fraction(1, 2)]
        self.rows = [A(f"hist{i}", n(f"nh{i}"), enonneg=True, evalues=ev) for i in range(hist if means else min(hist, 1))]
        if means:
            d["hist"] = L(X.seq([L(r, ".hist") for r in self.rows]), ".hist")
        else:
            d["hist"] = L(self.rows[0] if self.rows else X.EMPTY, ".hist")
        i = X.fresh("i", "num", int=True, nonneg=True)

        def pairs(nm):
            k = n("n" + nm)
            m, r = A(nm + ".mean", k), A(nm + ".range", k, epos=True)
            return k, m, r, (X.lam(k, i, X.seq([X.elem(m, i), X.elem(r, i)])) if means else r)

        self.lg = pairs("lg") if lg else None
        self.rs = pairs("rs") if res else None
        d["lg_c"] = L(self.lg[3] if lg else X.EMPTY, ".lg_c")
        d["res"] = L(self.rs[3] if res else X.EMPTY, ".res")
        self.sig = A("sig", n("nsig"))
        d["res_sig"] = L(self.sig, ".res_sig")
        for k in drop:
            d.pop(k, None)
        d.update(extra or {})
        self.given = {k: S.val(v) for k, v in d.items()}
        self.ref = S.dict_(d, origin="arg:data")


class Table:
    """a table of cycles with its unit, and access to its registered accessors"""

    def __init__(self, S, p="t", unit=None, drop=(), extra=(), meta=True, **fix):
        self.S = S
        self.n = sym(p + ".n", "num", int=True, pos=True)
        col = lambda nm, **f: S.arr(f"{p}.{nm}", self.n, finite=True, origin=False, **f)
        c = {"count_cycle": col("count", epos=True), "mean_stress": col("mean"), "stress_range": col("range", epos=True)}
        c.update(fix)
        for d in drop:
            c.pop(d)
        for e in extra:
            c[e] = col(e)
        self.unit = unit if unit is not None else sym(p + ".unit", "str")
        m = {"_metadata": S.dict_({"unit": self.unit})} if meta else {"closed": True}
        self.ref = S.I.new(S.st, "df", fields={const(k): (TRUE, v) for k, v in c.items()}, meta=m, pytype="df")
        S.own(self.ref, p)
        self.v = {k: S.val(v) for k, v in c.items()}

    def __getitem__(self, k):
        return self.v[k]

    def accessor(self, name):
        """analyse the construction of an accessor: an Out"""
        cls = self.S.I.accessors().get(name)
        if cls is None:
            from kit import Missing

            raise Missing(f"table accessor {name}")
        return self.S.call(cls, self.ref)
