"""C12: every cycle is exported exactly once."""
import terms as X
from cc import CC
from terms import FALSE, ONE, TRUE, ZERO, add, band, bnot, bor, const, le, sym

EXPLANATION = (
    "The export is analysed for cycle counts with arbitrary counts, ranges and means, in both layouts and for arbitrary tolerances and limits of empty cells; the histogram is an array of rows written inside a loop summary. "
    "For an arbitrary cell, its content plus the listed cycles that belong to it must be the number of full cycles of the operand in that cell; small cycles, residual rows and, without a limit of empty cells, the listed cycles are compared with references over the operand."
)
F = X.Fraction
SPEC = '''
import math
import numpy as np
def cell(v, lb, w):
    k = math.ceil((v - lb) / w) - 1
    return k if k > 0 else 0
def small(r, lb):
    n = 0
    for x in r:
        if x < lb:
            n += 1
    return n
def exported(hist, lg, rlb, rbw, mlb, mbw, i, j):
    n = 0
    if i < len(hist):
        if j < len(hist[i]):
            n = hist[i][j]
    for row in lg:
        if cell(row[0], mlb, mbw) == i and cell(row[1], rlb, rbw) == j:
            n = n + 1
    return n
def cycles(c, r, m, rlb, rbw, mlb, mbw, i, j):
    n = 0
    for k in range(len(c)):
        if r[k] >= rlb and cell(m[k], mlb, mbw) == i and cell(r[k], rlb, rbw) == j:
            n = n + math.floor(c[k])
    return n
def exported_ranges(hist, lg, rlb, rbw, j):
    n = 0
    if j < len(hist):
        n = hist[j]
    for x in lg:
        if cell(x, rlb, rbw) == j:
            n = n + 1
    return n
def cycles_ranges(c, r, rlb, rbw, j):
    n = 0
    for k in range(len(c)):
        if r[k] >= rlb and cell(r[k], rlb, rbw) == j:
            n = n + math.floor(c[k])
    return n
def binned(hist):
    n = 0
    for row in hist:
        for x in row:
            n = n + x
    return n
def binned_ranges(hist):
    n = 0
    for x in hist:
        n = n + x
    return n
def total(c, r, rlb):
    n = 0
    for k in range(len(c)):
        if r[k] >= rlb:
            n = n + math.floor(c[k])
    return n
def listed(c, r, rlb, rbw, tol, exp):
    top = 0
    for k in range(len(c)):
        if c[k] >= 1 and r[k] > top:
            top = r[k]
    n = 0
    for k in range(len(c)):
        if r[k] >= rlb and c[k] >= 1:
            near = rlb + (cell(r[k], rlb, rbw) + 0.5) * rbw
            if r[k] ** exp / top ** exp > tol and abs(r[k] ** exp - near ** exp) / r[k] ** exp > tol:
                n = n + math.floor(c[k])
    return n
def from_operand(rows, c, r, m):
    """listed rows that are no full cycle of the operand"""
    bad = 0
    for row in rows:
        hit = 0
        for k in range(len(c)):
            if c[k] >= 1 and m[k] == row[0] and r[k] == row[1]:
                hit = 1
        if hit == 0:
            bad = bad + 1
    return bad
def from_ranges(rows, c, r):
    bad = 0
    for x in rows:
        hit = 0
        for k in range(len(c)):
            if c[k] >= 1 and r[k] == x:
                hit = 1
        if hit == 0:
            bad = bad + 1
    return bad
def outside(at, centers):
    n = 0
    for k in at:
        if k < 0 or k >= len(centers):
            n = n + 1
    return n
def multiples(lb, w, u):
    return np.asarray([lb + k * w for k in u])
def halves(c, r, lb):
    return np.asarray([k for k in range(len(c)) if r[k] >= lb and c[k] - math.floor(c[k]) == 0.5])
def pick(x, k):
    return x[k]
def first(rows):
    return np.asarray([row[0] for row in rows])
def second(rows):
    return np.asarray([row[1] for row in rows])
'''
HALVES = [F(x, 2) for x in (1, 1, 2, 2, 4, 3, 6)]


class Case:
    def __init__(self, K, legacy, gap=True, grid=8, **more):
        S = self.S = K.scen()
        n = sym("a.nn", "num", int=True, pos=True, values=[F(x) for x in range(1, 8)])
        c = S.arr("c", n, epos=True, finite=True, evalues=HALVES)
        # values on a grid, so that they can fall on the edges of cells and survive rounding
        r = S.arr(f"r{grid}", n, epos=True, finite=True, evalues=[F(k, grid) for k in range(1, 5 * min(grid, 4) + 1)])
        m = S.arr(f"m{grid}", n, finite=True, evalues=[F(k, grid) - 5 for k in range(0, 10 * min(grid, 4) + 1)] + [F(-5)] * grid)
        self.rlb = sym("rlb", "num", nonneg=True, values=[F(0), F(1, 4), F(1), F(2)])
        self.rbw = sym("rbw", "num", pos=True, values=[F(1, 4), F(1, 2), F(1), F(2)])
        self.mlb = sym("mlb", "num", values=[F(-5), F(-6), F(-21, 4), F(-15, 2)])
        self.mbw = sym("mbw", "num", pos=True, values=[F(1), F(2), F(5, 2), F(10)])
        self.a = CC(S, "a", count_cycle=c, stress_range=r, mean_stress=m, range_bin_lower_bound=self.rlb, range_bin_width=self.rbw,
                    _mean_bin_lower_bound=self.mlb, mean_bin_width=self.mbw)
        self.c, self.r, self.m = c, r, m
        self.tol = sym("tol", "num", pos=True, values=[F(1, 1000), F(1, 10), F(1, 2), F(2)])
        self.exp = sym("exp", "num", pos=True, int=True, values=[F(1), F(3), F(5)])
        self.gap = sym("gap", "num", int=True, nonneg=True, values=[F(0), F(1), F(3), F(32)]) if gap else sym("gap.none", "num", int=True, values=[F(10**6)])
        kw = dict(damage_tolerance_for_binning=self.tol, damage_exponent=self.exp, max_consecutive_zeros=self.gap)
        kw.update(more)
        self.out = S.meth(self.a.ref, "as_dict", legacy_export=const(bool(legacy)), **kw)
        self.w = self.out.where()

    def spec(self, f, *a):
        return self.S.spec(SPEC, f, *a).val()

    def item(self, k):
        return self.S.val(self.out.item(k))


def run(K):
    i = sym("row", "num", int=True, nonneg=True, values=[F(x) for x in range(7)])
    j = sym("column", "num", int=True, nonneg=True, values=[F(x) for x in range(12)])
    for legacy in (False, True):
        tag = "legacy" if legacy else "means"
        for grid in (8, 1):
            with K.ob(f"{tag}.cells.{grid}", f"each full cycle is in one cell or listed once ({tag}, values multiples of 1/{grid})") as o:
                C = Case(K, legacy, grid=grid)
                K.note_calls(C.S)
                o.always("returns", C.out.ret, TRUE, C.out.entry)
                h, lg = C.item("hist"), C.item("lg_c")
                if legacy:
                    o.eq("cycles in a cell", C.spec("exported_ranges", h, lg, C.rlb, C.rbw, j), C.spec("cycles_ranges", C.c, C.r, C.rlb, C.rbw, j), TRUE, C.w)
                else:
                    o.eq("cycles in a cell", C.spec("exported", h, lg, C.rlb, C.rbw, C.mlb, C.mbw, i, j), C.spec("cycles", C.c, C.r, C.m, C.rlb, C.rbw, C.mlb, C.mbw, i, j), TRUE, C.w)
        with K.ob(f"{tag}.total", f"as many cycles are exported as there are full cycles ({tag})") as o:
            C = Case(K, legacy)
            h, lg = C.item("hist"), C.item("lg_c")
            o.eq("number of cycles", add(C.spec("binned_ranges" if legacy else "binned", h), X.length(lg)), C.spec("total", C.c, C.r, C.rlb), TRUE, C.w)
        with K.ob(f"{tag}.rows", f"listed rows are full cycles ({tag})") as o:
            C = Case(K, legacy)
            lg = C.item("lg_c")
            if legacy:
                o.eq("rows that are no cycle", C.spec("from_ranges", lg, C.c, C.r), ZERO, TRUE, C.w)
            else:
                o.eq("rows that are no cycle", C.spec("from_operand", lg, C.c, C.r, C.m), ZERO, TRUE, C.w)
        with K.ob(f"{tag}.listed", f"without a limit of empty cells, the cycles beyond the tolerance are listed ({tag})") as o:
            C = Case(K, legacy, gap=False)
            o.eq("number of listed cycles", X.length(C.item("lg_c")), C.spec("listed", C.c, C.r, C.rlb, C.rbw, C.tol, C.exp), TRUE, C.w)
        with K.ob(f"{tag}.small", f"small cycles ({tag})") as o:
            C = Case(K, legacy)
            o.eq("nr_small_cycles", C.item("nr_small_cycles"), add(C.a["nr_small_cycles"], C.spec("small", C.r, C.rlb)), TRUE, C.w)
            o.eq("range_bin_lower_bound", C.item("range_bin_lower_bound"), C.rlb, TRUE, C.w)
            o.eq("range_bin_width", C.item("range_bin_width"), C.rbw, TRUE, C.w)
            if not legacy:
                o.eq("mean_bin_lower_bound", C.item("mean_bin_lower_bound"), C.mlb, TRUE, C.w)
                o.eq("mean_bin_width", C.item("mean_bin_width"), C.mbw, TRUE, C.w)
        with K.ob(f"{tag}.residuals", f"residual rows ({tag})") as o:
            C = Case(K, legacy)
            at = C.spec("halves", C.c, C.r, C.rlb)
            res = C.item("res")
            if legacy:
                o.eq("ranges", res, C.spec("pick", C.r, at), TRUE, C.w)
            else:
                o.eq("number of rows", X.length(res), X.length(at), TRUE, C.w)
                o.eq("means", C.spec("first", res), C.spec("pick", C.m, at), TRUE, C.w)
                o.eq("ranges", C.spec("second", res), C.spec("pick", C.r, at), TRUE, C.w)
        with K.ob(f"{tag}.residual_sequence", f"residual sequence, rounded as asked ({tag})") as o:
            dec = S_dec()
            C = Case(K, legacy, round_decimals=dec)
            o.eq("res_sig", C.item("res_sig"), C.S.spec("import numpy as np\ndef f(x, k):\n    return np.round(x, k)\n", "f", C.a["residuals_sequence"], dec).val(), TRUE, C.w)
    for module, cls in (("stress_range", "StressRange"), ("mean_stress", "MeanStress")):
        for given in (True, False):
            if cls == "StressRange" and not given:
                continue
            with K.ob(f"exist.{cls}.{'given' if given else 'default'}", f"every full cycle has a cell ({cls}, {'given' if given else 'default'} lower bound)") as o:
                S = K.scen()
                n = sym("a.nn", "num", int=True, pos=True, values=[F(x) for x in range(1, 8)])
                c = S.arr("c", n, epos=True, finite=True, evalues=HALVES)
                u = S.arr("u", n, finite=True, evalues=[F(k, 2) for k in range(-3, 8)])
                lb = sym("lb.any", "num", values=[F(0), F(1, 3), F(2, 7), F(1)])
                w = sym("w.any", "num", pos=True, values=[F(1), F(1, 3), F(4, 7), F(20, 3)])
                x = S.spec(SPEC, "multiples", lb, w, u).val()
                made = S.call(f"py_fatigue.{module}:{cls}", _counts=c, _values=x, bin_width=w, **({"_bin_lb": lb} if given else {}))
                at, cen = S.attr(made.v, "bins_idx"), S.attr(made.v, "bin_centers")
                o.eq("cycles without a cell", S.spec(SPEC, "outside", at, cen).val(), ZERO, TRUE, made.entry)


def S_dec():
    return sym("decimals", "num", int=True, nonneg=True, values=[F(0), F(1), F(2), F(4), F(6)])
