"""Abstract material curves used by the checks."""
from __future__ import annotations

import terms as X
from terms import INF, NONE, TRUE, ZERO, const, sym

SN_NAMES = ("slope", "intercept", "endurance", "unit")


class SN:
    """an S-N curve with arbitrary segments; m: number of segments (symbolic when None)"""

    def __init__(self, S, p="sn", m=None, end="finite", **more):
        self.S = S
        self.m = sym(p + ".m", "num", int=True, pos=True) if m is None else const(m)
        self.slope = sym(p + ".slope", "arr", length=self.m, elem="num", epos=True, finite=True)
        self.icpt = sym(p + ".icpt", "arr", length=self.m, elem="num", finite=True)
        self.end = INF if end == "inf" else sym(p + ".end", "num", pos=True, finite=True)
        self.unit = sym(p + ".unit", "str")
        ar = lambda t, n: S.I.new(S.st, "arr", t, pytype="ndarray", origin="arg:" + n)
        self.ref = S.new("SNCurve", slope=ar(self.slope, p + ".slope"), intercept=ar(self.icpt, p + ".intercept"), endurance=self.end, unit_string=self.unit, **more)
        S.own(self.ref, p)


class Paris:
    """a crack growth curve with m segments"""

    def __init__(self, S, p="pc", m=None, crit="finite", thr="pos", unit=None, **more):
        self.S = S
        self.m = sym(p + ".m", "num", int=True, pos=True) if m is None else const(m)
        self.slope = sym(p + ".slope", "arr", length=self.m, elem="num", epos=True, finite=True)
        self.icpt = sym(p + ".icpt", "arr", length=self.m, elem="num", epos=True, finite=True)
        self.thr = ZERO if thr == "zero" else sym(p + ".thr", "num", pos=True, finite=True)
        self.crit = INF if crit == "inf" else sym(p + ".crit", "num", pos=True, finite=True)
        self.unit = unit if unit is not None else sym(p + ".unit", "str")
        ar = lambda t, n: S.I.new(S.st, "arr", t, pytype="ndarray", origin="arg:" + n)
        self.ref = S.new("ParisCurve", slope=ar(self.slope, p + ".slope"), intercept=ar(self.icpt, p + ".intercept"), threshold=self.thr, critical=self.crit, unit_string=self.unit, **more)
        S.own(self.ref, p)


def inputs(S, name, **f):
    """the same quantity as array, list and scalar: (kind, argument, value, is scalar)"""
    f.setdefault("finite", True)
    f.setdefault("epos", True)
    n = sym("n_" + name, "num", int=True, pos=True)
    a = sym(name, "arr", length=n, elem="num", **f)
    yield "array", S.I.new(S.st, "arr", a, pytype="ndarray", origin="arg:" + name), a, False
    yield "list", S.I.new(S.st, "list", a, pytype="list", origin="arg:" + name), a, False
    x = sym(name + "0", "num", pos=True, finite=True)
    yield "scalar", x, x, True
