"""C02: unit mismatches."""
from functools import reduce

import terms as X
from cc import CC, Table
from curves import SN, Paris
from geo import Integrator, geometry
from terms import FALSE, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "Every function, method and table accessor that combines cycle data with a material curve is analysed with arbitrary units on both sides: the condition under which it refuses is compared with 'the units differ', "
    "and no modification of an object of the caller may be reachable when they differ. For crack growth curves the stress unit is the part of the unit string before the root, in the spellings that occur."
)
SL = "py_fatigue.damage.stress_life:"
CG = "py_fatigue.damage.crack_growth:"


def verdict(o, K, S, out, same, care):
    K.note_calls(S)
    refused = out.raises("ValueError", "TypeError", "AttributeError", "AssertionError", "RuntimeError")
    o.always("refused", refused, band(care, bnot(same)), out.entry)
    o.never("result", out.ret, band(care, bnot(same)), out.entry)
    o.never("refused although equal", out.raises(), band(care, same), out.entry)
    for e in out.events:
        if e["kind"] == "write" and e["origin"].startswith("arg:"):
            o.never(f"modified before refusal: {e['origin'][4:]}", e["pc"], band(care, bnot(same)), e)


def run(K):
    ua, ub = sym("a.unit", "str"), sym("sn.unit", "str")
    same = X.eq(ua, ub)

    def entry(oid, text, f):
        with K.ob(oid, text) as o:
            S = K.scen()
            call = f(S)
            care = S.st.pc
            verdict(o, K, S, call(), same, care)

    for m in (1, 2):
        def pm(S):
            c, a = SN(S, m=m), CC(S, "a")
            return lambda: S.call(SL + "get_pm", a.ref, c.ref)

        entry(f"get_pm.{m}", f"linear damage of a cycle count, {m} segments", pm)

        def acc(S):
            c, t = SN(S, m=m), Table(S, unit=ua)
            x = t.accessor("miner").v
            return lambda: S.meth(x, "damage", c.ref)

        entry(f"miner.{m}", f"linear damage of a table, {m} segments", acc)
        for rule in ("pavlou", "manson", "leve", "si jian"):
            def nl(S):
                c, a = SN(S, m=m), CC(S, "a")
                return lambda: S.call(SL + "get_nonlinear_damage", const(rule), a.ref, c.ref)

            entry(f"get_nonlinear_damage.{rule}.{m}", f"nonlinear damage of a cycle count, rule {rule}, {m} segments", nl)

    for cu in ("MPa √mm", "MPa √m", "MPa√mm", "psi √in", "kPa √m"):
        for ent in ("function", "table"):
            for express in (False, True):
                if express and cu != "MPa √mm":
                    continue
                with K.ob(f"growth.{ent}.{cu}" + (".express" if express else ""), f"crack growth, {ent}, curve unit {cu}, arbitrary stress unit") as o:
                    S = K.scen()
                    pc = Paris(S, m=1, unit=const(cu))
                    g, _d = geometry(S, "surface")
                    Integrator(S)
                    n = sym("b.n", "num", int=True, pos=True)
                    r, c = S.arr("b.range", n, epos=True, finite=True), S.arr("b.count", n, epos=True, finite=True, evalues=[X.Fraction(1), X.Fraction(2), X.Fraction(5, 2)])
                    m = S.arr("b.mean", n, finite=True)
                    if ent == "function":
                        a = CC(S, "a", stress_range=r, count_cycle=c, mean_stress=m)
                        f = lambda: S.call(CG + "get_crack_growth", a.ref, pc.ref, g.v, const(express))
                    else:
                        t = Table(S, unit=ua, stress_range=r, count_cycle=c, mean_stress=m)
                        x = t.accessor("cg").v
                        f = lambda: S.meth(x, "calc_growth", pc.ref, g.v, const(express))
                    care = S.st.pc
                    verdict(o, K, S, f(), X.eq(ua, const(cu.replace("√", " ").split()[0])), care)

    ub2 = sym("b.unit", "str")
    for how in ("left", "sum"):
        with K.ob(f"add.{how}", f"sum of two cycle counts with arbitrary units, {how}") as o:
            S = K.scen()
            a, b = CC(S, "a"), CC(S, "b")
            care = band(S.st.pc, X.s_lt(a["timestamp"], b["timestamp"]))
            out = S.meth(a.ref, "__add__", b.ref) if how == "left" else S.call("pbar_sum", S.list_([a.ref, b.ref]))
            K.note_calls(S)
            differ = bnot(X.eq(ua, ub2))
            o.always("refused", out.raises(), band(care, differ), out.entry)
            o.never("result", out.ret, band(care, differ), out.entry)
