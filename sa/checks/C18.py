"""C18: nonlinear damage rules."""
import terms as X
from C14 import SPEC as LIFE
from cc import CC
from curves import SN
from terms import FALSE, INF, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "The nonlinear damage functions are analysed for load sequences of arbitrary length, every listed spelling of every rule, in several letter cases, with default and with given parameters; "
    "the resulting fold is compared with the reference recursion D <- (D + n/N)^e and the reference exponents, and an arbitrary other name must be refused."
)
SPEC = LIFE + '''
def expo(rule, s, N, b, u):
    k = len(s)
    if rule == "manson":
        return [(N[i] / N[i + 1]) ** b if i < k - 1 else 1.0 for i in range(k)]
    if rule == "pavlou":
        return [(s[i + 1] / 2 / u) ** b / (s[i] / 2 / u) ** b if i < k - 1 else 1.0 for i in range(k)]
    if rule == "si jian":
        return [s[i + 1] / s[i] if i < k - 1 else 1.0 for i in range(k)]
    return [b for i in range(k)]
def damage(rule, s, n, slope, icpt, end, b, u):
    N = life(s, slope, icpt, end)
    e = expo(rule, s, N, b, u)
    d = 0
    for i in range(len(s)):
        d = (d + n[i] / N[i]) ** e[i]
    return d
'''
SL = "py_fatigue.damage.stress_life:"
RULES = {"pavlou": ["pavlou"], "manson": ["manson", "manson and halford", "manson halford"], "leve": ["leve"], "si jian": ["si jian", "si jian et al"]}
DEFAULT = {"pavlou": X.Fraction(-3, 4), "manson": X.Fraction(2, 5), "leve": X.Fraction(2), "si jian": X.Fraction(1)}
P = lambda nm: sym(nm, "num", pos=True, finite=True)


def setup(S, end):
    c = SN(S, m=1, end=end)
    n = sym("k", "num", int=True, pos=True)
    pos = dict(epos=True, finite=True)
    return c, S.arr("s", n, **pos), S.arr("n", n, **pos), sym("s", "arr"), sym("n", "arr")


def run(K):
    b, u = P("b"), P("u")
    for rule, names in RULES.items():
        for nm in names + [names[-1].title(), names[0].upper()]:
            with K.ob(f"default.{nm}", f"{nm!r} with default parameters") as o:
                S = K.scen()
                c, s, n, sv, nv = setup(S, "inf")
                out = S.call(SL + "calc_nonlinear_damage", const(nm), s, n, c.ref)
                K.note_calls(S)
                o.never("raises", out.raises(), TRUE, out.entry)
                want = S.spec(SPEC, "damage", const(rule), sv, nv, c.slope, c.icpt, c.end, const(DEFAULT[rule]), const(900))
                o.eq("damage", out.val(), want.val(), out.ret, out.entry)
        for end in ("inf", "finite"):
            with K.ob(f"given.{rule}.{end}", f"{rule} with given parameters, {end} endurance") as o:
                S = K.scen()
                c, s, n, sv, nv = setup(S, end)
                kw = {} if rule == "si jian" else {"base_exponent": b}
                if rule == "pavlou":
                    kw["ultimate_stress"] = u
                out = S.call(SL + "calc_nonlinear_damage", const(names[0]), s, n, c.ref, **kw)
                K.note_calls(S)
                want = S.spec(SPEC, "damage", const(rule), sv, nv, c.slope, c.icpt, c.end, b, u)
                o.eq("damage", out.val(), want.val(), out.ret, out.entry)
        with K.ob(f"count.{rule}", f"{rule} on a cycle count") as o:
            S = K.scen()
            c = SN(S, m=1, end="inf")
            a = CC(S, "a", unit=c.unit)
            kw = {} if rule == "si jian" else {"base_exponent": b}
            if rule == "pavlou":
                kw["ultimate_stress"] = u
            out = S.call(SL + "get_nonlinear_damage", const(names[0]), a.ref, c.ref, **kw)
            K.note_calls(S)
            want = S.spec(SPEC, "damage", const(rule), a["stress_range"], a["count_cycle"], c.slope, c.icpt, c.end, b, u)
            o.eq("damage", out.val(), want.val(), out.ret, out.entry)
    known = [nm for names in RULES.values() for nm in names]
    for nm in ("miner", "manson and", "halford", "", "pavlou ", "si"):
        with K.ob(f"unknown.{nm}", f"{nm!r} is refused") as o:
            S = K.scen()
            c, s, n, sv, nv = setup(S, "inf")
            out = S.call(SL + "calc_nonlinear_damage", const(nm), s, n, c.ref)
            o.always("refused", out.raises("ValueError"), TRUE, out.entry)
    with K.ob("unknown.any", "every name outside the list is refused") as o:
        S = K.scen()
        c, s, n, sv, nv = setup(S, "inf")
        r = sym("rule", "str")
        out = S.call(SL + "calc_nonlinear_damage", r, s, n, c.ref)
        lowv = S.spec("def low(x):\n    return x.lower()", "low", r).val()
        other = X.ball([bnot(X.s_eq(lowv, const(k))) for k in known])
        o.never("returns", out.ret, other, out.entry)
