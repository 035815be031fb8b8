"""C09: shift and scale equivariance of rainflow counting."""
import terms as X
from checks.C10 import FIND, LEN, NEAR, TIES
from terms import NONE, ONE, TRUE, ZERO, add, band, const, mul, sym

EXPLANATION = (
    "Turning point detection, cycle extraction and the whole count are analysed twice, for a signal of arbitrary length and for the same signal shifted and scaled by arbitrary numbers, and the two value graphs are compared column by column after the stated transformation; "
    "factors and offsets range from far below to far above the constants that occur in the code."
)
SPEC = '''
import numpy as np
def moved(x, s, c):
    return np.asarray([s * v + c for v in x])
def column(v, k):
    return np.asarray([r[k] for r in v])
'''
RF = "py_fatigue.cycle_count.rainflow:"
FACTORS = [X.Fraction(x) for x in ("1", "1/1000000000000", "1/1000000000", "1/1000000", "1/3", "7", "1000", "1000000", "1000000000")]
OFFSETS = [X.Fraction(x) for x in ("0", "1/1000000000", "-1", "1", "17/3", "-1000", "1000000")]
KINDS = ("plain", "ties", "near")


def signal(S, kind, what):
    n = sym(f"{what}.n", "num", int=True, pos=True, values=LEN)
    f = {"finite": True}
    if kind != "plain":
        f["evalues"] = TIES if kind == "ties" else NEAR
    return S.arr(f"{what}.{kind}", n, **f), n


def trans(how):
    s = sym("factor", "num", pos=True, finite=True, values=FACTORS) if how == "scaled" else ONE
    c = sym("offset", "num", finite=True, values=OFFSETS) if how == "shifted" else ZERO
    return s, c


def col(S, v, k):
    return S.spec(SPEC, "column", v, const(k)).val()


def run(K):
    for how in ("shifted", "scaled"):
        for kind in KINDS:
            with K.ob(f"points.{how}.{kind}", f"turning points of a signal that is {how} ({kind})") as o:
                S = K.scen()
                x, n = signal(S, kind, "sig")
                s, c = trans(how)
                a = S.call(RF + "findtp", x)
                b = S.call(RF + "findtp", S.spec(SPEC, "moved", x, s, c).v)
                K.note_calls(S)
                o.eq("points", S.val(b.v), S.val(a.v), band(a.ret, b.ret), b.entry)
            for pos in (True, False):
                with K.ob(f"rows.{how}.{kind}.{'positions' if pos else 'plain'}", f"cycles of turning points that are {how} ({kind})") as o:
                    S = K.scen()
                    x, n = signal(S, kind, "tp")
                    t = S.arr("tp.t", n, finite=True, eint=True, enonneg=True, sorted=True) if pos else NONE
                    s, c = trans(how)
                    a = S.call(FIND, x, t)
                    b = S.call(FIND, S.spec(SPEC, "moved", x, s, c).v, t)
                    K.note_calls(S)
                    care = band(a.ret, b.ret)
                    o.eq("number of rows", X.length(S.val(b.v)), X.length(S.val(a.v)), care, b.entry)
                    amp, avg = S.spec(SPEC, "moved", S.I.arr(S.st, col(S, a.v, 0)), s, ZERO).val(), S.spec(SPEC, "moved", S.I.arr(S.st, col(S, a.v, 1)), s, c).val()
                    o.eq("amplitudes", col(S, b.v, 0), amp, care, b.entry)
                    o.eq("means", col(S, b.v, 1), avg, care, b.entry)
                    for k, nm in ((2, "counts"), (3, "start"), (4, "duration")):
                        if pos or k == 2:
                            o.eq(nm, col(S, b.v, k), col(S, a.v, k), care, b.entry)
        with K.ob(f"count.{how}", f"whole count of a signal that is {how}") as o:
            S = K.scen()
            x, n = signal(S, "ties", "sig")
            s, c = trans(how)
            a = S.call(RF + "rainflow", x)
            b = S.call(RF + "rainflow", S.spec(SPEC, "moved", x, s, c).v)
            K.note_calls(S)
            care = band(a.ret, b.ret)
            for k, nm in ((0, "amplitudes"), (1, "means"), (2, "counts"), (3, "start"), (4, "duration")):
                want = col(S, a.item(0), k)
                if k < 2:
                    want = S.spec(SPEC, "moved", S.I.arr(S.st, want), s, c if k else ZERO).val()
                o.eq(nm, col(S, b.item(0), k), want, care, b.entry)
            o.eq("residual samples", S.val(b.item(1)), S.spec(SPEC, "moved", a.item(1), s, c).val(), care, b.entry)
            o.eq("residual indices", S.val(b.item(2)), S.val(a.item(2)), care, b.entry)
