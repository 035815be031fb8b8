"""C10: rainflow extraction."""
import terms as X
from terms import FALSE, NONE, ONE, TRUE, ZERO, add, band, bnot, const, sym

EXPLANATION = (
    "Cycle extraction is analysed as nested loop summaries for sequences of turning points of arbitrary length, with and without sample positions, and compared with a reference that keeps the pending points on a stack: which interval is extracted, "
    "what each row contains, which points are removed, and that the rows returned are the rows written; the balance of the counts is compared with the number of turning points."
)
SPEC = '''
import numpy as np
def reference(tp, t):
    n = len(tp)
    pend, when = np.zeros(n), np.zeros(n)
    rows = np.zeros((n, 5))
    m, k = 0, 0
    for i in range(n):
        pend[m] = tp[i]
        when[m] = t[i]
        m += 1
        while m > 2 and abs(pend[m - 2] - pend[m - 3]) <= abs(pend[m - 1] - pend[m - 2]):
            amp = abs(pend[m - 2] - pend[m - 3]) / 2
            avg = (pend[m - 2] + pend[m - 3]) / 2
            if m == 3:
                cnt, lost = 0.5, 1
            else:
                cnt, lost = 1.0, 2
            if amp > 0:
                rows[k, :] = (amp, avg, cnt, when[m - 3], 2 * (when[m - 2] - when[m - 3]))
                k += 1
            if lost == 1:
                pend[0] = pend[1]
                when[0] = when[1]
                pend[1] = pend[2]
                when[1] = when[2]
            else:
                pend[m - 3] = pend[m - 1]
                when[m - 3] = when[m - 1]
            m = m - lost
    for i in range(m - 1):
        amp = abs(pend[i + 1] - pend[i]) / 2
        if amp > 0:
            rows[k, :] = (amp, (pend[i + 1] + pend[i]) / 2, 0.5, when[i], 2 * (when[i + 1] - when[i]))
            k += 1
    return rows[:k]
def column(v, k):
    return v[:, k]
def swing(u):
    return np.asarray([u[i] if i % 2 == 0 else -u[i] for i in range(len(u))])
def zigzag(u, s):
    return np.cumsum(np.asarray([u[i] if i % 2 == s else -u[i] for i in range(len(u))]))
'''
FIND = "py_fatigue.cycle_count.rainflow:findrfc_astm"
PLAIN = SPEC.replace("(n, 5)", "(n, 3)").replace(", when[m - 3], 2 * (when[m - 2] - when[m - 3]))", ")").replace(", when[i], 2 * (when[i + 1] - when[i]))", ")")
LEN = [X.Fraction(x) for x in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14)]
LONG = [X.Fraction(x) for x in (2, 3, 5, 8, 12, 17, 25, 34, 40)]
TIES = [X.Fraction(x) for x in (0, 1, 2, 3, 4, 5)]
NEAR = [X.Fraction(x) * (1 + X.Fraction(k, 2**e)) for x in (0, 1, 2, 3) for k in (-1, 0, 1) for e in (10, 20, 30)]
KINDS = ("distinct", "ties", "near", "growing", "decaying")


def points(S, kind):
    swing = kind in ("growing", "decaying")
    n = sym(f"tp.n.{kind}", "num", int=True, pos=True, values=LONG if swing else LEN)
    f = {"finite": True}
    if kind in ("ties", "near"):
        f["evalues"] = TIES if kind == "ties" else NEAR
    if swing:
        f.update(epos=True, sorted=True if kind == "growing" else "desc")
    a = S.arr(f"tp.{kind}", n, **f)
    if swing:
        a = S.spec(SPEC, "swing", a).v
    t = S.arr(f"pos.{kind}", n, finite=True, eint=True, enonneg=True, sorted=True)
    return a, t


def run(K):
    for kind in KINDS:
        for withpos in (True, False):
            with K.ob(f"rows.{kind}.{'positions' if withpos else 'plain'}", f"rows extracted from {kind} turning points {'with' if withpos else 'without'} positions") as o:
                S = K.scen()
                a, t = points(S, kind)
                out = S.call(FIND, a, t) if withpos else S.call(FIND, a)
                K.note_calls(S)
                ref = S.spec(SPEC if withpos else PLAIN, "reference", a, t)
                o.eq("rows", S.val(out.v), ref.val(), out.ret, out.entry)
                o.never("refused", out.raises(), TRUE, out.entry)
    for s in (0, 1):
        with K.ob(f"balance.{s}", f"balance of the counts of alternating turning points, starting {'upwards' if s else 'downwards'}") as o:
            S = K.scen()
            n = sym("zz.n", "num", int=True, pos=True, values=LEN)
            u = S.arr("zz.u", n, finite=True, epos=True, evalues=[X.Fraction(x) for x in ("1", "2", "3", "4", "1/2", "7/3", "11", "5/7")])
            a = S.spec(SPEC, "zigzag", u, const(s)).v
            for t in (NONE, S.arr("zz.t", n, finite=True, eint=True, enonneg=True, sorted=True)):
                out = S.call(FIND, a, t)
                K.note_calls(S)
                two = X.mul(const(2), X.red("sum", S.spec(SPEC, "column", out.v, const(2)).val()))
                o.eq("twice the sum of the counts", two, X.sub(n, ONE), out.ret, out.entry)
                o.never("refused", out.raises(), TRUE, out.entry)
