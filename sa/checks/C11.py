"""C11: counted points and residual sequences."""
import terms as X
from checks.C10 import LEN, LONG, NEAR, SPEC, TIES
from terms import FALSE, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "Turning point detection and the whole count of a signal are analysed for signals of arbitrary length (with plateaus, ties and nearly equal samples) and compared with a reference: first sample, changes of direction, last sample; "
    "rows extracted from exactly these points; residual indices, samples and times."
)
POINTS = SPEC + '''
def turning(x):
    n = len(x)
    d = x[1] - x[0]
    out = []
    for i in range(1, n - 1):
        s = x[i + 1] - x[i]
        if s != 0 and (d == 0 or (s > 0) != (d > 0)):
            out.append(i)
            d = s
    return np.asarray(out)
def counted(x):
    return np.asarray([0] + list(turning(x)) + [len(x) - 1])
def bends(x):
    return len(turning(x)) > 0
def rows(x):
    p = counted(x)
    return reference(np.asarray([x[i] for i in p]), p)
def starts(rows, last):
    return np.asarray([int(r[3]) for r in rows if r[2] == 0.5] + [last])
def at(v, p):
    return np.asarray([v[i] for i in p])
'''
RF = "py_fatigue.cycle_count.rainflow:"
KINDS = ("plain", "ties", "near", "long", "decaying", "growing")


def signal(S, kind, least=2):
    n = sym(f"sig.n.{kind}", "num", int=True, pos=True, values=[x for x in LEN if x >= least] + ([X.Fraction(x) for x in (18, 22, 30)] if kind == "long" else []))
    f = {"finite": True}
    if kind in ("decaying", "growing"):
        n = sym(f"sig.n.{kind}", "num", int=True, pos=True, values=[x for x in LONG if x > 2])
        f.update(epos=True, sorted=True if kind == "growing" else "desc")
        return S.spec(SPEC, "swing", S.arr(f"sig.{kind}", n, **f)).v, n
    if kind in ("ties", "long"):
        f["evalues"] = TIES
    if kind == "near":
        f["evalues"] = NEAR
    return S.arr(f"sig.{kind}", n, **f), n


def run(K):
    for kind in KINDS:
        with K.ob(f"points.{kind}", f"turning points of a signal ({kind})") as o:
            S = K.scen()
            x, n = signal(S, kind)
            out = S.call(RF + "findextrema", x)
            K.note_calls(S)
            o.eq("changes of direction", S.val(out.v), S.spec(POINTS, "turning", x).val(), out.ret, out.entry)
            o.never("refused", out.raises(), TRUE, out.entry)
            out = S.call(RF + "findtp", x)
            K.note_calls(S)
            care = band(out.ret, X.truth(S.spec(POINTS, "bends", x).val()))
            o.eq("counted points", S.val(out.v), S.spec(POINTS, "counted", x).val(), care, out.entry)
            o.never("refused", out.raises(), TRUE, out.entry)
        for withtime in (kind != "ties",):
            with K.ob(f"count.{kind}.{'time' if withtime else 'plain'}", f"count of a signal ({kind}) {'with' if withtime else 'without'} time array") as o:
                S = K.scen()
                x, n = signal(S, kind)
                t = S.arr(f"time.{kind}", n, finite=True) if withtime else NONE
                out = S.call(RF + "rainflow", x, t)
                K.note_calls(S)
                care = band(out.ret, X.truth(S.spec(POINTS, "bends", x).val()))
                o.eq("rows", S.val(out.item(0)), S.spec(POINTS, "rows", x).val(), care, out.entry)
                o.eq("residual sequence", S.val(out.item(1)), S.spec(POINTS, "at", x, out.item(2)).val(), care, out.entry)
                o.eq("residual indices", S.val(out.item(2)), S.spec(POINTS, "starts", out.item(0), X.sub(n, ONE)).val(), care, out.entry)
                if withtime:
                    o.eq("residual times", S.val(out.item(3)), S.spec(POINTS, "at", t, out.item(2)).val(), care, out.entry)
                o.never("refused", out.raises(), TRUE, out.entry)
    with K.ob("count.rows", "count of a signal without residuals") as o:
        S = K.scen()
        x, n = signal(S, "ties")
        out = S.call(RF + "rainflow", x)
        short = S.call(RF + "rainflow", x, extended_output=FALSE)
        K.note_calls(S)
        o.eq("rows alone", S.val(short.v), S.val(out.item(0)), band(out.ret, short.ret), out.entry)
