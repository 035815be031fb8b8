"""C30: the counted cycles are those of the ASTM procedure."""
import terms as X
from checks.C11 import KINDS, POINTS, RF, signal
from terms import ONE, TRUE, band, const

EXPLANATION = (
    "The whole count of a signal of arbitrary length is compared, as a multiset of (amplitude, mean, count), with the cycles that the ASTM E1049-85 rainflow procedure "
    "(written down step by step with its starting point, most recent ranges X and Y and the discarding rules) extracts from the first sample, the reversals and the last sample."
)
ASTM = POINTS + '''
def astm(x):
    p = counted(x)
    n = len(p)
    h = np.zeros(n)
    found = []
    start, top = 0, -1
    for i in p:
        top = top + 1
        h[top] = x[i]
        go = True
        while go:
            go = False
            if top - start >= 2:
                X = abs(h[top] - h[top - 1])
                Y = abs(h[top - 1] - h[top - 2])
                if X >= Y:
                    go = True
                    if top - 2 == start:
                        found.append((Y / 2, (h[top - 1] + h[top - 2]) / 2, 0.5))
                        start = start + 1
                    else:
                        found.append((Y / 2, (h[top - 1] + h[top - 2]) / 2, 1.0))
                        h[top - 2] = h[top]
                        top = top - 2
    for i in range(start, top):
        found.append((abs(h[i + 1] - h[i]) / 2, (h[i + 1] + h[i]) / 2, 0.5))
    return sorted([c for c in found if c[0] > 0])
def cycles(rows):
    return sorted([(r[0], r[1], r[2]) for r in rows])
'''


def run(K):
    for kind in KINDS:
        with K.ob(f"cycles.{kind}", f"cycles of a signal ({kind})") as o:
            S = K.scen()
            x, n = signal(S, kind)
            out = S.call(RF + "rainflow", x)
            K.note_calls(S)
            care = band(out.ret, X.truth(S.spec(POINTS, "bends", x).val()))
            o.eq("cycles", S.spec(ASTM, "cycles", out.item(0)).val(), S.spec(ASTM, "astm", x).val(), care, out.entry)
            o.never("refused", out.raises(), TRUE, out.entry)
