"""C34: equality of cycle counts."""
import terms as X
from cc import CC
from terms import FALSE, NONE, ONE, TRUE, ZERO, band, bnot, bor, const, sym

EXPLANATION = (
    "Comparison of two cycle counts is analysed for every attribute in turn: both have the same arbitrary contents except for that attribute, which is arbitrary in both (for sequences also the length, for optional ones also whether it is there). "
    "The value graph of the comparison must be the equality of that attribute; inequality must be its negation, and nothing but a cycle count is ever equal to one."
)
EQ = "def equal(a, b):\n    return a == b\ndef differ(a, b):\n    return a != b\n"
I = dict(int=True, pos=True)


def attributes(S, q):
    """one arbitrary value per attribute"""
    n = sym("a.n", "num", **I)
    seq = S.arr(f"{q}.tseq", sym(f"{q}.ntq", "num", **I), finite=True)
    return {
        "count_cycle": [S.arr(f"{q}.count", n, epos=True, finite=True)],
        "stress_range": [S.arr(f"{q}.range", n, epos=True, finite=True)],
        "mean_stress": [S.arr(f"{q}.mean", n, finite=True)],
        "timestamp": [sym(f"{q}.ts", "num", finite=True, pytype="float")],
        "unit": [sym(f"{q}.unit", "str")],
        "range_bin_lower_bound": [sym(f"{q}.rlb", "num", nonneg=True, finite=True, pytype="float")],
        "range_bin_width": [sym(f"{q}.rbw", "num", pos=True, finite=True, pytype="float")],
        "_mean_bin_lower_bound": [sym(f"{q}.mlb", "num", finite=True, pytype="float")],
        "mean_bin_width": [sym(f"{q}.mbw", "num", pos=True, finite=True, pytype="float")],
        "nr_small_cycles": [sym(f"{q}.nsc", "num", nonneg=True, int=True)],
        "residuals_sequence": [S.arr(f"{q}.res", sym(f"{q}.nres", "num", **I), finite=True)],
        "_min_max_sequence": [S.arr(f"{q}.mm", sym(f"{q}.nmm", "num", **I), finite=True)],
        "lffd_solved": [sym(f"{q}.lffd", "bool")],
        "mean_stress_corrected": [sym(f"{q}.msc", "str")],
        "stress_concentration_factor": [sym(f"{q}.scf", "num", pos=True, finite=True, pytype="float")],
        "name": [sym(f"{q}.name", "str")],
        "_time_sequence": [NONE, seq],
    }


def alike(S, x, y):
    if NONE in (x, y):
        return TRUE if x is y else FALSE
    x, y = S.val(x), S.val(y)
    if x.sort != "arr":
        return X.eq(x, y)
    n = X.length(x)
    i = X.fresh("i", "num", int=True, nonneg=True)
    return band(X.eq(n, X.length(y)), bnot(X.red("any", X.lam(n, i, bnot(X.eq(X.elem(x, i), X.elem(y, i)))))))


def run(K):
    base = lambda S: {**{k: v[-1] for k, v in attributes(S, "a").items()}}
    names = list(attributes(K.scen(), "a"))
    for k in names:
        vs = range(len(attributes(K.scen(), "a")[k]))
        for i in vs:
            for j in vs:
                with K.ob(f"equal.{k.strip('_')}.{i}{j}", f"counts that agree in everything but perhaps {k.strip('_')}") as o:
                    S = K.scen()
                    one = {**base(S), k: attributes(S, "a")[k][i]}
                    two = {**base(S), k: attributes(S, "b")[k][j]}
                    a, b = CC(S, "a", **one), CC(S, "a", **two)
                    same = alike(S, one[k], two[k])
                    e = S.spec(EQ, "equal", a.ref, b.ref)
                    K.note_calls(S)
                    o.never("refused", e.raises(), TRUE, "__eq__")
                    if e.v is not None:
                        o.iff("equal", X.truth(e.val()), same, e.ret, "__eq__")
    with K.ob("itself", "a count equals one with the same contents and is not unequal to it") as o:
        S = K.scen()
        a, b = CC(S, "a", **base(S)), CC(S, "a", **base(S))
        e, d = S.spec(EQ, "equal", a.ref, b.ref), S.spec(EQ, "differ", a.ref, b.ref)
        K.note_calls(S)
        o.always("equal", X.truth(e.val()), e.ret, "__eq__")
        o.never("unequal", X.truth(d.val()), d.ret, "__eq__")
    for nm, other in (("a number", lambda S: sym("x", "num")), ("nothing", lambda S: NONE), ("a string", lambda S: sym("s", "str")), ("its ranges", lambda S: S.arr("a.range", sym("a.n", "num", **I), epos=True, finite=True))):
        with K.ob(f"other.{nm}", f"a count does not equal {nm}") as o:
            S = K.scen()
            a = CC(S, "a", **base(S))
            x = other(S)
            e = S.spec(EQ, "equal", a.ref, x)
            K.note_calls(S)
            o.never("refused", e.raises(), TRUE, "__eq__")
            o.never("equal", X.truth(e.val()), e.ret, "__eq__")
