"""C25: options."""
import terms as X
from cc import CC
from cc import RF as Counting
from curves import SN
from geo import geometry
from interp import Abort
from kit import Undecided
from ops import HI, OPS, POS, RF, SL, N, P, seq
from terms import FALSE, NONE, TRUE, TooBig, const, sym

EXPLANATION = (
    "Constant propagation of every option name, in several letter cases, through the public interface that takes it: an accepted name must not be refused and must give the value graph of its group of synonyms, any other name must raise ValueError on every path. "
    "Definite assignment over every public operation of the catalogue: no path reads a variable that the path has not assigned."
)
RESULT = ("stress_range", "mean_stress", "count_cycle", "residuals_sequence", "min_max_sequence")


def cases(nm):
    return list(dict.fromkeys((nm, nm.upper(), nm.title(), nm[:1] + nm[1:].upper())))


def near(names):
    """names that look like accepted ones but are not"""
    out = ["", " ", "?", "none", "no"]
    for n in names:
        out += [n[:-1], n[1:], n + "s", n + " ", " " + n, n + "2", n.replace("-", "_"), n.split(" ")[0].split("-")[0], n.split(" ")[-1].split("-")[-1]]
    low = {n.lower() for n in names}
    return sorted({x for x in out if x.lower() not in low})


def correction(S, opt):
    Counting(S)
    return S.meth(CC(S, "a", mean_stress_corrected=const("No"), lffd_solved=TRUE).ref, "mean_stress_correction", opt, detail_factor=const(X.Fraction(8, 10)), gamma=P("gamma"))


def damage(S, opt):
    return S.call(SL + "calc_nonlinear_damage", opt, S.arr("s", N("n"), **POS), S.arr("c", N("n"), **POS), SN(S, m=1).ref)


def damage_count(S, opt):
    c = SN(S, m=1)
    return S.call(SL + "get_nonlinear_damage", opt, CC(S, "a", unit=c.unit).ref, c.ref)


def resolution(S, opt):
    Counting(S)
    return S.meth(CC(S, "a", lffd_solved=FALSE).ref, "solve_lffd", opt)


def crossing(S, opt):
    return S.call(RF + "findcross", seq(S, "array", "data"), sym("level", "num", finite=True), opt)


def plot(S, opt):
    return S.meth(CC(S, "a").ref, "plot_histogram", opt)


def scatter(S, opt):
    return S.call(HI + "xy_hist2d", S.arr("x", N("n"), finite=True), S.arr("y", N("n"), finite=True), opt)


def position(S, opt):
    return geometry(S, "external", crack_position=opt)[0]


def value(S, out):
    """what the caller gets: numbers, or the numbers of a cycle count"""
    v = NONE if out.v is None else out.v
    if v.op == "ref" and S.I.cell(S.st, v).kind == "obj" and "stress_range" in map(str, S.I.cell(S.st, v).fields):
        return {a: S.val(S.attr(v, a)) for a in RESULT}
    return {"result": S.val(v)}


# interface: how it is called, groups of synonyms, letter case matters, results compared
INTERFACES = {
    "correction law": (correction, [["dnvgl-rp-c203"], ["walker"], ["swt", "smith-watson-topper"]], False, True),
    "damage rule": (damage, [["pavlou"], ["manson", "manson and halford", "manson halford"], ["leve"], ["si jian", "si jian et al"]], False, True),
    "damage rule of a count": (damage_count, [["pavlou"], ["manson", "manson and halford", "manson halford"], ["leve"], ["si jian", "si jian et al"]], False, True),
    "resolution mode": (resolution, [["residuals"], ["min-max", "min/max", "min max"]], False, True),
    "crossing kind": (crossing, [["du", "all"], ["u"], ["d"]], True, True),
    "plot type": (plot, [["min-max"], ["mean-range"], ["counts-range"], ["counts-range-cumsum"], ["counts-range-2D"]], True, False),
    "scatter order": (scatter, [["mountain"], ["valley"]], True, False),
    "crack position": (position, [["internal"], ["external"]], True, False),
}


def run(K):
    for what, (f, groups, exact, compare) in INTERFACES.items():
        names = [n for g in groups for n in g]
        for g in groups:
            for n in g:
                for c in [n] if exact else cases(n):
                    with K.ob(f"{what}.{c}", f"{what}: '{c}' is accepted") as o:
                        S = K.scen()
                        out = f(S, const(c))
                        K.note_calls(S)
                        for e in out.events:
                            if e["kind"] == "unbound":
                                o.never(f"unassigned {e['name']}", e["cond"], TRUE, e)
                        if compare and c != g[0]:
                            R = K.scen()
                            ref = f(R, const(g[0]))
                            o.eq("refused", out.raises(), ref.raises(), TRUE, out.entry)
                            got, want = value(S, out), value(R, ref)
                            for k in want:
                                o.eq(k, got.get(k, NONE), want[k], out.ret, out.entry)
                        o.ok("has a result", out.v is not None and out.ret is not FALSE, "always refused", out.entry)
        for bad in near(names) + ([] if not exact else sorted({x for n in names for x in cases(n)} - set(names))):
            with K.ob(f"{what}.not.{bad}", f"{what}: '{bad}' is refused") as o:
                S = K.scen()
                out = f(S, const(bad))
                K.note_calls(S)
                o.always("refused", out.raises("ValueError", "ValidationError"), TRUE, out.entry)
    for nm, f in OPS.items():
        with K.ob(f"assigned.{nm}", f"{nm} uses only variables its path has assigned") as o:
            S = K.scen()
            out, gave_up = None, None
            try:
                out = f(S)
            except (Abort, TooBig, Undecided, RecursionError) as e:
                gave_up = e
            K.note_calls(S)
            for e in list(out.events if out is not None else S.I.events):
                if e["kind"] == "unbound":
                    o.never(f"unassigned {e['name']}", e["cond"], TRUE, e)
            if gave_up is not None:
                raise gave_up
            o.ok("analysed", True)
