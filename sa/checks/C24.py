"""C24: results depend on arguments only."""
import terms as X
from curves import SN, Paris
from interp import Abort
from kit import Undecided
from ops import OPS
from terms import TRUE, TooBig, const, sym

EXPLANATION = (
    "Effect analysis: every public operation of the catalogue is analysed with everything it calls; no store may reach an object that exists since the modules were loaded (module and class variables, default values, function attributes, caches) or a setting of another library, and no value may be read from the clock, an unseeded random generator, the environment or the file system. "
    "Curves take their colour and number from a counter: two constructions in a row have equal value graphs for everything else, and what a curve answers has the same value graph whether or not another curve was made and asked before."
)
ALLOWED = ("ext(warnings).formatwarning", "ext(matplotlib", "ext(plotly")
CURVES = ("SNCurve.array", "SNCurve.list", "ParisCurve.array", "ParisCurve.list")


def inside(t, seen=None):
    """names of the sources of variation in a value"""
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, X.T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "uf":
            out.add(str(x.args[0]))
        for a in x.args:
            stack.extend(a if isinstance(a, (tuple, list)) else [a])
    return out


def counter(e):
    """an attribute such as the number of curves made so far, or the colour of the next one; what curves answer is compared below"""
    return not e["how"].endswith(("()", "=")) or any("colo" in f.lower() for f in e["stack"] + (str(e["func"]),))


def run(K):
    for nm, f in OPS.items():
        with K.ob(nm, f"{nm} has no memory and reads only its arguments") as o:
            S = K.scen()
            out, gave_up = None, None
            try:
                out = f(S)
            except (Abort, TooBig, Undecided, RecursionError) as e:
                gave_up = e
            K.note_calls(S)
            used = None
            for e in list(out.events if out is not None else S.I.events):
                if e["kind"] == "write" and e["origin"] == "global" and not (nm in CURVES and counter(e)):
                    o.never(f"keeps state in {e['how']}", e["pc"], TRUE, e)
                elif e["kind"] == "global-write" and not e["what"].startswith(ALLOWED):
                    o.never(f"writes {e['what']}", e["pc"], TRUE, e)
                elif e["kind"] == "nondet":
                    if e["what"].startswith("time."):  # elapsed time messages
                        if out is None or out.v is None:
                            continue
                        used = inside(S.val(out.v)) if used is None else used
                        if not any(u.lstrip("?") == e["what"] for u in used):
                            continue
                    o.never(f"reads {e['what']}", e.get("cond", e["pc"]), TRUE, e)
            if gave_up is not None:
                raise gave_up
            o.ok("analysed", True)
    for cls, make in (("SNCurve", SN), ("ParisCurve", Paris)):
        with K.ob(f"{cls}.twice", f"{cls}: two constructions in a row give equal curves") as o:
            S = K.scen()
            a, b = make(S, m=2).ref, make(S, m=2).ref
            K.note_calls(S)
            fa, fb = S.I.cell(S.st, a).fields, S.I.cell(S.st, b).fields
            o.ok("same attributes", set(fa) == set(fb))
            n = 0
            for k in sorted(fa, key=str):
                if str(k).strip("_") in ("color", "colour", "id"):
                    continue
                n += 1
                o.eq(f"attribute {k}", S.val(fa[k]), S.val(fb[k]))
            if n < 4:
                raise Undecided("too few attributes")
    for cls, make, qs in (
        ("SNCurve", SN, (("get_cycles", 1), ("get_stress", 1), ("get_knee_stress", 0), ("get_knee_cycles", 0))),
        ("ParisCurve", Paris, (("get_growth_rate", 1), ("get_sif", 1), ("get_knee_sif", 0), ("get_knee_growth_rate", 0))),
    ):
        for q, takes in qs:
            with K.ob(f"{cls}.{q}.history", f"{cls}.{q}: a curve made and used before changes nothing") as o:
                res = []
                for before in (False, True):
                    S = K.scen()
                    x = [S.arr("x", sym("nx", "num", int=True, pos=True), epos=True, finite=True)]
                    if before:
                        other = make(S, "other", m=2).ref
                        for r, t in qs:
                            S.meth(other, r, *(x if t else []))
                    c = make(S, "c", m=2).ref
                    out = S.meth(c, q, *(x if takes else []))
                    res.append((S.val(out.v) if out.v is not None else None, out.ret, out.entry))
                    K.note_calls(S)
                (u, pu, _), (v, pv, w) = res
                if u is None or v is None:
                    raise Undecided("the call never returns")
                o.eq("result", v, u, X.band(pu, pv), w)
