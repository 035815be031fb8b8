"""Abstract crack geometries and the reference geometry factor."""
import terms as X
from kit import Missing
from terms import FALSE, NONE, TRUE, ZERO, band, const, mul, select, sym

FACTOR = '''
import numpy as np
def factor(a, D, t, w):
    if a >= t:
        return 0.0
    R = D / 2
    r = R - t
    al = a * w / R
    cv = R * np.sin(al)
    ah = a - R * (1 - np.cos(al))
    rho = (cv**2 + ah**2) / (2 * ah)
    be = np.arcsin(cv / rho)
    A0 = np.pi * (R**2 - r**2)
    A1 = (al - np.sin(2 * al) / 2) * R**2
    A2 = (be - np.sin(2 * be) / 2) * rho**2
    An = A0 - A1 - A2
    x1 = -4 * R * np.sin(al) ** 3 / (3 * (2 * al - np.sin(2 * al)))
    x2 = 4 * rho * np.sin(be) ** 3 / (3 * (2 * be - np.sin(2 * be))) - R * np.cos(al) - rho * np.cos(be)
    q = -(A1 * x1 + A2 * x2) / An
    I0 = np.pi / 4 * (R**4 - r**4) + A0 * q**2
    I1 = R**4 / 4 * (al - np.sin(4 * al) / 4 - 16 * np.sin(al) ** 6 / (9 * (al - np.sin(al) * np.cos(al)))) + A1 * (q - x1) ** 2
    I2 = rho**4 / 4 * (be - np.sin(4 * be) / 4 - 16 * np.sin(be) ** 6 / (9 * (be - np.sin(be) * np.cos(be)))) + A2 * (q - x2) ** 2
    In = I0 - I1 - I2
    xa = -(R * np.cos(al) + q) + 0.1 * R * (1 + np.cos(al))
    return -np.pi * (R**4 - r**4) * xa / (4 * R * In)
'''


def lengths():
    return (sym("g.D", "num", pos=True, finite=True), sym("g.t", "num", pos=True, finite=True), sym("g.w", "num", pos=True, finite=True))


def cyl_dict(S):
    D, t, w = lengths()
    return S.dict_({"initial_depth": sym("g.depth", "num", pos=True, finite=True), "outer_diameter": D, "thickness": t, "height": sym("g.h", "num", pos=True), "width_to_depth_ratio": w}, origin="arg:geometry")


def cyl_ok(a=None):
    """dimensions of a hollow cylinder: thickness between the depth and the outer radius"""
    D, t, w = lengths()
    return band(X.lt(mul(const(2), t), D), TRUE)


def summarise_factor(S):
    """replace the factor function by its summary (zero through the wall, an unknown positive function before); C22 decides the formula itself"""
    t = S.get("py_fatigue.geometry:f_hol_cyl_01")
    while t.op in ("marked", "static"):
        t = t.args[-1]
    if t.op != "func":
        return
    f = t.args[0]

    def summary(I, args, kw, st, node):
        env = list(I.bind(f, args, kw, st, node).values())
        a, geo = env[0], env[1]
        D, th, w = [I.getitem(geo, const(k), st, node) for k in ("outer_diameter", "thickness", "width_to_depth_ratio")]
        return select(X.lt(a, th), X.uf("factor", [a, D, th, w], "num"), ZERO)

    S.I.overrides[f.qual] = summary


def spec_factor(S):
    """the same summary as a function of a reference program"""
    def summary(I, args, kw, st, node):
        a, D, th, w = args
        return select(X.lt(a, th), X.uf("factor", [a, D, th, w], "num"), ZERO)

    S.I.overrides["spec.factor"] = summary


def geometry(S, typ, p="g", **over):
    """a geometry of the library with arbitrary valid dimensions: (Out of the construction, dimensions)"""
    P = lambda nm: sym(p + "." + nm, "num", pos=True, finite=True, pytype="float")
    d = {"initial_depth": P("depth")}
    if typ in ("internal", "external"):
        d.update(outer_diameter=P("D"), thickness=P("t"), height=P("h"), width_to_depth_ratio=P("w"))
    elif typ == "full":
        d.update(diameter=P("D"), height=P("h"))
    d.update(over)
    kw = dict(d)
    if typ in ("internal", "external"):
        kw.setdefault("crack_position", const(typ))
    cls = {"surface": "InfiniteSurface", "full": "Cylinder"}.get(typ, "HollowCylinder")
    return S.call("py_fatigue.geometry:" + cls, **kw), d


class Integrator:
    """records what is integrated; the histories are opaque"""

    def __init__(self, S, failure=FALSE):
        self.calls, self.geometry = [], []
        t = S.get("py_fatigue.damage.crack_growth:CalcCrackGrowth")
        while t.op != "cls":
            t = t.args[-1]
        init, _ = t.args[0].lookup("__init__")
        if init is None:
            raise Missing("integrator")
        while init.op != "func":
            init = init.args[-1]
        f = init.args[0]

        def over(I, args, kw, st, node):
            env = I.bind(f, args, kw, st, node)
            names = list(env)
            o = env[names[0]]
            rec, geo = {}, {}
            for k in names[1:]:
                if k == "crack_geometry" and env[k].op == "ref":
                    for key, (there, w) in (I.cell(st, env[k]).fields or {}).items():
                        if there is TRUE or X.bor(X.bnot(st.pc), there) is TRUE:
                            geo[X.cval(key)] = I.deep(w, st)
                else:
                    rec[k] = I.deep(env[k], st)
            self.calls.append((st.pc, rec))
            self.geometry.append(geo)
            flds = dict(I.cell(st, o).fields)
            for k in names[1:]:
                flds[k] = env[k]
            n = X.length(rec["stress_range"])
            for k in ("crack_depth", "sif", "geometry_factor"):
                flds[k] = I.arr(st, history(n, k))
            flds["final_cycles"] = X.uf("history:final", [], "num")
            flds["failure"] = failure
            I.setcell(st, o, fields=flds)
            return NONE

        S.I.overrides[f.qual] = over


def history(n, k):
    i = X.fresh("i", "num", int=True, nonneg=True)
    return X.lam(n, i, X.uf("history:" + k, [i], "num"))
