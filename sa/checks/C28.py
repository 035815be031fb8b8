"""C28: aggregation."""
import itertools

import terms as X
from cc import CC
from curves import SN
from frames import column, install
from interp import Abort
from kit import Undecided
from terms import FALSE, NAN, NONE, ONE, TRUE, ZERO, band, bnot, const, mk_concat, sym

EXPLANATION = (
    "Addition of cycle counts is replaced by its free monoid (the sequence of added counts), resolving by a mark, damage of a count by an opaque array; list summation is then analysed by constant propagation for every list length up to a bound and every placement of missing elements for short lists, and the resulting sequence must be the non-missing elements in order. "
    "Aggregation is analysed on tables with several count and number columns for every partition of a few rows into consecutive periods, with a model of the table operations; cells of the result are compared with the stated ones."
)
MISSING = {".": None, "N": NONE, "-": NAN}


class Monoid:
    """cycle counts up to the sequence of counts they were added from"""

    def __init__(self, S, n):
        self.S = S
        self.made = {}  # object -> (names of the counts, resolved)
        self.cc = []
        for k in range(n):
            c = CC(S, f"c{k}", _time_sequence=S.arr(f"c{k}.tseq", sym(f"c{k}.ntq", "num", int=True, pos=True), finite=True))
            self.cc.append(c)
            self.made[c.ref] = ((k,), False)
        if n:
            c = self.cc[0].ref
            S.I.overrides[S.method_qual(c, "__add__")] = self.add
            S.I.overrides[S.method_qual(c, "__radd__")] = self.add
            S.I.overrides[S.method_qual(c, "solve_lffd")] = self.solve

    def info(self, v):
        if v not in self.made:
            raise Undecided("not a known cycle count")
        return self.made[v]

    def derive(self, I, st, a, seq, solved, times):
        c = I.cell(st, a)
        r = I.new(st, "obj", fields={**c.fields, "_time_sequence": I.arr(st, times)}, cls=c.cls)
        self.made[r] = (seq, solved)
        return r

    def times(self, I, st, v):
        return I.deep(I.cell(st, v).fields["_time_sequence"], st)

    def add(self, I, args, kw, st, node):
        a, b = args[0], X.constrain(args[1], st.pc)
        if b in (NONE, NAN, ZERO):
            return a
        (x, p), (y, q) = self.info(a), self.info(b)
        return self.derive(I, st, a, x + y, False, mk_concat([self.times(I, st, a), self.times(I, st, b)]))

    def solve(self, I, args, kw, st, node):
        x, p = self.info(args[0])
        return self.derive(I, st, args[0], x, True, self.times(I, st, args[0]))


def pattern(S, M, p):
    it = iter(M.cc)
    return [next(it).ref if c == "." else MISSING[c] for c in p]


def patterns(n):
    if n <= 4:
        yield from ("".join(t) for t in itertools.product(".N-", repeat=n))
    elif n <= 6:
        yield from ("".join(t) for t in itertools.product(".N", repeat=n))
    else:
        yield "." * n
        for k in (0, 1, n // 2, n - 1):
            yield "." * k + "N" + "." * (n - k - 1)
        yield "N" * (n - 1) + "."
        yield "." + "N" * (n - 1)
        yield (".N" * n)[:n]
        yield ("N." * n)[:n]


def run(K):
    for n in list(range(0, 19)) + [20, 24, 25, 26, 30, 36, 37, 40]:
        with K.ob(f"sum.{n}", f"sum of a list of {n} cycle counts, some missing") as o:
            for p in patterns(n):
                S = K.scen()
                M = Monoid(S, p.count("."))
                out = S.call("pbar_sum", S.list_(pattern(S, M, p), origin="arg:list"))
                K.note_calls(S)
                if set(p) - {"."} and "." not in p:
                    continue  # nothing to sum
                if n == 0:
                    continue
                o.always(f"{p}: has a result", out.ret, TRUE, out.entry)
                if out.v is None:
                    continue
                got = M.info(out.v)[0]
                want = tuple(range(p.count(".")))
                o.ok(f"{p}: each count once and in order", got == want, f"{p}: the sum adds {show(got)} instead of {show(want)}", out.entry)
            o.ok("analysed", True)

    # ---- tables
    for labels in (("a",), ("a", "a"), ("a", "b"), ("a", "a", "b"), ("a", "b", "b"), ("a", "a", "a"), ("a", "b", "c")):
        n = len(labels)
        for by in ("month", "all", "ALL"):
            for miss in ("none", "first", "last"):
                with K.ob(f"table.{''.join(labels)}.{by}.{miss}", f"aggregation of a table of {n} rows by {by}, missing: {miss}") as o:
                    for save in (FALSE, TRUE):
                        S = K.scen()
                        a, b, xs, M, df = table(S, labels, miss)
                        rainflow(S)
                        out = S.call("py_fatigue.cycle_count.utils:aggregate_cc", df, const("M" if by == "month" else by), save)
                        K.note_calls(S)
                        o.always("has a result", out.ret, TRUE, out.entry)
                        if out.v is None:
                            continue
                        res = out.v if save is FALSE else out.v.args[0]
                        groups = [range(n)] if by != "month" else [[i for i in range(n) if labels[i] == g] for g in sorted(set(labels))]
                        for col, cells in (("CC_one", a), ("CC_two", b)):
                            got = column(S, res, col)
                            if not o.ok(f"column {col}", got is not None and len(got) == len(groups), f"column {col} does not have one row per period", out.entry):
                                continue
                            for g, v in zip(groups, got):
                                want = [cells[i] for i in g if cells[i] is not NONE]
                                judge(o, S, M, out, f"{col} {list(g)}", v, want)
                        for col, cells in xs.items():
                            got = column(S, res, col)
                            if not o.ok(f"column {col}", got is not None and len(got) == len(groups), f"column {col} does not have one row per period", out.entry):
                                continue
                            for g, v in zip(groups, got):
                                vs = [cells[i] for i in g]
                                want = S.spec("import numpy as np\ndef mean(x):\n    return np.nanmean(x)\n", "mean", S.list_(vs)).val()
                                o.eq(f"mean of {col}", S.val(v), want, out.ret, out.entry)

    # ---- index
    for what, inc, uni, typ, plain in (("not increasing", FALSE, TRUE, "datetime64", False), ("not unique", TRUE, FALSE, "datetime64", False), ("not dates", TRUE, TRUE, "integer", False), ("plain", TRUE, TRUE, "integer", True)):
        for by in ("M", "all"):
            with K.ob(f"index.{what}.{by}", f"a table whose index is {what} is refused") as o:
                S = K.scen()
                a, b, xs, M, df = table(S, ("a", "b"), "none", inc, uni, typ, plain)
                out = S.call("py_fatigue.cycle_count.utils:aggregate_cc", df, const(by))
                K.note_calls(S)
                o.always("refused", out.raises("ValueError", "TypeError"), TRUE, out.entry)

    # ---- damage
    for kind in ("curve", "list", "dict"):
        for rows in (1, 2, 3):
            for miss in ("none", "first", "last"):
                with K.ob(f"damage.{kind}.{rows}.{miss}", f"damage of a table of {rows} rows, curves given as {kind}, missing: {miss}") as o:
                    S = K.scen()
                    a, b, xs, M, df = table(S, tuple("abc"[:rows]), miss)
                    cs = [SN(S, "sn", m=1), SN(S, "sn2", m=1)][: 1 if kind == "curve" else 2]
                    D = Damage(S)
                    arg = cs[0].ref if kind == "curve" else S.list_([c.ref for c in cs]) if kind == "list" else S.dict_({"x": cs[0].ref, "y": cs[1].ref})
                    out = S.call("py_fatigue.cycle_count.utils:calc_aggregated_damage", df, arg)
                    K.note_calls(S)
                    o.always("has a result", out.ret, TRUE, out.entry)
                    if out.v is None:
                        continue
                    for col, cells in (("CC_one", a), ("CC_two", b)):
                        got = column(S, out.v, col)
                        if not o.ok(f"column {col}", got is not None and len(got) == rows * len(cs), f"column {col} does not have one row per curve and period", out.entry):
                            continue
                        for (c, v), g in zip(((c, v) for c in cs for v in cells), got):
                            o.eq(f"damage in {col}", S.val(g), ZERO if v is NONE else X.red("sum", D.of(v, c.ref)), out.ret, out.entry)


def show(t):
    return "[" + ", ".join(f"#{k + 1}" for k in t) + "]"


def judge(o, S, M, out, what, v, want):
    seqs = tuple(k for w in want for k in M.info(w)[0])
    if not want:
        o.ok(f"{what}: nothing", v in (NONE, NAN), f"{what}: a value although every count is missing", out.entry)
        return
    lens = ZERO
    for w in want:
        lens = X.add(lens, X.length(M.times(S.I, S.st, w)))
    many = X.s_lt(ONE, lens)
    for cond, leaf in cases(v):
        if leaf not in M.made:
            o.bad(f"{what}: sum", f"{what}: not a sum of cycle counts", out.entry)
            continue
        got, solved = M.made[leaf]
        o.ok(f"{what}: each count once and in order", got == seqs, f"{what}: the sum adds {show(got)} instead of {show(seqs)}", out.entry)
        o.never(f"{what}: residuals {'resolved' if solved else 'not resolved'}", band(cond, bnot(many) if solved else many), out.ret, out.entry)


def cases(v, c=TRUE):
    if v.op == "ite":
        a = X.atom(v.args[0])
        yield from cases(v.args[1], band(c, a))
        yield from cases(v.args[2], band(c, bnot(a)))
    else:
        yield c, v


def table(S, labels, miss, inc=TRUE, uni=TRUE, typ="datetime64", plain=False):
    n = len(labels)
    M = Monoid(S, 2 * n)
    a, b = [c.ref for c in M.cc[:n]], [c.ref for c in M.cc[n:]]
    if miss != "none":
        a[0 if miss == "first" else -1] = NONE
    xs = {"wind": [sym(f"x{k}", "num", finite=True) for k in range(n)], "DCC_": [sym(f"y{k}", "num", finite=True) for k in range(n)]}
    xs["gaps"] = [sym(f"z{k}", "num", finite=True) if k or list(labels).count(labels[0]) == 1 else NAN for k in range(n)]
    cols = S.dict_({"CC_one": S.list_(a), "wind": S.list_(xs["wind"]), "CC_two": S.list_(b), "DCC_": S.list_(xs["DCC_"]), "gaps": S.list_(xs["gaps"])})
    if plain:
        df = install(S, "plain", cols, const(n))
    else:
        df = install(S, "table", cols, S.list_([const(x) for x in labels]), inc, uni, const(typ))
    return a, b, xs, M, df


def rainflow(S):
    from cc import RF

    RF(S)


class Damage:
    """damage of a cycle count as an opaque array"""

    def __init__(self, S):
        f = S.get("py_fatigue.damage.stress_life:get_pm")
        self.fn = f.args[0]
        S.I.overrides[self.fn.qual] = self.over

    def of(self, cc, curve):
        k = f"pm{cc.args[0]}.{curve.args[0]}"
        return sym(k, "arr", length=sym("n." + k, "num", int=True, pos=True), elem="num", finite=True, enonneg=True)

    def over(self, I, args, kw, st, node):
        env = list(I.bind(self.fn, args, kw, st, node).values())
        return I.arr(st, self.of(env[0], env[1]))
