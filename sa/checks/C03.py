"""C03: the caller's objects are left alone."""
import terms as X
from cc import Json
from interp import Abort
from kit import Undecided
from ops import OPS, TABLE
from terms import FALSE, TRUE, TooBig, sym

EXPLANATION = (
    "Effect analysis: every public operation of the catalogue is analysed with arrays, lists, dictionaries, tables and objects that belong to the caller, including everything they reach; the abstract heap tracks views and aliases, and every store that can reach one of these objects is reported with the condition under which it happens, also on paths that end in an exception. "
    "Table accessors may add columns and attributes but not change the columns they were given."
)
COLUMNS = {"count_cycle": "t.count", "mean_stress": "t.mean", "stress_range": "t.range"}


def run(K):
    for nm, f in OPS.items():
        with K.ob(nm, f"{nm} does not modify what it is given") as o:
            S = K.scen()
            out, gave_up = None, None
            try:
                out = f(S)
            except (Abort, TooBig, Undecided, RecursionError) as e:
                gave_up = e  # stores seen before the analysis gave up still count
            K.note_calls(S)
            for e in list(out.events if out is not None else S.I.events):
                if e["kind"] == "write" and e["origin"].startswith("arg:"):
                    what = e["origin"][4:]
                    if nm in TABLE and what == "t":
                        continue
                    o.never(f"written: {what}", e["pc"], TRUE, e)
            if gave_up is not None:
                raise gave_up
            if nm in TABLE and out.v is not None:
                for c in list(S.st.heap.values()):
                    if c.kind == "df" and c.origin == "arg:t":
                        for col, name in COLUMNS.items():
                            there, w = c.fields.get(X.const(col), (FALSE, X.NONE))
                            o.always(f"column {col} is still there", there, out.ret, out.entry)
                            if there is not FALSE:
                                o.eq(f"column {col}", S.val(w), sym(name, "arr"), out.ret, out.entry)
            o.ok("analysed", True)
    for means in (True, False):
        with K.ob(f"from_rainflow.{'means' if means else 'nomeans'}.contents", "the values of an imported dictionary stay the same") as o:
            S = K.scen()
            j = Json(S, means=means)
            out = S.meth(S.get("CycleCount"), "from_rainflow", j.ref)
            K.note_calls(S)
            after = S.I.cell(S.st, j.ref).fields
            for k, v in j.given.items():
                there, w = after.get(X.const(k), (FALSE, v))
                o.eq(f"value of {k}", S.val(w), v, X.band(out.ret, there), out.entry)
