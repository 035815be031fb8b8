"""Check framework: scenarios, obligations, verdicts, evidence.

An obligation compares what the source computes (a value graph, a raise condition, an effect set) with what the property demands.
  discharged  the two graphs are identical after normalisation, or no valuation distinguishes them
  violated    the graphs differ and a valuation shows two different values
  undecided   the analysis met a construct it does not understand (never reported as a violation)
"""
from __future__ import annotations

import ast
import json
import os
import sys
import time
import traceback
from select import select as select_

sys.setrecursionlimit(60000)
import threading

threading.stack_size(512 * 1024 * 1024)

import evalt
import interp
import models
import terms as X
from interp import Abort, Dead, Interp
from terms import FALSE, NONE, ONE, TRUE, ZERO, T, TooBig, band, bnot, bor, const, select, sym

Interp.models = models
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Missing(Exception):
    """a public entry point the property is about does not exist"""


class Undecided(Exception):
    pass


class Elsewhere(BaseException):
    """the obligation is analysed in a process of its own"""


# ---------------------------------------------------------------- public entry points
CC = "py_fatigue.cycle_count.cycle_count:CycleCount"
API = {
    "CycleCount": ["py_fatigue:CycleCount", CC],
    "pbar_sum": ["py_fatigue.cycle_count.cycle_count:pbar_sum", "py_fatigue.cycle_count:pbar_sum"],
    "SNCurve": ["py_fatigue:SNCurve", "py_fatigue.material.sn_curve:SNCurve"],
    "ParisCurve": ["py_fatigue:ParisCurve", "py_fatigue.material.crack_growth_curve:ParisCurve"],
    "rainflow": ["py_fatigue.cycle_count.rainflow:rainflow", "py_fatigue.cycle_count:calc_rainflow"],
    "Miner": ["py_fatigue.damage.stress_life:Miner"],
}


class Scen:
    """one abstract start state of the analysed package"""

    def __init__(self, assume=TRUE):
        self.I = Interp(REPO)
        self.I.load_all()
        self.I.assumed = assume
        self.st = self.I.state()
        self.pre_events = []

    # ---- inputs
    def num(self, name, **f):
        return sym(name, "num", **f)

    def str_(self, name, **f):
        return sym(name, "str", **f)

    def arr(self, name, n=None, origin=True, **f):
        """reference to an input array"""
        if n is None:
            n = sym("n_" + name, "num", int=True, nonneg=True)
        f.setdefault("elem", "num")
        t = sym(name, "arr", length=n, **f)
        return self.I.new(self.st, "arr", t, pytype="ndarray", origin="arg:" + name if origin else None)

    def list_(self, items, origin=None):
        return self.I.new(self.st, "list", X.seq(items), pytype="list", origin=origin)

    def dict_(self, items, origin=None):
        """closed dictionary; items: {str: term} or {str: (presence, term)}"""
        f = {}
        for k, v in items.items():
            f[const(k)] = v if isinstance(v, tuple) else (TRUE, v)
        return self.I.new(self.st, "dict", fields=f, pytype="dict", origin=origin)

    # ---- lookup and calls
    def get(self, *names):
        for n in names:
            for d in API.get(n, [n]):
                t = self.I.lookup(d)
                if t is not None:
                    t = self.I.unlazy(t) if hasattr(self.I, "unlazy") else t
                    return t
        raise Missing(" / ".join(names))

    def call(self, f, *args, **kw):
        """analyse a call; f: dotted name, term"""
        ft = self.get(f) if isinstance(f, str) else f
        I = self.I
        I.events = []
        v = I.run(ft, [wrap(a) for a in args], {k: wrap(a) for k, a in kw.items()}, self.st)
        return Out(self, v, ft)

    def meth(self, obj, name, *args, **kw):
        I = self.I
        I.events = []
        fr = I.entry()
        v = m = None
        try:
            m = I.getattr(obj, name, self.st, None)
            v = I.call(m, [wrap(a) for a in args], {k: wrap(a) for k, a in kw.items()}, self.st, None)
        except Dead:
            pass
        finally:
            I.frames.pop()
        return Out(self, v, m)

    def method_qual(self, obj, name):
        """the name under which a method can be summarised"""
        m = self.I.getattr(obj, name, self.st, None)
        for _ in range(6):
            if m.op == "func":
                return m.args[0].qual
            fs = [a for a in m.args if hasattr(a, "op") and a.op in ("func", "bound", "marked", "static")]
            if not fs:
                break
            m = fs[-1]
        raise Undecided(f"{name}: not a plain method")

    def new(self, cls, **kw):
        """construct an input object; raising paths are excluded"""
        o = self.call(cls, **kw)
        if o.v is None:
            raise Undecided(f"{cls}: construction never succeeds: {[ (e['file'], e['line'], e.get('exc')) for e in o.events if e['kind'] == 'raise'][:3]}")
        self.pre_events += o.events
        return o.v

    def own(self, v, name):
        """mark an object and everything it reaches as the caller's"""
        I, st = self.I, self.st
        seen = set()

        def go(x, nm):
            if x.op == "ref":
                if x.args[0] in seen:
                    return
                seen.add(x.args[0])
                c = I.cell(st, x)
                if c.origin == "global":
                    return
                c = c.copy()
                if c.origin is None:
                    c.origin = "arg:" + nm
                st.heap[x.args[0]] = c
                if c.fields:
                    for k, w in c.fields.items():
                        w = w[1] if isinstance(w, tuple) else w
                        if isinstance(w, T):
                            go(w, nm + "." + (k if isinstance(k, str) else X.show(k)))
                if isinstance(c.content, T):
                    go(c.content, nm)
            else:
                for a in X._children(x):
                    if I._hasref(a):
                        go(a, nm)

        go(v, name)
        return v

    def attr(self, v, name):
        """value of a public attribute (property bodies are analysed)"""
        fr = self.I.entry()
        s = self.st.copy()
        try:
            return self.I.freeze(self.I.getattr(v, name, s, None), s)
        except Dead:
            raise Undecided(f"attribute {name} never has a value")
        finally:
            self.I.frames.pop()

    def val(self, v):
        return self.I.freeze(v, self.st)

    def spec(self, src, fname, *args, **kw):
        """value of a reference function written in Python (source text in /verif/sa/specs), analysed by the same engine"""
        I = self.I
        m = interp.Module("spec", os.path.join(HERE, "specs", "spec.py"))
        m.tree = ast.parse(src)
        st = interp.State({}, dict(I.base_heap), TRUE, [])
        prev, I.curmod = I.curmod, m
        I.frames.append(interp.Frame(None))
        I.quiet += 1
        try:
            for s in m.tree.body:
                I.exec(s, st)
        finally:
            I.frames.pop()
            I.quiet -= 1
            I.curmod = prev
        m.env = st.env
        self.st.heap = {**st.heap, **self.st.heap}
        return self.call(m.env[fname], *args, **kw)


def wrap(a):
    return a if isinstance(a, T) else const(a)


def fwhere(I, f):
    """file, line, name of a function term"""
    if f is None:
        return None
    if f.op in ("bound", "meth") and isinstance(f.args[-1], T):
        f = f.args[-1] if f.args[-1].op == "func" else f.args[0]
    if f.op == "func":
        fn = f.args[0]
        if fn.module is not None:
            return (os.path.relpath(fn.module.path, I.root), fn.node.lineno, fn.qual)
    if f.op == "cls":
        c = f.args[0]
        return (os.path.relpath(c.module.path, I.root), c.node.lineno, c.name)
    return None


class Out:
    """outcome of one analysed call"""

    def __init__(self, S, v, f=None):
        self.S, self.v = S, v
        self.entry = fwhere(S.I, f)
        self.events = S.I.events
        self.ret = S.st.pc if v is not None else FALSE
        S.I.events = []

    def val(self):
        if self.v is None:
            raise Undecided("the call never returns")
        return self.S.I.freeze(self.v, self.S.st)

    def attr(self, name):
        if self.v is None:
            raise Undecided("the call never returns")
        return self.S.attr(self.v, name)

    def where(self):
        """where the returned object is created, or where the call ends"""
        for l in X.leaves(self.v) if self.v is not None else ():
            if l.op == "ref" and l.args[0] in self.S.I.sites:
                return self.S.I.sites[l.args[0]]
        return getattr(self, "entry", None)

    def item(self, k):
        """element of a returned tuple, list or dictionary"""
        if self.v is None:
            raise Undecided("the call never returns")
        fr = self.S.I.entry()
        s = self.S.st.copy()
        try:
            return self.S.I.freeze(self.S.I.getitem(self.v, wrap(k), s, None), s)
        except Dead:
            raise Undecided(f"no item {k}")
        finally:
            self.S.I.frames.pop()

    def raises(self, *names):
        """condition under which the call raises (one of the given exception names, or anything)"""
        r = FALSE
        for e in self.events:
            if e["kind"] == "raise" and (not names or e["exc"] in names):
                r = bor(r, e["cond"])
        return r

    def raise_sites(self):
        return [(e["file"], e["line"], e["func"], e["exc"]) for e in self.events if e["kind"] == "raise"]


# ---------------------------------------------------------------- obligations
class Ob:
    def __init__(self, check, oid, text):
        self.check, self.oid, self.text = check, oid, text
        self.status = None
        self.notes = []
        self.findings = []
        self.compared = 0
        self.how = set()

    def __enter__(self):
        self.check.begin(self)
        return self

    def __exit__(self, et, ev, tb):
        if self is self.check.away:
            self.check.away = None
            return et is None or not issubclass(et, (KeyboardInterrupt, SystemExit))
        r = self.leave(et, ev, tb)
        if self is self.check.here:
            self.check.report(self)
        return r

    def leave(self, et, ev, tb):
        if et is None:
            if self.status is None:
                self.status = "discharged" if self.compared else "undecided"
                if not self.compared:
                    self.notes.append("nothing compared")
            return False
        if issubclass(et, Missing):
            self.status = "missing"
            self.notes.append(f"entry point not found: {ev}")
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        if self.status != "violated":
            self.status = "undecided"
        self.notes.append(f"{et.__name__}: {ev}")
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exception(et, ev, tb)
        return True

    # ---- comparisons
    def eq(self, what, got, want, care=TRUE, where=None):
        """the two value graphs must agree wherever `care` holds"""
        self.check.mine()
        self.compared += 1
        if got is None:
            raise Undecided(f"{what}: no value")
        t0 = time.time()
        ds = X.diff(got, want, care, limit=12)
        if not ds:
            self.how.add("identical graphs")
            return True
        t1 = time.time()
        w, n = evalt.witness(got, want, care, ds, seed=self.check.seed)
        if os.environ.get("VERIF_DEBUG"):
            print(f"    {self.oid} {what}: diff {t1 - t0:.1f} s, {len(ds)} differences, search {time.time() - t1:.1f} s, {n} comparable", flush=True)
        if w is not None:
            d = next((d for d in ds if d.definite), ds[0])
            self.bad(what, f"{what}: {w}", where, detail=repr(d)[:600])
            return False
        if n >= 12 and all(d.definite for d in ds):
            self.how.add(f"equal under random interpretation ({what})")
            return True
        if n >= 40:
            self.how.add(f"equal under random interpretation where known ({what})")
            return True
        self.und(f"{what}: not decided ({n} comparable valuations): {repr(ds[0])[:300]}")
        return False

    def any_of(self, *alts):
        """several equivalent ways to satisfy an obligation: the first that holds counts, otherwise the first is reported"""
        self.check.mine()
        tried = []
        for f in alts:
            t = Ob(self.check, self.oid, self.text)
            try:
                f(t)
            except Exception as e:
                if not t.leave(type(e), e, e.__traceback__):
                    raise
            else:
                t.leave(None, None, None)
            tried.append(t)
            if t.status == "discharged":
                break
        best = next((t for t in tried if t.status == "discharged"), None) or next((t for t in tried if t.status != "violated"), None) or tried[0]
        self.compared += best.compared
        self.how |= best.how
        self.notes += best.notes
        self.findings += best.findings
        if best.status != "discharged" and self.status != "violated":
            self.status = best.status
        return best.status == "discharged"

    def iff(self, what, got, want, care=TRUE, where=None):
        return self.eq(what, got, want, care, where)

    def never(self, what, cond, care=TRUE, where=None):
        return self.eq(what, cond, FALSE, care, where)

    def always(self, what, cond, care=TRUE, where=None):
        return self.eq(what, cond, TRUE, care, where)

    def ok(self, what, cond, msg="", where=None):
        """a fact the analysis decides directly"""
        self.check.mine()
        self.compared += 1
        self.how.add("direct")
        if not cond:
            self.bad(what, msg or what, where)
        return cond

    def bad(self, what, msg, where=None, detail=""):
        self.status = "violated"
        self.findings.append(dict(what=what, message=msg, where=fmtwhere(where), detail=detail))

    def und(self, msg):
        if self.status != "violated":
            self.status = "undecided"
        self.notes.append(msg)


def fmtwhere(w):
    if w is None:
        return ""
    if isinstance(w, str):
        return w
    if isinstance(w, dict):
        return f"{w['file']}:{w['line']} in {w['func']}"
    return f"{w[0]}:{w[1]} in {w[2]}"


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.title = title
        self.obs = []
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.analysed = set()
        self.coverage = {}
        self.valuations = 0
        self.t0 = time.time()
        # obligations are analysed in processes of their own, a few at a time
        self.away = self.here = None
        self.fd = None
        self.running = []
        self.width = int(os.environ.get("VERIF_JOBS", "0")) or min(os.cpu_count() or 1, 8)
        self.slow = float(os.environ.get("VERIF_OB_S", "420"))
        self.late = float(os.environ.get("VERIF_CHECK_S", "840"))

    def ob(self, oid, text):
        o = Ob(self, oid, text)
        self.obs.append(o)
        return o

    def begin(self, o):
        if self.here is not None:
            return
        self.reap(self.width - 1)
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for x in self.running:
                os.close(x[1])
            self.fd, self.here, self.running = w, o, []
            evalt.STATS.update(valuations=0, searches=0)
            self.analysed = set()
            return
        os.close(w)
        self.running.append((pid, r, o, time.time(), []))
        self.away = o

    def mine(self):
        if self.away is not None:
            raise Elsewhere()

    def report(self, o):
        """send the verdict of an obligation to the parent process"""
        d = dict(status=o.status, notes=[str(x)[:2000] for x in o.notes[:8]], findings=o.findings, compared=o.compared, how=sorted(o.how), analysed=sorted(self.analysed), valuations=evalt.STATS["valuations"])
        data = json.dumps(d).encode()
        while data:
            data = data[os.write(self.fd, data):]
        os.close(self.fd)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    def reap(self, upto):
        """wait until at most `upto` obligations are being analysed"""
        while len(self.running) > upto:
            ready = select_(([x[1] for x in self.running]), [], [], 1.0)[0]
            now = time.time()
            for x in list(self.running):
                pid, fd, o, t0, buf = x
                if fd in ready:
                    b = os.read(fd, 1 << 16)
                    if b:
                        buf.append(b)
                        continue
                    gone = "the analysis ended without a verdict"
                elif now - t0 > self.slow or now - self.t0 > self.late:
                    os.kill(pid, 9)
                    gone = "time limit"
                else:
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                self.running.remove(x)
                try:
                    d = json.loads(b"".join(buf).decode())
                except ValueError:
                    o.status, o.notes = "undecided", [gone]
                    continue
                if os.environ.get("VERIF_TIMES"):
                    print(f"    {time.time() - t0:6.1f} s {o.oid}", flush=True)
                o.status, o.notes, o.findings, o.compared, o.how = d["status"], d["notes"], d["findings"], d["compared"], set(d["how"])
                self.analysed |= set(d["analysed"])
                self.valuations += d["valuations"]

    def scen(self, **kw):
        self.mine()
        S = Scen(**kw)
        self._last = S
        S.check = self
        return S

    def note_calls(self, S):
        for q, _w, _pc in S.I.calls:
            self.analysed.add(q)

    # ---- reporting
    def finish(self, explanation):
        self.reap(0)
        known = load_known(self.pid)
        viol, sup = [], []
        for o in self.obs:
            for f in o.findings:
                k = f"{o.oid}|{f['what']}"
                (sup if k in known else viol).append((o, f, k))
        n = {s: sum(1 for o in self.obs if o.status == s) for s in ("discharged", "violated", "undecided", "missing")}
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obs),
                "discharged": n["discharged"],
                "undecided": n["undecided"],
                "comparisons": sum(o.compared for o in self.obs),
                "functions_analysed": sorted(self.analysed),
                "valuations": self.valuations,
                "detail": [dict(id=o.oid, text=o.text, status=o.status, comparisons=o.compared, how=sorted(o.how), notes=o.notes[:4]) for o in self.obs],
                **self.coverage,
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [dict(obligation=o.oid, **f) for o, f, _ in viol],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in sorted({k for _, _, k in sup}):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]}")
        print(f"{self.pid}: {len(self.obs)} obligations: {n['discharged']} discharged, {n['undecided']} undecided, {n['violated']} violated, {n['missing']} without entry point; {ev['wall_s']} s")
        for o in self.obs:
            if o.status in ("undecided", "missing"):
                print(f"  {o.status}: {o.oid}: {'; '.join(o.notes)[:400]}")
        if viol:
            rp = os.path.join("evidence", f"{self.pid}.violation.json")
            with open(os.path.join(VERIF, rp), "w") as fh:
                json.dump([dict(obligation=o.oid, rule=o.text, **f) for o, f, _ in viol], fh, indent=1)
            for o, f, k in viol[:6]:
                print(f"  {o.oid} [{o.text}] {f['where']}: {f['message'][:360]}")
                if f["detail"]:
                    print(f"      graph: {f['detail'][:240]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if n["missing"]:
            print(f"{self.pid}: error: entry points of the property are missing")
            return 2
        if n["discharged"] == 0 and not sup:
            print(f"{self.pid}: error: nothing could be decided")
            return 2
        return 0


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                parts = l[7:].split(" ", 2)
                if parts[0] == "property=" + pid and parts[1].startswith("key="):
                    key = parts[1][4:].replace("%20", " ")
                    out[key] = parts[2]
    return out


def main(pid, fn, explanation):
    res = []

    def go():
        c = Check(pid)
        try:
            fn(c)
            res.append(c.finish(explanation))
        except BaseException:
            traceback.print_exc()
            if c.here is not None:
                sys.stdout.flush()
                os._exit(3)
            for x in c.running:
                os.kill(x[0], 9)
            res.append(3)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(res[0] if res else 3)
