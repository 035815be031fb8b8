"""A model of the table operations the aggregation uses, written in the analysed language and interpreted by the engine."""
import terms as X
from terms import const

SRC = '''
import pandas
import numpy as np

class Periods:
    def __init__(self, labels):
        self.labels = labels

class Index(pandas.DatetimeIndex):
    def __init__(self, keys, labels, increasing, unique, dates):
        self.keys = keys
        self.labels = labels
        self.is_monotonic_increasing = increasing
        self.is_monotonic_decreasing = not increasing
        self.has_duplicates = not unique
        self.is_unique = unique
        self.inferred_type = dates
    def to_period(self, freq):
        return Periods(self.labels)
    def __len__(self):
        return len(self.keys)
    def __iter__(self):
        return iter(self.keys)

class Plain:
    def __init__(self, keys):
        self.keys = keys
        self.is_monotonic_increasing = True
        self.is_unique = True
        self.inferred_type = "integer"

class DataFrame(pandas.DataFrame):
    def __init__(self, cols=None, index=None):
        self.cols = cols if cols is not None else {}
        self.index = index
    @property
    def columns(self):
        return list(self.cols)
    @property
    def empty(self):
        return len(self.cols) == 0
    def keys(self):
        return list(self.cols)
    def __iter__(self):
        return iter(list(self.cols))
    def __len__(self):
        return len(self.index)
    def __contains__(self, c):
        return c in self.cols
    def __getitem__(self, k):
        if isinstance(k, list):
            return DataFrame({c: list(self.cols[c]) for c in k}, self.index)
        return self.cols[k]
    def __setitem__(self, k, v):
        n = 0
        for c in self.cols:
            n = len(self.cols[c])
        self.cols[k] = list(v) if isinstance(v, list) else [v] * n
    def copy(self):
        return DataFrame({c: list(self.cols[c]) for c in self.cols}, self.index)
    def groupby(self, by, sort=True, **kw):
        if isinstance(by, list):
            by = by[0]
        if isinstance(by, Periods):
            labels = by.labels
        else:
            labels = [by(k) for k in self.index.keys]
        return Groups(self, labels)
    def applymap(self, f, na_action=None):
        return DataFrame({c: [f(x) for x in self.cols[c]] for c in self.cols}, self.index)
    def map(self, f, na_action=None):
        return self.applymap(f)
    def iterrows(self):
        n = len(self.cols[list(self.cols)[0]])
        return [(i, {c: self.cols[c][i] for c in self.cols}) for i in range(n)]
    def set_index(self, keys):
        out = DataFrame({c: self.cols[c] for c in self.cols if c not in [k for k in keys if isinstance(k, str)]}, self.index)
        out.levels = [self.cols[k] if isinstance(k, str) else k for k in keys]
        return out

class Groups:
    def __init__(self, df, labels):
        self.df = df
        self.labels = labels
    def agg(self, how):
        order = []
        for k in self.labels:
            if k not in order:
                order = order + [k]
        cols = {}
        for c in how:
            f = how[c]
            if f == "mean":
                f = np.nanmean
            if f == "sum":
                f = sum
            cols[c] = [f([x for x, k in zip(self.df.cols[c], self.labels) if k == g]) for g in order]
        return DataFrame(cols, Plain(order))
    def aggregate(self, how):
        return self.agg(how)

def concat(parts, axis=0):
    cols = {}
    for p in parts:
        for c in p.cols:
            cols[c] = cols.get(c, []) + list(p.cols[c])
    keys = []
    for p in parts:
        if p.index is not None:
            keys = keys + list(p.index.keys)
    return DataFrame(cols, Plain(keys))

def table(cols, labels, increasing, unique, dates):
    return DataFrame(cols, Index(list(range(len(labels))), labels, increasing, unique, dates))

def plain(cols, n):
    return DataFrame(cols, Plain(list(range(n))))
'''


def install(S, fname, *args):
    """a table of the model; the library's table functions are replaced by those of the model"""
    out = S.spec(SRC, fname, *args)
    if out.v is None:
        raise RuntimeError("table model")
    env = S.I.cell(S.st, out.v).cls.module.env
    S.I.extover.update({"pandas.DataFrame": env["DataFrame"], "pandas.concat": env["concat"]})
    return out.v


def column(S, df, name):
    """the cells of a column of a resulting table"""
    c = S.I.cell(S.st, df).fields["cols"]
    there, v = S.I.cell(S.st, c).fields.get(const(name), (X.FALSE, None))
    if v is None:
        return None
    return list(S.I.cell(S.st, v).content.args)
