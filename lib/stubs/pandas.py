"""Stand-in for the part of pandas that data_processing.py uses (pandas isn't installed here).

Only what the script needs, with pandas' semantics where they matter: missing numbers become NaN
(a column without any number keeps its None), means and deviations skip missing values. Anything
else raises StubGap, which makes the observation inconclusive rather than a violation."""
import math


class StubGap(BaseException):
    pass


def isna(x):
    if isinstance(x, Series):
        return Series([isna(v) for v in x._v])
    return x is None or (isinstance(x, float) and math.isnan(x))


isnull = isna


def notna(x):
    return ~isna(x) if isinstance(x, Series) else not isna(x)


notnull = notna


def _infer(values):
    """None among numbers is NaN."""
    values = list(values)
    if any(isinstance(v, (int, float)) and not isinstance(v, bool) for v in values) and \
            all(v is None or isinstance(v, (int, float)) for v in values):
        return [float("nan") if v is None else v for v in values]
    return values


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Series):
            data = data._v
        if isinstance(data, dict):
            index, data = list(data), list(data.values())
        if data is None:
            data = []
        if isinstance(data, (str, int, float)):
            data = [data]
        self._v = _infer(data)
        self._index = list(index) if index is not None else list(range(len(self._v)))
        self.name = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        index = self.__dict__.get("_index", [])
        if name in index:
            return self._v[index.index(name)]
        raise StubGap("Series." + name)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __getitem__(self, k):
        if isinstance(k, Series):
            return Series([v for v, m in zip(self._v, k._v) if m], [i for i, m in zip(self._index, k._v) if m])
        if k in self._index:
            return self._v[self._index.index(k)]
        if isinstance(k, int):
            return self._v[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self._index else default

    def _zip(self, o, f):
        os = o._v if isinstance(o, Series) else list(o) if isinstance(o, (list, tuple)) else [o] * len(self._v)
        if len(os) != len(self._v):
            raise ValueError("Lengths must match to compare")
        return Series([f(a, b) for a, b in zip(self._v, os)], self._index)

    def __eq__(self, o):
        return self._zip(o, lambda a, b: a is not None and b is not None and a == b)

    def __ne__(self, o):
        return self._zip(o, lambda a, b: a is None or b is None or a != b)

    __hash__ = None

    def __lt__(self, o):
        return self._zip(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._zip(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._zip(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._zip(o, lambda a, b: a >= b)

    def __and__(self, o):
        return self._zip(o, lambda a, b: bool(a) and bool(b))

    def __or__(self, o):
        return self._zip(o, lambda a, b: bool(a) or bool(b))

    def __invert__(self):
        return Series([not v for v in self._v], self._index)

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._zip(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._zip(o, lambda a, b: a / b)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def isin(self, vs):
        vs = list(vs)
        return Series([v in vs for v in self._v], self._index)

    def isna(self):
        return Series([isna(v) for v in self._v], self._index)

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def _nums(self):
        return [v for v in self._v if not isna(v)]

    def mean(self):
        n = self._nums()
        return sum(n) / len(n) if n else float("nan")

    def std(self, ddof=1):
        n = self._nums()
        if len(n) <= ddof:
            return float("nan")
        m = sum(n) / len(n)
        return math.sqrt(sum((v - m) ** 2 for v in n) / (len(n) - ddof))

    def sum(self):
        return sum(self._nums())

    def count(self):
        return len(self._nums())

    def min(self):
        return min(self._nums(), default=float("nan"))

    def max(self):
        return max(self._nums(), default=float("nan"))

    def any(self):
        return any(self._v)

    def all(self):
        return all(self._v)

    def fillna(self, value):
        return Series([value if isna(v) else v for v in self._v], self._index)

    def where(self, cond, other=float("nan")):
        os = other._v if isinstance(other, Series) else [other] * len(self._v)
        return Series([v if c else o for v, c, o in zip(self._v, cond, os)], self._index)

    def mask(self, cond, other=float("nan")):
        return self.where(~cond, other)

    def dropna(self):
        return self[self.notna()]

    def apply(self, f, args=(), **k):
        out = [f(v, *args, **k) for v in self._v]
        if out and isinstance(out[0], Series):
            cols = out[0]._index
            return DataFrame({c: [s._v[i] for s in out] for i, c in enumerate(cols)})
        return Series(out, self._index)

    def map(self, f):
        return Series([f.get(v, float("nan")) if isinstance(f, dict) else f(v) for v in self._v], self._index)

    def astype(self, t):
        return self

    def copy(self):
        return Series(list(self._v), list(self._index))

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def values(self):
        return list(self._v)

    @property
    def index(self):
        return list(self._index)

    def to_numpy(self):
        return list(self._v)

    def reset_index(self, drop=False):
        return Series(self._v)

    def unique(self):
        return list(dict.fromkeys(self._v))

    def items(self):
        return zip(self._index, self._v)

    def value_counts(self):
        d = {}
        for v in self._nums():
            d[v] = d.get(v, 0) + 1
        return Series(list(d.values()), list(d))


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple):
            rows, cols = k
            out = self.df if isinstance(rows, slice) else self.df[rows]
            return out if isinstance(cols, slice) else out[cols]
        return self.df[k] if isinstance(k, Series) else self.df._row(self.df._index.index(k))

    def __setitem__(self, k, value):
        if not (isinstance(k, tuple) and isinstance(k[0], Series) and isinstance(k[1], str)):
            raise StubGap("loc")
        mask, col = k
        old = self.df._cols.get(col, [float("nan")] * len(self.df))
        if isinstance(value, Series) and len(value) != len(old):
            it = iter(value._v)
            self.df._cols[col] = [next(it) if m else o for o, m in zip(old, mask)]
        else:
            new = value._v if isinstance(value, Series) else [value] * len(old)
            self.df._cols[col] = [n if m else o for o, n, m in zip(old, new, mask)]


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        d = self.__dict__
        d["_cols"] = {}
        if isinstance(data, DataFrame):
            d["_cols"] = {c: list(v) for c, v in data._cols.items()}
        elif isinstance(data, dict):
            d["_cols"] = {c: _infer(v._v if isinstance(v, Series) else v) for c, v in data.items()}
        elif data is not None:
            data = list(data)
            if data and isinstance(data[0], dict):
                columns = list(columns or data[0])
                data = [[r.get(c) for c in columns] for r in data]
            elif data and isinstance(data[0], Series):
                columns = list(columns or data[0]._index)
                data = [r._v for r in data]
            elif not (data and isinstance(data[0], (list, tuple))):
                data = [[x] for x in data]
            columns = list(columns) if columns is not None else list(range(len(data[0]) if data else 0))
            d["_cols"] = {c: _infer([r[i] for r in data]) for i, c in enumerate(columns)}
        elif columns is not None:
            d["_cols"] = {c: [] for c in columns}
        n = len(next(iter(self._cols.values()), []))
        d["_index"] = list(index) if index is not None else list(range(n))

    # attributes
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.__dict__.get("_cols", {}):
            return Series(self._cols[name], self._index)
        if name in ("fillna", "dropna", "groupby", "merge", "join", "sort_values", "set_index", "rename", "drop", "agg", "describe",
                    "iloc", "at", "query", "concat", "insert", "pivot_table", "to_string", "to_dict", "size", "isna", "isnull", "mean", "std", "where",
                    "style", "attrs", "info", "tail", "nunique", "filter", "map", "applymap", "pipe", "stack", "melt", "explode", "eval", "update"):
            raise StubGap("DataFrame." + name)
        raise AttributeError("'DataFrame' object has no attribute '%s'" % name)

    def __setattr__(self, name, value):
        if name == "columns":
            value = list(value)
            if len(value) != len(self._cols):
                raise ValueError("Length mismatch")
            self.__dict__["_cols"] = dict(zip(value, self._cols.values()))
        elif name == "index":
            self.__dict__["_index"] = list(value)
        elif name in self._cols:
            self[name] = value
        else:
            self.__dict__[name] = value

    @property
    def columns(self):
        return list(self._cols)

    @property
    def index(self):
        return list(self._index)

    @property
    def shape(self):
        return (len(self), len(self._cols))

    @property
    def empty(self):
        return not len(self) or not self._cols

    @property
    def loc(self):
        return _Loc(self)

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(self._cols)

    def __contains__(self, c):
        return c in self._cols

    def _row(self, i):
        s = Series([], [])
        s._v, s._index = [v[i] for v in self._cols.values()], list(self._cols)
        return s

    def __getitem__(self, k):
        if isinstance(k, list) and all(isinstance(x, bool) for x in k) and k and len(k) == len(self):
            k = Series(k)
        if isinstance(k, Series):
            if len(k) != len(self):
                raise ValueError("Item wrong length")
            out = DataFrame({c: [x for x, m in zip(v, k._v) if m] for c, v in self._cols.items()})
            out.__dict__["_index"] = [i for i, m in zip(self._index, k._v) if m]
            return out
        if isinstance(k, (list, tuple)):
            out = DataFrame({c: self._cols[c] for c in k})
            out.__dict__["_index"] = list(self._index)
            return out
        if isinstance(k, slice):
            raise StubGap("slice")
        if k not in self._cols:
            raise KeyError(k)
        return Series(self._cols[k], self._index)

    def __setitem__(self, k, value):
        if isinstance(k, list):
            cols = list(value._cols.values()) if isinstance(value, DataFrame) else None
            if cols is None:
                rows = list(value)
                cols = [list(c) for c in zip(*rows)] if rows else [[] for _ in k]
            if len(cols) != len(k):
                raise ValueError("Columns must be same length as key")
            for c, v in zip(k, cols):
                self[c] = v
            return
        if isinstance(value, DataFrame):
            if len(value._cols) != 1:
                raise ValueError("Cannot set a DataFrame with multiple columns to the single column " + str(k))
            value = next(iter(value._cols.values()))
        if isinstance(value, Series):
            value = value._v
        if not isinstance(value, (list, tuple)) and not hasattr(value, "__iter__") or isinstance(value, str):
            value = [value] * len(self)
        value = list(value)
        if self._cols and len(value) != len(self):
            raise ValueError("Length of values does not match length of index")
        if not self._cols:
            self.__dict__["_index"] = list(range(len(value)))
        self._cols[k] = _infer(value)

    def apply(self, f, axis=0, args=(), result_type=None):
        if axis not in (1, "columns"):
            raise StubGap("apply")
        out = [f(self._row(i), *args) for i in range(len(self))]
        if out and isinstance(out[0], Series):
            cols = out[0]._index
            return DataFrame({c: [s._v[i] for s in out] for i, c in enumerate(cols)})
        return Series(out, self._index)

    def iterrows(self):
        return ((i, self._row(n)) for n, i in enumerate(self._index))

    def assign(self, **k):
        out = self.copy()
        for c, v in k.items():
            out[c] = v(out) if callable(v) else v
        return out

    def copy(self, deep=True):
        out = DataFrame({c: list(v) for c, v in self._cols.items()})
        out.__dict__["_index"] = list(self._index)
        return out

    def reset_index(self, drop=False):
        out = self.copy()
        out.__dict__["_index"] = list(range(len(self)))
        return out

    def head(self, n=5):
        return self

    def transpose(self):
        out = DataFrame({i: [v[n] for v in self._cols.values()] for n, i in enumerate(self._index)})
        out.__dict__["_index"] = list(self._cols)
        return out

    T = property(transpose)

    def to_csv(self, path=None, index=True):
        lines = [",".join(([""] if index else []) + [str(c) for c in self._cols])]
        for n, i in enumerate(self._index):
            lines.append(",".join(([str(i)] if index else []) + ["" if isna(v[n]) else str(v[n]) for v in self._cols.values()]))
        text = "\n".join(lines) + "\n"
        if path is None:
            return text
        if isinstance(path, str):
            with open(path, "w") as f:
                f.write(text)
        else:
            path.write(text)

    def __repr__(self):
        return self.to_csv()


def concat(*a, **k):
    raise StubGap("concat")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StubGap("pandas." + name)
