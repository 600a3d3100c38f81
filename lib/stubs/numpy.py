"""Stand-in for the few functions of numpy that data_processing.py uses."""
import math

nan = NaN = float("nan")


def isnan(x):
    if x is None or isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    if hasattr(x, "_v"):
        return type(x)([isnan(v) for v in x])
    return isinstance(x, float) and math.isnan(x)


def where(mask, a, b):
    pick = lambda v, i: list(v)[i] if hasattr(v, "__iter__") and not isinstance(v, str) else v
    return [pick(a, i) if m else pick(b, i) for i, m in enumerate(mask)]


def mean(x):
    from pandas import Series
    return Series(list(x)).mean()


def array(x):
    return list(x)
