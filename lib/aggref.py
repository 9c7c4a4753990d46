"""What each aggregate of stats gives for the values of one group (None = absent), in row order."""
import math
import statistics


class Out(Exception):
    """Not defined, or defined only up to a choice, for these values."""


def present(xs):
    return [x for x in xs if x is not None]


def of(fn, empty=None):
    def g(xs):
        v = present(xs)
        return fn(v) if v else empty
    return g


def spread(fn):
    def g(xs):
        v = present(xs)
        if not v:
            return None
        if len(v) == 1:
            raise Out()
        return fn(v)
    return g


def unique_mode(v):
    n = {x: v.count(x) for x in v}
    best = max(n.values())
    tops = [x for x in n if n[x] == best]
    if len(tops) > 1:
        raise Out()
    return tops[0]


def rank(p):
    def g(v):
        s = sorted(v)
        k = p * len(s) / 100
        if abs(k - round(k)) < 1e-9 and k != round(k):
            raise Out()
        return s[max(math.ceil(k), 1) - 1]
    return g


def linear(p):
    def g(v):
        s = sorted(v)
        k = p / 100 * (len(s) - 1)
        lo, hi = math.floor(k), math.ceil(k)
        return s[lo] + (s[hi] - s[lo]) * (k - lo)
    return g


def text_order(v):
    if any(isinstance(x, bool) for x in v):
        raise Out()
    return v


AGG = {
    "count": lambda xs: len(present(xs)),
    "sum": of(sum), "avg": of(lambda v: sum(v) / len(v)), "mean": of(lambda v: sum(v) / len(v)),
    "min": of(lambda v: min(text_order(v))), "max": of(lambda v: max(text_order(v))), "range": of(lambda v: max(v) - min(v)),
    "dc": lambda xs: len(set(present(xs))), "distinct_count": lambda xs: len(set(present(xs))), "estdc": lambda xs: len(set(present(xs))),
    "stdev": spread(statistics.stdev), "stdevp": of(statistics.pstdev), "var": spread(statistics.variance), "varp": of(statistics.pvariance), "stddev": spread(statistics.stdev),
    "sumsq": of(lambda v: float(sum(x * x for x in v))),
    "median": of(rank(50)), "mode": of(unique_mode),
    "first": of(lambda v: v[0]), "last": of(lambda v: v[-1]),
    "list": lambda xs: ("list", present(xs)), "values": lambda xs: ("set", sorted(set(present(xs)), key=str)),
}
NUMERIC = ["sum", "avg", "mean", "range", "stdev", "stdevp", "var", "varp", "sumsq", "median"]
ANY = ["count", "dc", "distinct_count", "estdc", "min", "max", "mode", "list", "values", "first", "last"]


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-7)
    return type(a) is type(b) and a == b


def same(exp, got):
    if isinstance(exp, tuple):
        if not isinstance(got, list) or len(got) != len(exp[1]):
            return False
        if exp[0] == "set":
            got = sorted(got, key=str)
        return all(close(a, b) for a, b in zip(exp[1], got))
    if isinstance(exp, list):
        return isinstance(got, list) and len(exp) == len(got) and all(close(a, b) for a, b in zip(exp, got))
    return close(exp, got)
