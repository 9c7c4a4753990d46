"""Shared vocabulary of the checks."""
import json


class Violation(Exception):
    def __init__(self, message, **info):
        super().__init__(message)
        self.message = message
        self.info = info


class Skip(Exception):
    """Case outside the property's domain (counted, not judged)."""


class Sub:
    """One sub-check: a generator of cases plus a judge.

    strategy : () -> hypothesis strategy of JSON-able cases       (generated search)
    cases    : () -> iterable of JSON-able cases                  (finite enumeration)
    check    : case -> None | dict(nontrivial=bool, labels=[..])  raising Violation
    quick / thorough : total number of generated cases per tier
    heavy    : run in at most this many shards (e.g. Spark sessions)
    """

    def __init__(self, name, check, strategy=None, cases=None, quick=800, thorough=None, rule="", shards=None,
                 setup=None, crash_is=None):
        self.name, self.check, self.strategy, self.cases = name, check, strategy, cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule
        self.shards = shards
        self.setup = setup
        self.crash_is = crash_is


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=str)


def eq_plan(a, b):
    """Structural equality that distinguishes 1 / 1.0 / True."""
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq_plan(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq_plan(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def first_diff(a, b, path="$"):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if not eq_plan(x, y):
                    return first_diff(x, y, f"{path}[{i}]")
        return f"{path}: expected {json.dumps(a, default=str)[:300]} got {json.dumps(b, default=str)[:300]}"
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not eq_plan(a[k], b[k]):
                return first_diff(a[k], b[k], f"{path}.{k}")
    return f"{path}: expected {json.dumps(a, default=str)[:300]} got {json.dumps(b, default=str)[:300]}"


def expect_equal(expected, observed, what, **info):
    if not eq_plan(expected, observed):
        raise Violation(f"{what}: {first_diff(expected, observed)}", expected=expected, observed=observed, **info)
