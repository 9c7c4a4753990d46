"""C02 generated code is valid, self-contained PySpark."""
import re

import cmds
import corpus
import fakespark
import run
import spl
from core import Skip, Sub, Violation
from hypothesis import strategies as st

from props import c01, c14, c15, c22

DOCUMENTED = set(spl.ARITY) | set(c14.UNSUPPORTED) | {"ipmask", "printf"} | set(c15.UNSUPPORTED) | {"count", "sum", "avg", "mean", "min", "max", "dc", "distinct_count", "estdc", "first", "last", "list", "values", "median", "mode", "range", "stdev", "stdevp", "var", "varp", "sumsq", "earliest", "latest", "earliest_time",
                                                                                                    "latest_time", "rate", "eval"}


def passes_through(code, q):
    """Names of functions SPL does not have, which are taken to be Spark's (see DESIGN.md)."""
    calls = set(re.findall(r"\bF\.(\w+)\(", code))
    words = set(re.findall(r"\w+", q))
    return {c for c in calls & words if c.lower() not in DOCUMENTED and not cmds.PERC.match(c)} - {"col", "lit", "expr", "when"}


def valid(q, rt, lenient=False, edited=False):
    """code for q, checked; None when q is refused"""
    try:
        code = run.transpile(q, rt)
    except run.Refused:
        return None
    if not code and not q.strip():
        return None
    try:
        (fakespark.run_lenient if lenient else fakespark.run)(code, rt)
    except fakespark.Rejected as e:
        # an edit can put a function where it is none: stats cos(a), eval x=perc95(a)
        stray = re.search(r"F\.(\w+): |no '(\w+)'", str(e)) if edited else None
        if passes_through(code, q) or stray and (stray[1] or stray[2]) in re.findall(r"\w+", q) or "out of range" in str(e):      # a limit Spark does not have room for: see DESIGN.md
            return None
        if "too many nested parentheses" in str(e) and max(map(q.count, "(.=<-")) > 90:
            return None
        raise Violation(f"the program for {q!r}{' with the runtime' if rt else ''} is not valid: {e}", query=q, code=code) from None
    except RecursionError:
        return None
    c22.check_code(code, q) if rt else names_only(code, q)
    return code


def names_only(code, q):
    import ast
    tree = ast.parse(code)
    if len(tree.body) != 1 or not isinstance(tree.body[0], ast.Expr):
        raise Violation(f"{q!r}: not one expression", query=q, code=code)
    bound = {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    free = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - bound - {"spark", "F", "float"}
    if free:
        raise Violation(f"{q!r}: the program uses {sorted(free)}", query=q, code=code)


def check(case, edited=False):
    q = case["q"]
    lenient = bool(re.search(r"\b(top|rare)\b", q, re.I))
    got = [valid(q, rt, lenient, edited) for rt in (False, True)]
    return {"nontrivial": any(g is not None for g in got), "labels": [f"{'-' if got[0] is None else 'standalone'} {'-' if got[1] is None else 'runtime'}"], "sample": q[:400]}


def of(s):
    return s.map(lambda q: {"q": q})


def pipelines():
    return of(corpus.queries())


def mutants():
    return of(corpus.mutated())


def soups():
    return of(corpus.soup(16))


def check_edited(case):
    return check(case, True)


def check_number(case):
    ns = case["n"]
    parts = case["t"].replace("{{", "\x01").replace("}}", "\x02").split("{n}")
    q = parts[0] + "".join(ns[i % len(ns)] + p for i, p in enumerate(parts[1:]))
    return dict(check({"q": q.replace("\x01", "{").replace("\x02", "}")}))


def check_char(case):
    return check({"q": case["t"].replace("{{", "\x01").replace("}}", "\x02").replace("{c}", case["c"]).replace("\x01", "{").replace("\x02", "}")})


# ---- every documented function with every number of arguments of every kind

ARGS = ["a", "1", "-1", "0", "2.5", '"x"', '""', '"%Y"', '"-1d@d"', "a=1", "NOT a", "a+1", "a.b", "(a)", "upper(a)", "now()", "true()", "null()", "'x y'", '"a*"', "mvappend(a, b)", "a=1 OR b", "10.0.0.0/8", "true", "5m", "foo*"]
AGGS = ["a", "'x y'", "eval(a=1)", "eval(a+1)", "eval(if(a=1, b, c))", "", "1", '"x"', "a.b", "a, b", "eval(a, b)", "_time", "*"]


FIT = {"int": ["0", "2", "-3", "9223372036854775807"], "sub": ["1", "-2", "0"], "len": ["1", "0", "7"], "pint": ["1", "2", "16", "10"], "str": ['"x"', '""', '"a\\"b"', '","'], "re": ['"a+"', '"(x)(y)"', '"^$"'], "net": ['"10.0.0.0/8"', '"fe80::/10"'], "field": ["a", "'x y'"], "idx": ["0", "-1", "3"],
       "idx2": ["0, 1", "-2, -1", "1, 9223372036854775807"], "case*": ["a=1, b", "a=1, b, true(), c"], "n": ["a", "1", "2.5", "a+1", "-1", "len(a)", "(a)"], "s": ["a", '"x"', "upper(a)", "a.b", '"a*"'], "b": ["a=1", "NOT a", "isnull(a)", "a=1 OR b", "true()"], "mv": ["a", "mvappend(a, b)", 'split(a, ",")']}


def calls():
    """A call that fits its signature, mostly; sometimes with other arguments or another number of them"""
    def args(row):
        fit = [st.one_of(*[st.sampled_from(FIT.get(k.rstrip("+"), ARGS))] * 5, st.sampled_from(ARGS)) for k in row[1]]
        return st.tuples(st.just(row[0]), st.tuples(*fit).map(list), st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.sampled_from(ARGS), max_size=2)))
    call = st.sampled_from(range(len(spl.TABLE))).flatmap(lambda i: args(spl.TABLE[i]))
    other = st.tuples(st.sampled_from(sorted(set(spl.ARITY) | set(c14.UNSUPPORTED))), st.lists(st.sampled_from(ARGS), max_size=5), st.just([]))
    return st.tuples(st.one_of(call, call, call, other), st.integers(0, 5), spl.names(True)).map(lambda t: {"f": t[0][0], "a": t[0][1] + t[0][2], "k": t[1], "n": t[2]})


def check_call(case):
    t = f"{case['f']}({', '.join(case['a'])})"
    n = spl.spell_field(case["n"])
    return check({"q": [f"eval x={t}", f"where {t}", f"eval {n}={t} . \"z\"", f"where a={t} OR NOT {t}", f"stats sum(eval({t})) as {n}", f"eval y=1, {n}=if({t}, {t}, 0)"][case["k"]]})


STATS = ["count", "sum", "avg", "mean", "min", "max", "dc", "distinct_count", "estdc", "estdc_error", "first", "last", "list", "values", "median", "mode", "range", "stdev", "stdevp", "var", "varp", "sumsq", "earliest", "latest", "earliest_time", "latest_time", "rate", "rate_avg", "rate_sum", "per_second", "per_hour", "perc95",
         "p50", "perc", "exactperc99", "upperperc5", "perc99.9", "perc0", "perc100", "sparkline"]


def aggs():
    one = st.tuples(st.sampled_from(STATS), st.sampled_from(AGGS), st.one_of(st.none(), spl.names(True))).map(list)
    return st.fixed_dictionaries({"c": st.lists(one, min_size=1, max_size=3), "by": st.lists(spl.names(True), max_size=2), "k": st.integers(0, 3)})


def check_agg(case):
    t = ", ".join((f"{f}({a})" if a else f) + (f" as {spl.spell_name(n)}" if n is not None else "") for f, a, n in case["c"])
    by = " by " + ", ".join(spl.spell_field(b) for b in case["by"]) if case["by"] else ""
    return check({"q": [f"stats {t}{by}", f"search a=1 | stats {t}{by} | where b=1", f"| tstats {t.replace(', ', ' ')} from datamodel=M{by}", f"search a | join k [search b | stats {t}{by}]"][case["k"]]})


# ---- size

def sizes():
    return st.fixed_dictionaries({"k": st.integers(0, len(c01.CHAIN) - 1), "n": st.one_of(st.integers(1, 60), st.integers(40, 400)), "end": st.just("")})


def check_size(case):
    head, item, sep = c01.CHAIN[case["k"]]
    n = case["n"]
    if re.search(r"\bf\(|\|", sep + head) or sep == " | " or "max(" in head:      # nested in the program, and Python's own parser takes no more than 200 levels
        n = min(n, 60)
    return dict(check({"q": head + sep.join([item] * n) + (")" if "(" in head else "")}), sample=[head, item, sep, n])


def nests():
    return st.fixed_dictionaries({"k": st.integers(0, len(c01.NEST) - 1), "d": st.integers(1, 40)})


def check_nest(case):
    head, a, mid, b = c01.NEST[case["k"]]
    d = case["d"]
    r = check({"q": head + a * d + mid + b * d})
    return dict(r, sample=[head, a, mid, b, d])


# ---- the same with the real pyspark.sql.functions

def real_cases():
    call = calls().map(lambda c: {"as": "call", "c": c})
    agg = aggs().map(lambda c: {"as": "agg", "c": c})
    return st.lists(st.one_of(pipelines().map(lambda c: {"as": "q", "c": c}), call, call, agg), min_size=1, max_size=12).map(lambda x: {"all": x})


def query_of(case):
    found = []
    keep = globals()["check"]
    globals()["check"] = lambda c, edited=False: found.append(c["q"]) or {}
    try:
        {"q": lambda c: found.append(c["q"]), "call": check_call, "agg": check_agg}[case["as"]](case["c"])
    finally:
        globals()["check"] = keep
    return found[0]


def check_real(case):
    import realspark
    n = 0
    for one in case["all"]:
        q = query_of(one)
        if re.search(r"\b(top|rare)\b", q, re.I):
            continue
        for rt in (False, True):
            try:
                code = run.transpile(q, rt)
            except run.Refused:
                continue
            if not code or passes_through(code, q):
                continue
            try:
                realspark.run(code, rt)
            except Exception as e:
                if "INVALID_ATTRIBUTE_NAME_SYNTAX" in str(e) and ("." in q or "`" in q):      # names like `a..b`: Spark has no way to say them
                    continue
                raise Violation(f"the program for {q!r}{' with the runtime' if rt else ''} fails on PySpark: {type(e).__name__}: {str(e)[:300]}", query=q, code=code)
            n += 1
    return {"nontrivial": n > 0, "labels": ["program run"] * n, "sample": [query_of(o) for o in case["all"][:3]]}


def real_setup():
    import realspark
    realspark.start()


# ---- commands whose pinned form PySpark refuses: kept as findings

def pinned():
    return [{"q": "search a=1 | top b"}, {"q": "search a=1 | rare b"}]


def check_strict(case):
    if valid(case["q"], False) is None:
        raise Skip()
    return {"nontrivial": True}


SUBS = [
    Sub("pipelines", check, pipelines, quick=8000, rule="pipelines and option forms of all commands, hostile names and values, both modes: valid Python of the documented shape whose every call binds against PySpark's own signatures and ends in a dataframe; non-trivial: translated"),
    Sub("mutants", check_edited, mutants, quick=9000, rule="the same with one to four edits, where still accepted"),
    Sub("soup", check_edited, soups, quick=6000, rule="token soup, where accepted"),
    Sub("numbers", check_number, c01.numbers, quick=6000, rule="numbers at limits in %d places, where accepted" % len(c01.NUM_AT)),
    Sub("characters", check_char, c01.characters, quick=6000, rule="any character in %d places, where accepted" % len(c01.PLACES)),
    Sub("calls", check_call, calls, quick=8000, rule="every documented eval function with 0 to 5 arguments of %d kinds in 6 places, where accepted" % len(ARGS)),
    Sub("aggregates", check_agg, aggs, quick=5000, rule="every documented aggregate with arguments of %d kinds, in stats and tstats, where accepted" % len(AGGS)),
    Sub("sizes", check_size, sizes, quick=800, rule="%d constructs repeated up to 400 times" % len(c01.CHAIN)),
    Sub("nests", check_nest, nests, quick=800, rule="%d constructs nested up to 40 deep" % len(c01.NEST)),
    Sub("real", check_real, real_cases, quick=900, thorough=30000, shards=4, setup=real_setup, rule="up to 12 of the programs above, run with the real pyspark.sql.functions over a dataframe that has every column; non-trivial: at least one translated"),
    Sub("pinned", check_strict, cases=pinned, rule="the forms of top and rare that the tests fix"),
]
