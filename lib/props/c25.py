"""C25 aggregates and commands of the runtime library give the rows SPL defines (executed on real Spark)."""
import math
import re
import warnings

import aggref
import sparkrun
from core import Skip, Sub, Violation
from hypothesis import strategies as st

from props import c23
from props.c23 import match
from props.c24 import Out, like_re

warnings.filterwarnings("ignore")


def lib():
    import build
    from spl_transpiler.runtime import commands, functions
    return commands, functions


def view(name):
    return name.replace(".", "_")


def setup():
    sparkrun.session()
    sparkrun.frame([[1]], "a int").collect()
    from spl_transpiler.runtime import config
    if config.settings().table_lookup_function is config.default_table_lookup:
        def lookup(**kw):       # data models are views without dots here: a local session has no catalogue of that name
            if kw.get("data_model"):
                kw["data_model"] = view(kw["data_model"])
            return config.default_table_lookup(**kw)
        config.settings().table_lookup_function = lookup


# ---------------------------------------------------------------- tables

COLS = [("_time", "I", "bigint"), ("a", "I", "bigint"), ("c", "D", "double"), ("s", "S", "string"), ("k", "S", "string"), ("g", "I", "bigint"), ("ok", "B", "boolean")]
META = ["_source", "_sourcetype", "_host", "_hosttag", "_eventtype", "_eventtypetag", "_savedsearch", "_splunk_server"]
SCHEMA = ", ".join(f"`{n}` {t}" for n, _, t in COLS)
KIND = {n: k for n, k, _ in COLS}
WORDS = ["ab", "x y", "", "日本", "Zed", "it's", "100", "a*"]
OPT = lambda s: st.one_of(s, s, st.none())
INT = st.one_of(st.integers(-5, 5), st.sampled_from([0, 7, 7, 1000, -3]), st.integers(-10**6, 10**6))
DBL = st.one_of(st.sampled_from([0.0, 1.5, -2.25, 100.0, 0.1]), st.integers(-800, 4000).map(lambda n: n / 8))


@st.composite
def rows(draw, most=9):
    n = min(most, draw(st.sampled_from([5, 4, 3, 6, 7, 2, 8, 9, 1, 0])))
    times = draw(st.permutations(list(range(10, 10 + 3 * n, 3))))
    return [[t, draw(OPT(INT)), draw(OPT(DBL)), draw(OPT(st.sampled_from(WORDS))), draw(st.sampled_from(["k1", "k2"])), draw(st.integers(0, 2)), draw(OPT(st.booleans()))] for t in times]


def records(rs, cols=COLS):
    return [dict(zip([n for n, _, _ in cols], r)) for r in rs]


# ---------------------------------------------------------------- arguments: how a caller may name a column

def given(arg):
    """["name", c] ["col", c] ["lit", n] ["plus", c, n] -> what is passed"""
    from pyspark.sql import functions as F
    if arg[0] == "name":
        return arg[1]
    if arg[0] == "col":
        return F.col(arg[1])
    if arg[0] == "plus":
        return F.col(arg[1]) + arg[2]
    if arg[0] == "when":
        return F.when(F.col(arg[1]) > arg[2], F.col(arg[1]))
    return arg[1]


def worth(arg, row):
    if arg[0] in ("name", "col"):
        return row[arg[1]]
    v = row[arg[1]] if arg[0] in ("plus", "when") else None
    if arg[0] == "plus":
        return None if v is None else v + arg[2]
    if arg[0] == "when":
        return v if v is not None and v > arg[2] else None
    return arg[1]


# ---------------------------------------------------------------- aggregates

NUMERIC = ["sum_", "avg", "mean", "range", "stdev", "stdevp", "stddev", "var", "varp", "sumsq", "median"]
ANY = ["count", "distinct_count", "dc", "estdc", "min", "max", "mode", "first", "last", "list_", "values", "earliest", "latest"]
PERC = ["exactperc", "percentile", "upperperc"]


@st.composite
def call(draw, names=None):
    w = draw(st.integers(0, 9))
    num = draw(st.sampled_from(["a", "c", "g"]))
    arg = draw(st.sampled_from([["name", num], ["col", num], ["plus", num, 2], ["when", num, 0]]))
    if w == 0:
        return {"f": draw(st.sampled_from(["count", "earliest_time", "latest_time"])), "x": []}
    if w <= 2:
        p = draw(st.sampled_from([0, 1, 5, 10, 25, 50, 75, 90, 95, 99, 100]))
        return {"f": draw(st.sampled_from(PERC)), "x": [arg], "p": p}
    if w == 3:
        return {"f": "rate", "x": [arg]}
    if w <= 6:
        return {"f": draw(st.sampled_from(NUMERIC)), "x": [arg]}
    f = draw(st.sampled_from(ANY))
    c = draw(st.sampled_from(["a", "c", "s", "k"] + ([] if f in ("min", "max") else ["ok"])))
    return {"f": f, "x": [draw(st.sampled_from([["name", c], ["col", c], ["plus", "a", 1]]))]}


def make(c):
    _, functions = lib()
    fn = getattr(functions.stats, c["f"])
    args = [given(x) for x in c["x"]]
    return fn(*args, percentile=c["p"]) if "p" in c else fn(*args)


def result(c, rs):
    """what SPL gives for the rows of one group"""
    f = c["f"]
    if f == "count" and not c["x"]:
        return len(rs)
    if f in ("earliest_time", "latest_time"):
        ts = [r["_time"] for r in rs if r["_time"] is not None]
        return (min if f == "earliest_time" else max)(ts) if ts else None
    vals = [worth(c["x"][0], r) for r in rs]
    if f in ("earliest", "latest", "rate"):
        seen = sorted(((r["_time"], v) for r, v in zip(rs, vals) if v is not None), key=lambda p: p[0])
        if f == "rate":
            if len(seen) < 2:
                raise Out()
            return (seen[-1][1] - seen[0][1]) / (seen[-1][0] - seen[0][0])
        return seen[0 if f == "earliest" else -1][1] if seen else None
    try:
        if f == "exactperc":
            return aggref.of(aggref.linear(c["p"]))(vals)
        if f in ("percentile", "upperperc"):
            return aggref.of(aggref.rank(c["p"]))(vals)
        if f in ("min", "max"):
            present = aggref.present(vals)
            if not present:
                return None
            pick = min if f == "min" else max
            return pick(present, key=lambda v: v.encode() if isinstance(v, str) else v)
        return aggref.AGG[f.rstrip("_")](vals)
    except aggref.Out:
        raise Out()


BYS = [[], [["name", "k"]], [["name", "g"]], [["col", "k"], ["name", "g"]], [["name", "g"], ["col", "k"]]]


@st.composite
def agg_cases(draw):
    return {"rows": draw(rows()), "by": draw(st.sampled_from(BYS)), "calls": draw(st.lists(call(), min_size=1, max_size=8)), "ansi": draw(st.booleans()), "src": draw(st.sampled_from(["df", "df", "main"]))}


def groups(rs, by):
    if not by:
        return [((), rs)]
    out = {}
    for r in rs:
        out.setdefault(tuple(r[b[1]] for b in by), []).append(r)
    return list(out.items())


def evaluate(rs, by, calls):
    """-> (calls judged, rows expected) ; a call that is not defined for some group is left out"""
    gs, keep, cols = groups(rs, by), [], []
    spread = any(c["f"] in ("dc", "distinct_count") for c in calls)
    for i, c in enumerate(calls):
        if spread and c["f"] in ("first", "last", "list_"):      # Spark regroups the rows to count distinct values: they have no order then
            continue
        try:
            cols.append([result(c, g) for _, g in gs])
            keep.append(i)
        except Out:
            pass
    return keep, [list(k) + [col[j] for col in cols] for j, (k, _) in enumerate(gs)]


def collect(df):
    return df.columns, [[sparkrun.plain(v) for v in r] for r in df.collect()]


def show(c):
    a = [x[1] if x[0] in ("name", "col") else f"{x[1]}{'+' if x[0] == 'plus' else '>'}{x[2]}" for x in c["x"]]
    return f"{c['f']}({', '.join(a + ([str(c['p'])] if 'p' in c else []))})"


def check_aggs(case):
    commands, _ = lib()
    rs = records(case["rows"])
    keep, exp = evaluate(rs, case["by"], case["calls"])
    if not keep:
        raise Skip()
    calls = [case["calls"][i] for i in keep]
    sparkrun.ansi(case["ansi"])
    if case["src"] == "main":
        sparkrun.table("main", case["rows"], SCHEMA)
        df = None
    else:
        df = sparkrun.frame(case["rows"], SCHEMA).coalesce(1)
    text = ", ".join(map(show, calls)) + (f" by {[b[1] for b in case['by']]}" if case["by"] else "")
    try:
        made = {f"x{i}": make(c) for i, c in enumerate(calls)}
        cols, got = collect(commands.stats(df, by=[given(b) for b in case["by"]], **made))
    except Exception as e:
        raise Violation(f"stats {text} fails: {type(e).__name__}: {str(e)[:300]}")
    want = [b[1] for b in case["by"]] + [f"x{i}" for i in range(len(calls))]
    if cols != want:
        raise Violation(f"stats {text} gives the columns {cols}, expected {want}")
    bad = match(exp, got, False)
    if bad:
        raise Violation(f"stats {text} gives {bad}", expected=str(exp)[:1500], observed=str(got)[:1500])
    return {"nontrivial": len(rs) > 0, "labels": sorted({c["f"] for c in calls}), "sample": text}


# ---------------------------------------------------------------- commands

TABLES = ["main", "alt", "src1_silver", "src1_st1_silver", "st1_silver", "DM.root.child", "DM.root"]
TCOLS = [("a", "I", "bigint"), ("c", "D", "double"), ("s", "S", "string"), ("k", "S", "string"), ("ok", "B", "boolean")] + [(m, "S", "string") for m in META]
TSCHEMA = ", ".join(f"`{n}` {t}" for n, _, t in TCOLS)
KEYWORD = dict(zip(["source", "source_type", "host", "host_tag", "event_type", "event_type_tag", "saved_splunk", "splunk_server"], META))


@st.composite
def trows(draw):
    n = draw(st.sampled_from([4, 3, 5, 6, 2, 1, 0]))
    v = st.sampled_from(["src1", "st1", "h1", "h2"])
    return [[draw(OPT(st.integers(-3, 6))), draw(OPT(DBL)), draw(OPT(st.sampled_from(WORDS))), draw(st.sampled_from(["k1", "k2", "k3"])), draw(OPT(st.booleans()))] + [draw(OPT(v)) for _ in META] for _ in range(n)]


@st.composite
def cond(draw, depth, cols):
    """["cmp", col, op, value] ["null", col] ["like", col, pattern] ["and"/"or", l, r] ["not", x] ["flag", col]"""
    if depth > 0 and draw(st.integers(0, 9)) >= 5:
        o = draw(st.sampled_from(["and", "or", "not"]))
        return ["not", draw(cond(depth - 1, cols))] if o == "not" else [o, draw(cond(depth - 1, cols)), draw(cond(depth - 1, cols))]
    w = draw(st.integers(0, 5))
    nums, strs, bools = [c for c in ("a", "c", "x", "y", "n1", "n2") if cols.get(c) in ("I", "D")], [c for c in ("s", "k", "x", "y") if cols.get(c) == "S"], [c for c in ("ok", "x") if cols.get(c) == "B"]
    if w == 0 and cols:
        return ["null", draw(st.sampled_from(sorted(cols)))]
    if w == 1 and strs:
        return ["like", draw(st.sampled_from(strs)), draw(st.sampled_from(["a%", "%", "_b", "%d", "k_"]))]
    if w == 2 and bools:
        return ["flag", draw(st.sampled_from(bools))]
    if w == 3 and strs:
        return ["cmp", draw(st.sampled_from(strs)), draw(st.sampled_from(["==", "!="])), draw(st.sampled_from(WORDS + ["k1"]))]
    if nums:
        return ["cmp", draw(st.sampled_from(nums)), draw(st.sampled_from(["==", "!=", "<", ">", "<=", ">="])), draw(st.integers(-3, 6))]
    return ["null", draw(st.sampled_from(sorted(cols)))]


def cond_column(c):
    from pyspark.sql import functions as F
    _, functions = lib()
    k = c[0]
    if k in ("and", "or"):
        l, r = cond_column(c[1]), cond_column(c[2])
        return l & r if k == "and" else l | r
    if k == "not":
        return ~cond_column(c[1])
    col = F.col(c[1])
    if k == "null":
        return functions.eval.isnull(c[1])
    if k == "like":
        return functions.eval.like(col, F.lit(c[2]))
    if k == "flag":
        return col
    return {"==": col == c[3], "!=": col != c[3], "<": col < c[3], ">": col > c[3], "<=": col <= c[3], ">=": col >= c[3]}[c[2]]


def cond_value(c, row):
    k = c[0]
    if k in ("and", "or"):
        l, r = cond_value(c[1], row), cond_value(c[2], row)
        short = k == "or"
        return short if l is short or r is short else None if l is None or r is None else not short
    if k == "not":
        v = cond_value(c[1], row)
        return None if v is None else not v
    v = row[c[1]]
    if k == "null":
        return v is None
    if v is None:
        return None
    if k == "like":
        return re.fullmatch(like_re(c[2]), v, re.S) is not None
    if k == "flag":
        return v
    return {"==": v == c[3], "!=": v != c[3], "<": v < c[3], ">": v > c[3], "<=": v <= c[3], ">=": v >= c[3]}[c[2]] if c[2] in ("==", "!=") or not isinstance(v, str) else None


# eval expressions: ["name", col] ["lit", v] ["plus", col, n] ["len", col] ["if", cond, lit, lit]
@st.composite
def formula(draw, cols):
    w = draw(st.integers(0, 4))
    nums, strs = [c for c in cols if cols[c] in ("I", "D")], [c for c in cols if cols[c] == "S"]
    if w == 0:
        c = draw(st.sampled_from(sorted(cols)))
        return [draw(st.sampled_from(["name", "col"])), c], cols[c]
    if w == 1:
        v = draw(st.sampled_from([3, 0, 2.5, True, False]))
        return ["lit", v], "B" if isinstance(v, bool) else "I" if isinstance(v, int) else "D"
    if w == 2 and strs:
        return ["len", draw(st.sampled_from(strs))], "I"
    if w == 3:
        return ["if", draw(cond(1, cols)), draw(st.integers(0, 3)), draw(st.integers(4, 9))], "I"
    if nums:
        c = draw(st.sampled_from(nums))
        return ["plus", c, draw(st.integers(1, 5))], cols[c]
    return ["lit", 1], "I"


def formula_given(f):
    from pyspark.sql import functions as F
    _, functions = lib()
    if f[0] == "len":
        return functions.eval.len_(f[1])
    if f[0] == "if":
        return functions.eval.if_(cond_column(f[1]), f[2], f[3])
    return given(f)


def formula_value(f, row):
    if f[0] == "len":
        return None if row[f[1]] is None else len(row[f[1]])
    if f[0] == "if":
        return f[2] if cond_value(f[1], row) is True else f[3]
    return worth(f, row)


@st.composite
def source(draw):
    """keyword arguments of the leading search"""
    kw = {}
    index = draw(st.sampled_from([None, "main", "alt"]))
    if index:
        kw["index"] = index
    for k in KEYWORD:
        if k in ("source", "source_type"):
            p = draw(st.integers(0, 4)) == 0
            v = "src1" if k == "source" else "st1"
        else:
            p = draw(st.integers(0, 9)) == 0
            v = draw(st.sampled_from(["h1", "h2"]))
        if p:
            kw[k] = v
    return kw


@st.composite
def histories(draw):
    cols = {n: k for n, k, _ in TCOLS if n not in META}
    first = draw(st.sampled_from(["search", "search", "search", "data_model", "tstats", "eval", "fill_null", "stats"]))
    steps = []
    for i in range(draw(st.integers(1, 4))):
        k = first if i == 0 else draw(st.sampled_from(["search", "eval", "fill_null", "stats", "tstats"]))
        if k == "search":
            s = ["search", draw(source()) if not steps else {}, draw(st.lists(cond(2, cols), max_size=2)), {}]
            for f in draw(st.lists(st.sampled_from([c for c in cols if c in ("a", "s", "k", "x", "y", "ok")] or sorted(cols)), max_size=2, unique=True)):
                s[3][f] = draw({"I": st.integers(-3, 6).map(lambda n: ["lit", n]), "D": st.just(["lit", 1.5]), "S": st.sampled_from(WORDS[:6]).map(lambda w: ["flit", w]), "B": st.booleans().map(lambda b: ["lit", b])}[cols[f]])
            steps.append(s)
        elif k == "eval":
            pairs, now = [], dict(cols)
            for n in draw(st.lists(st.sampled_from(["x", "y", "a", "s", "ok"]), min_size=1, max_size=3, unique=True)):
                f, kind = draw(formula(now))
                pairs.append([n, f])
                now[n] = kind
            cols = now
            steps.append(["eval", pairs])
        elif k == "fill_null":
            fields = draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(cols)), min_size=1, max_size=3, unique=True), st.just([])))
            touched = list(cols) if fields is None else fields
            kinds = {cols[f] for f in touched} | ({"S"} if fields is None and steps == [] else set())
            value = "7" if not kinds & {"B"} and kinds & {"I", "D"} else "true" if kinds <= {"B", "S"} and "B" in kinds else draw(st.sampled_from(["none", "", "é", "7"])) if kinds <= {"S"} else None
            if value is None:
                continue
            steps.append(["fill_null", value, fields])
        elif k == "data_model":
            steps.append(["data_model", *draw(st.sampled_from([["DM.root", None], ["DM.root", "root.child"], ["DM.root.child", None], ["DM.root", "root"], ["DM", "x.root.child"]]))])
        else:
            by = draw(st.lists(st.sampled_from([c for c in cols if c in ("k", "ok", "x")] or sorted(cols)), max_size=2, unique=True))
            names = draw(st.lists(st.sampled_from([n for n in ("n1", "n2", "n3", "n4", "n5") if n not in by]), min_size=1, max_size=3, unique=True))
            calls, new = [], {b: cols[b] for b in by}
            for n in names:
                f = draw(st.sampled_from(["count", "dc", "max", "sum_", "values", "countall"]))
                nums = [c for c in cols if cols[c] in ("I", "D")]
                if f in ("max", "sum_") and not nums:
                    f = "countall"
                c = {"f": "count", "x": []} if f == "countall" else {"f": f, "x": [[draw(st.sampled_from(["name", "col"])), draw(st.sampled_from(nums if f in ("max", "sum_") else sorted(c for c in cols if cols[c] != "L")))]]} if f in ("max", "sum_") or any(v != "L" for v in cols.values()) else {"f": "count", "x": []}
                calls.append([n, c])
                new[n] = "I" if f in ("count", "dc", "countall") else "L" if f == "values" else cols[c["x"][0][1]]
            if k == "stats":
                steps.append(["stats", by, calls])
            else:
                filled = draw(st.sampled_from([None, None, "7"])) if not any(v in ("B", "L") for v in cols.values()) else None
                model = draw(st.sampled_from([["DM.root", None], ["DM.root", "root.child"], ["DM.root.child", None], ["DM.root", "root"]])) if not steps else None
                where = draw(st.one_of(st.none(), cond(2, cols)))
                if filled is not None and draw(st.integers(0, 3)) > 0:  # a condition that what was filled in decides
                    w = draw(st.sampled_from(sorted(cols)))
                    where = draw(st.sampled_from([["null", w], ["not", ["null", w]]] + ([["cmp", w, "==", 7], ["cmp", w, ">", 6]] if cols[w] in ("I", "D") else [["cmp", w, "==", "7"]] if cols[w] == "S" else [])))
                steps.append(["tstats", model, filled, where, by, calls])
            cols = new
            if any(v == "L" for v in cols.values()):
                break
    return {"tables": {t: draw(trows()) for t in draw(st.just(TABLES)) if t in needed(steps)}, "steps": steps, "ansi": draw(st.booleans())}


def looked_up(kw):
    index = kw.get("index")
    if index is None and "source" not in kw and "source_type" not in kw:
        index = "main"
    if index:
        return index, list(kw)
    return "_".join([kw[k] for k in ("source", "source_type") if k in kw] + ["silver"]), [k for k in kw if k not in ("source", "source_type")]


def model_table(m):
    return ".".join(m[0].split(".") + (m[1] or "").split(".")[1:])


def needed(steps):
    if not steps:
        return []
    s = steps[0]
    if s[0] == "search":
        return [looked_up(s[1])[0]]
    if s[0] == "data_model":
        return [model_table(s[1:])]
    if s[0] == "tstats":
        return [model_table(s[1])]
    return ["main"]


def cast(value, kind):
    return {"S": lambda: value, "I": lambda: int(value), "D": lambda: float(value), "B": lambda: value == "true"}[kind]()


def model_run(case):
    """-> [(column names, rows)] after each step"""
    cols = {n: k for n, k, _ in TCOLS}
    rs, out = None, []
    for s in case["steps"]:
        if rs is None:
            rs = records(case["tables"][needed([s])[0]], TCOLS)
        k = s[0]
        if k == "search":
            for kw in looked_up(s[1])[1]:
                if kw != "index":
                    rs = [r for r in rs if r[KEYWORD[kw]] == s[1][kw]]
            for c in s[2]:
                rs = [r for r in rs if cond_value(c, r) is True]
            for f, v in s[3].items():
                rs = [r for r in rs if r[f] is not None and r[f] == v[1]]
        elif k == "eval":
            for n, f in s[1]:
                kind = {n2: k2 for n2, k2 in cols.items()}
                rs = [{**r, n: formula_value(f, r)} for r in rs]
                cols[n] = kind[f[1]] if f[0] in ("name", "col", "plus") else "I" if f[0] in ("len", "if") else "B" if isinstance(f[1], bool) else "I" if isinstance(f[1], int) else "D"
        elif k == "fill_null":
            fs = list(cols) if s[2] is None else s[2]
            rs = [{n: cast(s[1], cols[n]) if v is None and n in fs else v for n, v in r.items()} for r in rs]
        elif k in ("stats", "tstats"):
            if k == "tstats":
                if s[2] is not None:
                    rs = [{n: cast(s[2], cols[n]) if v is None else v for n, v in r.items()} for r in rs]
                if s[3] is not None:
                    rs = [r for r in rs if cond_value(s[3], r) is True]
            by, calls = s[-2], s[-1]
            gs = groups(rs, [["name", b] for b in by])
            new = {b: cols[b] for b in by}
            rs = [{**dict(zip(by, key)), **{n: result(c, g) for n, c in calls}} for key, g in gs]
            for n, c in calls:
                new[n] = "I" if c["f"] in ("count", "dc") else "L" if c["f"] == "values" else cols[c["x"][0][1]]
            cols = new
        out.append((list(cols), rs))
    return out


def lib_run(case):
    from pyspark.sql import functions as F
    commands, functions = lib()
    df = None
    for s in case["steps"]:
        k = s[0]
        if k == "search":
            df = commands.search(df, *[cond_column(c) for c in s[2]], **s[1], **{f: F.lit(v[1]) if v[0] == "flit" else v[1] for f, v in s[3].items()})
        elif k == "eval":
            df = commands.eval(df, **{n: formula_given(f) for n, f in s[1]})
        elif k == "fill_null":
            df = commands.fill_null(df, value=s[1], fields=s[2]) if s[2] is not None else commands.fill_null(df, value=s[1])
        elif k == "data_model":
            df = commands.data_model(data_model_name=s[1], dataset_name=s[2], search_mode="search")
        elif k == "stats":
            df = commands.stats(df, by=list(s[1]), **{n: make(c) for n, c in s[2]})
        else:
            kw = {} if s[1] is None else {"from_": {"datamodel": s[1][0], "nodename": s[1][1]}}
            if s[3] is not None:
                kw["where"] = cond_column(s[3])
            if s[2] is not None:
                kw["fill_null_value"] = s[2]
            df = commands.tstats(df, by=list(s[4]), **kw, **{n: make(c) for n, c in s[5]})
        yield df


def check_history(case):
    if not case["steps"]:
        raise Skip()
    sparkrun.ansi(case["ansi"])
    for t, rs in case["tables"].items():
        sparkrun.table(view(t), rs, TSCHEMA)
    try:
        model = model_run(case)
    except (Out, TypeError, ValueError):
        raise Skip()
    ran = lib_run(case)
    for i, (names, rs) in enumerate(model):
        said = str(case["steps"][:i + 1])[:500]
        try:
            df = next(ran)
            if i < len(model) - 1 and not (i == 0):
                continue
            cols, got = collect(df)
        except Exception as e:
            raise Violation(f"{said} fails: {type(e).__name__}: {str(e)[:300]}")
        if sorted(cols) != sorted(names):
            raise Violation(f"{said} gives the columns {cols}, expected {names}")
        at = [cols.index(n) for n in names]
        bad = match([[r[n] for n in names] for r in rs], [[r[j] for j in at] for r in got], case["steps"][i][0] not in ("stats", "tstats") and not any(s[0] in ("stats", "tstats") for s in case["steps"][:i]))
        if bad:
            raise Violation(f"{said} gives {bad}; columns {names}", observed=str(got)[:1500])
    return {"nontrivial": True, "labels": sorted({s[0] for s in case["steps"]}) + ["some rows" if model[-1][1] else "no rows"], "sample": str(case["steps"])[:300]}


# ---------------------------------------------------------------- what is refused

def attempts():
    for name in ("estdc_error", "per_day", "per_hour", "per_minute", "per_second"):
        for by in ([], ["k"]):
            yield {"t": "unimplemented", "f": name, "by": by}
    for n in (2, 3):
        yield {"t": "count", "n": n}
    for t in ("tstats both", "tstats neither", "no arguments", "search mode flat", "search mode acceleration_search", "stats column", "fill_null number", "df number"):
        yield {"t": t}


def check_refused(case):
    from pyspark.sql import functions as F
    commands, functions = lib()
    df = sparkrun.frame([[1, 2, "x"]], "_time bigint, a bigint, k string")
    t = case["t"]
    try:
        if t == "unimplemented":
            commands.stats(df, by=case["by"], x=getattr(functions.stats, case["f"])("a"))
        elif t == "count":
            functions.stats.count(*["a"] * case["n"])
        elif t == "tstats both":
            commands.tstats(df, from_={"datamodel": "main"}, x=functions.stats.count())
        elif t == "tstats neither":
            commands.tstats(x=functions.stats.count())
        elif t == "no arguments":
            functions.stats.avg()
        elif t.startswith("search mode"):
            commands.data_model(data_model_name="main", search_mode=t.split()[-1])
        elif t == "stats column":
            commands.stats(df, x=F.count("a"))
        elif t == "fill_null number":
            commands.fill_null(df, value=["a"])
        elif t == "df number":
            commands.search(5)
    except (NotImplementedError, ValueError, TypeError):
        return {"nontrivial": True, "labels": [t.split()[0]], "sample": str(case)}
    raise Violation(f"{case} is accepted")


# ---------------------------------------------------------------- the table lookup that a user configures

WORD = st.from_regex(r"[a-z]{1,8}", fullmatch=True)
LOOKUPS = st.one_of(
    st.sampled_from([["ok", "math:sqrt"], ["ok", "os.path:join"], ["ok", "spl_transpiler.runtime.config:default_table_lookup"], ["bad", "math.sqrt"], ["bad", "math:"], ["bad", "math:sqrt:x"], ["bad", ""], ["bad", ":"], ["bad", "nosuch:sqrt"], ["bad", "math:nosuch"]]),
    st.tuples(st.just("bad"), st.tuples(WORD, WORD).map(lambda p: f"zz{p[0]}:{p[1]}")).map(list),
    st.tuples(st.just("bad"), WORD).map(list))


def check_config(case):
    import importlib
    import os
    from spl_transpiler.runtime import config
    kind, text = case
    old = os.environ.get("transpiler_table_lookup_function")
    os.environ["TRANSPILER_TABLE_LOOKUP_FUNCTION"] = text
    try:
        try:
            got = config.SplTranspilerSettings().table_lookup_function
        except ValueError:
            got = None
        except Exception as e:
            raise Violation(f"lookup function {text!r}: {type(e).__name__} instead of a validation error: {e}")
    finally:
        del os.environ["TRANSPILER_TABLE_LOOKUP_FUNCTION"]
        if old is not None:
            os.environ["transpiler_table_lookup_function"] = old
    if kind == "bad" and got is not None:
        raise Violation(f"lookup function {text!r} is accepted as {got!r}")
    if kind == "ok":
        m, n = text.split(":")
        if got is not getattr(importlib.import_module(m), n):
            raise Violation(f"lookup function {text!r} gives {got!r}")
    return {"nontrivial": True, "labels": [kind], "sample": text}


# ---------------------------------------------------------------- aggregates that fail: kept as findings

def edges():
    return [{"f": f} for f in ("rate_avg", "rate_sum")]


def check_edge(case):
    commands, functions = lib()
    sparkrun.ansi(False)
    df = sparkrun.frame([[1, 2], [3, 8], [4, 9]], "_time bigint, a bigint")
    try:
        got = commands.stats(df, x=getattr(functions.stats, case["f"])("a")).collect()[0][0]
    except Exception as e:
        raise Violation(f"{case['f']} fails: {type(e).__name__}: {str(e)[:120]}")
    want = 4.0 if case["f"] == "rate_sum" else 2.0
    if not math.isclose(got, want):
        raise Violation(f"{case['f']} gives {got}, expected {want}")
    return {"nontrivial": True}


SUBS = [
    Sub("aggregates", check_aggs, agg_cases, quick=260, thorough=15000, shards=3, setup=setup,
        rule="up to 8 aggregates over one table of up to 9 rows with nulls, by up to 2 keys, ANSI on and off; non-trivial: the table has rows"),
    Sub("histories", check_history, histories, quick=240, thorough=15000, shards=3, setup=setup,
        rule="1 to 4 runtime commands one after another over generated tables that the default lookup finds"),
    Sub("refused", check_refused, cases=attempts, setup=setup, rule="calls that have no meaning or no implementation"),
    Sub("config", check_config, lambda: LOOKUPS, quick=300, rule="names of table lookup functions, good and bad"),
    Sub("edges", check_edge, cases=edges, setup=setup, rule="aggregates that fail on every table, listed as findings"),
]
