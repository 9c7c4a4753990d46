"""C05 names and literal values survive unchanged."""
import cmds
import evalplan
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

KINDS = ["eval", "where", "search", "fields", "table", "rename", "sort", "regex", "rex", "spath", "fillnull", "bin", "addtotals", "convert",
         "top", "stats", "lookup", "join"]


def pipes():
    return run.pipeline_case(st.one_of(run.with_commands(KINDS, weird=True), cmds.pipelines(1, 3, weird=True)))


def weird_text(p, found=None):
    found = [] if found is None else found
    if isinstance(p, str):
        if not p.isascii() or any(not (c.isalnum() or c == "_") for c in p):
            found.append(p)
    elif isinstance(p, (list, tuple)):
        for x in p:
            weird_text(x, found)
    elif isinstance(p, dict):
        for x in p.values():
            weird_text(x, found)
    return found


def check_pipes(case):
    info = run.check_pipeline(case)
    info["nontrivial"] = bool(weird_text(case["p"]))
    return info


# -------- one literal in one position, chosen as nasty as possible

NASTY = ["'", '"', "\\", "\n", "\t", "\r", "\0", "{", "}", "{}", "{0}", "%s", "#", "\\n", "\\'", '\\"', '""', '"""', "'''", "\\\\", "a\\", "\\u0041", "\\x41", "\\N{DEGREE SIGN}",
         "`", "$", "$x$", "é", "日", "🙂", "\u2028", "\u200b", "\u202e", "\ufeff", "\x7f", "\x85", "\xa0", ") + F.lit(1", '").drop("x', "F.col('a')", "r'", "|", "[", "]", ", ", "=", ";", " ", "  "]


def nasty():
    return st.lists(st.one_of(st.sampled_from(NASTY), st.sampled_from(["a", "x1", "0", "B"]),
                              st.text(st.characters(codec="utf-8", exclude_categories=["Cs"]), max_size=3)), min_size=1, max_size=6).map("".join)


def ok_text(s):
    return "*" not in s and not spl.SNAPLIKE.match(s)


def ok_field(n):
    return spl.ok_name(n) and "\0" not in n


POSITIONS = {
    # name -> (kind of value, text with %s, plan)
    "eval string": ("s", "eval x=%s", lambda v: ["withColumn", cmds.MAIN, "x", ["lit", v]]),
    "where string": ("s", "where a=%s", lambda v: ["where", cmds.MAIN, ["bin", "==", ["col", "a"], ["lit", v]]]),
    "search string": ("s", "search a=%s", lambda v: ["where", cmds.MAIN, ["bin", "==", ["col", "a"], ["lit", v]]]),
    "in string": ("s", "where a IN (%s, 1)", lambda v: ["where", cmds.MAIN, ["bin", "|", ["bin", "==", ["col", "a"], ["lit", v]], ["bin", "==", ["col", "a"], ["lit", 1]]]]),
    "call string": ("s", "eval x=if(a=%s, upper(b), \"n\")",
                    lambda v: ["withColumn", cmds.MAIN, "x", ["m.otherwise", ["F.when", ["bin", "==", ["col", "a"], ["lit", v]], ["F.upper", ["col", "b"]]], ["lit", "n"]]]),
    "trim string": ("s", "eval x=trim(a, %s)", lambda v: ["withColumn", cmds.MAIN, "x", ["F.trim", ["col", "a"], ["lit", v]]]),
    "match pattern": ("s", "eval x=match(a, %s)", lambda v: ["withColumn", cmds.MAIN, "x", ["F.regexp_like", ["col", "a"], ["lit", v]]]),
    "fillnull value": ("s", "fillnull value=%s a", lambda v: ["df.fillna", cmds.MAIN, [["value", ["lit", v]], ["subset", ["list", ["lit", "a"]]]]]),
    "raw term": ("s", "search %s", lambda v: ["where", cmds.MAIN, ["m.ilike", ["col", "_raw"], ["lit", "%" + cmds.like_escape(v) + "%"]]]),
    "spath path": ("s", "spath path=%s", lambda v: ["withColumn", cmds.MAIN, v, ["F.get_json_object", ["col", "_raw"], ["lit", "$." + v]]]),
    "eval field": ("f", "eval x=%s + 1", lambda v: ["withColumn", cmds.MAIN, "x", ["bin", "+", ["col", v], ["lit", 1]]]),
    "eval target": ("F", "eval %s=1", lambda v: ["withColumn", cmds.MAIN, v, ["lit", 1]]),
    "fields": ("F", "fields %s, b", lambda v: ["select", cmds.MAIN, [["col", v], ["col", "b"]]]),
    "fields minus": ("F", "fields - %s", lambda v: ["df.drop", cmds.MAIN, [["cols", ["list", ["lit", v]]]]]),
    "table": ("F", "table b %s", lambda v: ["select", cmds.MAIN, [["col", "b"], ["col", v]]]),
    "rename from": ("F", "rename %s AS b", lambda v: ["withColumnRenamed", cmds.MAIN, v, "b"]),
    "rename to": ("A", "rename b AS %s", lambda v: ["withColumnRenamed", cmds.MAIN, "b", v]),
    "sort": ("f", "sort 5 -%s", lambda v: ["limit", ["orderBy", cmds.MAIN, [["m.desc", ["col", v]]]], 5]),
    "stats field": ("f", "stats max(%s) AS m", lambda v: ["agg", ["groupBy", cmds.MAIN, []], [["alias", ["F.max", ["col", v]], "m"]]]),
    "stats alias": ("A", "stats max(a) AS %s", lambda v: ["agg", ["groupBy", cmds.MAIN, []], [["alias", ["F.max", ["col", "a"]], v]]]),
    "stats by": ("F", "stats max(a) AS m by %s", lambda v: ["agg", ["groupBy", cmds.MAIN, [["col", v]]], [["alias", ["F.max", ["col", "a"]], "m"]]]),
    "bin field": ("F", "bin span=5m %s", lambda v: ["withColumn", ["withColumn", cmds.MAIN, v, ["F.window", ["col", v], ["lit", "5 minutes"]]], v, ["col", v + ".start"]]),
    "index": ("I", "search index=%s", lambda v: ["table", v]),
    "regex": ("r", "rex field=b %s", lambda v: ["withColumn", cmds.MAIN, "g", ["F.regexp_extract", ["col", "b"], ["lit", v], ["lit", 1]]]),
}


def positions():
    return st.fixed_dictionaries({"pos": st.sampled_from(sorted(POSITIONS)), "v": nasty(), "n": st.integers(0, 5)})


def check_position(case):
    from core import Skip
    kind, text, plan = POSITIONS[case["pos"]]
    v = case["v"]
    if kind == "s":
        if not ok_text(v) or (case["pos"] == "raw term" and v == ""):
            raise Skip()
        spelt = spl.esc_double(v)
    elif kind == "f":
        if not ok_field(v):
            raise Skip()
        spelt = spl.esc_single(v)
    elif kind in "FA":
        if not ok_field(v):
            raise Skip()
        spelt = spl.esc_double(v) if kind == "A" or case["n"] % 2 else spl.esc_single(v)
    elif kind == "I":
        if not ok_field(v):
            raise Skip()
        spelt = spl.esc_double(v)
    elif kind == "r":
        # in a quoted pattern only the double quote needs an escape, and a backslash escapes what follows
        v = "(?<g>x)" + "".join("\\\\" if c == "\\" else c for c in v if c not in '"()?[{')
        spelt = '"' + v + '"'
    q = text.replace("%s", spelt)
    obs, code = run.observe(q)
    evalplan.expect_plan(plan(v), obs, f"{case['pos']} {v!r} in {q!r}", query=q, code=code)
    return {"nontrivial": True, "labels": [case["pos"]], "sample": q}


# -------- numbers

def numbers():
    ints = st.one_of(st.integers(-2 ** 63 + 1, 2 ** 63 - 1), st.integers(-10 ** 4, 10 ** 4), st.sampled_from([2 ** 63 - 1, -2 ** 63 + 1, 2 ** 31, 2 ** 53 + 1, 0, -1])).map(str)
    long = st.one_of(st.sampled_from([2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 2 ** 127]), st.integers(2 ** 63, 2 ** 70), st.integers(10 ** 18, 10 ** 60)).map(str)
    zeros = st.integers(0, 9999).map(lambda n: "0" + str(n))
    dbl = st.tuples(st.sampled_from(["", "-"]), st.from_regex(r"[0-9]{1,25}\.[0-9]{1,25}", fullmatch=True)).map("".join)
    return st.fixed_dictionaries({"t": st.one_of(ints, ints, zeros, dbl, dbl, long), "in": st.sampled_from(["eval", "where", "search", "in", "arith", "call"])})


def check_number(case):
    t = case["t"]
    n = float(t) if "." in t else int(t)
    if "." not in t and not -2 ** 63 < n < 2 ** 63:
        n = t   # longer than Spark's integers: kept digit by digit, as text
    L, M = ["lit", n], cmds.MAIN
    q, plan = {
        "eval": (f"eval x={t}", ["withColumn", M, "x", L]),
        "where": (f"where a > {t}", ["where", M, ["bin", ">", ["col", "a"], L]]),
        "search": (f"search a<={t}", ["where", M, ["bin", "<=", ["col", "a"], L]]),
        "in": (f"where a IN ({t}, 7)", ["where", M, ["bin", "|", ["bin", "==", ["col", "a"], L], ["bin", "==", ["col", "a"], ["lit", 7]]]]),
        "arith": (f"eval x=a * {t}", ["withColumn", M, "x", ["bin", "*", ["col", "a"], L]]),
        "call": (f"eval x=max({t}, a)", ["withColumn", M, "x", ["F.greatest", L, ["col", "a"]]]),
    }[case["in"]]
    if "." in t and case["in"] == "search":
        pass
    obs, code = run.observe(q)
    evalplan.expect_plan(plan, obs, repr(q), query=q, code=code)
    return {"nontrivial": len(t) > 1, "labels": [case["in"], "double" if "." in t else "int"], "sample": q}


SUBS = [
    Sub("positions", check_position, positions, quick=8000, rule="one hostile text (quotes, backslashes, control characters, braces, code-like text, any script) in one of %d positions; non-trivial when representable there" % len(POSITIONS)),
    Sub("numbers", check_number, numbers, quick=3000, rule="integers over the whole 64-bit range, leading zeros, doubles of up to 50 digits, in six positions; non-trivial beyond one digit"),
    Sub("pipelines", check_pipes, pipes, quick=6000, rule="commands and pipelines whose names and strings are drawn from hostile text; non-trivial when one of them needs quoting"),
]
