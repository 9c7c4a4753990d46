"""C12 row and column commands do what they say."""
import cmds
import fakespark
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

KINDS = ["eval", "fields", "table", "rename", "head", "sort", "regex", "rex", "spath", "fillnull", "bin", "addtotals", "convert", "makeresults"]


def commands():
    return run.pipeline_case(run.with_commands(KINDS, weird=True))


def sequences():
    """Several of them on a few columns, so that order matters."""
    few = st.sampled_from(["a", "b", "c", "d"])

    def narrow(c):
        pool = "abcd"

        def r(x):
            if isinstance(x, str):
                return pool[sum(map(ord, x)) % 4]
            return x
        c = dict(c)
        if c["c"] in ("fields", "table", "addtotals", "fillnull"):
            c["f"] = list(dict.fromkeys(r(x) for x in c["f"]))
        if c["c"] == "rename":
            c["p"] = [[r(a), r(b)] for a, b in c["p"]]
        if c["c"] == "eval":
            c["as"] = [[r(n), e] for n, e in c["as"]]
        if c["c"] == "sort":
            c["f"] = [[s, r(f)] for s, f in c["f"]]
        if c["c"] in ("bin",):
            c["f"] = r(c["f"])
        return c
    del few
    one = st.sampled_from(KINDS[:-1]).flatmap(lambda k: cmds.GEN[k]()).map(narrow)
    return run.pipeline_case(st.lists(one, min_size=2, max_size=6))


# ---- directions of sort

def sorts():
    f = st.tuples(st.sampled_from(["", "+", "-"]), spl.names(True)).map(list)
    return st.fixed_dictionaries({"f": st.lists(f, min_size=1, max_size=5), "n": st.one_of(st.none(), st.integers(0, 2 ** 31 - 1)),
                                  "desc": st.sampled_from(["", " desc", " DESC", " Desc"]), "limit": st.booleans(), "y": spl.styles()})


def check_sort(case):
    sty = spl.Style(case["y"])
    n = "" if case["n"] is None else ("limit=" if case["limit"] else "") + f"{case['n']} "
    q = "sort " + n + ", ".join(s + spl.spell_field(f, sty) for s, f in case["f"]) + case["desc"]
    plan, code = run.observe(q)
    flip = case["desc"] != ""
    exp = ["orderBy", cmds.MAIN, [["m.desc" if (s == "-") != flip else "m.asc", ["col", f]] for s, f in case["f"]]]
    k = 10000 if case["n"] is None else case["n"]
    run.evalplan.expect_plan(exp if k == 0 else ["limit", exp, k], plan, repr(q), query=q, code=code)
    return {"nontrivial": flip or len(case["f"]) > 1, "labels": ["desc"] if flip else ["asc"], "sample": q}


# ---- head in all its forms

def heads():
    return st.fixed_dictionaries({"n": st.one_of(st.integers(0, 20), st.integers(0, 2 ** 31 - 3)), "how": st.sampled_from(["{n}", "limit={n}", "count<{n}", "count<={n}", "(count<{n})", "(count<={n})", "({n}>count)", "({n} >= count)", "count < {n}"]),
                                  "keep": st.sampled_from(["", " keeplast=t", " keeplast=f", " keeplast=true", " keeplast=false"]), "null": st.sampled_from(["", " null=t", " null=f"])})


def check_head(case):
    q = "head " + case["how"].replace("{n}", str(case["n"])) + case["keep"] + case["null"]
    n = case["n"]
    if "<=" in case["how"] or ">=" in case["how"]:
        n += 1
    if "count" in case["how"] and case["keep"] in (" keeplast=t", " keeplast=true"):
        n += 1
    plan, code = run.observe(q)
    run.evalplan.expect_plan(["limit", cmds.MAIN, n], plan, repr(q), query=q, code=code)
    return {"nontrivial": "count" in case["how"], "labels": [case["how"]], "sample": q}


# ---- regex on the real API: its pattern must not be read as a column

def check_regex(case):
    q = cmds.render_pipeline([case["p"]])
    code = run.must(q)
    plan = fakespark.run_lenient(code, False)
    cond = plan[2]
    if cond[0] == "~":
        cond = cond[1]
    if cond[0] == "F.regexp_like" and cond[2][0] == "col":
        raise Violation(f"{q!r}: the pattern {case['p']['re']!r} is read as a column name", query=q, code=code)
    return {"nontrivial": True, "sample": q}


REGEX_REAL = [{"p": {"c": "regex", "f": "a", "neg": False, "re": "x"}}]

SUBS = [
    Sub("commands", run.check_pipeline, commands, quick=7000, rule="one row/column command with generated (also hostile) names and values, alone or after a search; every accepted case is non-trivial"),
    Sub("sequences", run.check_pipeline, sequences, quick=2500, rule="two to six such commands over four columns; order matters"),
    Sub("sort", check_sort, sorts, quick=1500, rule="fields with signs, limit and trailing desc; non-trivial with desc or several fields"),
    Sub("head", check_head, heads, quick=1500, rule="every written form of a head limit; non-trivial when it compares count"),
    Sub("regex_real", check_regex, cases=lambda: REGEX_REAL, rule="regex's pattern as PySpark's API reads it"),
]
