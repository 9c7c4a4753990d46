"""C13 aggregations group and name as written."""
import cmds
import fakespark
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

KINDS = ["stats", "stats", "stats", "top", "tstats"]


def commands():
    one = st.sampled_from(KINDS).flatmap(lambda k: cmds.GEN[k](weird=True))
    return run.pipeline_case(st.one_of(one.map(lambda c: [c]),
                                       st.tuples(cmds.leading_search(False, 1), one.filter(lambda c: c["c"] != "tstats")).map(list)))


def long_lists():
    """Many aggregations of the same few functions and fields: none merged, dropped or swapped."""
    few = st.sampled_from(["a", "b", "x y", "count"])
    call = st.one_of(cmds.stats_call(False, False, True, few), st.tuples(st.sampled_from(["sum", "max", "count", "dc"]), few, st.one_of(st.none(), few)).map(
        lambda t: {"fn": t[0], "arg": ["f", t[1]], "as": t[2]}))
    by = st.lists(st.tuples(st.sampled_from(["a", "b", "c", "x y", "_time"]), st.one_of(st.none(), cmds.spans())).map(list), max_size=4, unique_by=lambda t: t[0])
    return run.pipeline_case(st.fixed_dictionaries({"c": st.just("stats"), "a": st.lists(call, min_size=1, max_size=12), "by": by}).map(lambda c: [c]))


def check_long(case):
    r = run.check_pipeline(case)
    n = len(case["p"][0]["a"])
    r["nontrivial"] = n > 1
    r["labels"] = [f"n={min(n, 9)}"]
    return r


def check_count(case):
    q = cmds.render_pipeline([case["p"]])
    code = run.must(q)
    try:
        fakespark.run(code)
    except fakespark.Rejected as e:
        raise Violation(f"the program for {q!r} is not valid PySpark: {e}", query=q, code=code)


BASE = {"n": None, "f": ["a"], "cf": None, "pf": None, "sc": None, "sp": None}
COUNT = [{"p": dict(BASE, c="top")}, {"p": dict(BASE, c="rare")}]

SUBS = [
    Sub("commands", run.check_pipeline, commands, quick=5000, rule="one stats/top/rare/tstats command with generated aggregations, aliases, groupings and options; every accepted case is non-trivial"),
    Sub("long_lists", check_long, long_lists, quick=3500, rule="up to twelve aggregations of few functions over few fields, with colliding aliases; non-trivial with more than one"),
    Sub("count_real", check_count, cases=lambda: COUNT, rule="top and rare against PySpark's real signatures"),
]
