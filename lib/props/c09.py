"""C09 pipelines compose left to right."""
import cmds
import evalplan
import run
import spl
from core import Skip, Sub, Violation
from hypothesis import strategies as st


def long_pipes():
    return run.pipeline_case(cmds.pipelines(2, 12, False))


def check_long(case):
    info = run.check_pipeline(case)
    n = len(case["p"])
    info["labels"] = [f"len={n}"]
    return info


# ---- metamorphic: program("A | B") is program("B") with its default source replaced by program("A")

CUTTABLE = ["where", "eval", "fields", "table", "rename", "head", "sort", "regex", "rex", "spath", "fillnull", "bin", "addtotals", "convert", "stats", "lookup", "top", "search", "join"]


@st.composite
def split(draw):
    a = draw(cmds.pipelines(1, 4, False))
    kinds = st.sampled_from(CUTTABLE).flatmap(lambda k: cmds.GEN[k](weird=False))
    b = draw(st.lists(kinds, min_size=1, max_size=4))
    return {"a": a, "b": b, "y": draw(spl.styles())}


def substitute(p, new):
    """Replace the default source at the root of p (not inside nested searches)."""
    if p == cmds.MAIN:
        return new
    if p[0] in ("table", "range", "F.count"):
        raise Violation("a later command brings its own source", plan=p)
    return [p[0], substitute(p[1], new), *p[2:]]


def check_split(case):
    sty = spl.Style(case["y"])
    ta, tb = cmds.render_pipeline(case["a"], sty), cmds.render_pipeline(case["b"], sty)
    if case["b"][0]["c"] == "search" and case["b"][0].get("idx"):
        raise Skip()
    pa, _ = run.observe(ta)
    pb, _ = run.observe(tb)
    pab, code = run.observe(ta + " | " + tb)
    want = substitute(pb, pa)
    a, b = evalplan.norm(want), evalplan.norm(pab)
    d = evalplan.same(a, b)
    if d:
        raise Violation(f"program of {ta!r} | {tb!r} is not the second applied to the first: {d}", query=ta + " | " + tb, code=code)
    return {"nontrivial": True, "labels": [f"{len(case['a'])}+{len(case['b'])}"], "sample": ta + " | " + tb}


# ---- every ordered pair of commands (exhaustive over kinds, generated arguments)

def pairs():
    ks = sorted(k for k in cmds.GEN if k not in ("makeresults", "multisearch", "datamodel", "tstats"))
    leads = ks + ["makeresults", "multisearch", "datamodel", "tstats"]
    return st.fixed_dictionaries({"p": st.tuples(st.sampled_from(leads).flatmap(lambda k: cmds.GEN[k](weird=False)),
                                                 st.sampled_from(ks).flatmap(lambda k: cmds.GEN[k](weird=False))).map(list), "y": spl.styles()})


def check_pair(case):
    info = run.check_pipeline(case)
    info["labels"] = ["+".join(c["c"] for c in case["p"])] if False else [case["p"][1]["c"]]
    return info


SUBS = [
    Sub("pairs", check_pair, pairs, quick=4000, rule="two generated commands of random kinds (all ordered kind pairs), against the model; all non-trivial"),
    Sub("long", check_long, long_pipes, quick=2500, rule="pipelines of 2-12 commands against the left-to-right model; all non-trivial"),
    Sub("split", check_split, split, quick=2500, rule="A|B against the plan of B with its source replaced by the plan of A (no model involved)"),
]
