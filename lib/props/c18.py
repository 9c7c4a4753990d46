"""C18 lookup, data models and table sources."""
import cmds
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

AFTER = ["where", "eval", "fields", "head", "stats", "rename", "bin", "lookup", "table", "sort"]


def tails():
    return st.lists(cmds.any_command(False, False, AFTER), max_size=2)


@st.composite
def source_case(draw):
    k = draw(st.sampled_from(["datamodel", "tstats", "tstats", "makeresults"]))
    c = draw(cmds.GEN[k](weird=False))
    return {"p": [c, *draw(tails())], "y": draw(spl.styles())}


@st.composite
def lookup_case(draw):
    c = dict(draw(cmds.GEN["lookup"](weird=draw(st.booleans()))))
    c["name"] = draw(st.one_of(st.just(c["name"]), spl.plain_names(), st.sampled_from(["a-b", "T_1", "x:y", "lookup2", "output_t", "main"])))
    lead = draw(st.sampled_from([None, "search", "tstats", "makeresults", "lookup"]))
    p = [c]
    if lead == "search":
        p.insert(0, draw(cmds.leading_search(False, 1)))
    elif lead:
        p.insert(0, draw(cmds.GEN[lead](weird=False)))
    return {"p": p + draw(tails()), "y": draw(spl.styles())}


def check(case):
    info = run.check_pipeline(case)
    info["labels"] = [c["c"] for c in case["p"] if c["c"] in ("lookup", "datamodel", "tstats", "makeresults")]
    return info


# ---- tstats and datamodel reading the dataframe before them

@st.composite
def chained_case(draw):
    c = dict(draw(cmds.GEN["tstats"](weird=False)), node=None)
    return {"lead": draw(cmds.leading_search(False, 1)), "c": c, "dm": draw(st.booleans())}


def check_chained(case):
    c, lead = case["c"], case["lead"]
    t = cmds.render_command(c, spl.PLAIN).replace(f" from datamodel={c['m']}", "", 1)
    src = cmds.plan_pipeline([lead])
    q = cmds.render_pipeline([lead]) + (" | datamodel search" if case["dm"] else "") + " | " + t
    df = src if c["e"] is None else ["where", src, cmds.stx(c["e"])]
    want = cmds.agg_plan(df, c["a"], c["by"])
    plan, code = run.observe(q)
    import evalplan
    evalplan.expect_plan(want, plan, repr(q), query=q, code=code)
    return {"nontrivial": True, "labels": ["datamodel" if case["dm"] else "tstats"], "sample": q}


# ---- sources that cannot be read are refused

BAD = ["inputlookup {n}", "inputlookup append=t {n}", "inputlookup {n} where {f}=1", "datamodel {n} flat", "datamodel {n} {f} acceleration_search", "datamodel", "datamodel {n}",
       "tstats count by {f}", "tstats count", "tstats prestats=t count from datamodel={n}", "tstats append=t count from datamodel={n}", "tstats local=t count from datamodel={n}",
       "tstats include_reduced_buckets=t count from datamodel={n}", "tstats count from datamodel={n} by PREFIX({f})", "lookup {n} {f} OUTPUTNEW {g}", "lookup {n} {f} outputnew {g} AS {f}",
       "search {f}=1 | datamodel {n} search", "search {f}=1 | tstats count from datamodel={n}", "lookup {n}", "lookup {n} {f} OUTPUT", "lookup", "search {f}=1 | inputlookup {n}",
       "datamodel {n} search extra", "tstats count from datamodel={n} where", "tstats from datamodel={n}", "tstats count from datamodel= by {f}", "makeresults count={f}",
       "makeresults annotate=7", "multisearch [search {f}=1]  | datamodel {n} search"]


def bad_cases():
    n = spl.plain_names().filter(lambda w: w.lower() not in ("search", "flat", "acceleration_search"))
    return st.fixed_dictionaries({"i": st.integers(0, len(BAD) - 1), "n": n, "f": n, "g": n, "rt": st.booleans(), "in": st.booleans()})


def check_bad(case):
    q = BAD[case["i"]].format(**{k: case[k] for k in "nfg"})
    q = "| " + q        # without it, what does not parse as a command is an implied search
    if case["in"]:
        q = f"search a=1 | join a [{q}]"
    try:
        code = run.transpile(q, case["rt"])
    except run.Refused:
        return {"nontrivial": True, "labels": [BAD[case["i"]].split()[0]], "sample": q}
    raise Violation(f"{q!r} reads something that cannot be read, but gives code", query=q, code=code)


SUBS = [
    Sub("lookups", check, lookup_case, quick=3000, rule="lookup of any table, 1-3 key pairs, any output list, after any source; all non-trivial"),
    Sub("sources", check, source_case, quick=3000, rule="datamodel / tstats / makeresults with any options, names, filters and groupings, followed by up to two commands"),
    Sub("chained", check_chained, chained_case, quick=1000, rule="tstats (and datamodel search) reading the dataframe of the search before it"),
    Sub("refused", check_bad, bad_cases, quick=1500, rule="sources without translation and malformed sources, both modes, alone or in a nested search"),
]
