"""C15 stats functions translate to their Spark aggregate."""
import cmds
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

FNS = sorted(set(cmds.STATS1) | set(cmds.STATS0))


def calls():
    arg = st.one_of(spl.names(True).map(lambda n: ["f", n]), spl.names(True).map(lambda n: ["f", n]), spl.expr("n", 2, True).map(lambda e: ["eval", e]))

    def one(fn):
        a = arg if fn not in cmds.STATS0 else st.one_of(st.none(), arg)
        if fn == "count":
            a = st.one_of(st.none(), spl.names(True).map(lambda n: ["f", n]), spl.expr("b", 2, True).map(lambda e: ["eval", cmds.as_condition(e)]))
        return st.fixed_dictionaries({"fn": st.just(fn), "arg": a, "as": st.one_of(st.none(), spl.names(True))})
    by = st.one_of(st.just([]), cmds.bys())
    return st.fixed_dictionaries({"call": st.sampled_from(FNS).flatmap(one), "by": by, "y": spl.styles()})


def check_call(case):
    c = {"c": "stats", "a": [case["call"]], "by": case["by"]}
    run.check_pipeline({"p": [c], "y": case["y"]})
    return {"nontrivial": True, "labels": [case["call"]["fn"]], "sample": cmds.render_pipeline([c])}


# ---- percentiles

def percs():
    num = st.one_of(st.integers(1, 99).map(str), st.integers(0, 100).map(str))
    return st.fixed_dictionaries({"k": st.sampled_from(["perc", "p", "exactperc", "upperperc", "percentile"]), "n": num, "f": spl.names(True),
                                  "as": st.one_of(st.none(), spl.names(True)), "by": cmds.bys()})


def check_perc(case):
    c = {"c": "stats", "a": [{"fn": case["k"] + case["n"], "arg": ["f", case["f"]], "as": case["as"]}], "by": case["by"]}
    run.check_pipeline({"p": [c], "y": []})
    return {"nontrivial": True, "labels": [case["k"]], "sample": cmds.render_pipeline([c])}


# ---- refused

UNSUPPORTED = ["estdc_error", "per_day", "per_hour", "per_minute", "per_second", "rate_avg", "rate_sum"]
ONE_ONLY = sorted(set(cmds.STATS1) - set(cmds.STATS0))


def bad():
    cmd = st.sampled_from(["stats", "tstats"])
    return st.fixed_dictionaries({"cmd": cmd, "kind": st.sampled_from(["unsupported", "none", "two", "two0"]), "i": st.integers(0, 99), "f": spl.plain_names(), "g": spl.plain_names(),
                                  "before": st.lists(cmds.stats_call(False, False, False), max_size=2)})


def check_bad(case):
    if case["kind"] == "unsupported":
        t = f"{UNSUPPORTED[case['i'] % len(UNSUPPORTED)]}({case['f']})"
    elif case["kind"] == "none":
        t = f"{ONE_ONLY[case['i'] % len(ONE_ONLY)]}()"
    elif case["kind"] == "two":
        t = f"{ONE_ONLY[case['i'] % len(ONE_ONLY)]}({case['f']}, {case['g']})"
    else:
        t = f"{sorted(cmds.STATS0)[case['i'] % len(cmds.STATS0)]}({case['f']}, {case['g']})"
    bs = [cmds.spell_tstats_call(b, spl.PLAIN) if case["cmd"] == "tstats" else cmds.spell_stats_call(b, spl.PLAIN) for b in
          (cmds.tstats_calls(case["before"]) if case["cmd"] == "tstats" else case["before"])]
    bs = [b if " AS " in b else b + " AS z9" for b in bs]
    sep = " " if case["cmd"] == "tstats" else ", "
    q = f"{case['cmd']} {sep.join(bs + [t])}" + (" from datamodel=M" if case["cmd"] == "tstats" else "")
    try:
        code = run.transpile(q)
    except run.Refused:
        return {"nontrivial": True, "labels": [case["kind"]], "sample": q}
    raise Violation(f"{q!r} uses {t!r}, which has no translation, but gives code", query=q, code=code)


SUBS = [
    Sub("calls", check_call, calls, quick=4000, rule="one call of each stats function on a field or eval(...) with generated names, alias and grouping"),
    Sub("percentiles", check_perc, percs, quick=1500, rule="percentile family with any number"),
    Sub("refused", check_bad, bad, quick=1500, rule="functions without a translation and wrong numbers of arguments, alone or after valid ones"),
]
