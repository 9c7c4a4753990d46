"""C14 eval functions translate to their Spark equivalent."""
import evalplan
import run
import spl
from core import Skip, Sub, Violation
from hypothesis import strategies as st


def each():
    row = st.sampled_from(range(len(spl.TABLE)))
    return st.fixed_dictionaries({"e": row.flatmap(lambda i: spl.call_of(spl.TABLE[i], 1, True)), "y": spl.styles(), "k": st.booleans()})


def check_each(case):
    e = case["e"]
    q = run.check_expr(case, "eval")
    return {"nontrivial": True, "labels": [f"{e[1]}/{len(e[2])}"], "sample": q}


def nested():
    return st.fixed_dictionaries({"e": st.integers(2, 5).flatmap(lambda d: spl.expr("any", d, False)), "y": spl.styles()})


def check_nested(case):
    q = run.check_expr(case, "eval")
    n = len(spl.functions_in(case["e"]))
    return {"nontrivial": n >= 2, "labels": [f"functions={min(n, 9)}"], "sample": q}


# ---- one function inside another, in each argument place

def pairs():
    """outer row, argument place, inner row: the inner call stands for the outer call's argument"""
    outer = [i for i, r in enumerate(spl.TABLE) if any(k.rstrip("+") in ("n", "s", "b", "any", "mv") for k in r[1])]
    inner = list(range(len(spl.TABLE)))
    return st.tuples(st.sampled_from(outer), st.sampled_from(inner)).flatmap(lambda t: st.fixed_dictionaries({
        "o": spl.call_of(spl.TABLE[t[0]], 0), "i": spl.call_of(spl.TABLE[t[1]], 0), "at": st.integers(0, 9), "y": spl.styles()}))


def check_pairs(case):
    o = case["o"]
    kinds = spl.pick_sig(o[1], o[2])[1]
    places = [i for i, a in enumerate(o[2]) if a[0] != "lit" and (kinds[min(i, len(kinds) - 1)].rstrip("+") in ("n", "s", "b", "any", "mv", "case*"))]
    if not places:
        raise Skip()
    at = places[case["at"] % len(places)]
    e = ["call", o[1], [case["i"] if i == at else a for i, a in enumerate(o[2])]]
    if spl.pick_sig(e[1], e[2]) is None:
        raise Skip()
    q = run.check_expr({"e": e, "y": case["y"]})
    return {"nontrivial": True, "labels": [o[1]], "sample": q}


# ---- wrong numbers of arguments, functions without a translation

UNSUPPORTED = {"lookup": 3, "searchmatch": 1, "ipmask": 2, "printf": 2, "isbool": 1, "isint": 1, "isnum": 1, "isstr": 1, "typeof": 1, "json_set_exact": 3, "json_append": 3, "json_array": 2, "json_array_to_mv": 1,
               "json_extend": 3, "json_extract": 2, "json_extract_exact": 2, "json_object": 2, "json_set": 3, "sigfig": 1, "commands": 1, "mvdedup": 1, "mvfilter": 1,
               "mvfind": 2, "mvjoin": 2, "mvmap": 2, "mvrange": 3, "mvsort": 1, "mv_to_json_array": 1, "spath": 2, "tonumber": 2, "tostring": 2}


def arity():
    return st.fixed_dictionaries({"fn": st.sampled_from(sorted(spl.ARITY)), "n": st.integers(0, 6), "args": st.lists(spl.leaf("any"), min_size=6, max_size=6), "wrap": st.integers(0, 4),
                                  "where": st.booleans()})


WRAPS = ["{}", "abs({})", "if(a=1, {}, 2)", "1 + {}", "coalesce(a, {})"]


def refused(text, wrap, where, what):
    x = WRAPS[wrap].format(text)
    q = f"where {x} = 1" if where else f"eval zz={x}"
    try:
        code = run.transpile(q)
    except run.Refused:
        return q
    raise Violation(f"{q!r}: {what}, but gives code", query=q, code=code)


def check_arity(case):
    fn, args = case["fn"], case["args"][:case["n"]]
    if spl.pick_sig(fn, args) is not None or (fn == "mvindex" and len(args) == 3):
        raise Skip()
    q = refused(spl.spell(["call", fn, args]), case["wrap"], case["where"], f"{fn} does not take {len(args)} arguments")
    return {"nontrivial": True, "labels": [fn], "sample": q}


def unsupported():
    return st.fixed_dictionaries({"fn": st.sampled_from(sorted(UNSUPPORTED)), "args": st.lists(spl.leaf("any"), min_size=3, max_size=3), "wrap": st.integers(0, 4), "where": st.booleans()})


def check_unsupported(case):
    fn = case["fn"]
    q = refused(spl.spell(["call", fn, case["args"][:UNSUPPORTED[fn]]]), case["wrap"], case["where"], f"{fn} with {UNSUPPORTED[fn]} arguments has no translation")
    return {"nontrivial": True, "labels": [fn], "sample": q}


SUBS = [
    Sub("each", check_each, each, quick=6000, rule="a call of one row of the function table, every row equally often, with generated arguments"),
    Sub("pairs", check_pairs, pairs, quick=4000, rule="a call standing as an argument of another call, over all pairs and places"),
    Sub("nested", check_nested, nested, quick=2500, rule="expressions up to depth five; non-trivial with two or more functions"),
    Sub("arity", check_arity, arity, quick=3000, rule="a wrong number of arguments, bare or inside another expression"),
    Sub("unsupported", check_unsupported, unsupported, quick=1500, rule="functions that have no translation, bare or inside another expression"),
]
