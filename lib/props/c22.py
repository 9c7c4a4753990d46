"""C22 runtime-mode code drives the runtime library correctly."""
import ast
import re

import cmds
import evalplan
import rt
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

LIBRARY = {"search": "search", "eval": "eval", "stats": "stats", "tstats": "tstats", "fillnull": "fill_null", "datamodel": "data_model"}
TAKEN = {"df", "by", "where", "from_", "from", "index", "source", "sourcetype", "host", "value", "fields", "fill_null_value", "exprs", "field_exprs", "stat_exprs", "class", "None", "lambda",
         "is", "pass", "splunk_server", "eventtype"}


def check_code(code, q):
    """Helper statements come before their use, each name is assigned once, the last statement is an expression."""
    tree = ast.parse(code)
    assigned = {"spark", "F", "commands", "functions", "float"}
    for i, stmt in enumerate(tree.body):
        params = {n.arg for n in ast.walk(stmt) if isinstance(n, ast.arg)}
        for n in ast.walk(stmt):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in assigned | params:
                raise Violation(f"{q!r}: {n.id} is used before it is assigned", query=q, code=code)
        if isinstance(stmt, ast.Assign):
            for t in stmt.targets:
                if not isinstance(t, ast.Name) or t.id in assigned:
                    raise Violation(f"{q!r}: a name is assigned twice", query=q, code=code)
                assigned.add(t.id)
            if i == len(tree.body) - 1:
                raise Violation(f"{q!r}: no final expression", query=q, code=code)
        elif not isinstance(stmt, ast.Expr) or i != len(tree.body) - 1:
            raise Violation(f"{q!r}: unexpected statement", query=q, code=code)
    used = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    if assigned - used - {"spark", "F", "commands", "functions", "float"}:
        raise Violation(f"{q!r}: a helper dataframe is not used", query=q, code=code)


def check(case):
    p = run.as_pipeline(case["p"])
    q = cmds.render_pipeline(p, spl.Style(case["y"]))
    plan, code = run.observe(q, True)
    check_code(code, q)
    used = []
    low = rt.lower(plan, used)
    want = cmds.plan_pipeline(p)
    evalplan.expect_plan(want, low, f"{q!r} with the runtime", query=q, code=code)
    return {"nontrivial": bool(used), "labels": sorted(set(used)) or ["no library call"], "sample": q}


def kinds(c):
    return [c["c"]] + [k for s in ([c["sub"]] if "sub" in c else c.get("subs", [])) for x in s for k in kinds(x)]


def py_name(n):
    return bool(re.fullmatch(r"[A-Za-z_]\w*", n, re.A)) and n not in TAKEN


def must_be_library(c, first):
    """Plainly supported: has to become a library call."""
    k = c["c"]
    if k == "search":
        return len(c.get("idx", [])) <= 1 and first
    if k == "eval":
        return len({n for n, _ in c["as"]}) == len(c["as"]) and all(py_name(n) for n, _ in c["as"])
    if k in ("stats", "tstats"):
        names = [a["as"] if a["as"] is not None else cmds.stats_default_name(a["fn"]) for a in c["a"]]
        ok = {"count", "avg", "max", "min", "sum", "dc", "values", "list", "first", "last", "earliest", "latest", "median", "mode", "range", "stdev", "var", "distinct_count", "mean"}
        return len(set(names)) == len(names) and all(py_name(n) for n in names) and all(a["fn"] in ok and (a["arg"] is None or a["arg"][0] == "f") for a in c["a"])
    return k in ("datamodel", "fillnull")


def one_each(case):
    """How many library calls the pipeline has to have at least, command by command."""
    return [LIBRARY[c["c"]] for i, c in enumerate(case["p"]) if c["c"] in LIBRARY and must_be_library(c, i == 0)]


def check_counts(case):
    p = case["p"]
    q = cmds.render_pipeline(p, spl.Style(case["y"]))
    plan, code = run.observe(q, True)
    used = []
    evalplan.expect_plan(cmds.plan_pipeline(p), rt.lower(plan, used), f"{q!r} with the runtime", query=q, code=code)
    least = one_each(case)
    for k in set(used) | set(least):
        most = sum(1 for c in p for x in kinds(c) if LIBRARY.get(x) == k)
        if k == "data_model":
            most += sum(1 for c in p for x in kinds(c) if x == "tstats")
        if not least.count(k) <= used.count(k) <= most:
            raise Violation(f"{q!r} has {used.count(k)} commands.{k} calls, expected {least.count(k)} to {most}", query=q, code=code)
    return {"nontrivial": bool(least), "labels": sorted(set(used)), "sample": q}


LIBK = ["search", "eval", "stats", "fillnull"]
OTHER = ["where", "fields", "head", "rename", "sort", "table", "bin", "rex", "lookup", "join", "top", "regex", "addtotals", "convert", "spath"]


def mixed():
    return run.pipeline_case(cmds.pipelines(1, 5, False, kinds=LIBK * 3 + OTHER[:8], leads=["search", "search", "tstats", "datamodel", "any", "makeresults"], nested=True))


def plain_pipes():
    return run.pipeline_case(cmds.pipelines(1, 4, False, kinds=LIBK + ["where", "head"], leads=["search", "search", "tstats", "datamodel", "any"], nested=False))


@st.composite
def odd_names(draw):
    """Names that cannot be keyword arguments, or that the library's own parameters use, or the same name twice."""
    n = lambda: draw(st.one_of(st.sampled_from(sorted(TAKEN - {"by", "where", "from", "is"})), spl.names(True), st.sampled_from(["x", "x", "a.b", "1x", "x y", "é"])))  # noqa: E731
    kind = draw(st.sampled_from(["eval", "stats", "search", "search", "tstats", "fillnull"]))
    if kind == "eval":
        c = {"c": "eval", "as": [[n(), draw(spl.expr("any", 1))] for _ in range(draw(st.integers(1, 3)))]}
    elif kind == "stats":
        c = {"c": "stats", "a": [dict(draw(cmds.stats_call(False)), **{"as": n()}) for _ in range(draw(st.integers(1, 3)))], "by": draw(cmds.bys())}
    elif kind == "tstats":
        c = dict(draw(cmds.GEN["tstats"](weird=False)))
        c["a"] = cmds.tstats_calls([dict(x, **{"as": n()}) for x in c["a"]])
    elif kind == "fillnull":
        c = {"c": "fillnull", "v": draw(st.sampled_from([None, "0", "x y", "'"])), "f": [n() for _ in range(draw(st.integers(0, 2)))]}
    else:
        eqs = [["sc", draw(st.sampled_from(["=", "=", "=", "!=", ">"])), n(), draw(cmds.svalue(True))] for _ in range(draw(st.integers(1, 4)))]
        eqs = [e if e[3][0] != "w" or e[1] in ("=", "!=") else [e[0], "="] + e[2:] for e in eqs]
        eqs = [e for e in eqs if e[2].lower() not in ("index", "earliest", "latest")] or [["t", "foo"]]
        e = eqs[0]
        for x in eqs[1:]:
            e = [draw(st.sampled_from(["and", "and", "and", "or"])), e, x]
        c = {"c": "search", "e": e, "idx": draw(st.lists(cmds.index_names(), max_size=2)), "implied": False, "rot": draw(st.booleans())}
    return {"p": [c] + draw(st.lists(cmds.any_command(False, False, ["eval", "where", "head"]), max_size=1)), "y": draw(spl.styles())}


# ---- functions only the runtime has

RT_ONLY = [("ipmask", 2), ("printf", 1), ("printf", 2), ("printf", 3)]


def rt_only():
    return st.fixed_dictionaries({"i": st.integers(0, len(RT_ONLY) - 1), "args": st.lists(spl.expr("n", 1), min_size=3, max_size=3), "n": spl.plain_names().filter(py_name), "y": spl.styles()})


def check_rt_only(case):
    name, n = RT_ONLY[case["i"]]
    args = case["args"][:n]
    sty = spl.Style(case["y"])
    q = f"eval {case['n']}={name}({', '.join(spl.spell(a, sty) for a in args)})"
    plan, code = run.observe(q, True)
    want = ["withColumn", cmds.MAIN, case["n"], ["functions.eval." + name, [spl.tx(a) for a in args]]]
    low = rt.lower(plan)
    a, b = evalplan.norm(want[:3]), evalplan.norm(low[:3])
    if a != b or low[3][0] != want[3][0] or len(low[3][1]) != n:
        raise Violation(f"{q!r} does not call functions.eval.{name} with its arguments", query=q, code=code)
    for x, y in zip(want[3][1], low[3][1]):
        evalplan.expect_plan(["withColumn", cmds.MAIN, "zz", x], ["withColumn", cmds.MAIN, "zz", y], f"argument of {q!r}", query=q, code=code)
    try:
        run.transpile(q, False)
    except run.Refused:
        return {"nontrivial": True, "labels": [name], "sample": q}
    return {"nontrivial": True, "labels": [name, "standalone too"], "sample": q}


SUBS = [
    Sub("pipelines", check, mixed, quick=4000, rule="pipelines of 1-5 commands, nested searches included, in runtime mode, its library calls given their meaning, against the model; non-trivial: it calls the library"),
    Sub("counts", check_counts, plain_pipes, quick=2500, rule="pipelines of library commands: one call for each command; non-trivial: at least one call is due"),
    Sub("names", check, odd_names, quick=3000, rule="names that are not Python names, are parameters of the library or repeat; non-trivial: it calls the library"),
    Sub("runtime_only", check_rt_only, rt_only, quick=800, rule="functions only the runtime has"),
]
