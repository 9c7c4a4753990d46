"""C08 search reads exactly the indexes it names."""
import cmds
import evalplan
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st


def union(tabs):
    df = ["table", tabs[0]]
    for t in tabs[1:]:
        df = ["unionByName", df, ["table", t], True]
    return df


def placed():
    """index selectors scattered among conditions under AND, at any parenthesis depth"""
    c = cmds.sexpr(1, True).map(lambda e: ["c", e])
    i = cmds.index_names(True).map(lambda n: ["i", n])
    group = st.recursive(st.one_of(c, i, i), lambda ch: st.lists(ch, min_size=1, max_size=3).map(lambda x: ["g", x]), max_leaves=5)
    return st.fixed_dictionaries({"parts": st.lists(group, min_size=1, max_size=5), "kw": st.booleans(), "y": spl.styles(40), "tail": st.booleans()})


def spell_part(p, sty, conds, idx):
    if p[0] == "i":
        idx.append(p[1])
        sp = [("", ""), (" ", " "), ("", " ")][sty.pick(3)]
        return f"{['index', 'index', 'INDEX', 'Index'][0]}{sp[0]}{['=', '='][sty.pick(2)]}{sp[1]}{cmds.spell_index(p[1], sty)}"
    if p[0] == "c":
        conds.append(p[1])
        t = cmds.spell_s(p[1], sty, 2 if p[1][0] in ("or",) else 0)
        return t
    return "(" + sty.osp() + joiner([spell_part(x, sty, conds, idx) for x in p[1]], sty) + sty.osp() + ")"


def joiner(texts, sty):
    t = texts[0]
    for x in texts[1:]:
        t += [" ", " AND ", " and ", "\n"][sty.pick(4)] + x
    return t


def check_placed(case):
    sty = spl.Style(case["y"])
    conds, idx = [], []
    body = joiner([spell_part(p, sty, conds, idx) for p in case["parts"]], sty)
    q = ("search " if case["kw"] else "") + body + (" | head 3" if case["tail"] else "")
    tabs = sorted(set(idx)) or ["main"]
    exp = union(tabs)
    if conds:
        w = None
        for c in conds:
            x = cmds.stx(c)
            w = x if w is None else ["bin", "&", w, x]
        exp = ["where", exp, w]
    if case["tail"]:
        exp = ["limit", exp, 3]
    obs, code = run.observe(q)
    got = tables(obs)
    if sorted(got) != tabs:
        raise Violation(f"{q!r} reads {got}, names {idx}", query=q, code=code)
    # the order of the union is the implementation's choice, fixed by the query (C04)
    evalplan.expect_plan(reorder(exp, got), obs, repr(q), query=q, code=code)
    return {"nontrivial": bool(idx), "labels": [f"indexes={min(len(idx), 5)}", f"distinct={min(len(tabs), 4)}"], "sample": q}


def tables(p):
    if isinstance(p, list):
        if p and p[0] == "table":
            return [p[1]]
        return [t for x in p for t in tables(x)]
    return []


def reorder(exp, order):
    def walk(p):
        if p[0] in ("table", "unionByName"):
            return union(order)
        return [p[0], walk(p[1]), *p[2:]]
    return walk(exp)


# ---- selectors that cannot be honoured

def misplaced():
    sel = st.sampled_from(["index=a", "index=\"b c\"", "index!=a", "index=a*", "index=*", "index IN (a, b)", "index>a", "index=1", "index==a"])
    return st.fixed_dictionaries({"sel": sel, "how": st.sampled_from(["or", "not", "orparen", "plain", "later", "later_or"]), "c": cmds.sexpr(1), "first": st.booleans(),
                                  "also": st.booleans(), "y": spl.styles(10)})


def check_misplaced(case):
    """Refused, or an ordinary condition on the field, or (plainly written equality) a table; never nothing."""
    c = cmds.spell_s(case["c"], spl.Style(case["y"]), 9)
    c = f"({c})"
    sel = case["sel"]
    how = case["how"]
    if how in ("or", "later_or"):
        body = f"{sel} OR {c}" if case["first"] else f"{c} OR {sel}"
    elif how == "orparen":
        body = f"z=1 ({sel} OR {c})" if case["first"] else f"({c} OR {sel}) z=1"
    elif how == "not":
        body = f"NOT {sel} {c}" if case["first"] else f"{c} NOT {sel}"
    else:
        body = f"{sel} {c}" if case["first"] else f"{c} {sel}"
    if case["also"]:
        body = "index=also " + (f"({body})" if " OR " in body else body)
    q = f"search {body}" if not how.startswith("later") else f"search index=main | search {body}"
    try:
        code = run.transpile(q)
    except run.Refused as e:
        return {"nontrivial": True, "labels": ["refused"], "sample": q}
    import fakespark
    plan = fakespark.run_lenient(code)
    names = tables(plan)
    honoured = sel in ("index=a", "index=\"b c\"", "index==a") and how == "plain" and {"index=a": "a", "index==a": "a", "index=\"b c\"": "b c"}[sel] in names
    cols, lits = set(), []
    evalplan.leaves(plan, cols, lits)
    if not honoured and "index" not in cols:
        raise Violation(f"{q!r}: the selector {sel} disappeared", query=q, code=code)
    if honoured and "index" in cols:
        raise Violation(f"{q!r}: selector both read and filtered", query=q, code=code)
    return {"nontrivial": True, "labels": ["table" if honoured else "condition"], "sample": q}


SUBS = [
    Sub("placed", check_placed, placed, quick=4000, rule="0-8 index selectors scattered among conditions at any parenthesis depth; non-trivial with at least one selector"),
    Sub("misplaced", check_misplaced, misplaced, quick=2500, rule="selectors under OR, NOT, with other comparisons, wildcards or IN, or in a later search"),
]
