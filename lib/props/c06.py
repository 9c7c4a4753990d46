"""C06 operators mean and group as SPL defines."""
import cmds
import evalplan
import run
import spl
from core import Sub, Violation, Skip
from hypothesis import strategies as st

# ---- trees: spelled with the parentheses grouping needs (and random extra ones), judged against the tree


def trees():
    return st.fixed_dictionaries({"e": st.sampled_from(["n", "b", "s", "any", "b"]).flatmap(lambda k: spl.expr(k, 4, False, ())), "y": spl.styles(40),
                                  "in": st.sampled_from(["eval", "where"])})


def check_tree(case):
    q = run.check_expr(case, case["in"])
    n = spl.ops_in(case["e"])
    return {"nontrivial": n >= 2, "labels": [f"ops>={min(n, 8)//2*2}", case["in"]], "sample": q}


# ---- flat token rows: no tree is known beforehand; grouped here by an independent precedence climber

EVAL_PREC = {"OR": 1, "AND": 2, "=": 4, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, ".": 5, "+": 6, "-": 6, "*": 7, "/": 7}
SEARCH_PREC = {"AND": 1, "OR": 2}


def parse_flat(tokens, prec, not_level):
    pos = 0

    def primary():
        nonlocal pos
        t = tokens[pos]
        pos += 1
        if t == "(":
            e = climb(0)
            assert tokens[pos] == ")"
            pos += 1
            return e
        if t == "NOT":
            return ["not", climb(not_level)]
        return t

    def climb(level):
        nonlocal pos
        left = primary()
        while pos < len(tokens) and isinstance(tokens[pos], str) and tokens[pos] in prec and prec[tokens[pos]] >= level:
            op = tokens[pos]
            pos += 1
            right = climb(prec[op] + 1)
            left = ["op", op, left, right]
        return left

    e = climb(0)
    assert pos == len(tokens), tokens
    return e


def to_expr(t):
    if t[0] == "op":
        op, l, r = t[1], to_expr(t[2]), to_expr(t[3])
        if op in ("AND", "OR"):
            return [op.lower(), l, r]
        if op in ("=", "==", "!=", "<", "<=", ">", ">="):
            return ["c", op, l, r]
        return ["b", op, l, r]
    if t[0] == "not":
        return ["not", to_expr(t[1])]
    return t


@st.composite
def flat(draw):
    """atom op atom op ... with NOT and parentheses thrown in; comparisons never chained at one level."""
    out = []

    def arith(n, d=2):
        for i in range(n):
            if i:
                out.append(draw(st.sampled_from(["+", "-", "*", "/", "."])))
            if d > 0 and draw(st.integers(0, 7)) == 7:
                out.append("(")
                arith(draw(st.integers(1, 3)), d - 1)
                out.append(")")
            else:
                out.append(draw(st.one_of(st.sampled_from(["a", "b", "c", "d", "x1"]).map(lambda n: ["f", n]), st.integers(-9, 20).map(lambda v: ["n", str(v)]))))

    def cond(n, d):
        for i in range(n):
            if i:
                out.append(draw(st.sampled_from(["AND", "OR"])))
            if draw(st.integers(0, 4)) == 4:
                out.append("NOT")
            if d > 0 and draw(st.integers(0, 4)) == 4:
                out.append("(")
                cond(draw(st.integers(1, 3)), d - 1)
                out.append(")")
            else:
                arith(draw(st.sampled_from([1, 1, 2, 3, 4])))
                out.append(draw(st.sampled_from(["=", "==", "!=", "<", "<=", ">", ">="])))
                arith(draw(st.sampled_from([1, 1, 2, 3])))

    if draw(st.booleans()):
        cond(draw(st.integers(1, 6)), 2)
        ctx = draw(st.sampled_from(["where", "eval"]))
    else:
        arith(draw(st.integers(2, 9)))
        ctx = "eval"
    return {"t": out, "in": ctx, "y": draw(spl.styles(30))}


def spell_flat(tokens, sty):
    out = ""
    for t in tokens:
        if isinstance(t, list):
            s = t[1]
        elif t in ("AND", "OR", "NOT"):
            s = sty.kw(t)
        else:
            s = t
        out += s + (sty.sp())
    return out.strip()


def check_flat(case):
    toks = case["t"]
    e = to_expr(parse_flat(toks, EVAL_PREC, 3))
    text = spell_flat(toks, spl.Style(case["y"]))
    q = f"eval zz={text}" if case["in"] == "eval" else f"where {text}"
    obs, code = run.observe(q)
    exp = ["withColumn", cmds.MAIN, "zz", spl.tx(e)] if case["in"] == "eval" else ["where", cmds.MAIN, spl.tx(e)]
    evalplan.expect_plan(exp, obs, repr(q), query=q, code=code)
    n = spl.ops_in(e)
    return {"nontrivial": n >= 2, "labels": [case["in"], f"ops>={min(n, 12)//3*3}"], "sample": q}


# ---- search conditions: OR binds tighter than AND, adjacency is AND

@st.composite
def sflat(draw):
    out = []

    def cond(n, d):
        for i in range(n):
            if i:
                out.append(draw(st.sampled_from(["AND", "OR", "", "OR"])))
            if draw(st.integers(0, 4)) == 4:
                out.append("NOT")
            if d > 0 and draw(st.integers(0, 3)) == 3:
                out.append("(")
                cond(draw(st.integers(1, 4)), d - 1)
                out.append(")")
            elif draw(st.integers(0, 5)) == 5:
                out.append(["t", draw(st.sampled_from(["foo", "bar", "error"]))])
            else:
                out.append(["sc", draw(st.sampled_from(["=", "!=", "<", ">="])), draw(st.sampled_from("abcd")), ["n", str(draw(st.integers(0, 9)))]])
    cond(draw(st.integers(2, 7)), 2)
    return {"t": out, "y": draw(spl.styles(30)), "kw": draw(st.booleans())}


def check_sflat(case):
    toks = ["AND" if t == "" else t for t in case["t"]]
    tree = parse_flat(toks, SEARCH_PREC, 3)

    def conv(t):
        if t[0] == "op":
            return [t[1].lower(), conv(t[2]), conv(t[3])]
        return ["not", conv(t[1])] if t[0] == "not" else t

    e = conv(tree)
    sty = spl.Style(case["y"])
    parts = []
    for t in case["t"]:
        if isinstance(t, list):
            parts.append(t[1] if t[0] == "t" else f"{t[2]}{t[1]}{t[3][1]}")
        elif t:
            parts.append(sty.kw(t) if t.isalpha() else t)
    text = parts[0]
    for a, b in zip(parts, parts[1:]):
        text += ("" if (a == "(" or b == ")") and sty.flip() else sty.sp()) + b
    q = ("search " if case["kw"] else "") + text
    obs, code = run.observe(q)
    evalplan.expect_plan(["where", cmds.MAIN, cmds.stx(e)], obs, repr(q), query=q, code=code)
    return {"nontrivial": sum(1 for t in toks if t in ("AND", "OR")) >= 2, "labels": ["NOT" if "NOT" in toks else "plain"], "sample": q}


# ---- every pair and triple of binary operators, unparenthesised (exhaustive)

def ladders():
    ops = ["+", "-", "*", "/", "."]
    A = [["f", "a"], ["f", "b"], ["f", "c"], ["f", "d"], ["f", "x1"]]
    for o1 in ops:
        for o2 in ops:
            yield {"t": [A[0], o1, A[1], o2, A[2]], "in": "eval", "y": []}
            for o3 in ops:
                yield {"t": [A[0], o1, A[1], o2, A[2], o3, A[3]], "in": "eval", "y": []}
    cs = ["=", "!=", "<", "<=", ">", ">="]
    for o1 in ops:
        for c in cs:
            for o2 in ops:
                yield {"t": [A[0], o1, A[1], c, A[2], o2, A[3]], "in": "where", "y": []}
    for n1 in ([], ["NOT"]):
        for l1 in ("AND", "OR"):
            for n2 in ([], ["NOT"]):
                for l2 in ("AND", "OR"):
                    for n3 in ([], ["NOT"]):
                        t = [*n1, A[0], "=", ["n", "1"], l1, *n2, A[1], ">", A[2], "+", ["n", "2"], l2, *n3, A[3], "!=", A[4]]
                        yield {"t": t, "in": "where", "y": []}
                        yield {"t": t, "in": "eval", "y": []}


SUBS = [
    Sub("ladders", check_flat, cases=ladders, rule="every unparenthesised pair and triple of binary operators, every comparison between two arithmetic operators, every AND/OR/NOT pattern over three comparisons (exhaustive)"),
    Sub("flat", check_flat, flat, quick=6000, rule="random unparenthesised (or sparsely parenthesised) operator rows grouped by an independent precedence climber; non-trivial with >=2 operators"),
    Sub("search", check_sflat, sflat, quick=4000, rule="random search conditions with AND/OR/adjacency/NOT/parentheses; non-trivial with >=2 connectives"),
    Sub("trees", check_tree, trees, quick=5000, rule="random operator trees spelled with exactly the needed (plus random extra) parentheses; non-trivial with >=2 operators"),
]
