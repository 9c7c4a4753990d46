"""C23 both modes of a program give the same rows, those SPL defines (executed on real Spark)."""
import calendar
import datetime
import json
import re

import aggref
import run
import sparkrun
from core import Skip, Sub, Violation
from hypothesis import strategies as st

from props import c24
from props.c24 import Out, half_up, like_re

# ---------------------------------------------------------------- tables

WORDS = ["alpha", "beta", "a b", "ab", "abc", "x,y", "x,y,z", "Zed", "straße", "日本", "", "foo-bar", "100", "q"]
KEYS = ["k1", "k2", "k3"]
COLUMNS = [("id", "I", "bigint"), ("a", "I", "bigint"), ("b", "I", "bigint"), ("c", "D", "double"), ("d", "D", "double"), ("s", "S", "string"), ("u", "S", "string"), ("k", "S", "string"), ("ok", "B", "boolean"), ("j", "J", "string"), ("ts", "T", "timestamp")]
LOOKUP = [["k1", 10], ["k2", 20], ["alpha", 7], ["a b", None]]
SCHEMA = ", ".join(f"{n} {t}" for n, _, t in COLUMNS)
NULLABLE = {"a", "c", "s"}
OPT = lambda s: st.one_of(s, s, s, st.none())
INT = st.one_of(st.sampled_from([3, 1, 0, 10, 50, -3]), st.integers(-20, 100))
DBL = st.one_of(st.sampled_from([1.0, 0.5, 3.0, 10.0, -2.25, 0.0]), st.integers(-800, 4000).map(lambda n: n / 16))
JS = st.sampled_from([{"p": 1, "q": {"r": "in"}}, {"p": "x y"}, {"q": {"r": [1, 2]}}, {"p": None}, {}, {"q": "text"}, {"p": True, "q": {"r": 2.5}}]).map(lambda v: json.dumps(v, separators=(",", ":")))
WHEN = st.one_of(st.sampled_from([0, 951782400, 1709251199, 1735689599]), st.integers(0, 2_000_000_000))


@st.composite
def table(draw, n=8):
    k = min(n, draw(st.sampled_from([4, 5, 3, 6, 2, 7, 8, 1, 0])))
    ids = draw(st.permutations(list(range(1, k + 1))))
    return [[i, draw(OPT(INT)), draw(INT), draw(OPT(DBL)), draw(DBL), draw(OPT(st.sampled_from(WORDS))), draw(st.sampled_from(WORDS)), draw(st.sampled_from(KEYS)), draw(st.booleans()), draw(JS), draw(WHEN)] for i in ids]


# ---------------------------------------------------------------- expressions: [kind-tagged trees]
# ["c", name] ["n", number] ["s", text] ["op", o, l, r] ["not", x] ["f", spl name, args] ["in", x, [texts]]

def q(text):
    return '"' + text + '"'


def spell(e):
    k = e[0]
    if k == "c":
        return e[1]
    if k == "n":
        return str(e[1])
    if k == "s":
        return q(e[1])
    if k == "raw":
        return e[1]
    if k == "op":
        return f"({spell(e[2])} {e[1]} {spell(e[3])})"
    if k == "not":
        return f"(NOT {spell(e[1])})"
    if k == "in":
        return f"({spell(e[1])} IN ({', '.join(q(v) for v in e[2])}))"
    return f"{e[1]}({', '.join(spell(a) for a in e[2])})"


def value(e, row):
    k = e[0]
    if k == "c":
        return row[e[1]]
    if k in ("n", "s", "raw"):
        return e[1]
    if k == "not":
        v = value(e[1], row)
        return None if v is None else not v
    if k == "in":
        v = value(e[1], row)
        return None if v is None else v in e[2]
    if k == "op":
        o, l, r = e[1], value(e[2], row), value(e[3], row)
        if o == "AND":
            return False if l is False or r is False else None if l is None or r is None else True
        if o == "OR":
            return True if l is True or r is True else None if l is None or r is None else False
        if l is None or r is None:
            return None
        if o == "/":
            if r == 0:
                raise Out()
            return l / r
        if o == ".":
            return str(l) + str(r)
        if isinstance(l, str) != isinstance(r, str):
            raise Out()
        return {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "=": lambda: l == r, "==": lambda: l == r, "!=": lambda: l != r, "<": lambda: l < r, ">": lambda: l > r,
                "<=": lambda: l <= r, ">=": lambda: l >= r}[o]()
    return FN[e[1]](*[value(a, row) for a in e[2]])


S = c24.strict


def out():
    raise Out()      # Spark's own setting decides what the size of nothing is


EPOCH = datetime.datetime(1970, 1, 1)


def when(seconds):
    return EPOCH + datetime.timedelta(seconds=seconds)


def shift(seconds, spec):
    d = when(seconds)
    move, snap = re.fullmatch(r"([-+]\d+\w+)?(?:@(\w+))?", spec).groups()
    if move:
        n, unit = re.fullmatch(r"([-+]\d+)(\w+)", move).groups()
        if unit == "mon":
            m = d.year * 12 + d.month - 1 + int(n)
            y, m = divmod(m, 12)
            d = d.replace(year=y, month=m + 1, day=min(d.day, calendar.monthrange(y, m + 1)[1]))
        else:
            d += datetime.timedelta(**{{"d": "days", "h": "hours", "m": "minutes"}[unit]: int(n)})
    for u, zero in (("y", {"month": 1, "day": 1}), ("mon", {"day": 1}), ("d", {"hour": 0}), ("h", {"minute": 0, "second": 0})):
        if snap is None:
            break
        keep = ["y", "mon", "d", "h"]
        if keep.index(u) >= keep.index(snap):
            d = d.replace(**zero)
    return (d - EPOCH).total_seconds()


def first_true(*a):
    return c24.r_case(*a)


FN = {
    "if": lambda c, x, y: x if c is True else y, "case": first_true, "validate": c24.r_validate, "coalesce": c24.r_coalesce, "nullif": lambda a, b: None if a is not None and a == b else a,
    "isnull": lambda x: x is None, "isnotnull": lambda x: x is not None, "like": S(c24.r_like), "match": S(lambda x, p: re.search(p, x) is not None), "true": lambda: True, "false": lambda: False,
    "len": S(len), "lower": S(str.lower), "upper": S(str.upper), "substr": S(c24.r_substr), "replace": S(lambda x, rx, r: c24.r_replace(x, rx, r)), "tostring": S(str), "md5": c24.FUNCS["md5"][0][2],
    "sha1": c24.FUNCS["sha1"][0][2], "sha256": c24.FUNCS["sha256"][0][2], "sha512": c24.FUNCS["sha512"][0][2],
    "abs": S(abs), "ceiling": c24.FUNCS["ceiling"][0][2], "floor": c24.FUNCS["floor"][0][2], "round": S(half_up), "sqrt": c24.FUNCS["sqrt"][0][2], "exp": c24.FUNCS["exp"][0][2], "ln": c24.FUNCS["ln"][0][2],
    "log": c24.finite(lambda x, b=10: __import__("math").log(x) / __import__("math").log(b)), "pow": c24.finite(lambda a, b: __import__("math").pow(a, b)), "exact": S(float), "pi": lambda: 3.141592653589793,
    "max": c24.extreme(max), "min": c24.extreme(min), "sum": c24.numbers(sum), "avg": c24.numbers(lambda xs: sum(xs) / len(xs)), "bit_and": c24.FUNCS["bit_and"][0][2], "bit_or": c24.FUNCS["bit_or"][0][2],
    "bit_xor": c24.FUNCS["bit_xor"][0][2], "bit_not": c24.FUNCS["bit_not"][0][2], "mvcount": lambda x: len(x) if x is not None else out(), "split": S(lambda x, d: x.split(d)), "mvindex": S(c24.r_mvindex), "mvappend": S(lambda *a: sum(a, [])),
    "sin": c24.FUNCS["sin"][0][2], "cos": c24.FUNCS["cos"][0][2], "tanh": c24.FUNCS["tanh"][0][2], "atan2": c24.FUNCS["atan2"][0][2], "hypot": c24.FUNCS["hypot"][0][2], "urldecode": S(c24.unquote_plus),
    "strftime": lambda t, f: when(t).strftime(f), "relative_time": lambda t, m: shift(t, m),
    "ltrim": S(lambda x, c: x.lstrip(c)), "rtrim": S(lambda x, c: x.rstrip(c)), "trim": S(lambda x, c: x.strip(c)), "mvzip": S(c24.r_mvzip), "tonumber": S(float), "cidrmatch": None,
    "bit_shift_left": S(lambda a, n: a << n), "bit_shift_right": S(lambda a, n: a >> n), "acos": c24.FUNCS["acos"][0][2], "atan": c24.FUNCS["atan"][0][2], "sinh": c24.FUNCS["sinh"][0][2],
}
# (result, name, argument kinds; lower case: a literal drawn from LIT)
ROWS = [("I", "len", "S"), ("I", "abs", "I"), ("I", "ceiling", "D"), ("I", "floor", "D"), ("I", "max", "II"), ("I", "min", "III"), ("I", "sum", "II"), ("I", "bit_and", "bb"), ("I", "bit_or", "bb"), ("I", "bit_xor", "bb"),
        ("I", "bit_not", "I"), ("I", "mvcount", "M"), ("I", "if", "BII"), ("I", "case", "BIBI"), ("I", "coalesce", "II"), ("I", "nullif", "II"), ("I", "round", "I"), ("I", "bit_shift_left", "bh"), ("I", "bit_shift_right", "bh"),
        ("D", "abs", "D"), ("D", "round", "Dp"), ("D", "sqrt", "P"), ("D", "exp", "e"), ("D", "ln", "P"), ("D", "log", "P"), ("D", "log", "Pl"), ("D", "pow", "Dx"), ("D", "exact", "I"), ("D", "pi", ""), ("D", "max", "DD"), ("D", "min", "DD"),
        ("D", "avg", "ID"), ("D", "avg", "III"), ("D", "sum", "DDD"), ("D", "if", "BDD"), ("D", "case", "BDBD"), ("D", "coalesce", "DD"), ("D", "sin", "D"), ("D", "cos", "D"), ("D", "tanh", "D"), ("D", "atan2", "DD"), ("D", "hypot", "DD"), ("D", "atan", "D"),
        ("S", "lower", "S"), ("S", "upper", "S"), ("S", "substr", "Sv"), ("S", "replace", "Sg"), ("S", "tostring", "I"), ("S", "md5", "S"), ("S", "sha1", "S"), ("S", "sha256", "S"), ("S", "sha512", "S"), ("S", "if", "BSS"), ("S", "case", "BSBS"), ("S", "case", "BSBSBS"),
        ("S", "validate", "BSBS"), ("S", "coalesce", "SS"), ("S", "coalesce", "SSS"), ("S", "nullif", "SS"), ("S", "mvindex", "Mi"), ("S", "ltrim", "St"), ("S", "rtrim", "St"), ("S", "trim", "St"),
        ("B", "isnull", "S"), ("B", "isnotnull", "I"), ("B", "isnull", "D"), ("B", "like", "Sk"), ("B", "match", "Sm"), ("B", "true", ""), ("B", "false", ""), ("B", "if", "BBB"),
        ("M", "split", "Sd"), ("M", "mvappend", "MM"), ("M", "mvindex", "Mj"), ("M", "mvzip", "YY")]
LIT = {"p": [["n", 0], ["n", 1], ["n", 2]], "l": [["n", 2], ["n", 10], ["n", 3]], "x": [["n", 2], ["n", 0], ["n", 3]], "g": [("a", "X"), ("[0-9]+", "#"), ("(a)(b)", "\\2\\1"), (",", "; ")], "k": [["s", "a%"], ["s", "%b%"], ["s", "_"], ["s", "%"], ["s", "x,y%"]],
       "m": [["s", "^a"], ["s", "b$"], ["s", "[0-9]"], ["s", "日"], ["s", "a.c"]], "d": [["s", ","], ["s", " "], ["s", "-"]], "i": [["n", 0], ["n", 1], ["n", 2], ["n", 3]], "t": [["s", "a"], ["s", "ab"], ["s", "xy"]], "h": [["n", 0], ["n", 1], ["n", 4]],
       "v": [(1, 2), (2, 3), (1, 10), (3, 1)], "e": [["n", 1], ["n", 0], ["n", 2.5]]}
ROW_OF = {}
for _r in ROWS:
    ROW_OF.setdefault(_r[0], []).append(_r)


@st.composite
def expr(draw, env, kind, depth):
    """env: {name: (kind, nullable)}"""
    def sub(k, d=depth - 1):
        return draw(expr(env, k, d))
    if kind == "P":
        return ["op", "+", ["f", "abs", [sub("D")]], ["n", 1]]
    if kind == "b":
        return draw(st.sampled_from([["n", n] for n in (0, 1, 5, 12, 255)] + [["f", "len", [["c", n]]] for n, (k, _) in env.items() if k == "S"]))
    if kind == "Y":
        return ["f", "split", [["c", draw(st.sampled_from([n for n, (k, _) in env.items() if k == "S"] or ["zz"]))], ["s", ","]]] if any(k == "S" for k, _ in env.values()) else ["f", "split", [["s", "p,q"], ["s", ","]]]
    if kind.islower():
        return draw(st.sampled_from(LIT[kind]))
    names = [n for n, (k, _) in env.items() if k == kind]
    pick = draw(st.integers(0, 9))
    if depth > 0 and pick >= 4:
        if pick >= 7 or kind == "M":
            _, name, kinds = draw(st.sampled_from(ROW_OF[kind]))
            args = []
            for k in kinds:
                if k == "v":
                    args += [["n", n] for n in draw(st.sampled_from(LIT["v"]))]
                elif k == "j":
                    args += [["n", n] for n in draw(st.sampled_from([(0, 0), (0, 1), (1, 2), (1, 1), (0, 5)]))]
                elif k == "g":
                    args += [["s", t] for t in draw(st.sampled_from(LIT["g"]))]
                elif k == "Y" and args:
                    args.append(args[0])
                else:
                    args.append(sub(k))
            return ["f", name, args]
        if kind == "I":
            return ["op", draw(st.sampled_from("+-*")), sub("I"), sub("I")]
        if kind == "D":
            o = draw(st.sampled_from("+-*/"))
            return ["op", o, sub("D"), ["n", draw(st.sampled_from([2, 4, 0.5]))] if o == "/" else sub("D")]
        if kind == "S" and pick == 6 and any(k == "T" for k, _ in env.values()):
            w = ["c", next(n for n, (k, _) in env.items() if k == "T")]
            if draw(st.booleans()):
                w = ["f", "relative_time", [w, ["raw", draw(st.sampled_from(["@d", "-1d@h", "-1mon@mon", "@mon", "-90m@h", "-2h@d", "-13mon@d"]))]]]
            return ["f", "strftime", [w, ["s", draw(st.sampled_from(["%Y-%m-%d", "%H:%M:%S", "%d/%m/%Y %H", "%Y-%m-%d %H:%M:%S", "%j"]))]]]
        if kind == "S":
            return ["op", ".", sub("S"), sub(draw(st.sampled_from("SSI")))]
        if kind == "B":
            if pick == 6 and not any(k == "S" for k, _ in env.values()):
                pick = 5
            if pick == 4:
                return ["op", draw(st.sampled_from(["AND", "OR"])), sub("B"), sub("B")]
            if pick == 5:
                return ["not", sub("B")]
            return ["in", ["c", draw(st.sampled_from([n for n, (k, _) in env.items() if k == "S"] or ["?"]))], draw(st.lists(st.sampled_from([w for w in WORDS if w]), min_size=1, max_size=3))]
    if kind == "B" and not (names and pick == 0):
        k = draw(st.sampled_from("IDS"))
        return ["op", draw(st.sampled_from(["=", "!=", "<", ">", "<=", ">="])), sub(k, max(0, depth - 1)), sub(k, 0)]
    if kind == "M":
        return ["f", "split", [sub("S", 0), draw(st.sampled_from(LIT["d"]))]]
    if names and (pick >= 1 or kind == "B"):
        return ["c", draw(st.sampled_from(names))]
    if kind == "I":
        return ["n", draw(st.sampled_from([0, 1, 2, 3, 10, 50]))]
    if kind == "D":
        return ["n", draw(st.sampled_from([0.5, 2.5, 10.25, 3.0]))]
    return ["s", draw(st.sampled_from([w for w in WORDS if w and w != "100"]))]


# ---------------------------------------------------------------- search terms: ["cmp", field, op, value] ["wild", field, text] ["in", field, values] and/or/not

@st.composite
def term(draw, env, depth, total):
    """total: inside NOT, only fields that every row has"""
    names = [n for n, (k, null) in env.items() if k in "IDS" and not (total and null)]
    if depth > 0 and draw(st.integers(0, 9)) >= 5:
        o = draw(st.sampled_from(["AND", "OR", " ", "NOT"]))
        if o == "NOT":
            x = draw(term(env, depth - 1, True))
            return x if x is None else ["not", x]
        l, r = draw(term(env, depth - 1, total)), draw(term(env, depth - 1, total))
        return None if l is None or r is None else ["op", o, l, r]
    if not names:
        return None
    f = draw(st.sampled_from(names))
    k = env[f][0]
    if k in "ID":
        return ["cmp", f, draw(st.sampled_from(["=", "!=", ">", "<", ">=", "<="])), draw(st.sampled_from([0, 1, 3, 10, 50]))]
    c = draw(st.integers(0, 4))
    if c == 0:
        return ["wild", f, draw(st.sampled_from(["a*", "*b*", "*y", "x*z", "*"]))]
    if c == 1:
        return ["in", f, draw(st.lists(st.sampled_from(["alpha", "beta", "ab", "abc", "Zed", "k1", "k2"]), min_size=1, max_size=3))]
    return ["cmp", f, draw(st.sampled_from(["=", "!=", "=", "="])), draw(st.sampled_from(["alpha", "beta", "a b", "ab", "x,y", "日本", "k1", "k2", "foo-bar"]))]


def spell_term(t):
    if t[0] == "op":
        return f"({spell_term(t[2])}{' ' if t[1] == ' ' else ' ' + t[1] + ' '}{spell_term(t[3])})"
    if t[0] == "not":
        return f"NOT ({spell_term(t[1])})"
    if t[0] == "in":
        return f"{t[1]} IN ({', '.join(t[2])})"
    if t[0] == "wild":
        return f"{t[1]}={t[2]}"
    return f"{t[1]}{t[2]}{q(t[3]) if isinstance(t[3], str) else t[3]}"


def holds(t, row):
    if t[0] == "op":
        l, r = holds(t[2], row), holds(t[3], row)
        return (l or r) if t[1] == "OR" else (l and r)
    if t[0] == "not":
        return not holds(t[1], row)
    v = row[t[1]]
    if v is None:
        return False
    if t[0] == "in":
        return v in t[2]
    if t[0] == "wild":
        return re.fullmatch(like_re(t[2].replace("*", "%")), v, re.S) is not None
    return value(["op", t[2], ["c", t[1]], ["n", t[3]]], row)


# ---------------------------------------------------------------- commands

REXES = [("(?<1st>^.{0,2})(?<2nd>.*)", 0), ("(?<1st>^[a-z]*)(?<2nd>[^a-z]?)", 0), ("^(?<1st>[^,]*)(,(?:.*))?(?<2nd>.?$)", 0)]

FRESH = ["x", "y", "z", "w", "n1", "n2", "total"]


@st.composite
def agg(draw, env, ordered, name):
    c = draw(st.integers(0, 9))
    nums = [n for n, (k, _) in env.items() if k in "ID"]
    anys = [n for n, (k, _) in env.items() if k in "IDS"]
    if c == 0 or not anys:
        return {"f": "count", "x": None, "as": name}
    if c == 1:
        return {"f": "count", "x": draw(expr(env, "B", 1).filter(lambda e: e[0] in ("op", "not", "in") and e[1][0] != "c")), "as": name, "e": 1}
    if c == 2 and nums:
        return {"f": draw(st.sampled_from(["sum", "max", "avg"])), "x": draw(expr(env, "I" if any(env[n][0] == "I" for n in nums) else "D", 1)), "as": name, "e": 1}
    if c == 3 and nums:
        return {"f": draw(st.sampled_from(["perc", "p", "exactperc"])), "p": draw(st.sampled_from([0, 5, 25, 50, 90, 95, 99, 100])), "x": ["c", draw(st.sampled_from(nums))], "as": name}
    if c <= 6 and nums:
        return {"f": draw(st.sampled_from(aggref.NUMERIC)), "x": ["c", draw(st.sampled_from(nums))], "as": name}
    f = draw(st.sampled_from(aggref.ANY if ordered else [n for n in aggref.ANY if n not in ("first", "last", "list")]))
    return {"f": f, "x": ["c", draw(st.sampled_from(anys))], "as": name}


def spell_agg(a):
    f = a["f"] + (str(a["p"]) if "p" in a else "")
    if a["x"] is None:
        return f"count AS {a['as']}"
    return f"{f}({'eval(' + spell(a['x']) + ')' if a.get('e') else spell(a['x'])}) AS {a['as']}"


def run_agg(a, rows):
    try:
        if a["x"] is None:
            return len(rows)
        vals = [value(a["x"], r) for r in rows]
        if a["f"] == "count" and a.get("e"):
            return sum(v is True for v in vals)
        if a["f"] in ("perc", "p"):
            return aggref.of(aggref.rank(a["p"]))(vals)
        if a["f"] == "exactperc":
            return aggref.of(aggref.linear(a["p"]))(vals)
        return aggref.AGG[a["f"]](vals)
    except aggref.Out:
        raise Out()


def agg_kind(a, env):
    if a["f"] in ("count", "dc", "distinct_count", "estdc"):
        return "I", False
    k = env[a["x"][1]][0] if a["x"] and a["x"][0] == "c" else None
    if a["f"] in ("min", "max", "first", "last", "mode") and k:
        return k, True
    if a["f"] in ("sum", "range") and k:
        return k, True
    if a["f"] in ("list", "values"):
        return "L", True
    return ("D", True) if a["f"] in ("avg", "mean", "stdev", "stdevp", "var", "varp", "sumsq", "exactperc") else ("?", True)


@st.composite
def step(draw, env, state):
    """-> (command, new env) ; state: {"ordered", "ids"}"""
    kinds = ["search", "where", "eval", "eval", "stats", "fillnull", "rename", "fields", "addtotals", "spath", "rex", "lookup"] + (["sorthead", "sort"] if "id" in env and env["id"] == ("I", False) and state["ids"] else []) + (["join"] if state["ids"] and "k" in env else [])
    c = draw(st.sampled_from(kinds))
    fresh = [n for n in FRESH if n not in env]
    strs = [n for n, (k, _) in env.items() if k == "S"]
    nums = [n for n, (k, _) in env.items() if k in "ID"]
    if c == "search":
        t = draw(term(env, 2, False))
        return (["search", t], env) if t else None
    if c == "where":
        return ["where", draw(expr(env, "B", 2))], env
    if c == "eval":
        pairs, new = [], dict(env)
        for _ in range(draw(st.integers(1, 2))):
            kind = draw(st.sampled_from("IDSB" + "ISM"))
            over = [n for n in new if n in ("a", "s", "c", "u", "x", "y")]
            n = draw(st.sampled_from(fresh + over)) if fresh or over else None
            if n is None or n in [p[0] for p in pairs]:
                continue
            pairs.append([n, draw(expr(new, kind, 2))])
            new[n] = (kind, True)
        return (["eval", pairs], new) if pairs else None
    if c == "stats":
        by = draw(st.lists(st.sampled_from([n for n, (k, null) in env.items() if not null and k in "SI" and n != "id"] or ["k"]), max_size=2, unique=True)) if "k" in env else []
        if any(n not in env for n in by):
            return None
        pool = [n for n in FRESH if n not in by]
        aggs = [draw(agg(env, state["ordered"], pool[i])) for i in range(draw(st.integers(1, 3)))]
        new = {n: env[n] for n in by}
        for a in aggs:
            new[a["as"]] = agg_kind(a, env)
        return ["stats", aggs, by], new
    if c == "fillnull":
        if not strs:
            return None
        fs = draw(st.lists(st.sampled_from(strs), min_size=1, max_size=3, unique=True))
        return ["fillnull", draw(st.sampled_from(["none", "0", "n a", "é"])), fs], {n: (k, null and n not in fs) for n, (k, null) in env.items()}
    if c == "rename":
        if not fresh:
            return None
        n = draw(st.sampled_from(sorted(env)))
        m = draw(st.sampled_from(fresh))
        return ["rename", n, m], {(m if x == n else x): v for x, v in env.items()}
    if c == "fields":
        ns = draw(st.lists(st.sampled_from(sorted(env)), min_size=1, max_size=6, unique=True))
        w = draw(st.sampled_from(["table", "fields", "fields +", "fields -"]))
        if w == "fields -":
            new = {n: v for n, v in env.items() if n not in ns}
            return (["fields", w, ns], new) if new else None
        return ["fields", w, ns], {n: env[n] for n in ns}
    if c == "regex":
        if not strs:
            return None
        return ["regex", draw(st.sampled_from(strs)), draw(st.booleans()), draw(st.sampled_from(["^a", "b$", "[a-z]{3}", "x,y", "日"]))], env
    if c == "addtotals":
        ns = [n for n in nums if not env[n][1]]
        if not ns or not fresh:
            return None
        m = draw(st.sampled_from(fresh))
        fs = draw(st.lists(st.sampled_from(ns), min_size=1, max_size=3, unique=True))
        return ["addtotals", m, fs], {**env, m: ("D" if any(env[f][0] == "D" for f in fs) else "I", False)}
    if c == "spath":
        if env.get("j", ("",))[0] != "J" or not fresh:
            return None
        m = draw(st.sampled_from(fresh))
        return ["spath", "j", draw(st.sampled_from(["p", "q.r", "q", "nosuch"])), m], {**env, m: ("S", True)}
    if c == "rex":
        ns = [n for n in strs if not env[n][1]]
        if not ns or len(fresh) < 2:
            return None
        rx, _ = draw(st.sampled_from(REXES))
        return ["rex", draw(st.sampled_from(ns)), rx, fresh[:2]], {**env, fresh[0]: ("S", False), fresh[1]: ("S", False)}
    if c == "lookup":
        if not strs or not fresh:
            return None
        n = draw(st.sampled_from(strs))
        alias = draw(st.booleans())
        if n in env and not (alias or n == "k") or "v" in env:
            alias = True
        return ["lookup", n, fresh[0], alias or n != "k"], {**env, fresh[0]: ("I", True)}
    if c == "sort":
        return ["sort", draw(st.sampled_from(["-", "+", ""])), "id"], env
    if c == "sorthead":
        return ["sorthead", draw(st.sampled_from(["-", "+", ""])), draw(st.sampled_from([n for n in ("b", "k", "u") if n in env and not env[n][1]] + [None])), draw(st.integers(1, 6))], env
    if c == "join":
        if env["k"] != ("S", False):
            return None
        m = [n for n in FRESH if n not in env][:1]
        keep = draw(st.lists(st.sampled_from([n for n in env if n != "k"] or ["?"]), min_size=1, max_size=4, unique=True))
        if not m or keep == ["?"]:
            return None
        kind = draw(st.sampled_from(["inner", "left"]))
        return ["join", kind, m[0], keep], {**{n: env[n] for n in keep}, m[0]: ("I", kind == "left")}
    raise AssertionError(c)


@st.composite
def cases(draw):
    env = {n: (k, n in NULLABLE) for n, k, _ in COLUMNS}
    src = draw(st.sampled_from(["main", "lol", None, None, None, "tstats", "multisearch", "makeresults"]))
    cmds, state = [], {"ordered": True, "ids": True}
    if src == "tstats":
        by = draw(st.lists(st.sampled_from(["k", "u", "b"]), max_size=2, unique=True))
        aggs = [draw(agg(env, True, FRESH[i])) for i in range(draw(st.integers(1, 3)))]
        aggs = [a for a in aggs if not a.get("e")] or [{"f": "count", "x": None, "as": "x"}]
        t = draw(st.one_of(st.none(), term(env, 1, False)))
        cmds.append(["tstats", aggs, t, by])
        env = {**{n: env[n] for n in by}, **{a["as"]: agg_kind(a, env) for a in aggs}}
        state = {"ordered": False, "ids": False}
    elif src == "multisearch":
        cmds.append(["multisearch", [[draw(st.sampled_from(["main", "lol"])), draw(st.one_of(st.none(), term(env, 1, False)))] for _ in range(draw(st.integers(2, 3)))]])
        state = {"ordered": False, "ids": False}
    elif src == "makeresults":
        cmds.append(["makeresults", draw(st.integers(0, 4)), draw(st.integers(0, 9))])
        env, state = {"id": ("I", False)}, {"ordered": True, "ids": False}
    elif src is not None or draw(st.booleans()):
        cmds.append(["from", src, draw(st.one_of(st.none(), term(env, 2, False)))])
        if src is None and cmds[0][2] is None:
            cmds = []
    for _ in range(draw(st.integers(0 if cmds else 1, 4))):
        r = draw(step(env, state))
        if r is None:
            continue
        c, env = r
        cmds.append(c)
        if c[0] == "lookup":
            state["ordered"] = False
        if c[0] in ("stats", "join"):
            state = {"ordered": False, "ids": False}
        if c[0] in ("rename", "eval") and "id" not in env:
            state["ids"] = False
        if not env:
            break
    return {"main": draw(table()), "lol": draw(table(5)), "ansi": draw(st.booleans()), "cmds": cmds}


def text(cmds):
    out = []
    for i, c in enumerate(cmds):
        k = c[0]
        if k == "from":
            t = f" {spell_term(c[2])}" if c[2] else ""
            out.append(f"search index={c[1]}{t}" if c[1] else f"search{t}")
        elif k == "tstats":
            out.append("tstats " + " ".join(spell_agg(a) for a in c[1]) + " from datamodel=lol" + (f" where {spell_term(c[2])}" if c[2] else "") + (f" by {' '.join(c[3])}" if c[3] else ""))
        elif k == "search":
            out.append("search " + spell_term(c[1]))
        elif k == "where":
            out.append("where " + spell(c[1]))
        elif k == "eval":
            out.append("eval " + ", ".join(f"{n}={spell(e)}" for n, e in c[1]))
        elif k == "stats":
            out.append("stats " + ", ".join(spell_agg(a) for a in c[1]) + (f" by {', '.join(c[2])}" if c[2] else ""))
        elif k == "fillnull":
            out.append(f"fillnull value={q(c[1])} {' '.join(c[2])}")
        elif k == "rename":
            out.append(f"rename {c[1]} AS {c[2]}")
        elif k == "fields":
            out.append(f"{c[1]} {', '.join(c[2])}")
        elif k == "regex":
            out.append(f"regex {c[1]}{'!=' if c[2] else '='}{q(c[3])}")
        elif k == "addtotals":
            out.append(f"addtotals fieldname={c[1]} {' '.join(c[2])}")
        elif k == "spath":
            out.append(f"spath input={c[1]} output={c[3]} path={c[2]}")
        elif k == "sort":
            out.append(f"sort {c[1]}{c[2]}")
        elif k == "sorthead":
            out.append(f"sort {c[2] + ', ' if c[2] else ''}{c[1]}id | head {c[3]}")
        elif k == "rex":
            out.append(f"rex field={c[1]} {q(c[2].replace('1st', c[3][0]).replace('2nd', c[3][1]))}")
        elif k == "lookup":
            out.append(f"lookup lk k{' AS ' + c[1] if c[3] else ''} OUTPUT v AS {c[2]}")
        elif k == "multisearch":
            out.append("multisearch " + " ".join(f"[search index={t}{' ' + spell_term(x) if x else ''}]" for t, x in c[1]))
        elif k == "makeresults":
            out.append(f"makeresults count={c[1]} | eval id={c[2]} | table id")
        elif k == "join":
            out.append(f"join type={c[1]} k [search index=lol | stats sum(b) AS {c[2]} by k] | table {', '.join(c[3] + [c[2]])}")
    return "| " + " | ".join(out)


def json_path(v, path):
    for p in path.split("."):
        if not isinstance(v, dict) or p not in v:
            return None
        v = v[p]
    if v is None:
        return None
    if isinstance(v, str):
        return v
    return json.dumps(v, separators=(",", ":"))


def grouped(rows, aggs, by):
    if any(a["f"] in ("dc", "distinct_count") for a in aggs) and any(a["f"] in ("first", "last", "list") for a in aggs):
        raise Out()      # Spark regroups the rows to count distinct values: they have no order then
    if not by:
        return [{a["as"]: run_agg(a, rows) for a in aggs}]
    groups = {}
    for r in rows:
        groups.setdefault(tuple(r[b] for b in by), []).append(r)
    return [{**dict(zip(by, key)), **{a["as"]: run_agg(a, rs) for a in aggs}} for key, rs in groups.items()]


def interpret(case):
    tabs = {t: [dict(zip([n for n, _, _ in COLUMNS], r)) for r in case[t]] for t in ("main", "lol")}
    rows, names = tabs["main"], [n for n, _, _ in COLUMNS]
    for c in case["cmds"]:
        k = c[0]
        if k == "from":
            rows = tabs[c[1] or "main"]
            if c[2]:
                rows = [r for r in rows if holds(c[2], r)]
        elif k == "tstats":
            rows = grouped([r for r in tabs["lol"] if not c[2] or holds(c[2], r)], c[1], c[3])
            names = c[3] + [a["as"] for a in c[1]]
        elif k == "search":
            rows = [r for r in rows if holds(c[1], r)]
        elif k == "where":
            rows = [r for r in rows if value(c[1], r) is True]
        elif k == "eval":
            for n, e in c[1]:
                rows = [{**r, n: value(e, r)} for r in rows]
                names = names + [n] * (n not in names)
        elif k == "stats":
            rows, names = grouped(rows, c[1], c[2]), c[2] + [a["as"] for a in c[1]]
        elif k == "fillnull":
            rows = [{n: c[1] if v is None and n in c[2] else v for n, v in r.items()} for r in rows]
        elif k == "rename":
            rows, names = [{(c[2] if n == c[1] else n): v for n, v in r.items()} for r in rows], [c[2] if n == c[1] else n for n in names]
        elif k == "fields":
            names = [n for n in names if n not in c[2]] if c[1] == "fields -" else c[2]
            rows = [{n: r[n] for n in names} for r in rows]
        elif k == "regex":
            rows = [r for r in rows if r[c[1]] is not None and (re.search(c[3], r[c[1]]) is not None) != c[2]]
        elif k == "addtotals":
            rows, names = [{**r, c[1]: sum(r[f] for f in c[2])} for r in rows], names + [c[1]]
        elif k == "spath":
            rows, names = [{**r, c[3]: json_path(json.loads(r[c[1]]), c[2])} for r in rows], names + [c[3]]
        elif k == "sort":
            rows = sorted(rows, key=lambda r: r["id"], reverse=c[1] == "-")
        elif k == "sorthead":
            rows = sorted(rows, key=lambda r: r["id"], reverse=c[1] == "-")
            if c[2]:
                rows = sorted(rows, key=lambda r: r[c[2]].encode() if isinstance(r[c[2]], str) else r[c[2]])
            rows = rows[:c[3]]
        elif k == "rex":
            rx = re.compile(re.sub(r"\(\?<", "(?P<", c[2].replace("1st", c[3][0]).replace("2nd", c[3][1])), re.S)
            rows, names = [{**r, **rx.search(r[c[1]]).groupdict()} for r in rows], names + c[3]
        elif k == "lookup":
            lk = dict(LOOKUP)
            rows, names = [{**r, c[2]: lk.get(r[c[1]])} for r in rows], names + [c[2]]
        elif k == "multisearch":
            rows = [r for t, x in c[1] for r in tabs[t] if not x or holds(x, r)]
        elif k == "makeresults":
            rows, names = [{"id": c[2]} for _ in range(c[1])], ["id"]
        elif k == "join":
            right = {g["k"]: g[c[2]] for g in grouped(tabs["lol"], [{"f": "sum", "x": ["c", "b"], "as": c[2]}], ["k"])}
            rows = [{**r, c[2]: right.get(r["k"])} for r in rows if c[1] == "left" or r["k"] in right]
            names = c[3] + [c[2]]
            rows = [{n: r[n] for n in names} for r in rows]
    for r in rows:
        for v in r.values():
            if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2**53 or isinstance(v, float) and abs(v) > 1e15:
                raise Out()
    return names, rows


def execute(code, runtime):
    import ast
    from pyspark.sql import functions as F
    env = {"spark": sparkrun.session(), "F": F, "float": float}
    if runtime:
        from spl_transpiler.runtime import commands, functions
        env.update(commands=commands, functions=functions)
    tree = ast.parse(code)
    last = ast.Expression(tree.body.pop().value)
    exec(compile(tree, "<program>", "exec"), env)
    df = eval(compile(last, "<program>", "eval"), env)
    return df.columns, [[(v - EPOCH).total_seconds() if isinstance(v, datetime.datetime) else sparkrun.plain(v) for v in r] for r in df.collect()]


def key(r):
    return [repr(round(v, 6)) if isinstance(v, float) else repr(sorted(v, key=repr)) if isinstance(v, list) else repr(v) for v in r]


def flat(v):
    return list(v[1]) if isinstance(v, tuple) else v


def match(exp, got, ordered):
    """every expected row has its own observed row"""
    if len(exp) != len(got):
        return f"{len(got)} rows instead of {len(exp)}"
    left = list(got)
    for i, e in enumerate(exp):
        if ordered:
            if not all(aggref.same(x, g) for x, g in zip(e, got[i])):
                return f"row {i} is {got[i]!r}, expected {[flat(x) for x in e]!r}"
            continue
        hit = next((g for g in left if all(aggref.same(x, y) for x, y in zip(e, g))), None)
        if hit is None:
            return f"no row {[flat(x) for x in e]!r} (left over: {left[:4]!r})"
        left.remove(hit)
    return None


def check(case):
    import warnings
    warnings.filterwarnings("ignore")
    if not case["cmds"]:
        raise Skip()
    try:
        names, rows = interpret(case)
    except Out:
        raise Skip()
    query = text(case["cmds"])
    sparkrun.ansi(case["ansi"])
    for t in ("main", "lol"):
        sparkrun.table(t, [r[:-1] + [when(r[-1])] for r in case[t]], SCHEMA)
    sparkrun.table("lk", LOOKUP, "k string, v bigint")
    ordered = [c for c in case["cmds"] if c[0] in ("sort", "sorthead")] and not any(c[0] in ("stats", "join", "lookup") for c in case["cmds"])
    exp = [[r[n] for n in names] for r in rows]
    labels = sorted({c[0] for c in case["cmds"]})
    for rt in (False, True):
        code = run.must(query, rt)
        mode = "runtime" if rt else "standalone"
        try:
            cols, got = execute(code, rt)
        except Exception as e:
            raise Violation(f"{query!r}: the {mode} program fails: {type(e).__name__}: {str(e)[:400]}", query=query, code=code)
        if sorted(cols) != sorted(names):
            raise Violation(f"{query!r}: the {mode} program gives the columns {cols}, expected {names}", query=query, code=code)
        at = [cols.index(n) for n in names]
        bad = match(exp, [[r[i] for i in at] for r in got], ordered)
        if bad:
            raise Violation(f"{query!r}: the {mode} program gives {bad}; columns {names}", query=query, code=code, expected=str(exp)[:1500], observed=str(got)[:1500])
        if rt and "commands." in code:
            labels.append("uses runtime commands")
    return {"nontrivial": True, "labels": labels + (["some rows"] if rows else ["no rows"]), "sample": query}


def setup():
    sparkrun.session()
    sparkrun.frame([[1]], "a int").collect()


SUBS = [
    Sub("agree", check, strategy=cases, quick=500, thorough=30000, shards=6, setup=setup,
        rule="a pipeline of 1 to 5 typed commands over two generated tables, both programs run on Spark and compared with an independent row interpreter; non-trivial: the result is defined by SPL for these rows"),
]
