"""C20 macro substitution replaces calls by their definitions."""
from core import Sub, Violation
from hypothesis import strategies as st
from props import c19

NAMES = ["m0", "m1", "m2", "my-macro", "ns:x", "M3"]
ARGS = ["a", "b", "ab", "field", "a.b", "x y", "c+d", "A", "arg1", "(z)", "x\\d"]
PLAIN_ARGS = ["a", "b", "ab", "field", "A", "arg1"]


@__import__("functools").cache
def text():
    piece = st.one_of(st.sampled_from(["search x=1", " | ", " ", "index=main ", "eval y=", "foo", " by ", "\\1", "\\", "\\g<0>", "$5 ", "é日", "'", '"', "a", "\n", "\t", "{}", "%s", "(", ")", ",", "="]),
                      st.text(st.characters(codec="utf-8", exclude_characters="`$"), max_size=5))
    return piece.map(lambda t: ["t", t])


POOL = ["1", "-5", "x", "f(x, y)", "a + b", '"q"', "(a . b)", "coalesce(a, null())", "x*", "10.0.0.1", '"a,b"', '")"', "5m", "min(1, max(2,3))"]


def value(dollars=True):
    tricky = st.sampled_from(['"\\\\1"', '"\\\\g<0>"', '"$a$"', '"$b$ $ab$"', '"a\\\\d+(x)"', '"`"'.replace("`", "'"), '"$"', '"|"', '" x "', '"日本"', '"{0}%s"', '"^.*$"'])
    if not dollars:
        return st.one_of(st.sampled_from(POOL), VALUE.filter(lambda v: "$" not in v))
    return st.one_of(st.sampled_from(POOL), VALUE, tricky, tricky)


VALUE = c19.value().filter(lambda v: "`" not in v)      # a back-quote in a value would start a call in the result


DEF_VALUES, TOP_VALUES = value(False), value()


@st.composite
def call(draw, macros, inner_args=(), inside=False):
    """A call of one of the macros, with the values it is given (which may be the caller's own arguments)."""
    i = draw(st.integers(0, len(macros) - 1))
    m = macros[i]
    vals = [draw(st.one_of((DEF_VALUES if inside else TOP_VALUES).map(lambda v: ["t", v]), *([st.sampled_from(list(inner_args)).map(lambda a: ["arg", a])] if inner_args else []))) for _ in m["args"]]
    named = bool(m["args"]) and all(a in PLAIN_ARGS for a in m["args"]) and draw(st.booleans())
    order = draw(st.permutations(list(range(len(vals))))) if named else list(range(len(vals)))
    return ["call", m["name"], [[m["args"][k] if named else None, vals[k]] for k in order], draw(st.sampled_from(["", "", " ", "\n"])),
            bool(m["args"]) or draw(st.booleans())]


@st.composite
def world(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(NAMES))[:n]
    macros = []
    for k in range(n):
        args = draw(st.lists(st.sampled_from(ARGS), max_size=3, unique=True))
        parts = []
        for _ in range(draw(st.integers(0, 5))):
            kind = draw(st.sampled_from(["t", "t", "arg", "arg", "call"]))
            if kind == "arg" and args:
                parts.append(["arg", draw(st.sampled_from(args))])
            elif kind == "call" and macros:
                parts.append(draw(call(macros, [a for a in args if a in PLAIN_ARGS], True)))
            else:
                parts.append(draw(text()))
        macros.append({"name": names[k], "args": args, "parts": parts})
    query = [draw(st.one_of(text(), call(macros), call(macros))) for _ in range(draw(st.sampled_from([2, 1, 3, 4, 5, 0])))]
    return {"macros": macros, "q": query, "dict": draw(st.booleans())}


def spell(parts):
    out = ""
    for p in parts:
        if p[0] == "t":
            out += p[1]
        elif p[0] == "arg":
            out += f"${p[1]}$"
        else:
            _, name, args, sp, paren = p
            out += f"`{sp}{name}"
            if paren:
                out += "(" + (sp + ",").join((f"{n}=" if n else "") + spell([v]) for n, v in args) + ")"
            out += sp + "`"
    return out


def expand(parts, macros, env):
    out = ""
    for p in parts:
        if p[0] == "t":
            out += p[1]
        elif p[0] == "arg":
            out += env[p[1]]
        else:
            m = macros[p[1]]
            vals = [(n, expand([v], macros, env)) for n, v in p[2]]
            e = dict(vals) if vals and vals[0][0] else dict(zip(m["args"], [v for _, v in vals]))
            out += expand(m["parts"], macros, e)
    return out


def trimmed(t):
    while True:
        u = t.rstrip().rstrip("|").strip()
        if u == t:
            return t
        t = u


def loader(macros, as_dict):
    from spl_transpiler.macros import MacroDefinition
    d = {m["name"]: {"arguments": m["args"], "definition": spell(m["parts"])} for m in macros}
    return d if as_dict else {k: MacroDefinition(**v) for k, v in d.items()}


def calls_in(parts):
    return sum(1 for p in parts if p[0] == "call")


def check_expand(case):
    from spl_transpiler.macros import substitute_macros
    macros = {m["name"]: m for m in case["macros"]}
    q = spell(case["q"])
    exp = trimmed(expand(case["q"], macros, {}))
    try:
        got = substitute_macros(q, loader(case["macros"], case["dict"]))
    except Exception as e:
        raise Violation(f"substituting in {q!r} raises {type(e).__name__}: {e}", query=q, macros=loader(case["macros"], True))
    if got != exp:
        raise Violation(f"{q!r} became {got!r} instead of {exp!r}", query=q, macros=loader(case["macros"], True))
    n = calls_in(case["q"])
    nested = any(calls_in(m["parts"]) for m in case["macros"])
    return {"nontrivial": n > 0, "labels": [f"calls={n}", "nested" if nested else "flat"], "sample": q}


# ---------------------------------------------------------------- errors

@st.composite
def bad_world(draw):
    k = draw(st.sampled_from(["unknown", "few", "many", "mixed", "names", "cycle", "self", "twice"]))
    args = draw(st.lists(st.sampled_from(PLAIN_ARGS), min_size=2, max_size=3, unique=True))
    return {"kind": k, "args": args, "vals": draw(st.lists(c19.value(), min_size=4, max_size=4)), "deep": draw(st.booleans()), "pre": draw(text()), "i": draw(st.integers(0, 2)),
            "dict": draw(st.booleans()), "after": draw(st.booleans())}


def bad_call(case):
    a, v, k = case["args"], case["vals"], case["kind"]
    n = len(a)
    if k == "unknown":
        return "`nope`"
    if k == "few":
        return f"`m({', '.join(v[:n - 1])})`"
    if k == "many":
        return f"`m({', '.join((v * 2)[:n + 1])})`"
    if k == "mixed":
        i = case["i"] % n
        return "`m(" + ", ".join((f"{a[j]}={v[j]}" if j == i else v[j]) for j in range(n)) + ")`"
    if k == "names":
        i = case["i"] % n
        return "`m(" + ", ".join(("other" if j == i else a[j]) + f"={v[j]}" for j in range(n)) + ")`"
    if k == "twice":
        return "`m(" + ", ".join(f"{a[0]}={v[j]}" for j in range(n)) + ")`"
    return "`c1`" if k == "cycle" else "`s`"


def check_bad(case):
    from spl_transpiler.macros import MacroDefinition, substitute_macros
    t = bad_call(case)
    d = {"m": (case["args"], " ".join(f"${a}$" for a in case["args"])), "c1": ([], "x `c2`"), "c2": ([], "`c1` y"), "s": ([], "| `s`"), "outer": ([], "z " + t), "ok": ([], "x=1")}
    macros = {k: ({"arguments": a, "definition": x} if case["dict"] else MacroDefinition(arguments=a, definition=x)) for k, (a, x) in d.items()}
    q = case["pre"][1] + ("`outer`" if case["deep"] else t) + (" `ok`" if case["after"] else "")
    try:
        got = substitute_macros(q, macros)
    except RecursionError as e:
        raise Violation(f"{q!r}: endless recursion: {e}", query=q)
    except (ValueError, KeyError):
        return {"nontrivial": True, "labels": [case["kind"]], "sample": q}
    raise Violation(f"{q!r} ({case['kind']}) is accepted and became {got!r}", query=q, macros={k: str(v) for k, v in macros.items()})


# ---------------------------------------------------------------- parsing with macros

@st.composite
def parse_world(draw):
    import cmds
    p = draw(cmds.pipelines(1, 4, False))
    return {"p": p, "cut": draw(st.integers(0, 3)), "arg": draw(st.booleans()), "y": draw(__import__("spl").styles()), "tail": draw(st.sampled_from(["", " ", " |", "|\n", " | "]))}


def check_parse(case):
    """A whole command (or its text through an argument) taken out into a macro: same tree as without."""
    import cmds
    import spl
    import spl_transpiler as s
    sty = spl.Style(case["y"])
    cs = [cmds.render_command(c, sty) for c in case["p"]]
    full = " | ".join(cs)
    k = case["cut"] % len(cs)
    macros = {"m": {"definition": cs[k].strip()}}
    if case["arg"]:
        macros = {"m": {"arguments": ["q"], "definition": "where zz=$q$ | " + cs[k].strip() if k else "search zz=1 $q$"}}
        call = '`m(5)`'
        parts = cs[:k] + [call] + cs[k + 1:]
        want = " | ".join(cs[:k] + [macros["m"]["definition"].replace("$q$", "5")] + cs[k + 1:])
    else:
        parts = cs[:k] + ["`m`"] + cs[k + 1:]
        want = full
    q = " | ".join(parts) + case["tail"]
    if any("`" in c for c in cs):
        return None
    try:
        a = s.parse(want)
    except ValueError:
        return None
    try:
        b = s.macros.parse_with_macros(q, macros)
    except Exception as e:
        raise Violation(f"parse_with_macros({q!r}) raises {type(e).__name__}: {e}", query=q, macros=macros)
    if a != b or repr(a) != repr(b):
        raise Violation(f"parse_with_macros({q!r}) differs from parse({want!r})", query=q, macros=macros)
    return {"nontrivial": True, "labels": [f"cut={k}", "arg" if case["arg"] else "plain"], "sample": q}


SUBS = [
    Sub("expand", check_expand, world, quick=6000, rule="1-4 macros with nested calls, arguments passed on, tricky values and texts; against a structural expansion; non-trivial: at least one call"),
    Sub("errors", check_bad, bad_world, quick=2000, rule="unknown macro, wrong count, mixed or wrong names, cycles; direct or inside a definition, with other text around"),
    Sub("parse", check_parse, parse_world, quick=2000, rule="a command of a generated pipeline moved into a macro: the same tree as the substituted text"),
]
