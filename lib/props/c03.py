"""C03 formatting changes layout only."""
import ast

import cmds
import corpus
import spl
from core import Sub, Violation
from hypothesis import strategies as st


def outcome(q, rt, fmt):
    import spl_transpiler as s
    try:
        return "code", s.convert_spl_to_pyspark(q, allow_runtime=rt, format_code=fmt)
    except (ValueError, RuntimeError) as e:
        return type(e).__name__, str(e).split("Stack backtrace")[0]


def compare(q, rt):
    a, b = outcome(q, rt, False), outcome(q, rt, True)
    if a[0] != b[0]:
        raise Violation(f"{q!r}: {a[0]} without formatting, {b[0]} with", query=q, plain=a[1], formatted=b[1], runtime=rt)
    if a[0] != "code":
        if a[1] != b[1]:
            raise Violation(f"{q!r}: other errors with and without formatting", query=q, plain=a[1], formatted=b[1])
        return a[0], False
    if a[1] == b[1]:
        return "same text", False
    try:
        x = ast.parse(a[1])
    except (SyntaxError, ValueError, MemoryError, RecursionError):
        # Python itself cannot read the program (nested too deep for it, say): formatting leaves it as it is
        raise Violation(f"{q!r}: formatting changed a program that is not valid Python", query=q, plain=a[1], formatted=b[1])
    try:
        y = ast.parse(b[1])
    except (SyntaxError, ValueError) as e:
        raise Violation(f"{q!r}: the formatted program is not valid Python: {e}", query=q, formatted=b[1], plain=a[1])
    dx, dy = ast.dump(x), ast.dump(y)
    if dx != dy:
        i = next((i for i, (c, d) in enumerate(zip(dx, dy)) if c != d), min(len(dx), len(dy)))
        raise Violation(f"{q!r}: formatting changed the program: ...{dx[max(0, i - 60):i + 60]}... became ...{dy[max(0, i - 60):i + 60]}...", query=q, plain=a[1], formatted=b[1])
    return "formatted", True


def check(case):
    labels, changed = [], False
    for rt in (False, True):
        lb, c = compare(case["q"], rt)
        labels.append(("runtime " if rt else "") + lb)
        changed |= c
    return {"nontrivial": changed, "labels": labels, "sample": case["q"]}


def of(s):
    return s.map(lambda q: {"q": q})


def pipelines():
    return of(corpus.queries())


def mutants():
    return of(corpus.mutated())


# ---- literals and names a formatter might touch

AWKWARD = st.lists(st.sampled_from(["'", '"', '"""', "'''", "\\", "\n", "\r", "\t", "\0", "{", "}", "%", "#", "# fmt: off", "# fmt: skip", "\\N{DASH}", "\\x41", "\\u0041", "é", "日本", "\u2028", "\u0301", "\U0001f600", "a", "B", "0XFF", "1E5", "u'", "r\"", "b'", "f\"{x}\"", " ", ";", ",)", "lambda"]),
                   min_size=1, max_size=8).map("".join)


def literals():
    return st.fixed_dictionaries({"v": st.lists(AWKWARD.filter(lambda v: not spl.SNAPLIKE.match(v) and "*" not in v), min_size=1, max_size=6), "k": st.integers(0, 5), "n": st.lists(spl.names(True), min_size=1, max_size=3)})


def check_literals(case):
    vs = [spl.esc_double(v) for v in case["v"]]
    f = spl.spell_field(case["n"][0])
    q = [f"search {f}={vs[0]} " + " ".join(f"OR b={v}" for v in vs[1:]), "eval " + ", ".join(f"x{i}={v}" for i, v in enumerate(vs)), f"where {f} IN (" + ", ".join(vs) + ")",
         "eval x=replace(a, " + vs[0] + ", " + vs[-1] + ")", f"fillnull value={vs[0]} a, b", "stats " + ", ".join(f"count as {v}" for v in vs)][case["k"]]
    return dict(check({"q": q}), labels=[str(case["k"])])


# ---- long programs

def longs():
    return st.fixed_dictionaries({"k": st.integers(0, 4), "n": st.one_of(st.integers(1, 12), st.integers(10, 90)), "w": st.sampled_from(["x", "abc", "a long piece of text that does not fit on one line together with other things, é", "'", '"'])})


def check_long(case):
    n, w = case["n"], spl.esc_double(case["w"])
    q = ["search " + " OR ".join(f"f{i}={w}" for i in range(n)), "eval x=" + " . ".join(["a", w] * n), "| makeresults " + " | ".join([""] + [f"eval a{i}={w}" for i in range(n)]), "eval x=" + "if(a=1, b, " * min(n, 25) + w + ")" * min(n, 25),
         "stats " + ", ".join(f"sum(f{i}) as n{i}" for i in range(n)) + " by " + ", ".join(f"g{i}" for i in range(n))][case["k"]]
    return check({"q": q})


SUBS = [
    Sub("pipelines", check, pipelines, quick=4000, rule="generated pipelines, both modes, formatted and not: the same Python syntax tree; non-trivial: formatting changed the text"),
    Sub("mutants", check, mutants, quick=3000, rule="mutated query texts: the same error, or the same syntax tree"),
    Sub("literals", check_literals, literals, quick=2400, rule="strings, names and aliases made of quotes, backslashes, line breaks, comments, prefixes and non-ASCII text"),
    Sub("long", check_long, longs, quick=480, rule="long and nested programs that have to be broken over lines"),
]
