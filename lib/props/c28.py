"""C28 a notebook cell runs the program it shows, and nothing else (real IPython, real Spark)."""
import ast
import re

import corpus
import sparkrun
from core import Sub, Violation
from hypothesis import strategies as st

from props import c23

# ---------------------------------------------------------------- whole notebooks

_S = {}


def shell():
    if "ip" not in _S:
        import os
        os.environ["IPYTHONDIR"] = os.path.join(os.getcwd(), "ipython")
        os.environ["JUPYTER_COLUMNS"] = os.environ["COLUMNS"] = "60000"
        from IPython.core.interactiveshell import InteractiveShell
        from traitlets.config import Config
        cfg = Config()
        cfg.HistoryManager.enabled = False
        ip = InteractiveShell.instance(config=cfg)
        from spl_transpiler.runtime import magic
        magic.load_ipython_extension(ip)
        sparkrun.session()
        _S["ip"] = ip
    return _S["ip"]


SHADOW = ["F", "spark", "commands", "functions", "df", "df_1", "df_2", "result", "x", "lit", "pyspark_code", "code", "a", "exprs"]
BROKEN = ["search index=", "eval x=", "| nosuchcommand 3", "stats", "dedup a", "| eventstats count", "eval x=nosuch(a)", "eval x=mvjoin(a, \",\")", "search index=nosuchtable", "table nosuchcolumn",
          "eval x=nosuchcolumn+1", "stats max(nosuchcolumn)", "| search index=main a=1 | transaction a"]
LAMBDAS = ["search index=main | where mvcount(mvzip(split(u, \",\"), split(u, \",\"))) > 1", "eval x.y=mvzip(split(u, \",\"), split(s, \",\"), \"+\")", "eval a=mvzip(split(u, \"a\"), split(u, \"b\")) | head 3",
           "search index=lol | eval z=mvindex(mvzip(split(u, \" \"), split(u, \" \"), \"F\"), 0) | table z, id", "multisearch [search index=main | eval x=mvzip(split(u, \",\"), split(u, \",\"))] [search index=lol]"]
OPTIONS = {"rt": ["", "--use-runtime", "--no-use-runtime"], "dry": ["", "--dry-run", "--no-dry-run"], "fmt": ["", "--format-code", "--no-format-code"], "print": ["", "--print-code", "--no-print-code"]}


@st.composite
def notebook(draw):
    cells = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            q = c23.text(draw(c23.cases())["cmds"])
        elif k <= 7:
            q = draw(st.sampled_from(LAMBDAS))
        elif k == 8:
            q = draw(st.sampled_from(BROKEN))
        else:
            q = draw(corpus.queries())
        cells.append({"q": q, "set": draw(st.lists(st.sampled_from(SHADOW), max_size=3, unique=True)), "var": draw(st.sampled_from([None, None, "df", "result", "x", "F", "df_1", "_r"])),
                      "order": draw(st.permutations([0, 1, 2, 3, 4])), "pad": draw(st.sampled_from(["", "\n", "\n\n"])), **{o: draw(st.sampled_from([0, 0, 1, 2, 2] if o == "rt" else [0, 0, 0, 1, 2, 2] if o != "dry" else [0, 0, 0, 0, 1, 2])) for o in OPTIONS}})
    return {"cells": cells, "main": draw(c23.table(4)), "lol": draw(c23.table(3))}


def plan(df):
    """What a dataframe is: its columns and its (analyzed) plan, without the numbers Spark gives to expressions."""
    text = df._jdf.queryExecution().analyzed().toString()
    ids = {}
    return [str(df.schema.simpleString()), re.sub(r"([#_])(\d+)", lambda m: f"{m.group(1)}{ids.setdefault(m.group(0), len(ids))}", re.sub(r"rand\(-?\d+\)|@[0-9a-f]{4,}|plan_id=\d+", "", text))]


def value_of(v):
    from pyspark.sql import DataFrame
    return plan(v) if isinstance(v, DataFrame) else ["other", repr(v)]


def alone(code):
    """The program by itself, in an empty namespace."""
    from pyspark.sql import functions as F
    from spl_transpiler.runtime import commands, functions
    env = {"spark": sparkrun.session(), "F": F, "commands": commands, "functions": functions}
    tree = ast.parse(code)
    last = ast.Expression(tree.body.pop().value)
    exec(compile(tree, "<program>", "exec"), env)
    return eval(compile(last, "<program>", "eval"), env)


def shown(captured):
    text = "".join(o.data.get("text/plain", "") for o in captured.outputs) + captured.stdout
    text = re.sub(r"\x1b\[[0-9;]*m", "", text)
    return "\n".join(line.rstrip() for line in text.splitlines()).strip()


def user_names(ip):
    return {k: v for k, v in ip.user_ns.items() if not (k.startswith("_") and k != "_r") and k not in ("In", "Out", "exit", "quit", "get_ipython", "open")}


def check_notebook(case):
    from IPython.utils.capture import capture_output
    import spl_transpiler as s
    ip = shell()
    sparkrun.ansi(False)
    for t in ("main", "lol"):
        rows = [r[:-1] + [c23.when(r[-1])] for r in case[t]]
        sparkrun.table(t, rows, c23.SCHEMA)
    sparkrun.table("lk", c23.LOOKUP, "k string, v bigint")
    for k in user_names(ip):
        del ip.user_ns[k]
    labels, ran, shadowed = [], 0, False
    for n, c in enumerate(case["cells"]):
        for k in c["set"]:
            ip.user_ns[k] = ("the user's own", k, n)
        rt, dry, fmt, show = c["rt"] != 2, c["dry"] == 1, c["fmt"] != 2, c["print"] != 2
        words = [OPTIONS[o][c[o]] for o in OPTIONS] + ([f"--var-name {c['var']}"] if c["var"] else [])
        line = " ".join(w for w in [(words + [""])[i] for i in c["order"]] if w)
        cell = c["pad"] + c["q"] + c["pad"]
        before, var = user_names(ip), c["var"] or "df"
        try:
            code = s.convert_spl_to_pyspark(cell, allow_runtime=rt, format_code=fmt)
        except (ValueError, RuntimeError):
            code = None
        want = None
        if code is not None and not dry:
            try:
                want = value_of(alone(code))
            except Exception as e:
                want = e
        err = None
        with capture_output() as out:
            try:
                ip.run_cell_magic("spl", line, cell)
            except Exception as e:
                err = e
        after = user_names(ip)
        what = f"%%spl {line}\\n{cell!r}"
        info = {"cell": cell, "line": line, "code": code}
        failing = code is None or isinstance(want, Exception)
        if failing and err is None:
            raise Violation(f"{what}: no error, although {'it cannot be transpiled' if code is None else f'the program fails: {want}'}", **info)
        if not failing and err is not None:
            raise Violation(f"{what}: {type(err).__name__}: {err} / {err.__cause__!r}"[:600], **info)
        binds = not failing and not dry
        for k in sorted(set(before) | set(after)):
            if binds and k == var:
                continue
            if before.get(k) is not after.get(k):
                raise Violation(f"{what}: changed the user's {k!r} from {before.get(k)!r} to {after.get(k)!r}"[:600], **info)
        if binds:
            if var not in after:
                raise Violation(f"{what}: did not set {var}", **info)
            got = value_of(after[var])
            if got != want:
                raise Violation(f"{what}: {var} is not what the program computes: {got} instead of {want}"[:1500], **info)
            ran += 1
            shadowed |= bool(c["set"])
        if code is not None:
            text = shown(out)
            expect = "\n".join(x.rstrip() for x in code.splitlines()).strip() if show else ""
            if text != expect and not re.search(r"[^\x20-\x7e\n]", code):
                raise Violation(f"{what}: shows {text!r} instead of {expect!r}"[:1500], **info)
        elif shown(out):
            raise Violation(f"{what}: shows {shown(out)!r} for a query it cannot transpile"[:600], **info)
        labels.append("refused" if code is None else "dry" if dry else "failed" if failing else "ran (runtime)" if rt else "ran")
    return {"nontrivial": ran > 0 and (shadowed or len(case["cells"]) > 1), "labels": labels, "sample": [[c["q"], c["set"], c["var"]] for c in case["cells"]]}


# ---------------------------------------------------------------- running a program and returning its last value

NAMES = ["a", "b", "c", "d"]


@st.composite
def num(draw, depth):
    """An integer expression over names and the functions given to the program."""
    k = draw(st.integers(0, 8 if depth > 0 else 1))
    if k == 0:
        return ["n", draw(st.integers(0, 9))]
    if k == 1:
        return ["v", draw(st.sampled_from(NAMES + ["given", "user"]))]
    if k == 2:
        return ["+", draw(num(depth - 1)), draw(num(depth - 1))]
    if k == 3:
        return ["lambda", draw(num(depth - 1)), draw(num(depth - 1))]     # (lambda q: <0> + q)(<1>)
    if k == 4:
        return ["comp", draw(num(depth - 1)), draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))]
    if k == 5:
        return ["tick"]
    if k == 6:
        return ["twice", draw(num(depth - 1))]
    return ["*", draw(num(depth - 1)), ["n", draw(st.integers(0, 3))]]


@st.composite
def programs(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 6))
        e = draw(num(3))
        n = draw(st.sampled_from(NAMES))
        out.append([["set", n, e], ["expr", e], ["aug", n, e], ["ann", n, e], ["two", n, draw(st.sampled_from(NAMES)), e], ["pair", e, draw(num(2))], ["def", n, e]][k])
    return {"program": out, "user": draw(st.integers(0, 9)), "given": draw(st.integers(0, 9)), "clash": draw(st.booleans()), "layout": draw(st.booleans())}


def spell(e):
    k = e[0]
    if k == "n":
        return str(e[1])
    if k == "v":
        return e[1]
    if k in "+*":
        return f"({spell(e[1])} {k} {spell(e[2])})"
    if k == "lambda":
        return f"(lambda q: {spell(e[1])} + q)({spell(e[2])})"
    if k == "comp":
        return f"sum([{spell(e[1])} + i for i in {e[2]}])"
    if k == "tick":
        return "tick()"
    return f"twice({spell(e[1])})"


class Model:
    def __init__(self, case):
        self.v = {**{n: i + 1 for i, n in enumerate(NAMES)}, "user": case["user"], "given": case["given"]}
        self.ticks = 0

    def of(self, e):
        k = e[0]
        if k == "n":
            return e[1]
        if k == "v":
            return self.v[e[1]]
        if k == "+":
            return self.of(e[1]) + self.of(e[2])
        if k == "*":
            return self.of(e[1]) * self.of(e[2])
        if k == "lambda":
            x = self.of(e[2])
            return self.of(e[1]) + x
        if k == "comp":
            return sum(self.of(e[1]) + i for i in e[2])
        if k == "tick":
            self.ticks += 1
            return self.ticks
        return 2 * self.of(e[1])


def check_program(case):
    from spl_transpiler.runtime.utils import exec_with_return
    m, lines, last = Model(case), [], None
    for s in case["program"]:
        k = s[0]
        if k == "set":
            lines.append(f"{s[1]} = {spell(s[2])}")
            last = m.v[s[1]] = m.of(s[2])
        elif k == "expr":
            lines.append(spell(s[1]))
            last = m.of(s[1])
        elif k == "aug":
            lines.append(f"{s[1]} += {spell(s[2])}")
            old = m.v[s[1]]
            last = m.v[s[1]] = old + m.of(s[2])
        elif k == "ann":
            lines.append(f"{s[1]}: int = {spell(s[2])}")
            last = m.v[s[1]] = m.of(s[2])
        elif k == "two":
            lines.append(f"{s[1]} = {s[2]} = {spell(s[3])}")
            last = m.v[s[1]] = m.v[s[2]] = m.of(s[3])
        elif k == "pair":
            lines.append(f"({spell(s[1])}, {spell(s[2])})")
            last = (m.of(s[1]), m.of(s[2]))
        else:
            lines.append(f"def f(q):\n    return q + {s[1]}")
            lines.append(f"{s[1]} = f({spell(s[2])})")
            x = m.of(s[2])
            last = m.v[s[1]] = x + m.v[s[1]]
    code = ("\n\n# next\n" if case["layout"] else "\n").join(lines)
    count = [0]

    def tick():
        count[0] += 1
        return count[0]
    globs = {"user": case["user"], **{n: i + 1 for i, n in enumerate(NAMES)}}
    if case["clash"]:
        globs.update(given="not this one", tick=None)
    saved = dict(globs)
    try:
        got = exec_with_return(code, globs, {"given": case["given"], "tick": tick, "twice": lambda x: 2 * x})
    except Exception as e:
        raise Violation(f"{code!r}: {type(e).__name__}: {e}", code=code)
    if type(got) is not type(last) or got != last or count[0] != m.ticks:
        raise Violation(f"{code!r}: gives {got!r} with {count[0]} calls instead of {last!r} with {m.ticks}", code=code)
    if any(globs.get(k) != v for k, v in saved.items()):
        raise Violation(f"{code!r}: changed the names it was given to {globs}", code=code)
    return {"nontrivial": len(lines) > 1, "labels": sorted({s[0] for s in case["program"]}), "sample": code}


SUBS = [
    Sub("programs", check_program, programs, quick=6000, rule="at least two statements"),
    Sub("notebooks", check_notebook, notebook, quick=240, thorough=6000, rule="a cell bound its result, in a namespace with the user's own names or after other cells"),
]
