"""C10 spelling variants of a query mean the same."""
import re

import cmds
import evalplan
import fakespark
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st


def variants():
    return st.fixed_dictionaries({"p": cmds.pipelines(1, 4, True), "y": st.lists(st.integers(0, 5), min_size=4, max_size=60), "pipe": st.booleans(), "pad": st.booleans()})


def both(q1, q2, rt):
    import spl_transpiler as s
    try:
        a = s.parse(q1)
    except ValueError as e:
        raise Violation(f"plain spelling {q1!r} refused: {e}")
    try:
        b = s.parse(q2)
    except ValueError as e:
        raise Violation(f"{q1!r} is accepted but its respelling {q2!r} is refused: {str(e)[:200]}", query=q2)
    ca, cb = (s.render_pyspark(x, allow_runtime=rt, format_code=False) for x in (a, b))
    if ca != cb:
        # `a AND b AND c` and `a AND b c` nest differently; only the meaning counts
        evalplan.expect_plan(fakespark.run_lenient(ca, rt), fakespark.run_lenient(cb, rt), f"{q1!r} and its respelling {q2!r} have different programs", query=q2, plain=ca, other=cb)


def check_variant(case):
    p = case["p"]
    q1 = cmds.render_pipeline(p)
    q2 = cmds.render_pipeline(p, spl.Style(case["y"]))
    if case["pad"]:
        q2 = " \n " + q2 + "  \n"
    if case["pipe"] and not p[0].get("implied"):
        q2 = "| " + q2
    try:
        both(q1, q2, False)
    except RuntimeError as e:
        raise Violation(f"{q1!r} / {q2!r} not translated: {e}")
    return {"nontrivial": q1 != q2, "labels": sorted(set(cmds.kinds_in(p))), "sample": [q1, q2]}


# ---- one respelling at a time: letter case of every keyword, anywhere

KEYWORD_CASES = [
    "search a=1 AND b=2 OR NOT c=3", "search a IN (1, 2) AND NOT (b=2)", "where a IN (1, 2) OR NOT b=2", "eval x=if(a=1 AND b=2, 1, 2)", "stats count AS n by a, b", "stats max(a) AS m dc(b) by c span=5m",
    "rename a AS b, c AS d", "lookup t a AS b OUTPUT c AS d", "table a b", "fields - a, b", "fields + a", "sort 5 -a, +b", "head count<5", "top 5 a", "rare 5 a b", "bin span=5m a AS b", "bin span=3Hours a",
    "join type=left a [search index=x]", "multisearch [search index=a] [search index=b]", "makeresults count=3 annotate=t", "fillnull value=0 a", "rex field=a \"(?<b>x)\"",
    "regex a=\"x\"", "regex a!=\"x\"", "spath input=a output=b path=c", "convert timeformat=\"%Y\" ctime(a) AS b", "addtotals fieldname=tt a b", "datamodel summariesonly=t M M.N flat",
    "tstats summariesonly=t count AS n from datamodel=M where a=1 by b", "dedup 3 keepevents=t a sortby -b", "eventstats max(a) AS b by c", "streamstats current=f window=3 sum(a) AS b by c", "mvcombine delim=\",\" a",
    "mvexpand a limit=3", "inputlookup append=t t where a=1", "return 3 a", "format maxresults=3", "tail 3", "collect index=x a b", "map search=\"search x=1\" maxsearches=3",
    "where a=1 | head 3", "eval x=a . b", "search index=main foo | stats count",
]
KEYWORD_CASES = [q if q.split()[0] in ("search", "makeresults", "multisearch", "tstats", "datamodel", "inputlookup") else "search z=9 | " + q for q in KEYWORD_CASES]
# only words of the SPL language (command names, clause words, operators, option names); values keep their case
WORDS = set("""search where eval stats by as and or not in rename lookup output table fields sort head top rare bin join multisearch makeresults fillnull rex regex spath
convert addtotals datamodel tstats from dedup sortby eventstats streamstats mvcombine mvexpand inputlookup return format tail collect map hours hour d m s""".split()) - {"hours", "hour", "d", "m", "s"}


def cases_kw():
    return st.fixed_dictionaries({"i": st.integers(0, len(KEYWORD_CASES) - 1), "mask": st.integers(0, 2 ** 60), "gaps": st.lists(st.sampled_from([" ", "  ", "\n", "\t ", "\r\n"]), max_size=30)})


def check_kw(case):
    import spl_transpiler as s
    q = KEYWORD_CASES[case["i"]]
    out, mask, gi = "", case["mask"], 0
    quoted = False
    for tok in re.findall(r'"[^"]*"|[A-Za-z_]+(?![A-Za-z_(.=])|[A-Za-z_]+|\s+|.', q):
        if tok.lower() in WORDS and not tok.startswith('"'):
            new = ""
            for c in tok:
                new += c.swapcase() if mask & 1 else c
                mask >>= 1
            out += new
        elif tok.isspace() and gi < len(case["gaps"]):
            out += case["gaps"][gi]
            gi += 1
        else:
            out += tok
    try:
        a = s.parse(q)
    except ValueError as e:
        raise Violation(f"{q!r} refused: {e}")
    try:
        b = s.parse(out)
    except ValueError as e:
        raise Violation(f"{q!r} is accepted but {out!r} is refused: {str(e)[:200]}", query=out)
    if a != b and re.sub(r'kv: "\w+"', lambda m: m[0].lower(), repr(a)) != re.sub(r'kv: "\w+"', lambda m: m[0].lower(), repr(b)):
        raise Violation(f"{q!r} and {out!r} have different trees: {a!r} / {b!r}"[:900], query=out)
    return {"nontrivial": out != q, "labels": [q.split("| ")[-1].split()[0]], "sample": [q, out]}


SUBS = [
    Sub("styles", check_variant, variants, quick=5000, rule="a generated pipeline in its plainest spelling and in a random respelling (keyword case, blanks, commas, quotes, parentheses, option order, leading pipe); non-trivial when the texts differ"),
    Sub("keywords", check_kw, cases_kw, quick=4000, rule="letter case of every command name, clause word and operator, and every gap between words, of %d queries covering all commands; non-trivial when the texts differ" % len(KEYWORD_CASES)),
]
