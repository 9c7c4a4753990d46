"""C27 what cannot be translated is refused, never dropped."""
import cmds
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

from props import c14, c15

W = st.sampled_from(["a", "b", "cx", "host_1", "_time"])
NUM = st.integers(2, 50)

# ---------------------------------------------------------------- commands and options
# text with {f} {g} field, {n} number; "lead": only makes sense as the first command
CMDS = [
    "dedup {f}", "dedup {n} {f} {g}", "dedup keepevents=t {f}", "dedup {f} sortby -{g}", 'map search="search index=main x=$' + '{f}$"', "map [search {f}={n}]", "return {f}", "return {n} {f} {g}", "return ${f}", "format", 'format "(" "(" "AND" ")" "OR" ")"',
    "collect index=main", "mvcombine {f}", 'mvcombine delim="," {f}', "mvexpand {f}", "mvexpand {f} limit={n}", "eventstats count by {f}", "eventstats avg({f}) as {g}", "streamstats count", "streamstats window={n} sum({f})",
    "join max=0 {f} [search b=1]", "join max={n} {f} [search b=1]", "join type=full {f} [search b=1]",
    "top {f} by {g}", "top {n} {f} by {g}", "top useother=t {f}", "rare {f} by {g}", "rare useother=true {f}",
    "bin {f}", "bin bins={n} {f}", "bin minspan=1h span=1h {f}", "bin span=1h start={n} {f}", "bin span=1h end={n} {f}", 'bin span=1h aligntime="earliest" {f}',
    "addtotals", "addtotals row=f {f}", "addtotals col=t {f} {g}", "addtotals row=false col=true {f}",
    'rex "a+"', 'rex field={f} "^(a)(?:b)$"', 'rex max_match={n} "(?<x>a)"', 'rex max_match=0 "(?<x>a)"', 'rex offset_field={g} "(?<x>a)"', 'rex mode=sed "s/a/b/g"', 'rex field={f} mode=sed "s/a/b/"',
    "head {f}<{n}", "head (count>{n})", "head count>={n}", "head count={n}", "head count!={n}",
    "sort auto({f})", "sort -num({f})", "sort {n} {g}, +str({f})", "sort ip({f})", "sort foo({f})", "rename {f}* as x", 'rename {f} as {g}, b* as "c*"', "fields - {f}*", "fields - {g} {f}*",
    "lookup t {f} OUTPUTNEW {g}", "lookup t {f} as {g} OUTPUTNEW b as c", "datamodel", "datamodel M D", "datamodel M D flat", "inputlookup t", "inputlookup append=t t", "inputlookup t where {f}={n}",
    "convert auto({f})", "convert dur2sec({f})", "convert ctime({f}) mktime({g})", "convert mstime({f})", "convert none({f}) rmunit({g})", "convert num({f}) as {g}", 'convert timeformat="%U" ctime({f})',
    "tail", "abstract", "accum {f}", "chart count", "timechart count by {f}", "transaction {f}", "outputlookup t", "append [search {f}=1]", "appendcols [search a=1]", "appendpipe [stats count]", "foreach {f} [eval a=1]", "union [search a=1]",
    "xyseries {f} {g} b", "untable {f} {g} b", "nomv {f}", "makemv {f}", "strcat {f} {g} x", "replace a with b in {f}", "erex {f}", "kv", "extract", "sendemail to=a", "foo bar", "foo {f}={n}", "stat count", "stats", "where", "rename", "table", "search_",
    "makeresults", "makeresults count={n}", "multisearch [search a=1] [search b=1]", "datamodel M D search", "tstats count from datamodel=M", "tstats count from datamodel=M.D by {f}",
    "stats count, sum({f}*)", "where {f}*=3",
]
LEADS = ["tstats prestats=t count from datamodel=M", "tstats append=t count from datamodel=M", "tstats prestats=true append=true avg({f}) from datamodel=M.D by {g}", "tstats include_reduced_buckets=t count from datamodel=M",
         "tstats local=t count from datamodel=M", "tstats count from datamodel=M by PREFIX({f})", "tstats count by {f}", "tstats count where {f}={n}", "inputlookup t", "inputlookup t where {f}={n}", "datamodel", "datamodel M", "datamodel M D", "datamodel M D flat",
         "datamodel M D acceleration_search", "search index=a OR {f}={n}", "search NOT index=a {f}={n}", "search index!=a", "search {f}={n} (index=a OR {g}=1)", "search {f}<b*", "search {f}>=a*c", "from datamodel:M", "inputcsv t", "rest /services",
         "metadata type=hosts", "mstats avg({f})", "loadjob {n}", "union a, b", "gentimes start=1", "dbinspect", "eval", "convert", "rare limit=3", "stats", "foo {f}", "multisearch", "multisearch [search a=1]"]


def fill(t, case):
    return t.replace("{f}", case["f"]).replace("{g}", case["g"]).replace("{n}", str(case["n"]))


NESTS = ["{}", "search z=9 | join k [{}]", "| multisearch [search z=8] [{}]", "| multisearch [{}] [search z=8]", "search z=9 | join k [search y=8 | join type=left m, n [{}] | head 3] | head 4"]
RUN_NEST = st.sampled_from([0, 0, 0, 1, 2, 3, 4])


def nest(text, how):
    return NESTS[how].format("PLACEHOLDER").replace("PLACEHOLDER", text)


def base():
    return st.fixed_dictionaries({"p": cmds.pipelines(1, 3, False), "pos": st.integers(0, 3), "nest": RUN_NEST, "y": spl.styles(), "rt": st.booleans(), "f": W, "g": W, "n": NUM})


def command_cases():
    return st.tuples(base(), st.sampled_from(CMDS), st.booleans()).map(lambda t: dict(t[0], t=t[1], up=t[2]))


def lead_cases():
    return st.tuples(base(), st.sampled_from(LEADS)).map(lambda t: dict(t[0], t=t[1]))


def accepted(q, rt):
    try:
        return run.transpile(q, rt)
    except run.Refused as e:
        raise Violation(f"{q!r} is refused: {e}", query=q)


def must_refuse(q, rt, what):
    try:
        code = run.transpile(q, rt)
    except run.Refused as e:
        return e
    raise Violation(f"{q!r}{' with the runtime' if rt else ''}: {what} is not refused", query=q, code=code)


def texts(p, sty):
    out = []
    for i, c in enumerate(p):
        out.append(cmds.render_command(dict(c, implied=False) if i and c.get("implied") else c, sty))
    return out


def explicit(parts, p):
    """the first command spelled so that nothing else can be read into it"""
    return ("" if p[0].get("implied") else "| ") + " | ".join(parts)


def check_command(case):
    sty = spl.Style(case["y"])
    parts = texts(case["p"], sty)
    bad = fill(case["t"], case)
    if case["up"]:
        w = bad.split(" ")[0]
        bad = w.upper() + bad[len(w):]
    ok = nest(explicit(parts, case["p"]), case["nest"])
    accepted(ok, case["rt"])
    pos = max(1, case["pos"] % (len(parts) + 1))
    q = nest(explicit(parts[:pos] + [bad] + parts[pos:], case["p"]), case["nest"])
    e = must_refuse(q, case["rt"], repr(bad))
    return {"nontrivial": True, "labels": [case["t"].split(" ")[0], e.stage], "sample": q}


TAIL = ["search", "where", "eval", "fields", "table", "rename", "head", "sort", "stats"]


def check_lead(case):
    sty = spl.Style(case["y"])
    parts = [t for t, c in zip(texts(case["p"], sty), case["p"]) if c["c"] in TAIL and not c.get("implied")]
    parts = parts[1:]
    bad = fill(case["t"], case)
    ok = nest("| " + " | ".join(["search x=1"] + parts), case["nest"])
    accepted(ok, case["rt"])
    q = nest("| " + " | ".join([bad] + parts), case["nest"])
    e = must_refuse(q, case["rt"], repr(bad))
    return {"nontrivial": True, "labels": [case["t"].split(" ")[0], e.stage], "sample": q}


# ---------------------------------------------------------------- expressions

RT_EVAL = {"ipmask", "printf"}    # the runtime library has these


def is_expr(x):
    return isinstance(x, list) and x and isinstance(x[0], str) and x[0] != "lit"


def places(e, path=()):
    """paths of the sub-expressions that can be any expression"""
    out = [path]
    k = e[0]
    kids = {"b": (2, 3), "c": (2, 3), "and": (1, 2), "or": (1, 2), "not": (1,)}.get(k, ())
    for i in kids:
        out += places(e[i], path + (i,))
    if k == "call":
        for i, x in enumerate(e[2]):
            if is_expr(x):
                out += places(x, path + (2, i))
    return out


def put(e, path, new):
    if not path:
        return new
    out = list(e)
    out[path[0]] = put(e[path[0]], path[1:], new)
    return out


HOLES = ([f"{fn}({', '.join(['a', 'b', 'c', 'd'][:n])})" for fn, n in sorted(c14.UNSUPPORTED.items())]
         + ["abs()", "abs(a, b)", "len()", "if(a=1, b)", "if(a=1, b, c, d)", "case(a=1)", "case(a=1, b, c=1)", "coalesce()", "round(a, 2, 3)", "substr(a)", "replace(a, \"x\")", "now(a)", "isnull()", "strftime(a)", 'strftime(a, "%U")',
            'strptime(a, "%Y-%q")', "split(a)", "mvindex(a)", "nullif(a)", "pow(a)", "log(a, b, c)", "lower(a, b)", "cidrmatch(a)", "match(a)", "like(a)", "relative_time(a)", "max()", "min()", "sum()", "mvcount(a, b)",
            "relative_time(a, b)", "random(a)", "pi(a)", "true(a)", "sha1()", "urldecode(a, b)", "[search a=1]", "5m", "$v$", '"-1d@d"', "x*"])
HOLE_ARG_ONLY = {"5m", "$v$", '"-1d@d"', "x*", "[search a=1]"}


def expr_cases():
    return st.fixed_dictionaries({"e": spl.expr("b", 3), "at": st.integers(0, 60), "h": st.sampled_from(HOLES), "k": st.integers(0, 6), "nest": RUN_NEST, "y": spl.styles(), "rt": st.booleans()})


CARRIERS = ["search z=9 | eval zz={}", "search z=9 | where {}", "search z=9 | eval y=1, zz={}, x=2 | head 3", "search z=9 | stats sum(eval({})) as n by a", "search z=9 | stats count, avg(eval({})) as n", "search z=9 | where a=1 AND ({}) OR b=2",
            "search z=9 | stats values(eval(if({}, 1, 0))) as n"]


def check_expr(case):
    e = case["e"]
    ps = places(e)
    path = ps[case["at"] % len(ps)]
    mark = ["call", "zzhole", []]
    inner = e
    for i in path:
        inner = inner[i]
    sty = case["y"]
    good = CARRIERS[case["k"]].replace("{}", spl.spell(e, spl.Style(sty), 4))
    h = case["h"]
    if h in HOLE_ARG_ONLY:   # literals: stand alone as a value, so inside a call
        h = f"coalesce(a, {h})"
    if h == 'coalesce(a, x*)':
        h = "coalesce(a, x* )"
    text = spl.spell(put(e, path, mark), spl.Style(sty), 4)
    if "zzhole(" not in text:
        return {"nontrivial": False, "labels": ["no place"]}
    i = text.index("zzhole(")
    j = text.index(")", i)
    bad = CARRIERS[case["k"]].replace("{}", text[:i] + h + text[j + 1:])
    good, bad = nest(good, case["nest"]), nest(bad, case["nest"])
    if case["rt"] and case["h"].split("(")[0] in RT_EVAL:
        return {"nontrivial": False, "labels": ["runtime has it"]}
    accepted(good, case["rt"])
    r = must_refuse(bad, case["rt"], case["h"])
    return {"nontrivial": len(path) > 0, "labels": [case["h"].split("(")[0], f"depth {min(len(path), 4)}", r.stage], "sample": bad}


# ---------------------------------------------------------------- aggregates

AGG_BAD = [f"{fn}(a)" for fn in c15.UNSUPPORTED] + ["avg()", "avg", "sum(a, b)", "dc()", "values(a, b)", "perc95()", "perc95(a, b)", "count(a, b)", "first()", "max", "avg(eval(typeof(a)))", "count(eval(mvjoin(a, b)))", "rate()", "sum(a*)", '"a"', "a+b"]


def agg_cases():
    return st.fixed_dictionaries({"a": st.lists(cmds.stats_call(), min_size=0, max_size=3), "i": st.integers(0, 3), "b": st.sampled_from(AGG_BAD), "by": cmds.bys(), "as": st.booleans(), "ts": st.booleans(), "nest": RUN_NEST, "y": spl.styles(), "rt": st.booleans()})


def check_agg(case):
    sty = spl.Style(case["y"])
    calls = case["a"]
    if case["ts"]:
        calls = cmds.tstats_calls([c for c in calls if c["arg"] is None or c["arg"][0] == "f"])
    # a call without brackets would take the next word for its argument
    parts = [(cmds.spell_tstats_call if case["ts"] else cmds.spell_stats_call)(dict(c, **{"as": f"n{i}"}), sty) for i, c in enumerate(calls)]
    bad = case["b"] + (" as zz" if case["as"] and not case["b"][0] in '"3' else "")
    i = case["i"] % (len(parts) + 1)
    full = parts[:i] + [bad] + parts[i:]
    sep = " " if case["ts"] else ", "
    by = cmds.spell_bys([[f, None] for f, _ in case["by"]], sty)
    if case["ts"] and "*" in bad:   # a column named a*, which Spark refuses
        return {"nontrivial": False, "labels": ["column named *"]}
    head, tail = ("| tstats ", " from datamodel=M" + by) if case["ts"] else ("search z=9 | stats ", by)
    accepted(nest(head + sep.join(parts or ["count"]) + tail, case["nest"]), case["rt"])
    q = nest(head + sep.join(full) + tail, case["nest"])
    e = must_refuse(q, case["rt"], case["b"])
    return {"nontrivial": True, "labels": [case["b"].split("(")[0], e.stage], "sample": q}


# ---------------------------------------------------------------- text left over

JUNK = [")", "]", ") head 3", "] | head 3", "| ", "| |", "|| head 3", '"abc', "`", "| 3", "| =", "| )", "| head 3 )", '| eval a="b', "| where (a=1", "| [search a=1]", "| search (a=1", "| search a=1)", "| eval a=", "| eval =1", "| where a==", "| stats count by", "| join a [search b=1", "| rename a as",
        "| sort", "| eval a=1,", "| eval a=1 b", "| head 3 4", "| tail x", "| regex a", "| eval a=b c=d", "| where a AND", "| where NOT", "| where a IN (", "| where a IN 1", "| search a IN (1", "| search a=", "| search NOT", "| eval a=f(b", "| eval a=f(b,,c)", "| eval a=(b", "| eval a=b)",
        "| fillnull value=", "| lookup t", "| bin span= a", "| rex", "| spath output=", "| top", "| makeresults count=x"]


def junk_cases():
    return st.fixed_dictionaries({"p": cmds.pipelines(1, 4, False), "y": spl.styles(), "j": st.sampled_from(JUNK), "sp": st.sampled_from([" ", "  ", "\n"]), "nest": RUN_NEST, "rt": st.booleans(), "inner": st.booleans()})


def check_junk(case):
    q = explicit(texts(case["p"], spl.Style(case["y"])), case["p"])
    ok = nest(q, case["nest"])
    accepted(ok, case["rt"])
    bad = nest(q + case["sp"] + case["j"], case["nest"]) if case["inner"] and not case["j"].startswith("]") else ok + case["sp"] + case["j"]
    must_refuse(bad, case["rt"], f"trailing {case['j']!r}")
    return {"nontrivial": True, "labels": [case["j"]], "sample": bad}


# ---- options the command's parser does not know (known finding: they are ignored)

def check_unknown(case):
    must_refuse(case["q"], False, "an unknown option")
    return {"nontrivial": True, "sample": case["q"]}


UNKNOWN = [{"q": '| makeresults format=csv data="a,b"'}]

SUBS = [
    Sub("unknown_options", check_unknown, cases=lambda: UNKNOWN, rule="an option the command's parser does not know"),
    Sub("commands", check_command, command_cases, quick=6000, rule="one of the commands, options or forms without a translation inserted after the first command of an accepted pipeline, at the top or in nested searches, both modes"),
    Sub("leads", check_lead, lead_cases, quick=3000, rule="a first command without a translation before accepted ones, at the top or in nested searches, both modes"),
    Sub("expressions", check_expr, expr_cases, quick=9000, rule="one sub-expression of an accepted expression replaced by a call or literal without a translation, in eval, where, or aggregates over eval; non-trivial: below the root"),
    Sub("aggregates", check_agg, agg_cases, quick=4000, rule="an aggregate without a translation among accepted ones, in stats or tstats"),
    Sub("junk", check_junk, junk_cases, quick=5000, rule="text that is no SPL after an accepted query or inside a nested search"),
]
