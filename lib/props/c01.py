"""C01 any text gets an answer or an ordinary exception."""
import signal
import time

import cmds
import corpus
import spl
from core import Sub, Violation
from hypothesis import strategies as st

CPU_SOFT, CPU_HARD = 12.0, 90.0      # seconds of processor time for one text; see DESIGN.md
MODES = [(False, False), (True, False), (False, True), (True, True)]


def guard():
    """A call that never comes back ends the worker, which the driver reports with the case it was on."""
    signal.signal(signal.SIGPROF, signal.SIG_DFL)


def timed(what, q, f, ok):
    t = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, CPU_HARD)
    try:
        return "ok", f()
    except ok as e:
        if type(e) not in ok:
            raise Violation(f"{what}({q[:300]!r}): {type(e).__name__}: {str(e)[:200]}", query=q)
        return type(e).__name__, None
    except BaseException as e:      # pyo3's PanicException is no Exception
        raise Violation(f"{what}({q[:300]!r}): {type(e).__name__}: {str(e)[:300]}", query=q) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        used = time.process_time() - t
        if used > CPU_SOFT and len(q) < 3000:
            raise Violation(f"{what} of a text of {len(q)} characters took {used:.1f} s of processor time: {q[:300]!r}", query=q)


def probe(q, modes=MODES, macros=True):
    import spl_transpiler as s
    labels = []
    kind, tree = timed("parse", q, lambda: s.parse(q), (ValueError,))
    labels.append("parse " + kind)
    if macros:
        from spl_transpiler.spl_transpiler import detect_macros
        k, m = timed("detect_macros", q, lambda: detect_macros(q), (ValueError,))
        labels.append("macros " + k)
        if m is not None:
            timed("repr(detect_macros)", q, lambda: repr(m), ())
    if tree is not None:
        timed("repr(parse)", q, lambda: repr(tree), ())
        for rt, fmt in modes:
            k, code = timed(f"render(runtime={rt}, format={fmt})", q, lambda: s.render_pyspark(tree, allow_runtime=rt, format_code=fmt), (RuntimeError,))
            labels.append(("runtime " if rt else "standalone ") + k)
            if code is not None and type(code) is not str:
                raise Violation(f"{q!r} gives {code!r}", query=q)
    k, _ = timed("convert", q, lambda: s.convert_spl_to_pyspark(q, format_code=False), (ValueError, RuntimeError))
    if (k == "ValueError") != (kind == "ValueError"):
        raise Violation(f"{q!r}: parse says {kind}, convert {k}", query=q)
    return {"nontrivial": True, "labels": sorted(set(labels)), "sample": q[:400]}


def check(case):
    # formatting is slow and the same for all: one mode of the two per case
    n = len(case["q"]) % 2
    return probe(case["q"], [(False, False), (True, False), (bool(n), True)])


def of(s):
    return s.map(lambda q: {"q": q})


def texts():
    return of(corpus.any_text())


def soups():
    return of(corpus.soup(16))


def mutants():
    return of(corpus.mutated())


# ---- numbers at and beyond every limit, wherever a number can stand

NUM_AT = ["search a={n}", "search a<{n} b", "search {n}", "search a IN ({n}, {n})", "eval x={n}", "eval x=a+{n}*{n}", "eval x=-{n}", "eval x={n}-{n}", "where a={n}", "where a IN ({n})", "| makeresults count={n}", "head {n}", "head limit={n}", "head count<{n}", "head count<={n}", "head count>{n}", "head ({n}<count)",
          "tail {n}", "sort {n} a", "sort limit={n} -a", "top {n} a", "top limit={n} a", "rare {n} a", "rare limit={n} a", "bin span={n} a", "bin span={n}m _time", "bin bins={n} a", "bin minspan={n}s _time", "bin start={n} end={n} a", "bin span=log{n} a", "bin span={n}log{n} a", "dedup {n} a",
          "join max={n} a [search b=1]", "lookup local=t t a", "fillnull value={n}", "fillnull value={n} a", "rex field=a \"(?<x>b)\" max_match={n}", "rex max_match={n} field=a \"(?<x>b)\"", "map maxsearches={n} search=\"search a={n}\"", "mvexpand a limit={n}", "return {n} a", "return {n} $a", "stats count by a span={n}", "stats perc{n}(a)", "stats p{n}(a) exactperc{n}(b) upperperc{n}(c)",
          "stats count(eval(a={n}))", "| tstats count from datamodel=D where a={n} by _time span={n}h", "| tstats chunk_size={n} count from datamodel=D", "| tstats fillnull_value={n} count from datamodel=D", "streamstats window={n} sum(a)", "streamstats time_window={n}s sum(a)", "eventstats count by a",
          "eval x=round(a, {n})", "eval x=substr(a, {n})", "eval x=substr(a, {n}, {n})", "eval x=mvindex(a, {n})", "eval x=mvindex(a, {n}, {n})", "eval x=mvindex(a, -{n}, -{n})", "eval x=mvrange({n}, {n}, {n})", "eval x=log(a, {n})", "eval x=pow({n}, {n})", "eval x=relative_time({n}, \"-{n}d@d\")", "eval x=tonumber(a, {n})", "eval x=random()*{n}",
          "eval x=split(a, \"{n}\")", "eval x=strftime({n}, \"%{n}N\")", "eval x=cidrmatch(\"{n}.{n}.0.0/{n}\", a)", "eval x=if(a={n}, {n}, {n})", "eval x=case(a={n}, {n})", "eval x=mvfind(a, {n})", "eval x=mvjoin(a, {n})", "eval x=bit_shift_left(a, {n})", "eval x=printf(\"%{n}d\", a)",
          "search earliest=-{n}d@d latest={n}", "search earliest={n}", "search a=-{n}d@w{n}", "search a={n}.{n}.{n}.{n}", "search a={n}.{n}.{n}.{n}/{n}", "search a=@w{n}", "where a={n}.{n}.{n}.{n}/{n}", "addtotals fieldname={n} a", "spath output={n} path={n}", "spath input=a path=b{{{n}}}", "convert ctime(a) as {n}", "datamodel {n} {n} search", "inputlookup start={n} max={n} t",
          "inputlookup append=t max={n} t where a={n}", "multisearch [search a={n}] [search a={n}]", "format maxresults={n}", "mvcombine delim={n} a", "collect index={n}", "rename a as {n}", "table {n}", "fields {n}", "fields - {n}", "regex a={n}", "regex \"{n}\"", "rex mode=sed \"s/{n}/{n}/{n}\"", "eval {n}={n}"]
BIG = ["0", "1", "2", "7", "127", "128", "255", "256", "32767", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105728", "1e400", "1e", "1.5", "0.0",
       "1.", ".5", "-1", "-0", "-9223372036854775808", "-9223372036854775809", "00000000000000000000000000001", "4" * 400, "0." + "0" * 350 + "1", "1" * 310 + ".5", "9" * 40 + "." + "9" * 40, "1_000", "0x10", "\u0661", "\u00b2", "\u2460"]


def numbers():
    num = st.one_of(st.sampled_from(BIG), st.integers(-2 ** 70, 2 ** 70).map(str), st.from_regex(r"-?[0-9]{1,25}(\.[0-9]{1,25})?", fullmatch=True))
    return st.fixed_dictionaries({"t": st.sampled_from(NUM_AT), "n": st.lists(num, min_size=1, max_size=3)})


def check_number(case):
    ns, i = case["n"], [0]

    parts = case["t"].replace("{{", "\x01").replace("}}", "\x02").split("{n}")
    q = parts[0]
    for p in parts[1:]:
        q += ns[i[0] % len(ns)] + p
        i[0] += 1
    q = q.replace("\x01", "{").replace("\x02", "}")
    return dict(check({"q": q}), labels=[])


# ---- every character, in every place

PLACES = ["{c}", "search {c}", "search a{c}b=1", "search a={c}", "search a={c}b", "search \"{c}\"", "search \"a{c}b\"=1", "eval x={c}", "eval x=\"{c}\"", "eval '{c}'=a", "eval x=a{c}b", "eval x=f{c}(a)", "where {c}", "stats count by {c}", "stats sum({c}) as \"{c}\"", "rename a as \"{c}\"", "rename \"a{c}\" as b", "rename {c} as b", "rex \"(?<{c}>a)\"", "rex \"(?<x>{c})\"",
          "rex mode=sed \"s/{c}/a/g\"", "rex mode=sed \"{c}\"", "regex a=\"{c}\"", "eval x=replace(a, \"{c}\", \"{c}1\")", "eval x=match(a, \"{c}\")", "eval x=strftime(a, \"%{c}\")", "eval x=strptime(a, \"%{c}%{c}\")", "eval x=split(a, \"{c}\")", "eval x=mvjoin(a, \"{c}\")", "eval x=like(a, \"{c}%\")", "convert timeformat=\"%{c}\" ctime(a)", "| datamodel {c} a search", "lookup {c} a",
          "lookup t {c}", "join {c} [search a=1]", "spath path={c}", "spath path=\"a.{c}{{}}.b\" output=\"{c}\"", "map search=\"search a={c}\"", "map search=\"{c}\"", "map search=\"search a=\\\"{c}\\\" b=$x{c}$\"", "`{c}`", "`m({c})`", "`m(\"{c}\")`", "`m(a={c}, b=\"{c}\")`", "search `m{c}` | {c}", "{c}| search a", "search a {c}| head", "search a |{c} head 1", "head {c}", "fields {c}", "fields a {c} b",
          "top {c} by {c}", "fillnull value=\"{c}\"", "format \"{c}\" \"{c}\" \"{c}\" \"{c}\" \"{c}\" \"{c}\"", "search a [search {c}]", "multisearch [{c}] [{c}]", "| makeresults annotate={c}", "return {c}", "search $a{c}$", "search a=$a{c}$", "search index={c}", "search index=\"{c}\"", "search earliest=-{c}d", "search a=@{c}", "addtotals fieldname=\"{c}\"", "inputlookup {c}",
          "| tstats count({c}) from datamodel={c} where a={c} by {c}", "tail {c}", "sort {c}", "sort -{c}a", "sort str({c})", "table {c}", "mvexpand {c}", "collect index={c}", "dedup {c}", "bin span={c} a", "bin span=1{c} a", "search a=1{c}", "search a=1.1.1.1/{c}", "eval x=1{c}2"]
SPECIAL = ["\0", "\x01", "\t", "\n", "\r", "\x0b", "\x0c", "\x1b", "\x7f", "\x80", "\x85", "\xa0", "\xad", "é", "ß", "İ", "ﬃ", "\u0301", "\u0660", "\u200b", "\u200d", "\u2028", "\u2029", "\u202e", "\u3000", "日", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "´", "“", "×", "İ" * 3]


def characters():
    # surrogates cannot be part of the UTF-8 text the parser takes: see surrogates below
    c = st.one_of(st.sampled_from(SPECIAL), st.characters(blacklist_categories=["Cs"]), st.sampled_from([chr(i) for i in range(128)]), st.sampled_from(corpus.CHARS))
    return st.fixed_dictionaries({"t": st.sampled_from(PLACES), "c": st.lists(c, min_size=1, max_size=3).map("".join)})


def check_char(case):
    q = case["t"].replace("{{", "\x01").replace("}}", "\x02").replace("{c}", case["c"]).replace("\x01", "{").replace("\x02", "}")
    return dict(check({"q": q}), labels=[])


# ---- cut short anywhere, and glued together

def cuts():
    return st.tuples(corpus.queries(), st.integers(0, 10 ** 6), st.sampled_from(["", "", " ", "\"", "'", "(", "[", "|", "=", ",", "`", "\\", "$", "{"])).map(lambda t: {"q": t[0][:t[1] % (len(t[0]) + 1)] + t[2]})


def joined():
    return st.tuples(corpus.queries(), st.sampled_from([" ", "|", " | ", "", ",", " by ", " [", "] ", "\"", "`"]), corpus.queries()).map(lambda t: {"q": "".join(t)})


# ---- nesting and length

NEST = [("eval x=", "(", "a", ")"), ("eval x=", "abs(", "a", ")"), ("eval x=", "if(a=1,b,", "c", ")"), ("eval x=", "case(a,", "1", ")"), ("where ", "NOT ", "a=1", ""), ("where ", "NOT (", "a=1", ")"), ("search ", "NOT ", "a=1", ""), ("search ", "(", "a=1", ")"), ("search ", "(a OR (", "b=1", "))"), ("search ", "NOT (a=1 ", "b", ")"), ("search a=1 ", "| join k [search b=2 ", "", "]"),
        ("", "multisearch [search a=1] [", "search a", "]"), ("search a ", "[search b ", "", "]"), ("eval x=", "-", "a", ""), ("eval x=", "- (", "1", ")"), ("eval x=", "coalesce(a, ", "b", ")"), ("stats ", "count(eval(", "a=1", "))"), ("stats ", "sum(", "a", ")"), ("map search=", "\"map search=\\\"", "search a=1", "\\\"\""), ("", "`m(", "a", ")`"), ("", "`", "m", "`"), ("search ", "\"", "a", "\""), ("eval x=", "[", "1", "]"),
        ("eval x=", "a.(", "b", ")"), ("eval x=", "(a+", "b", ")"), ("eval x=", "(a=1 AND ", "b=2", ")"), ("where ", "(a=1 OR (b=2 AND ", "c=3", "))"), ("where ", "a IN (", "1", ")"), ("eval x=", "mvmap(a, ", "b", ")"), ("search a | eval ", "x=(", "1", ")"), ("rex field=a \"", "(", "b", ")\""), ("rex field=a \"", "(?<x>", "b", ")\""), ("convert ", "ctime(", "a", ")"), ("search ", "a=(", "b", ")"), ("head ", "(", "a=1", ")"), ("", "[", "search a", "]"),
        ("search ", "NOT(", "a=1", ")"), ("where a ", "NOT (b=1 OR ", "c", ")"), ("eval x=if(", "NOT (a AND ", "b", ")"), ("| tstats count from datamodel=d where ", "NOT (a=1 ", "b=2", ")"), ("| inputlookup t where ", "(a=1 OR ", "b=2", ")"), ("head (", "NOT (a=1 AND ", "b=2", ")"), ("search ", "a IN (", "1", ")"), ("where ", "in(a, ", "1", ")"), ("eval x=", "a+NOT (", "b", ")"),
        ("eval x=", "(NOT ", "b", ")"), ("eval x=", "NOT not(", "b", ")"), ("stats count(eval(", "NOT (a=1 OR ", "b", ")"), ("search a=1 ", "| join k [search NOT (a) | where NOT (b) ", "", "]"), ("eval ", "a=1, b=(", "c", ")"), ("eval x=", "\"a\".(", "b", ")"), ("eval x=", "a*(b-", "c", ")"), ("search ", "(a OR b) (", "c", ")"), ("search ", "a=1 OR NOT (b ", "c", ")"),
        ("map search=\"search ", "(a=1 OR NOT (", "b", "))"), ("where ", "a=b=(", "c", ")"), ("where ", "a<(b>", "c", ")"), ("eval x=", "true(", "", ")"), ("eval x=", "a IN (b, ", "c", ")"), ("search ", "a!=b NOT c IN (", "c", ")"), ("| multisearch [search a] [search ", "(b NOT (c ", "d", "))"), ("search a ", "[search b | join k [search c ", "", "]]")]
BROKEN = ["whole", "whole", "whole", "open", "extra", "bad"]


def nests():
    return st.fixed_dictionaries({"k": st.integers(0, len(NEST) - 1), "d": st.one_of(st.integers(1, 40), st.integers(30, 120)), "how": st.sampled_from(BROKEN), "bad": st.sampled_from(["\\", "\0", "=", "|", ")", "(", "\"", "é", "1e", "AND", "a b"])})


def check_nest(case, modes=((False, False), (True, False))):
    head, a, mid, b = NEST[case["k"]]
    d = case["d"]
    mid = case["bad"] if case["how"] == "bad" else mid
    q = head + a * d + mid + b * (d if case["how"] in ("whole", "bad") else 0 if case["how"] == "open" else d + 1)
    # a formatter in Python works on what the renderer gives: its cost is the program's, bounded separately
    modes = list(modes) + ([(False, True)] if d <= 30 else [])
    return dict(probe(q, modes), labels=[case["how"]], sample=q[:120])


def deep_cases():
    return [{"k": k, "d": d, "how": how, "bad": "\\"} for k in range(len(NEST)) for how in ("whole", "open", "bad") for d in (14, 60, 250)]


CHAIN = [("search ", "a=1", " "), ("search ", "a=1", " OR "), ("search ", "foo", " AND "), ("where ", "a=1", " OR "), ("where ", "a=1", " AND "), ("eval x=", "a", " + "), ("eval x=", "a", " . "), ("eval x=", "1", "*"), ("eval ", "x=1", ", "), ("search a IN (", "1", ", "), ("fields ", "a", ", "), ("stats ", "count", " "), ("stats ", "sum(a)", ", "), ("stats count by ", "a", " "), ("", "search a", " | "),
         ("", "eval x=1", " | "), ("", "stats count", "|"), ("rename ", "a as b", ", "), ("sort ", "-a", ", "), ("sort ", "a", " "), ("table ", "a", " "), ("", "`m`", " "), ("", "`m(", ""), ("search \"", "a", " "), ("search ", "a", ""), ("search a=", "*", ""), ("search a=", "1.", ""), ("search a=", "9", ""), ("search ", "\"", ""), ("", " ", ""), ("", "|", ""), ("search a=", "-1d", ""), ("search a=-1d", "@d", ""), ("search a=", "5m", ""),
         ("search ", "index=a", " "), ("eval x=case(", "a=1, 2", ", "), ("eval x=", "\\", ""), ("eval x=\"", "\\", "\""), ("eval x=\"", "\\\"", ""), ("rex \"", "(?<a>b)", ""), ("eval x=max(", "1", ","), ("multisearch ", "[search a]", " "), ("", "search a\n", "|"), ("fillnull ", "a", " "), ("top ", "a", ","), ("lookup t ", "a as b", ", "), ("addtotals ", "a", " "), ("convert ", "ctime(a)", " "), ("eval x=strftime(a,\"", "%Y", ""), ("eval x=a", "-", ""),
         ("eval x=a", " - a", ""), ("where a", "=a", ""), ("where a", " = a", ""), ("where a", "<b", ""), ("eval x=a", "{}", ""), ("spath path=a", "{}.b", ""), ("eval x=", "NOT", " ")]


def chains():
    return st.fixed_dictionaries({"k": st.integers(0, len(CHAIN) - 1), "n": st.one_of(st.integers(2, 120), st.integers(100, 450)), "end": st.sampled_from(["", "", "", ")", "(", "\"", "|", "\\", "]", "="])})


def check_chain(case):
    head, item, sep = CHAIN[case["k"]]
    q = head + sep.join([item] * case["n"]) + (")" if "(" in head else "") + case["end"]
    modes = [(False, False), (True, False)] + ([(False, True)] if case["n"] <= 40 else [])
    return dict(probe(q, modes), labels=[], sample=q[:120])


def long_cases():
    return [{"k": k, "n": 1500, "end": ""} for k in range(len(CHAIN))]


# ---- things that are not str, or not UTF-8

def odd_values():
    return [{"v": v} for v in ["\ud800", "a\udfff", "search a=\"\ud83d\"", "", " ", "\ufeff", "\0"]] + [{"py": e} for e in ["None", "1", "b'search a'", "[]", "object()", "1.5", "str", "float('nan')"]]


def check_odd(case):
    import spl_transpiler as s
    from spl_transpiler.spl_transpiler import detect_macros
    v = case["v"] if "v" in case else eval(case["py"])
    for n, f in (("parse", s.parse), ("detect_macros", detect_macros), ("convert", s.convert_spl_to_pyspark), ("render", s.render_pyspark)):
        if n == "render" and "v" in case:
            continue
        timed(n, repr(v), lambda: f(v), (ValueError, TypeError, UnicodeEncodeError))
    return {"nontrivial": True}


SUBS = [
    Sub("texts", check, texts, quick=4000, setup=guard, rule="arbitrary Unicode, SPL punctuation and Latin-1 bytes: every entry point answers or raises ValueError / RuntimeError, and parse and convert agree on what is SPL"),
    Sub("soup", check, soups, quick=9000, setup=guard, rule="up to 16 SPL tokens (commands, options, literals at limits, brackets) in any order"),
    Sub("mutants", check, mutants, quick=6000, setup=guard, rule="generated pipelines of all commands with one to four edits (delete, cut, insert, duplicate, swap, another number)"),
    Sub("cuts", check, cuts, quick=2000, setup=guard, rule="generated pipelines cut short anywhere, with an opening character put after"),
    Sub("joined", check, joined, quick=1000, setup=guard, rule="two generated pipelines glued together"),
    Sub("numbers", check_number, numbers, quick=8000, setup=guard, rule="numbers at and beyond the limits of 8 to 128 bits and of doubles in %d places where a number can stand" % len(NUM_AT)),
    Sub("characters", check_char, characters, quick=8000, setup=guard, rule="any character in %d places of queries" % len(PLACES)),
    Sub("nesting", check_nest, nests, quick=2400, setup=guard, rule="%d constructs nested up to 120 deep: complete, unclosed, overclosed, with an error inside" % len(NEST)),
    Sub("chains", check_chain, chains, quick=1600, setup=guard, rule="%d constructs repeated up to 450 times" % len(CHAIN)),
    Sub("deep", check_nest, cases=deep_cases, setup=guard, rule="every nesting 14, 60 and 250 deep, complete, unclosed and with an error inside"),
    Sub("long", check_chain, cases=long_cases, setup=guard, rule="every repetition 1500 times"),
    Sub("odd", check_odd, cases=odd_values, setup=guard, rule="values that are no text, texts with lone surrogates"),
]
