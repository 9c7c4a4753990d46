"""Query texts for the checks that take any text: generated queries, mutations of them, token soup, Unicode."""
import cmds
import spl
from hypothesis import strategies as st

from props import c11

TOKENS = ["|", "|", "search", "where", "eval", "stats", "by", "as", "AND", "OR", "NOT", "IN", "(", ")", "[", "]", ",", "=", "==", "!=", "<", ">=", "+", "-", "*", "/", "%", ".", "\"", "\"a b\"", "'", "'x y'", "`", "`m(1)`", "$", "$v$", "{", "}",
          "a", "b", "_time", "foo*", "*", "1", "0", "-1", "3.5", "1e9", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.7976931348623157e309", "5m", "-1d@d", "@w0", "@mon+7d", "+0s", "10.0.0.0/8", "10.0.0.0/99", "999.1.1.1", "true",
          "index=main", "index=", "earliest=-1d", "count", "avg(a)", "count(eval(a=1))", "perc95(x)", "perc999999999999999999999(x)", "head", "head 99999999999999999999", "head count<", "limit=", "limit=0", "span=1h", "span=99999999999999999999h", "bin", "rex", "\"(?<x>a+)\"",
          "\"(?<x>\"", "field=", "regex", "sort", "-a", "fields", "table", "rename", "dedup", "join", "type=left", "join a [search b=1]", "lookup", "OUTPUT", "OUTPUTNEW", "makeresults", "count=99999999999", "tstats", "from", "datamodel=", "datamodel", "fillnull", "value=", "spath", "output=", "path=",
          "top", "rare", "map", "search=\"search a=1\"", "search=\"search a=\"", "maxsearches=3", "multisearch", "format", "mvcombine", "mvexpand", "return", "$a", "convert", "ctime(a)", "timeformat=\"%\"", "addtotals", "eventstats", "streamstats", "collect", "inputlookup", "tail",
          "if(", "case(", "strftime(a,\"%Y\")", "strptime(a,\"%%%\")", "round(a,", "substr(a,-1,9223372036854775807)", "mvindex(a,-9223372036854775808)", "relative_time(now(),\"-1d@d\")", "cidrmatch(\"a\",b)", "replace(a,\"(\",\"\\1\")", "é", "日本", "\u0000", "\n", "\t", "\\", "\\\"", "\U0001f600", "\u2028"]
CHARS = list("|()[]{}\"'`$=,.+-*/%<>!\\ \n\t\0az09_é日\U0001f600\u00a0\ufeff\u2028")


def queries(weird=True):
    pipe = st.fixed_dictionaries({"p": cmds.pipelines(1, 4, weird), "y": spl.styles()}).map(lambda c: cmds.render_pipeline(c["p"], spl.Style(c["y"])))
    return st.one_of(pipe, pipe, pipe, c11.queries().map(text_of))


def text_of(c):
    t, _ = c11.build(c)
    t = ("| " if c["c"] in c11.LEADING else "search z=9 | ") + t + (" " + c["next"] if c["next"] else "")
    return f"search a=1 | join k [{t}]" if c["at"] == "sub" else t


def soup(max_size=14):
    return st.lists(st.sampled_from(TOKENS), min_size=1, max_size=max_size).flatmap(
        lambda ts: st.lists(st.sampled_from(["", " ", " ", " "]), min_size=len(ts), max_size=len(ts)).map(lambda ss: "".join(s + t for s, t in zip(ss, ts)).lstrip(" ")))


def any_text():
    return st.one_of(st.text(max_size=60), st.text(alphabet=st.sampled_from(CHARS), max_size=60), st.binary(max_size=40).map(lambda b: b.decode("latin-1")))


EDIT = st.tuples(st.sampled_from(["del", "cut", "ins", "tok", "dup", "swap", "chr", "num"]), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6), st.integers(1, 12)).map(list)
NUMS = ["0", "-0", "00", "1e400", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "340282366920938463463374607431768211456", "2147483648", "0.0000000000000000000001", "1" * 60, "." + "9" * 40, "1e", "1.", "-"]


def edit(q, how, i, j, n):
    L = len(q)
    i %= L + 1
    if how == "del":
        return q[:i] + q[i + n:]
    if how == "cut":
        return q[:i] if j % 2 else q[i:]
    if how == "ins":
        return q[:i] + CHARS[j % len(CHARS)] * (1 + (n > 10)) + q[i:]
    if how == "tok":
        return q[:i] + " " * (j % 2) + TOKENS[j % len(TOKENS)] + " " * (n % 2) + q[i:]
    if how == "dup":
        return q[:i] + q[i:i + 4 * n] * 2 + q[i + 4 * n:]
    if how == "swap":
        k = j % (L + 1)
        a, b = min(i, k), max(i, k)
        return q[:a] + q[b:b + n] + q[a + n:b] + q[a:a + n] + q[b + n:]
    if how == "num":   # a number somewhere becomes another
        import re
        ms = list(re.finditer(r"\d+(\.\d+)?", q))
        if not ms:
            return q
        m = ms[i % len(ms)]
        return q[:m.start()] + NUMS[j % len(NUMS)] + q[m.end():]
    return q[:i] + CHARS[j % len(CHARS)] + q[i + 1:]


def mutated(weird=True):
    return st.tuples(queries(weird), st.lists(EDIT, min_size=1, max_size=4)).map(lambda t: mutate(*t))


def mutate(q, edits):
    for e in edits:
        q = edit(q, *e)
    return q
