"""SPL commands as data: generators, spellings and meaning (standalone plan).

A command is a dict {"c": kind, ...}; a pipeline is a list of commands.  `render_pipeline(p, style)` gives
SPL text, `plan_pipeline(p)` the dataframe program SPL's documentation calls for.
"""
import re

from hypothesis import strategies as st

import spl
from spl import B, Style, lit

MAIN = ["table", "main"]
col = lambda n: ["col", n]  # noqa: E731

# ---------------------------------------------------------------- search expressions
#   ["t", word]               bare term / phrase (string), matched in _raw
#   ["sc", op, field, value]  value: ["n", text] | ["s", text] | ["w", pattern] | ["bw", word] (bare word)
#   ["sin", field, [value]]   ["and"/"or", l, r]  ["not", x]

WORDS = ["foo", "error", "GET", "x1", "admin", "4624", "win_host", "a-b", "C:", "10", "failed"]
BAREWORD = re.compile(r"[A-Za-z_][A-Za-z0-9_:/-]*\Z")
RELTIME = re.compile(r"[+-]?\d*(seconds?|secs?|s|minutes?|mins?|m|hours?|hrs?|hr|h|days?|d|weeks?|w7|w0|w|months?|mon)\Z", re.I)


def bareword(w):
    return bool(BAREWORD.match(w)) and w.upper() not in spl.RESERVED


def svalue(weird=False, wild=True):
    opts = [spl.numbers().filter(lambda t: True).map(lambda t: ["n", t]),
            spl.strings(weird).filter(ok_svalue).map(lambda s: ["s", s]),
            st.sampled_from(["x", "admin", "foo", "true", "b1", "win-host", "a:b", "C_D/e"]).map(lambda s: ["bw", s])]
    if wild:
        opts.append(wildcards().map(lambda w: ["w", w]))
    return st.one_of(*opts)


def ok_svalue(s):
    return not spl.SNAPLIKE.match(s)


def wildcards():
    return st.lists(st.sampled_from(["*", "*", "a", "foo", "x1", " ", ".", "-", "GET", "é"]), min_size=1, max_size=7).map("".join).filter(
        lambda w: "*" in w and "**" not in w and w.strip() == w)


def terms(weird=False):
    return st.one_of(st.sampled_from(["foo", "error", "GET", "x1", "admin", "failed", "4624"]),
                     st.from_regex(r"[a-zA-Z][a-zA-Z0-9_]{1,5}", fullmatch=True).filter(lambda w: w.upper() not in spl.RESERVED),
                     st.from_regex(r"[a-z%_ .]{1,6}[a-z]", fullmatch=True).filter(lambda w: w.strip() == w),
                     spl.strings(weird).filter(lambda s: s != "" and ok_svalue(s)))


@st.composite
def sexpr(draw, depth=2, weird=False, wild=True, fields=None):
    return _sexpr(draw, depth, weird, wild, fields or spl.names(weird).filter(lambda n: n.lower() not in ("index", "earliest", "latest")))


SKIND = st.sampled_from(["leaf", "and", "or", "not", "and", "or", "leaf", "in"])
SLEAF = st.sampled_from(["sc", "sc", "sc", "t"])


def _sexpr(draw, depth, weird, wild, fields):
    k = draw(SKIND) if depth > 0 else "leaf"
    if k in ("and", "or"):
        return [k, _sexpr(draw, depth - 1, weird, wild, fields), _sexpr(draw, depth - 1, weird, wild, fields)]
    if k == "not":
        return ["not", _sexpr(draw, depth - 1, weird, wild, fields)]
    if k == "in":
        return ["sin", draw(fields), draw(some(svalue(weird, wild), 1, 4))]
    if draw(SLEAF) == "t":
        return ["t", draw(terms(weird))]
    op = draw(spl.OPS_C)
    v = draw(svalue(weird, wild))
    if v[0] == "w" and op not in ("=", "==", "!="):
        op = "="
    return ["sc", op, draw(fields), v]


def spell_sfield(name, sty):
    if spl.is_bare(name) and sty.pick(3) != 1:
        return name
    return spl.esc_single(name) if sty.flip() else spl.esc_double(name)


def spell_svalue(v, sty):
    if v[0] in ("n", "bw"):
        return v[1]
    if v[0] == "w" and re.match(r"[A-Za-z0-9_*.]+\Z", v[1]) and sty.flip():
        return v[1]
    return spl.esc_double(v[1])


SLEVEL = {"and": 0, "or": 1, "not": 2}


def spell_s(e, sty, need=0):
    k = e[0]
    lv = SLEVEL.get(k, 9)
    if k == "t":
        w = e[1]
        text = w if (bareword(w) or re.match(r"[1-9]\d*\Z", w)) and len(w) > 1 and not RELTIME.match(w) and sty.pick(3) != 1 else spl.esc_double(w)
    elif k == "sc":
        s1, s2 = [("", ""), (" ", " "), (" ", ""), ("", "  "), ("\n", " ")][sty.pick(5)]
        text = spell_sfield(e[2], sty) + s1 + e[1] + s2 + spell_svalue(e[3], sty)
    elif k == "sin":
        text = f"{spl.spell_field(e[1], sty)} {sty.kw('IN')} ({sty.osp()}" + sty.comma().join(spell_svalue(v, sty) for v in e[2]) + f"{sty.osp()})"
    elif k == "not":
        text = f"{sty.kw('NOT')}{sty.sp()}{spell_s(e[1], sty, 2)}"
    elif k == "or":
        text = f"{spell_s(e[1], sty, 1)}{sty.sp()}{sty.kw('OR')}{sty.sp()}{spell_s(e[2], sty, 2)}"
    else:
        sep = [" " + "AND" + " ", " ", " and ", "\nAnD\t", "   "][sty.pick(5)]
        text = f"{spell_s(e[1], sty, 0)}{sep}{spell_s(e[2], sty, 1)}"
    if lv < need or sty.pick(12) == 11:
        return f"({sty.osp()}{text}{sty.osp()})"
    return text


def like_escape(s):
    return s.replace("\\", "\\\\").replace("%", "\\%").replace("_", "\\_")


def sv(v):
    return lit(spl.num_value(v[1])) if v[0] == "n" else lit(v[1])


def stx(e):
    k = e[0]
    if k == "t":
        return ["m.ilike", col("_raw"), lit("%" + like_escape(e[1]) + "%")]
    if k == "sc":
        op = "==" if e[1] == "=" else e[1]
        if e[3][0] == "w":
            p = ["m.like", col(e[2]), lit(e[3][1].replace("*", "%"))]
            return ["~", p] if op == "!=" else p
        return B(op, col(e[2]), sv(e[3]))
    if k == "sin":
        r = None
        for v in e[2]:
            c = ["m.like", col(e[1]), lit(v[1].replace("*", "%"))] if v[0] == "w" else B("==", col(e[1]), sv(v))
            r = c if r is None else B("|", r, c)
        return r
    if k == "not":
        return ["~", stx(e[1])]
    return B("&" if k == "and" else "|", stx(e[1]), stx(e[2]))


# ---------------------------------------------------------------- shared pieces

def some(elem, lo, hi, **kw):
    """Mostly a short list, now and then a long one."""
    return st.one_of(*[st.lists(elem, min_size=lo, max_size=hi, **kw)] * 9, st.lists(elem, min_size=hi, max_size=14, **kw))


def counts(hi):
    return st.one_of(st.integers(0, hi), st.sampled_from([0, 1, 2, 10]))


def fieldlist(min_size=1, max_size=4, weird=False):
    return some(spl.names(weird), min_size, max_size, unique=True)


def spell_alias(name, sty):
    if spl.is_bare(name) and sty.pick(3) != 1:
        return name
    return spl.esc_double(name)


def sep_list(items, sty, comma_only=False):
    out = items[0]
    for x in items[1:]:
        s = [", ", " ", ",", " , ", "\n"][sty.pick(5)]
        if comma_only and "," not in s:
            s = ", "
        out += s + x
    return out


def spell_bool(v, sty):
    return (["t", "true"] if v else ["f", "false"])[sty.pick(2)]


UNITS = {"seconds": ["s", "sec", "secs", "second", "seconds"], "minutes": ["m", "min", "mins", "minute", "minutes"],
         "hours": ["h", "hr", "hrs", "hour", "hours"], "days": ["d", "day", "days"], "weeks": ["w", "week", "weeks"],
         "months": ["mon", "month", "months"]}


def spans():
    return st.tuples(st.integers(1, 99), st.sampled_from(sorted(UNITS))).map(list)


def spell_span(s, sty):
    u = UNITS[s[1]]
    return f"{s[0]}{u[sty.pick(len(u))]}"


def span_text(s):
    return f"{s[0]} {s[1]}"


def join_opts(parts, sty):
    return "".join(p + " " + ["", " ", "\n"][sty.pick(3)] for p in parts)


# ---------------------------------------------------------------- stats functions

def _times(x):
    return ["F.when", ["m.isNotNull", x], col("_time")]


def _rate(x):
    return B("/", B("-", ["F.last", x, lit(True)], ["F.first", x, lit(True)]), B("-", ["F.max", _times(x)], ["F.min", _times(x)]))


TIME_ORDER = [["m.asc", col("_time")]]
STATS1 = {
    "avg": lambda x: ["F.avg", x], "mean": lambda x: ["F.avg", x], "count": lambda x: ["F.count", x], "c": None,
    "dc": lambda x: ["F.count_distinct", x], "distinct_count": lambda x: ["F.count_distinct", x], "estdc": lambda x: ["F.approx_count_distinct", x],
    "max": lambda x: ["F.max", x], "min": lambda x: ["F.min", x], "median": lambda x: ["F.percentile_approx", x, lit(0.5)],
    "mode": lambda x: ["F.mode", x], "range": lambda x: B("-", ["F.max", x], ["F.min", x]),
    "stdev": lambda x: ["F.stddev_samp", x], "stdevp": lambda x: ["F.stddev_pop", x], "sum": lambda x: ["F.sum", x],
    "sumsq": lambda x: ["F.sum", B("*", x, x)], "var": lambda x: ["F.var_samp", x], "varp": lambda x: ["F.var_pop", x],
    "first": lambda x: ["F.first", x, lit(True)], "last": lambda x: ["F.last", x, lit(True)],
    "list": lambda x: ["F.collect_list", x], "values": lambda x: ["F.collect_set", x],
    "earliest": lambda x: ["F.first", x, lit(True)], "latest": lambda x: ["F.last", x, lit(True)],
    "rate": _rate, "earliest_time": lambda x: ["F.min", _times(x)], "latest_time": lambda x: ["F.max", _times(x)],
}
del STATS1["c"]
STATS0 = {"count": lambda: ["F.count", lit(1)], "earliest_time": lambda: ["F.min", col("_time")], "latest_time": lambda: ["F.max", col("_time")]}
ORDERED = {"earliest", "latest", "rate"}
PERC = re.compile(r"(exactperc|percentile|upperperc|perc|p)(\d+(?:\.\d+)?)\Z")


def stats_fn(name, x):
    m = PERC.match(name)
    if m:
        frac = round(float(m[2]) / 100, 10)
        return ["F.percentile" if m[1] == "exactperc" else "F.percentile_approx", x, lit(frac)]
    return STATS1[name](x)


def stats_default_name(name):
    m = PERC.match(name)
    return ("perc" if m[1] == "p" else m[1]) if m else name


def stats_arg(a):
    """a: ["f", name] | ["eval", expr]"""
    return col(a[1]) if a[0] == "f" else spl.tx(a[1])


def stats_call_plan(call):
    name, a = call["fn"], call["arg"]
    if a is None:
        return STATS0[name]()
    if a[0] == "eval" and name == "count":
        return ["F.count", ["F.when", spl.tx(a[1]), lit(1)]]
    return stats_fn(name, stats_arg(a))


@st.composite
def stats_call(draw, weird=False, evals=True, ordered=True, names=None):
    pool = sorted(n for n in STATS1 if ordered or n not in ORDERED)
    k = draw(st.sampled_from(["0", "1", "1", "1", "perc"] + (["eval"] if evals else [])))
    alias = draw(st.one_of(st.none(), spl.names(weird)))
    if k == "0":
        return {"fn": draw(st.sampled_from(sorted(STATS0))), "arg": None, "as": alias}
    f = names or spl.names(weird)
    if k == "perc":
        fn = draw(st.sampled_from(["perc", "p", "exactperc", "percentile", "upperperc"])) + str(draw(st.integers(1, 99)))
        return {"fn": fn, "arg": ["f", draw(f)], "as": alias}
    fn = draw(st.sampled_from(names_list(pool)))
    if k == "eval":
        e = draw(spl.expr("b" if fn == "count" else "n", 2, weird))
        return {"fn": fn, "arg": ["eval", as_condition(e) if fn == "count" else e], "as": alias}
    return {"fn": fn, "arg": ["f", draw(f)], "as": alias}


def as_condition(e):
    """count(eval(X)) counts the rows on which a condition holds."""
    boolean = e[0] in ("c", "and", "or", "not", "in", "bool") or (e[0] == "call" and spl.pick_sig(e[1], e[2])[2] == "b")
    return e if boolean else ["call", "isnotnull", [e]]


def names_list(p):
    return p


def spell_stats_call(c, sty):
    if c["arg"] is None:
        t = c["fn"] + (["", "()"][sty.pick(2)] if c["fn"] == "count" else "()")
    elif c["arg"][0] == "f":
        t = f"{c['fn']}({sty.osp()}{spl.spell_field(c['arg'][1], sty)}{sty.osp()})"
    else:
        t = f"{c['fn']}({sty.osp()}eval({sty.osp()}{spl.spell(c['arg'][1], sty, top=True)}{sty.osp()}){sty.osp()})"
    if c["as"] is not None:
        t += f" {sty.kw('AS')} {spell_alias(c['as'], sty)}"
    return t


def spell_stats_calls(calls, sty):
    return sep_list([spell_stats_call(c, sty) for c in calls], sty)


def bys(weird=False):
    return st.lists(st.tuples(spl.names(weird), st.one_of(st.none(), st.none(), spans())).map(list), max_size=3, unique_by=lambda t: t[0])


def spell_bys(by, sty):
    if not by:
        return ""
    return f" {sty.kw('by')} " + sep_list([spl.spell_name(f, sty) + (f" span={spell_span(s, sty)}" if s else "") for f, s in by], sty)


def by_plan(by):
    return [["F.window", col(f), lit(span_text(s))] if s else col(f) for f, s in by]


def agg_plan(df, calls, by):
    for c in calls:
        if c["fn"] in ORDERED:
            df = ["orderBy", df, TIME_ORDER]
    aggs = [["alias", stats_call_plan(c), c["as"] if c["as"] is not None else stats_default_name(c["fn"])] for c in calls]
    return ["agg", ["groupBy", df, by_plan(by)], aggs]


# ---------------------------------------------------------------- commands

GEN, RENDER, PLAN = {}, {}, {}


def command(name):
    def deco(cls):
        GEN[name], RENDER[name], PLAN[name] = cls.gen, cls.render, cls.plan
        return cls
    return deco


def src(df):
    return MAIN if df is None else df


@command("search")
class Search:
    @staticmethod
    def gen(weird=False, depth=2):
        return st.fixed_dictionaries({"c": st.just("search"), "e": sexpr(depth, weird)})

    @staticmethod
    def render(c, sty):
        """leading: {"idx": [...], "kw": bool}"""
        parts = [f"index={spell_index(i, sty)}" for i in c.get("idx", [])]
        if c["e"] is not None:
            e = c["e"]
            # an OR binds tighter than the AND of the parts
            parts.append(spell_s(e, sty, 0))
        if c.get("rot") and len(parts) > 1:
            parts = [parts[-1]] + parts[:-1]
        sep = [" ", " AND ", "  "][sty.pick(3)] if c.get("idx") else " "
        body = sep.join(parts)
        return body if c.get("implied") else f"{sty.kw('search')} {body}"

    @staticmethod
    def plan(c, df):
        if c.get("idx") and df is None:
            tabs = sorted(set(c["idx"]))
            df = ["table", tabs[0]]
            for t in tabs[1:]:
                df = ["unionByName", df, ["table", t], True]
        df = src(df)
        return df if c["e"] is None else ["where", df, stx(c["e"])]


def spell_index(i, sty):
    if re.match(r"[A-Za-z_][A-Za-z0-9_:-]*\Z", i) and i.upper() not in spl.RESERVED and sty.pick(3) != 1:
        return i
    return spl.esc_double(i)


def index_names(weird=False):
    base = st.sampled_from(["main", "web", "win", "idx_1", "os-logs", "a"])
    return st.one_of(base, base, st.from_regex(r"[a-z][a-z0-9_]{1,5} [a-z]{1,3}", fullmatch=True)) if weird else base


def leading_search(weird=False, depth=2):
    return st.fixed_dictionaries({"c": st.just("search"), "idx": st.lists(index_names(weird), max_size=3), "implied": st.booleans(), "rot": st.booleans(),
                                  "e": st.one_of(st.none(), sexpr(depth, weird), sexpr(depth, weird))}).filter(lambda c: c["idx"] or c["e"])


@command("where")
class Where:
    @staticmethod
    def gen(weird=False, depth=2):
        return st.fixed_dictionaries({"c": st.just("where"), "e": spl.expr("b", depth, weird)})

    @staticmethod
    def render(c, sty):
        return f"{sty.kw('where')} {spl.spell(c['e'], sty)}"

    @staticmethod
    def plan(c, df):
        return ["where", src(df), spl.tx(c["e"])]


@command("eval")
class Eval:
    @staticmethod
    def gen(weird=False, depth=2):
        return st.fixed_dictionaries({"c": st.just("eval"), "as": some(st.tuples(spl.names(weird), spl.expr("any", depth, weird)).map(list), 1, 3)})

    @staticmethod
    def render(c, sty):
        parts = []
        for n, e in c["as"]:
            s1, s2 = [("", ""), (" ", " "), ("", " "), (" ", "")][sty.pick(4)]
            parts.append(f"{spl.spell_name(n, sty)}{s1}={s2}{spl.spell(e, sty)}")
        return f"{sty.kw('eval')} " + sty.comma().join(parts)

    @staticmethod
    def plan(c, df):
        df = src(df)
        for n, e in c["as"]:
            df = ["withColumn", df, n, spl.tx(e)]
        return df


@command("fields")
class Fields:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("fields"), "neg": st.booleans(), "f": fieldlist(weird=weird)})

    @staticmethod
    def render(c, sty):
        sign = "- " if c["neg"] else ["", "+ "][sty.pick(2)]
        return f"{sty.kw('fields')} {sign}" + sep_list([spl.spell_name(f, sty) for f in c["f"]], sty)

    @staticmethod
    def plan(c, df):
        if c["neg"]:
            return ["df.drop", src(df), [["cols", ["list", *[lit(f) for f in c["f"]]]]]]
        return ["select", src(df), [col(f) for f in c["f"]]]


@command("table")
class Table:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("table"), "f": fieldlist(weird=weird)})

    @staticmethod
    def render(c, sty):
        return f"{sty.kw('table')} " + sep_list([spl.spell_name(f, sty) for f in c["f"]], sty)

    @staticmethod
    def plan(c, df):
        return ["select", src(df), [col(f) for f in c["f"]]]


@command("rename")
class Rename:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("rename"), "p": some(st.tuples(spl.names(weird), spl.names(weird)).map(list), 1, 3)})

    @staticmethod
    def render(c, sty):
        return f"{sty.kw('rename')} " + sty.comma().join(f"{spl.spell_name(a, sty)} {sty.kw('AS')} {spell_alias(b, sty)}" for a, b in c["p"])

    @staticmethod
    def plan(c, df):
        df = src(df)
        for a, b in c["p"]:
            df = ["withColumnRenamed", df, a, b]
        return df


@command("head")
class Head:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("head"), "n": counts(10 ** 6), "how": st.sampled_from(["pos", "limit", "<", "<=", "(<)", "(>)", "(>=)"]),
                                      "keep": st.sampled_from([None, False, True]), "null": st.sampled_from([None, False])})

    @staticmethod
    def render(c, sty):
        n = c["n"]
        body = {"pos": f"{n}", "limit": f"limit={n}", "<": f"count{sty.osp()}<{sty.osp()}{n}", "<=": f"count{sty.osp()}<={sty.osp()}{n}",
                "(<)": f"(count{sty.osp()}<{sty.osp()}{n})", "(>)": f"({n}{sty.osp()}>{sty.osp()}count)", "(>=)": f"({n}{sty.osp()}>={sty.osp()}count)"}[c["how"]]
        opts = ""
        if c["keep"] is not None:
            opts += " keeplast=" + spell_bool(c["keep"], sty)
        if c["null"] is not None:
            opts += " null=" + spell_bool(c["null"], sty)
        return f"{sty.kw('head')} {body}{opts}"

    @staticmethod
    def plan(c, df):
        n = c["n"]
        if c["how"] in ("<=", "(>=)"):
            n += 1
        if c["keep"] and c["how"] not in ("pos", "limit"):
            n += 1
        return ["limit", src(df), n]


@command("sort")
class Sort:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("sort"), "n": st.one_of(st.none(), st.just(0), st.integers(1, 99999)),
                                      "f": some(st.tuples(st.sampled_from(["", "+", "-"]), spl.names(weird)).map(list), 1, 4),
                                      "desc": st.booleans()})

    @staticmethod
    def render(c, sty):
        n = "" if c["n"] is None else (f"{c['n']} " if not sty.flip() else f"limit={c['n']} ")
        fs = ", ".join(s + spl.spell_field(f, sty) for s, f in c["f"])
        if sty.flip():
            fs = fs.replace(", ", ",")if "'" not in fs else fs
        return f"{sty.kw('sort')} {n}{fs}" + (f" {'desc' if not sty.flip() else 'd'}" if c["desc"] and "desc_ok" in c else "")

    @staticmethod
    def plan(c, df):
        flip = c["desc"] and "desc_ok" in c
        df = ["orderBy", src(df), [["m.desc" if (s == "-") != flip else "m.asc", col(f)] for s, f in c["f"]]]
        n = 10000 if c["n"] is None else c["n"]
        return df if n == 0 else ["limit", df, n]


REGEX_BITS = [r"\d+", r"\w{1,3}", "foo", "a.b", r"\.", "[a-z]+", "[^\"]*", "x|y", r"\s", "é", "'", r"\\", "(?:ab)+", "^", "$", "a b", "%", "/"]


def regexes():
    return st.lists(st.sampled_from(REGEX_BITS), min_size=1, max_size=4).map("".join)


def spell_regex(r):
    """The text between the quotes is the pattern; a quote in it is escaped (which, kept, is also a regex for a quote)."""
    return '"' + r.replace('"', '\\"') + '"'


@command("regex")
class Regex:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("regex"), "f": st.one_of(st.none(), spl.names(weird)), "neg": st.booleans(), "re": regexes()})

    @staticmethod
    def render(c, sty):
        if c["f"] is None:
            return f"{sty.kw('regex')} {spell_regex(c['re'])}"
        return f"{sty.kw('regex')} {spl.spell_name(c['f'], sty)}{'!=' if c['neg'] else '='}{spell_regex(c['re'])}"

    @staticmethod
    def plan(c, df):
        p = ["F.regexp_like", col(c["f"] or "_raw"), lit(c["re"])]
        return ["where", src(df), ["~", p] if c["neg"] and c["f"] is not None else p]


@command("rex")
class Rex:
    @staticmethod
    def gen(weird=False):
        body = st.sampled_from([r"\d+", "[a-z]+", r"[^ ]+", ".*", "(?:a|b)", "x"])
        group = st.tuples(st.just("g"), st.from_regex(r"[a-z][a-z0-9_]{0,5}", fullmatch=True), body, st.booleans(), st.sampled_from(["?<", "?<", "?P<"])).map(list)
        unnamed = st.tuples(st.just("u"), st.none(), body, st.booleans()).map(list)
        bit = st.tuples(st.just("r"), st.sampled_from(REGEX_BITS)).map(list)
        return st.fixed_dictionaries({"c": st.just("rex"), "f": st.one_of(st.none(), spl.names(weird)), "mm": st.booleans(),
                                      "q": st.sampled_from(["", "", "?", "+", "{1,2}"]), "parts": some(st.one_of(bit, group, group, unnamed), 1, 6).filter(
                                          lambda ps: 1 <= len([p for p in ps if p[0] == "g"]) == len({p[1] for p in ps if p[0] == "g"}))})

    @staticmethod
    def pattern(c, meaning=False):
        """The pattern written, or (meaning) what Spark has to be given: it knows only (?<letters and digits>."""
        out, names, stack, n = "", [], 0, 0
        for p in c["parts"]:
            if p[0] == "r":
                out += p[1]
                continue
            n += 1
            if p[0] == "g":
                names.append((p[1], n))
                out += "(" if meaning else f"({p[4]}{p[1]}>"
            else:
                out += "("
            out += p[2]
            if p[3] and stack < 3:      # leave open: the following parts nest
                stack += 1
            else:
                out += ")"
        return out + (")" + c.get("q", "")) * stack, names

    @staticmethod
    def render(c, sty):
        o = []
        if c["f"] is not None:
            o.append(f"field={spl.spell_name(c['f'], sty)}")
        if c["mm"]:
            o.append("max_match=1")
        return f"{sty.kw('rex')} {join_opts(o, sty)}{spell_regex(Rex.pattern(c)[0])}"

    @staticmethod
    def plan(c, df):
        df = src(df)
        pat, names = Rex.pattern(c, True)
        for n, i in names:
            df = ["withColumn", df, n, ["F.regexp_extract", col(c["f"] or "_raw"), lit(pat), lit(i)]]
        return df


@command("spath")
class Spath:
    @staticmethod
    def gen(weird=False):
        path = st.one_of(st.from_regex(r"[a-z]{1,4}(\.[a-z0-9_]{1,4}){0,3}", fullmatch=True).filter(lambda p: all(w.upper() not in spl.RESERVED for w in p.split(".")) and len(p) > 1),
                         st.sampled_from(["a b", "x.y{}", "k.é"]))
        return st.fixed_dictionaries({"c": st.just("spath"), "in": st.one_of(st.none(), spl.names(weird)), "out": st.one_of(st.none(), spl.names(weird)), "path": path,
                                      "pos": st.booleans()})

    @staticmethod
    def render(c, sty):
        o = []
        if c["in"] is not None:
            o.append(f"input={spl.spell_name(c['in'], sty)}")
        if c["out"] is not None:
            o.append(f"output={spl.spell_name(c['out'], sty)}")
        simple = re.match(r"[a-z0-9_.]+\Z", c["path"])
        p = c["path"] if simple and sty.pick(2) == 0 else spl.esc_double(c["path"])
        if not c["pos"] or not simple:
            o.append(f"path={p}")
            return f"{sty.kw('spath')} " + " ".join(o)
        return f"{sty.kw('spath')} {join_opts(o, sty)}{c['path']}"

    @staticmethod
    def plan(c, df):
        return ["withColumn", src(df), c["out"] if c["out"] is not None else c["path"], ["F.get_json_object", col(c["in"] or "_raw"), lit("$." + c["path"])]]


@command("fillnull")
class Fillnull:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("fillnull"), "v": st.one_of(st.none(), spl.plain_strings().filter(lambda s: s != ""), st.integers(0, 99).map(str)),
                                      "f": fieldlist(0, 3, weird)})

    @staticmethod
    def render(c, sty):
        v = ""
        if c["v"] is not None:
            simple = re.match(r"[a-zA-Z0-9]+\Z", c["v"]) and c["v"].upper() not in spl.RESERVED
            v = "value=" + (c["v"] if simple and not sty.flip() else spl.esc_double(c["v"])) + " "
        return f"{sty.kw('fillnull')} {v}" + " ".join(spl.spell_name(f, sty) for f in c["f"])

    @staticmethod
    def plan(c, df):
        a = [["value", lit(c["v"] if c["v"] is not None else "0")]]
        if c["f"]:
            a.append(["subset", ["list", *[lit(f) for f in c["f"]]]])
        return ["df.fillna", src(df), a]


@command("bin")
class Bin:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("bin"), "span": spans(), "f": spl.names(weird), "as": st.one_of(st.none(), spl.names(weird))})

    @staticmethod
    def render(c, sty):
        a = f" {sty.kw('AS')} {spell_alias(c['as'], sty)}" if c["as"] is not None else ""
        return f"{sty.kw('bin')} span={spell_span(c['span'], sty)} {spl.spell_name(c['f'], sty)}{a}"

    @staticmethod
    def plan(c, df):
        n = c["as"] if c["as"] is not None else c["f"]
        return ["withColumn", ["withColumn", src(df), n, ["F.window", col(c["f"]), lit(span_text(c["span"]))]], n, col(n + ".start")]


@command("addtotals")
class AddTotals:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("addtotals"), "f": fieldlist(1, 4, weird), "name": st.one_of(st.none(), spl.names(weird))})

    @staticmethod
    def render(c, sty):
        o = f"fieldname={spell_alias(c['name'], sty)} " if c["name"] is not None else ""
        o += ["", "row=t ", "col=f "][sty.pick(3)]
        return f"{sty.kw('addtotals')} {o}" + " ".join(spl.spell_name(f, sty) for f in c["f"])

    @staticmethod
    def plan(c, df):
        def one(f):
            return ["m.otherwise", ["F.when", ["m.isNotNull", ["m.cast", col(f), lit("double")]], col(f)], lit(0.0)]
        r = one(c["f"][0])
        for f in c["f"][1:]:
            r = B("+", r, one(f))
        return ["withColumn", src(df), c["name"] if c["name"] is not None else "Total", r]


@command("convert")
class Convert:
    FMT = {None: "MM/dd/yyyy HH:mm:ss", "%Y-%m-%d": "yyyy-MM-dd", "%H:%M": "HH:mm", "%Y": "yyyy", "%d/%m/%y %I %p": "dd/MM/yy hh a"}

    @staticmethod
    def gen(weird=False):
        fn = st.sampled_from(["ctime", "ctime", "memk", "rmunit", "rmcomma"])
        return st.fixed_dictionaries({"c": st.just("convert"), "fmt": st.sampled_from([None, None, "%Y-%m-%d", "%H:%M", "%Y", "%d/%m/%y %I %p"]),
                                      "fs": some(st.tuples(fn, spl.names(weird), st.one_of(st.none(), spl.names(weird))).map(list), 1, 3)})

    @staticmethod
    def render(c, sty):
        o = f"timeformat={spl.esc_double(c['fmt'])} " if c["fmt"] is not None else ""
        return f"{sty.kw('convert')} {o}" + " ".join(f"{fn}({spl.spell_field(f, sty)})" + (f" {sty.kw('AS')} {spell_alias(a, sty)}" if a is not None else "")
                                                     for fn, f, a in c["fs"])

    @staticmethod
    def plan(c, df):
        df = src(df)
        for fn, f, a in c["fs"]:
            df = ["withColumn", df, a if a is not None else f, convert_fn(fn, col(f), Convert.FMT[c["fmt"]])]
        return df


def convert_fn(fn, x, fmt):
    if fn == "ctime":
        return ["F.date_format", x, lit(fmt)]
    if fn == "memk":
        re_ = r"(?i)^(\d*\.?\d+)([kmg])$"
        unit = ["F.upper", ["F.regexp_extract", x, lit(re_), lit(2)]]
        w = ["F.when", B("==", unit, lit("K")), lit(1.0)]
        w = ["m.when", w, B("==", unit, lit("M")), lit(1024.0)]
        w = ["m.when", w, B("==", unit, lit("G")), lit(1048576.0)]
        return B("*", ["m.cast", ["F.regexp_extract", x, lit(re_), lit(1)], lit("double")], ["m.otherwise", w, lit(1.0)])
    if fn == "rmunit":
        return ["m.cast", ["F.regexp_extract", x, lit(r"(?i)^(\d*\.?\d+)(\w*)$"), lit(1)], lit("double")]
    return ["m.cast", ["F.regexp_replace", x, lit(","), lit("")], lit("double")]


@command("top")
class Top:
    KIND = "top"

    @staticmethod
    def gen(weird=False):
        simple = st.one_of(spl.plain_names(), st.sampled_from(["n", "my_count"]))
        return st.fixed_dictionaries({"c": st.sampled_from(["top", "rare"]), "n": st.one_of(st.none(), counts(500)), "f": fieldlist(1, 3, weird),
                                      "cf": st.one_of(st.none(), simple, spl.names(weird)), "pf": st.one_of(st.none(), spl.names(weird)),
                                      "sc": st.sampled_from([None, True, False]), "sp": st.sampled_from([None, True, False])})

    @staticmethod
    def render(c, sty):
        o = []
        if c["cf"] is not None:
            o.append(f"countfield={spell_alias(c['cf'], sty)}")
        if c["pf"] is not None:
            o.append(f"percentfield={spell_alias(c['pf'], sty)}")
        if c["sc"] is not None:
            o.append(f"showcount={spell_bool(c['sc'], sty)}")
        if c["sp"] is not None:
            o.append(f"showperc={spell_bool(c['sp'], sty)}")
        n = ""
        if c["n"] is not None:
            if sty.flip():
                o.append(f"limit={c['n']}")
            else:
                n = f"{c['n']} "
        if o and sty.flip():
            o.reverse()
        return f"{sty.kw(c['c'])} {n}{join_opts(o, sty)}" + sep_list([spl.spell_name(f, sty) for f in c["f"]], sty)

    @staticmethod
    def plan(c, df):
        cf = c["cf"] if c["cf"] is not None else "count"
        df = ["agg", ["groupBy", src(df), [col(f) for f in c["f"]]], [["alias", ["F.count"], cf]]]
        if c["sp"] is not False:
            df = ["withColumn", df, c["pf"] if c["pf"] is not None else "percent",
                  B("/", B("*", lit(100), col(cf)), ["F.expr", lit(f"sum({spl.sql_ident(cf)}) OVER ()")])]
        df = ["orderBy", df, [["m.desc" if c["c"] == "top" else "m.asc", col(cf)]]]
        n = 10 if c["n"] is None else c["n"]
        if n:
            df = ["limit", df, n]
        if c["sc"] is False:
            df = ["df.drop", df, [["cols", ["list", lit(cf)]]]]
        return df


RENDER["rare"], PLAN["rare"] = Top.render, Top.plan


@command("stats")
class Stats:
    @staticmethod
    def gen(weird=False, evals=True, ordered=True):
        return st.fixed_dictionaries({"c": st.just("stats"), "a": some(stats_call(weird, evals, ordered), 1, 4), "by": bys(weird)})

    @staticmethod
    def render(c, sty):
        return f"{sty.kw('stats')} {spell_stats_calls(c['a'], sty)}{spell_bys(c['by'], sty)}"

    @staticmethod
    def plan(c, df):
        return agg_plan(src(df), c["a"], c["by"])


@command("makeresults")
class MakeResults:
    @staticmethod
    def gen(weird=False):
        return st.fixed_dictionaries({"c": st.just("makeresults"), "n": st.one_of(st.none(), counts(9999)), "ann": st.sampled_from([None, False, True]),
                                      "srv": st.one_of(st.none(), st.sampled_from(["s1", "a b"])), "grp": st.one_of(st.none(), st.sampled_from(["g1", "x y"]))})

    @staticmethod
    def render(c, sty):
        o = []
        if c["n"] is not None:
            o.append(f"count={c['n']}")
        if c["ann"] is not None:
            o.append(f"annotate={spell_bool(c['ann'], sty)}")
        if c["srv"] is not None:
            o.append(f"splunk_server={spell_alias(c['srv'], sty)}")
        if c["grp"] is not None:
            o.append(f"splunk_server_group={spell_alias(c['grp'], sty)}")
        if sty.flip():
            o.reverse()
        return f"{sty.kw('makeresults')} " + " ".join(o)

    @staticmethod
    def plan(c, df):
        df = ["withColumn", ["range", lit(0), lit(1 if c["n"] is None else c["n"]), lit(1)], "_time", ["F.current_timestamp"]]
        if c["ann"]:
            for n in ("_raw", "host", "source", "sourcetype"):
                df = ["withColumn", df, n, lit(None)]
            df = ["withColumn", df, "splunk_server", lit(c["srv"] if c["srv"] is not None else "local")]
            df = ["withColumn", df, "splunk_server_group", lit(c["grp"])]
        return df


@command("join")
class Join:
    @staticmethod
    def gen(weird=False, sub=None):
        return st.fixed_dictionaries({"c": st.just("join"), "type": st.sampled_from([None, "inner", "left", "outer"]), "ut": st.sampled_from([None, False, True]),
                                      "early": st.sampled_from([None, False, True]), "max": st.booleans(), "f": fieldlist(1, 3, weird),
                                      "sub": sub if sub is not None else pipelines(1, 2, weird, nested=False)})

    @staticmethod
    def render(c, sty):
        o = []
        if c["type"] is not None:
            o.append(f"type={c['type'] if not sty.flip() else spl.esc_double(c['type'])}")
        if c["ut"] is not None:
            o.append(f"usetime={spell_bool(c['ut'], sty)}")
        if c["early"] is not None:
            o.append(f"earlier={spell_bool(c['early'], sty)}")
        if c["max"]:
            o.append("max=1")
        if sty.flip():
            o.reverse()
        return (f"{sty.kw('join')} {join_opts(o, sty)}" + sep_list([spl.spell_name(f, sty) for f in c["f"]], sty) + " " + sub_text(c["sub"], sty))

    @staticmethod
    def plan(c, df):
        right = plan_pipeline(c["sub"])
        cond = None
        for f in c["f"]:
            x = B("==", col(f"LEFT.{f}"), col(f"RIGHT.{f}"))
            cond = x if cond is None else B("&", cond, x)
        if c["ut"]:
            cond = B("&", cond, B("<=" if c["early"] is False else ">=", col("LEFT._time"), col("RIGHT._time")))
        return ["join", ["alias", src(df), "LEFT"], ["alias", right, "RIGHT"], cond, JOIN_TYPES[c["type"]]]


JOIN_TYPES = {None: "inner", "inner": "inner", "left": "left", "outer": "left"}     # SPL: outer is another word for left


def sub_text(p, sty):
    return f"[{sty.osp()}{render_pipeline(p, sty, True)}{sty.osp()}]"


@command("multisearch")
class MultiSearch:
    @staticmethod
    def gen(weird=False, sub=None):
        return st.fixed_dictionaries({"c": st.just("multisearch"), "subs": st.lists(sub if sub is not None else pipelines(1, 2, weird, nested=False), min_size=2, max_size=4)})

    @staticmethod
    def render(c, sty):
        return f"{sty.kw('multisearch')} " + [" ", "\n", "  "][sty.pick(3)].join(sub_text(p, sty) for p in c["subs"])

    @staticmethod
    def plan(c, df):
        r = plan_pipeline(c["subs"][0])
        for p in c["subs"][1:]:
            r = ["unionByName", r, plan_pipeline(p), True]
        return r


@command("lookup")
class Lookup:
    @staticmethod
    def gen(weird=False):
        pair = st.tuples(spl.names(weird), st.one_of(st.none(), spl.names(weird))).map(list)
        return st.fixed_dictionaries({"c": st.just("lookup"), "name": st.sampled_from(["assets", "my_lookup", "ident", "l1"]),
                                      "keys": some(pair, 1, 3), "out": st.one_of(st.none(), some(pair, 1, 3)).map(out_ok)})

    @staticmethod
    def render(c, sty):
        # aliased and plain fields are not mixed (the parser refuses that)
        def lst(ps):
            return sep_list([spl.spell_name(a, sty) + (f" {sty.kw('AS')} {spell_alias(b, sty)}" if b is not None else "") for a, b in ps], sty)
        t = f"{sty.kw('lookup')} {c['name']} {lst(uniform(c['keys']))}"
        if c["out"] is not None:
            t += f" {sty.kw('OUTPUT')} {lst(uniform(c['out']))}"
        return t

    @staticmethod
    def plan(c, df):
        cond = None
        for a, b in uniform(c["keys"]):
            x = B("==", col("main." + (b if b is not None else a)), col("lookup." + a))
            cond = x if cond is None else B("&", cond, x)
        outs = [col("lookup.*")] if c["out"] is None else [["alias", col("lookup." + a), b if b is not None else a] for a, b in uniform(c["out"])]
        return ["select", ["join", ["alias", src(df), "main"], ["alias", ["table", c["name"]], "lookup"], cond, "left"], [col("main.*"), *outs]]


def out_ok(x):
    return x


def uniform(pairs):
    if all(b is None for _, b in pairs):
        return pairs
    return [[a, b if b is not None else a + "2"] for a, b in pairs]


@command("datamodel")
class DataModel:
    @staticmethod
    def gen(weird=False):
        w = st.from_regex(r"[A-Z][A-Za-z_]{2,8}", fullmatch=True).filter(lambda w: w.upper() not in spl.RESERVED and w.lower() not in ("search", "flat"))
        return st.fixed_dictionaries({"c": st.just("datamodel"), "m": w, "node": st.one_of(st.none(), st.lists(w, min_size=1, max_size=6)),
                                      "so": st.sampled_from([None, True, False])})

    @staticmethod
    def render(c, sty):
        o = f"summariesonly={spell_bool(c['so'], sty)} " if c["so"] is not None else ""
        node = f" {'.'.join(c['node'])}" if c["node"] else ""
        return f"{sty.kw('datamodel')} {o}{c['m']}{node} search"

    @staticmethod
    def plan(c, df):
        return ["table", ".".join([c["m"], *(c["node"] or [])[1:]])]


def spell_tstats_call(c, sty):
    t = "count" if c["arg"] is None else f"{c['fn']}({spl.spell_field(c['arg'][1], sty)})"
    return t + (f" {sty.kw('AS')} {c['as']}" if c["as"] is not None else "")


def tstats_calls(cs):
    """Calls stand side by side without commas: `count` takes no parentheses and, unnamed, must not stand before another call."""
    cs = [c if c["arg"] is not None or c["fn"] == "count" else dict(c, fn="count") for c in cs]
    cs = [c if c["as"] is None or spl.is_bare(c["as"]) else dict(c, **{"as": f"q{i}"}) for i, c in enumerate(cs)]
    return [c if c["arg"] is not None or c["as"] is not None else dict(c, **({"as": f"n{i}"} if i < len(cs) - 1 else {})) for i, c in enumerate(cs)]


def no_terms(e):
    """tstats filters compare fields: no bare terms."""
    if e is None:
        return None
    if e[0] == "t":
        return ["sc", "=", "host", ["s", e[1]]]
    if e[0] in ("sc", "sin"):       # true/t/false/f is a truth value there, a word in searches
        return [["s", x[1]] if isinstance(x, list) and x[0] == "bw" and x[1].lower() in ("true", "t", "false", "f") else
                [["s", v[1]] if v[0] == "bw" and v[1].lower() in ("true", "t", "false", "f") else v for v in x] if isinstance(x, list) and x and isinstance(x[0], list) else x
                for x in e]
    return [no_terms(x) if isinstance(x, list) and x and x[0] in ("t", "and", "or", "not", "sc", "sin") else x for x in e] if e[0] in ("and", "or", "not") else e


def spell_tw(e, sty):
    """AND and OR mixed only with parentheses, so that their relative precedence does not matter."""
    if e[0] in ("and", "or"):
        parts = [f"({spell_tw(x, sty)})" if x[0] in ("and", "or") and x[0] != e[0] else spell_tw(x, sty) for x in e[1:]]
        sep = f" {sty.kw('OR')} " if e[0] == "or" else [f" {sty.kw('AND')} ", " "][sty.pick(2)]
        return sep.join(parts)
    if e[0] == "not":
        return f"{sty.kw('NOT')} " + (f"({spell_tw(e[1], sty)})" if e[1][0] in ("and", "or") else spell_tw(e[1], sty))
    return spell_s(e, sty, 9)


@command("tstats")
class Tstats:
    @staticmethod
    def gen(weird=False):
        w = st.from_regex(r"[A-Z][A-Za-z_]{2,8}", fullmatch=True).filter(lambda w: w.upper() not in spl.RESERVED)
        dotted = st.lists(w, min_size=1, max_size=3).map(".".join)
        return st.fixed_dictionaries({"c": st.just("tstats"), "m": dotted, "a": some(stats_call(weird, evals=False, ordered=False), 1, 3).map(tstats_calls),
                                      "e": st.one_of(st.none(), sexpr(2, False, True)).map(no_terms), "by": bys(weird),
                                      "node": st.one_of(st.none(), st.none(), st.lists(w, min_size=1, max_size=3)), "so": st.sampled_from([None, True, False])})

    @staticmethod
    def render(c, sty):
        o = f"summariesonly={spell_bool(c['so'], sty)} " if c["so"] is not None else ""
        w = f" {sty.kw('where')} {spell_tw(c['e'], sty)}" if c["e"] is not None else ""
        node = f" {sty.kw('where')} nodename={'.'.join(c['node'])}" if c.get("node") else ""
        calls = " ".join(spell_tstats_call(x, sty) for x in c["a"])
        return f"{sty.kw('tstats')} {o}{calls} {sty.kw('from')} datamodel={c['m']}{node}{w}{spell_bys(c['by'], sty)}"

    @staticmethod
    def plan(c, df):
        df = ["table", ".".join([c["m"], *(c.get("node") or [])[1:]])]
        if c["e"] is not None:
            df = ["where", df, stx(c["e"])]
        return agg_plan(df, c["a"], c["by"])


# ---------------------------------------------------------------- pipelines

ROW = ["search", "where", "eval", "fields", "table", "rename", "head", "sort", "regex", "rex", "spath", "fillnull", "bin", "addtotals", "convert", "stats", "lookup"]
NEST = ["join"]
_C = {}


def any_command(weird=False, nested=True, kinds=None, lead=False):
    ks = list(kinds or ROW) + (NEST if nested else [])
    return st.sampled_from(ks).flatmap(lambda k: GEN[k](weird=weird))


LEADS = ["search", "search", "search", "makeresults", "multisearch", "datamodel", "tstats", "any"]


@st.composite
def pipelines(draw, min_size=1, max_size=4, weird=False, nested=True, kinds=None, leads=None):
    n = draw(st.integers(min_size, max_size))
    lead = draw(st.sampled_from([x for x in (leads or LEADS) if nested or x != "multisearch"]))
    if lead == "search":
        first = draw(leading_search(weird))
    elif lead == "any":
        first = draw(any_command(weird, nested, kinds))
    else:
        first = draw(GEN[lead](weird=weird))
    return [first] + [draw(any_command(weird, nested, kinds)) for _ in range(n - 1)]


def render_command(c, sty):
    return RENDER[c["c"]](c, sty)


def render_pipeline(p, sty=None, nested=False):
    sty = sty or Style()
    out = []
    for i, c in enumerate(p):
        if i > 0 and c.get("implied"):
            c = dict(c, implied=False)
        out.append(render_command(c, sty))
    text = out[0]
    for x in out[1:]:
        text += [" | ", "|", "\n| ", " |", "\n  |  "][sty.pick(5)] + x
    return text


def plan_pipeline(p, df=None):
    for c in p:
        df = PLAN[c["c"]](c, df)
    return df


def kinds_in(p):
    out = []
    for c in p:
        out.append(c["c"])
        for s in ([c["sub"]] if "sub" in c else c.get("subs", [])):
            out += kinds_in(s)
    return out
