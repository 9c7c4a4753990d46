"""C16 time spans, snaps and formats keep their meaning."""
import datetime

import cmds
import evalplan
import run
import spl
from cmds import UNITS
from core import Sub, Violation
from hypothesis import strategies as st
from spl import B, Style, lit

SNAPS = {"seconds": "second", "minutes": "minute", "hours": "hour", "days": "day", "weeks": "week", "months": "month"}
ALIASES = {u: sorted(set(a)) for u, a in UNITS.items()}


def unit_spelling():
    return st.sampled_from([(u, a) for u in sorted(ALIASES) for a in ALIASES[u]]).map(list)


def cased(a, k):
    return [a, a, a.upper(), a.capitalize()][k % 4]


AMOUNT = st.one_of(st.integers(1, 60), st.integers(1, 9), st.sampled_from([10, 24, 30, 100, 365, 1440, 86400]))

# ---------------------------------------------------------------- spans (bin, stats by, tstats by)


def span_cases():
    return st.fixed_dictionaries({"where": st.sampled_from(["bin", "bin", "stats", "tstats"]), "n": AMOUNT, "u": unit_spelling(), "k": st.integers(0, 3),
                                  "f": spl.plain_names(), "as": st.one_of(st.none(), spl.plain_names()), "g": st.one_of(st.none(), spl.plain_names())})


def check_span(case):
    unit, a = case["u"]
    t = f"{case['n']}{cased(a, case['k'])}"
    f, g = case["f"], case["g"]
    win = ["F.window", cmds.col(f), lit(f"{case['n']} {unit}")]
    if case["where"] == "bin":
        q = f"bin span={t} {f}" + (f" AS {case['as']}" if case["as"] else "")
        n = case["as"] or f
        exp = ["withColumn", ["withColumn", cmds.MAIN, n, win], n, cmds.col(n + ".start")]
    elif case["where"] == "stats":
        by = ([cmds.col(g)] if g else []) + [win]
        q = f"stats count by {(g + ', ') if g else ''}{f} span={t}"
        exp = ["agg", ["groupBy", cmds.MAIN, by], [["alias", ["F.count", lit(1)], "count"]]]
    else:
        q = f"tstats count from datamodel=M by {(g + ' ') if g else ''}{f} span={t}"
        by = ([cmds.col(g)] if g else []) + [win]
        exp = ["agg", ["groupBy", ["table", "M"], by], [["alias", ["F.count", lit(1)], "count"]]]
    plan, code = run.observe(q)
    evalplan.expect_plan(exp, plan, repr(q), query=q, code=code)
    return {"nontrivial": True, "labels": [case["where"], unit], "sample": q}


# ---------------------------------------------------------------- relative_time

def rel_cases():
    part = st.fixed_dictionaries({"sign": st.sampled_from(["", "-", "-", "+"]), "n": st.one_of(st.none(), AMOUNT, AMOUNT), "u": unit_spelling(), "k": st.integers(0, 3)})
    off = st.fixed_dictionaries({"sign": st.sampled_from(["", "-", "+"]), "n": AMOUNT, "u": unit_spelling(), "k": st.integers(0, 3)})
    return st.fixed_dictionaries({"t": st.one_of(st.just(["call", "now", []]), spl.plain_names().map(lambda n: ["f", n]), spl.expr("n", 1)),
                                  "span": st.one_of(st.none(), part, part), "snap": unit_spelling(), "k": st.integers(0, 3), "off": st.one_of(st.none(), st.none(), off),
                                  "bare": st.booleans(), "in": st.sampled_from(["eval", "where", "nested"]), "y": spl.styles()})


def spec(case):
    s = ""
    if case["span"]:
        p = case["span"]
        s += ("-" if p["sign"] == "-" and p["n"] is None else p["sign"] if p["n"] is not None else "") + ("" if p["n"] is None else str(p["n"])) + cased(p["u"][1], p["k"])
    s += "@" + cased(case["snap"][1], case["k"])
    if case["off"]:
        o = case["off"]
        s += f"{o['sign']}{o['n']}{cased(o['u'][1], o['k'])}"
    return s


def moved(x, p):
    n = 1 if p["n"] is None else p["n"]
    n = -n if p["sign"] == "-" else n
    return B("+", x, ["F.expr", lit(f"INTERVAL {n} {p['u'][0].upper()}")])


def check_rel(case):
    s = spec(case)
    bare = case["bare"] and "+" not in s
    t = case["t"]
    text = f"relative_time({spl.spell(t, Style(case['y']))}, {s if bare else chr(34) + s + chr(34)})"
    x = ["F.to_timestamp", spl.tx(t)]
    if case["span"]:
        x = moved(x, case["span"])
    x = ["F.date_trunc", lit(SNAPS[case["snap"][0]]), x]
    if case["off"]:
        x = moved(x, case["off"])
    if case["in"] == "eval":
        q, exp = f"eval zz={text}", ["withColumn", cmds.MAIN, "zz", x]
    elif case["in"] == "where":
        q, exp = f"where _time >= {text}", ["where", cmds.MAIN, B(">=", cmds.col("_time"), x)]
    else:
        q, exp = f"eval zz=if(_time < {text}, 1, 0)", ["withColumn", cmds.MAIN, "zz", ["m.otherwise", ["F.when", B("<", cmds.col("_time"), x), lit(1)], lit(0)]]
    plan, code = run.observe(q)
    evalplan.expect_plan(exp, plan, repr(q), query=q, code=code)
    return {"nontrivial": bool(case["span"] or case["off"]), "labels": [case["snap"][0], "span" if case["span"] else "", "off" if case["off"] else "", "bare" if bare else "quoted"],
            "sample": q}


# ---------------------------------------------------------------- formats

def off_text(off, style):
    a, h, m = "+-"[off < 0], abs(off) // 60, abs(off) % 60
    return {"z": f"{a}{h:02d}{m:02d}", ":z": f"{a}{h:02d}:{m:02d}", "::z": f"{a}{h:02d}:{m:02d}"}[style]


def directive(d, t):
    """What Splunk prints for a directive at instant t."""
    y, mo, day, h, mi, s, ns, zone, off = t
    dt = datetime.datetime(y, mo, day, h, mi, s)
    std = {"H": "%H", "I": "%I", "M": "%M", "S": "%S", "T": "%H:%M:%S", "F": "%Y-%m-%d", "A": "%A", "a": "%a", "d": "%d", "j": "%j", "b": "%b", "B": "%B",
           "m": "%m", "y": "%y", "Y": "%Y", "p": "%p"}
    if d in std:
        return dt.strftime(std[d])
    frac = f"{ns:09d}"
    if d in ("f", "6N", "6Q"):
        return frac[:6]
    if d in ("N", "9N", "9Q"):
        return frac
    if d in ("3N", "Q", "3Q"):
        return frac[:3]
    if d == "k":
        return str(h)
    if d == "e":
        return str(day)
    if d == "Z":
        return zone
    if d == "%":
        return "%"
    if d == ":::z":
        return off_text(off, "z")[:3] if off % 60 == 0 else None      # only whole hours are comparable
    return off_text(off, d)


SUPPORTED = ["f", "H", "I", "k", "M", "N", "3N", "6N", "9N", "p", "Q", "3Q", "6Q", "9Q", "S", "T", "Z", "z", ":z", "::z", ":::z", "F", "A", "a", "d", "e", "j",
             "b", "B", "m", "y", "Y", "%"]
REFUSED = ["c", "+", "Ez", "s", "X", "x", "V", "U", "E", "i", "P", "G", "4N", "1Q", "_", " ", "-d", "::::z", "L", "n", ":"]


def formats():
    d = st.sampled_from(SUPPORTED).map(lambda x: ["d", x])
    ch = st.sampled_from(list("-/: .,_T|()=+;ZtatyMdHm'") + ["at", "of", "T", "o'clock", "é", "日", "[", "]", "#", "{", "}", "''", "<", "Q1", "year"])
    t = ch.map(lambda x: ["t", x])
    return st.lists(st.one_of(d, d, t), min_size=1, max_size=8).filter(ok_format)


def fmt_text(parts):
    return "".join("%" + x if k == "d" else x for k, x in parts)


def ok_format(parts):
    for a, b in zip(parts, parts[1:]):
        # %Z / %z followed by text is fine; nothing merges because every directive is spelled out with its own %
        pass
    t = fmt_text(parts)
    return any(k == "d" for k, _ in parts) and not spl.SNAPLIKE.match(t)


def expected_layout(parts):
    out = []
    for t in evalplan.INSTANTS:
        s = ""
        for k, x in parts:
            v = x if k == "t" else directive(x, t)
            s = None if v is None or s is None else s + v
        out.append(s)
    return out


def fmt_cases():
    return st.fixed_dictionaries({"fn": st.sampled_from(["strftime", "strftime", "strptime", "convert"]), "p": formats(), "x": st.one_of(
        spl.plain_names().map(lambda n: ["f", n]), spl.expr("n", 1)), "f": spl.plain_names()})


def check_fmt(case):
    fmt = fmt_text(case["p"])
    q = fmt_query(case, fmt)
    code = run.must(q)
    import fakespark
    try:
        plan = fakespark.run(code)
    except fakespark.Rejected as e:
        raise Violation(f"the program for {q!r} is not valid PySpark: {e}", query=q, code=code)
    call = find(plan, "F.to_timestamp" if case["fn"] == "strptime" else "F.date_format")
    if call is None or len(call) != 3 or call[2][0] not in ("lit", "py") or not isinstance(call[2][1], str):
        raise Violation(f"{q!r} does not format a time", query=q, code=code)
    got = evalplan.layouts(call[2][1])
    if got is None:
        raise Violation(f"{q!r} gives the Spark format {call[2][1]!r}, which Spark does not accept", query=q, code=code)
    import ast
    got = ast.literal_eval(got[len("layouts:"):])
    want = expected_layout(case["p"])
    if any(w is not None and w != g for w, g in zip(want, got)):
        raise Violation(f"{q!r}: format {fmt!r} became {call[2][1]!r}, which prints {got} instead of {want}", query=q, code=code)
    x = cmds.col(case["f"]) if case["fn"] == "convert" else spl.tx(case["x"])
    col = "zz" if case["fn"] != "convert" else case["f"]
    evalplan.expect_plan(["withColumn", cmds.MAIN, col, [call[0], x, call[2]]], plan, repr(q), query=q, code=code)
    return {"nontrivial": len(case["p"]) > 1, "labels": [case["fn"]] + sorted({x for k, x in case["p"] if k == "d"}), "sample": q}


def fmt_query(case, fmt):
    s = spl.esc_double(fmt)
    if case["fn"] == "convert":
        return f"convert timeformat={s} ctime({case['f']})"
    return f"eval zz={case['fn']}({spl.spell(case['x'])}, {s})"


def find(p, head):
    if isinstance(p, list) and p:
        if p[0] == head and len(p) == 3:
            return p
        for x in p:
            r = find(x, head)
            if r is not None:
                return r
    return None


# ---------------------------------------------------------------- refused formats

def bad_cases():
    return st.fixed_dictionaries({"fn": st.sampled_from(["strftime", "strptime", "convert"]), "a": st.lists(st.sampled_from(SUPPORTED[:-1]).map(lambda x: ["d", x]), max_size=3),
                                  "bad": st.sampled_from(REFUSED), "b": st.lists(st.sampled_from(SUPPORTED[:-1]).map(lambda x: ["d", x]), max_size=2), "end": st.booleans()})


def check_bad(case):
    fmt = fmt_text(case["a"]) + ("%" if case["end"] else "%" + case["bad"] + fmt_text(case["b"]))
    q = fmt_query({"fn": case["fn"], "x": ["f", "a"], "f": "a"}, fmt)
    try:
        code = run.transpile(q)
    except run.Refused:
        return {"nontrivial": True, "labels": [case["bad"] if not case["end"] else "end"], "sample": q}
    raise Violation(f"{q!r}: the format {fmt!r} has a directive without translation but gives code", query=q, code=code)


# ---------------------------------------------------------------- plain formats: no directive at all

def weekday_cases():
    return [{"fn": fn} for fn in ("strftime", "strptime", "convert")]


def check_weekday(case):
    q = fmt_query({"fn": case["fn"], "x": ["f", "a"], "f": "a"}, "%w")
    try:
        code = run.transpile(q)
    except run.Refused:
        return {"nontrivial": True, "labels": ["refused"], "sample": q}
    import fakespark
    call = find(fakespark.run(code), "F.to_timestamp" if case["fn"] == "strptime" else "F.date_format")
    if call is None or evalplan.layouts(call[2][1]) is None:
        raise Violation(f"{q!r} gives a Spark format {call and call[2][1]!r} that Spark does not accept", query=q, code=code)
    return {"nontrivial": True, "labels": ["translated"], "sample": q}


SUBS = [
    Sub("spans", check_span, span_cases, quick=3000, rule="bin / stats by / tstats by with every unit spelling in any letter case and any amount"),
    Sub("relative", check_rel, rel_cases, quick=5000, rule="relative_time with sign x amount x unit x snap x offset, bare or quoted, in eval, where and calls; non-trivial: it moves the time"),
    Sub("formats", check_fmt, fmt_cases, quick=5000, rule="format of 1-8 directives and texts; judged by what it prints at five instants; non-trivial: more than one part"),
    Sub("format_refused", check_bad, bad_cases, quick=1500, rule="a directive without Spark equivalent, or a lone %, among supported ones"),
    Sub("weekday_real", check_weekday, cases=weekday_cases, quick=3, rule="%w"),
]
