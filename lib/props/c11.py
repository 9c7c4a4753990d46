"""C11 commands and options are read as written: the tree holds what the query says, defaults for the rest."""
import cmds
import run
import spl
import tree
from core import Sub, Violation, expect_equal
from hypothesis import strategies as st

W = st.from_regex(r"[a-z][a-z0-9_]{0,6}", fullmatch=True).filter(lambda w: w.upper() not in spl.RESERVED and w not in ("t", "f", "true", "false", "search", "flat", "desc", "d", "sortby", "null")
                                                                 and not cmds.RELTIME.match(w))
TEXT = st.one_of(W, W, st.from_regex(r"[A-Za-z][A-Za-z0-9 ,.;|()\[\]=<>#'é]{0,7}[a-z.;]", fullmatch=True).filter(lambda s: not spl.SNAPLIKE.match(s) and not cmds.RELTIME.match(s)))
ANYTEXT = st.text(alphabet=st.sampled_from(list("ab ,.;|()[]=<>#'é\n/*$@{}`")), max_size=6)
NUM = st.one_of(st.integers(0, 20), st.integers(0, 2**31), st.sampled_from([2**63 - 1, 0, 1]))
SPAN = cmds.spans()
BOOL = st.booleans()
FIELD = lambda n: ["Field", n]  # noqa: E731
SORTDEF = [["+", FIELD("_no")]]

# option name, attribute, kind, default
OPTS = {
    "addtotals": ("AddTotalsCommand", [("row", "row", "b", True), ("col", "col", "b", False), ("fieldname", "field_name", "s", "Total"), ("labelfield", "label_field", "s", None), ("label", "label", "s", "Total")]),
    "bin": ("BinCommand", [("span", "span", "span", None), ("minspan", "min_span", "span", None), ("bins", "bins", "n", None), ("start", "start", "n", None), ("end", "end", "n", None), ("aligntime", "align_time", "s", None)]),
    "collect": ("CollectCommand", [("index", "index", "s!", None), ("addtime", "add_time", "b", True), ("file", "file", "s", None), ("host", "host", "s", None), ("marker", "marker", "s", None),
                                   ("output_format", "output_format", "s", "raw"), ("run_in_preview", "run_in_preview", "b", False), ("spool", "spool", "b", True), ("source", "source", "s", None),
                                   ("sourcetype", "source_type", "s", None), ("testmode", "test_mode", "b", False)]),
    "convert": ("ConvertCommand", [("timeformat", "timeformat", "s", "%m/%d/%Y %H:%M:%S")]),
    "datamodel": ("DataModelCommand", [("strict_fields", "strict_fields", "b", False), ("allow_old_summaries", "allow_old_summaries", "b", False), ("summariesonly", "summaries_only", "b", True)]),
    "dedup": ("DedupCommand", [("keepevents", "keep_events", "b", False), ("keepempty", "keep_empty", "b", False), ("consecutive", "consecutive", "b", False)]),
    "eventstats": ("EventStatsCommand", [("allnum", "all_num", "b", False)]),
    "streamstats": ("StreamStatsCommand", [("current", "current", "b", True), ("window", "window", "n", 0)]),
    "stats": ("StatsCommand", [("partitions", "partitions", "n", 1), ("allnum", "all_num", "b", False), ("delim", "delim", "s", " ")]),
    "format": ("FormatCommand", [("mvsep", "mv_sep", "s", "OR"), ("maxresults", "max_results", "n", 0)]),
    "inputlookup": ("InputLookupCommand", [("append", "append", "b", False), ("strict", "strict", "b", False), ("start", "start", "n", 0), ("max", "max", "n", 1000000000)]),
    "join": ("JoinCommand", [("type", "join_type", "join", "inner"), ("usetime", "use_time", "b", False), ("earlier", "earlier", "b", True), ("overwrite", "overwrite", "b", True), ("max", "max", "n", 1)]),
    "makeresults": ("MakeResultsCommand", [("count", "count", "n", 1), ("annotate", "annotate", "b", False), ("splunk_server", "server", "s", "local"), ("splunk_server_group", "server_group", "s", None)]),
    "top": ("TopCommand", [("limit", "n", "n", 10), ("countfield", "count_field", "s", "count"), ("otherstr", "other_str", "s", "OTHER"), ("percentfield", "percent_field", "s", "percent"),
                           ("showcount", "show_count", "b", True), ("showperc", "show_percent", "b", True), ("useother", "use_other", "b", False)]),
    "rex": ("RexCommand", [("field", "field", "s", "_raw"), ("max_match", "max_match", "n", 1), ("offset_field", "offset_field", "s", None), ("mode", "mode", "sed", None)]),
    "tstats": ("TStatsCommand", [("prestats", "prestats", "b", False), ("local", "local", "b", False), ("append", "append", "b", False), ("summariesonly", "summaries_only", "b", False),
                                 ("include_reduced_buckets", "include_reduced_buckets", "b", False), ("allow_old_summaries", "allow_old_summaries", "b", False), ("chunk_size", "chunk_size", "n", 10000000),
                                 ("fillnull_value", "fillnull_value", "s", None)]),
    "map": ("MapCommand", [("maxsearches", "max_searches", "n", 10)]),
    "mvcombine": ("MvCombineCommand", []), "mvexpand": ("MvExpandCommand", []), "return": ("ReturnCommand", []), "tail": ("TailCommand", []), "head": ("HeadCommand", []),
    "fields": ("FieldsCommand", []), "table": ("TableCommand", []), "fillnull": ("FillNullCommand", []), "regex": ("RegexCommand", []), "rename": ("RenameCommand", []), "sort": ("SortCommand", []),
    "spath": ("SPathCommand", []), "lookup": ("LookupCommand", []), "multisearch": ("MultiSearchCommand", []),
}
OPTS["rare"] = ("RareCommand", OPTS["top"][1])
FIELDLIST = st.lists(W, min_size=1, max_size=4, unique=True)
CALL = st.fixed_dictionaries({"fn": st.sampled_from(["count", "avg", "max", "sum", "dc", "values", "first"]), "a": W, "as": st.one_of(st.none(), W)})
CALLS = st.lists(CALL, min_size=1, max_size=3)


def named(cs):
    """`count count` is the count of the field count for tstats"""
    return [dict(c, **{"as": f"n{i}"}) if c["fn"] == "count" and not c["as"] and i < len(cs) - 1 else c for i, c in enumerate(cs)]


BYS = st.lists(st.tuples(W, st.one_of(st.none(), SPAN)).map(list), max_size=3, unique_by=lambda t: t[0])
COND = st.recursive(st.tuples(st.just("cmp"), W, st.sampled_from(["=", "!=", "<", ">", "<=", ">="]), st.one_of(st.integers(0, 99), W.map(lambda w: '"' + w + '"'))).map(list),
                    lambda x: st.tuples(st.sampled_from(["AND", "OR"]), x, x).map(list), max_leaves=4)
NEXT = st.one_of(st.none(), st.none(), st.sampled_from(["| head 3", "| where a=1", "|table x", "| mvexpand zz limit=9"]))

VALUE = {"b": BOOL, "n": NUM, "s": TEXT, "s!": TEXT, "span": SPAN, "join": st.sampled_from(["inner", "left", "outer"]), "sed": st.just("sed")}
BODY = {
    "addtotals": st.fixed_dictionaries({"f": st.lists(W, max_size=3)}), "bin": st.fixed_dictionaries({"f": W, "as": st.one_of(st.none(), W)}),
    "collect": st.fixed_dictionaries({"f": st.lists(W, max_size=3)}),
    "convert": st.fixed_dictionaries({"convs": st.lists(st.tuples(st.sampled_from(["ctime", "mktime", "num", "auto", "none", "dur2sec", "rmunit"]), W, st.one_of(st.none(), W)).map(list), min_size=1, max_size=3)}),
    "datamodel": st.fixed_dictionaries({"m": W, "d": st.one_of(st.none(), st.lists(W, min_size=2, max_size=3).map(".".join)), "mode": st.sampled_from([None, "search", "flat"])}),
    "dedup": st.fixed_dictionaries({"n": st.one_of(st.none(), NUM), "f": FIELDLIST, "sort": st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["", "+", "-"]), W).map(list), min_size=1, max_size=3))}),
    "eventstats": st.fixed_dictionaries({"calls": CALLS, "by": st.lists(W, max_size=3)}), "streamstats": st.fixed_dictionaries({"calls": CALLS, "by": BYS}),
    "stats": st.fixed_dictionaries({"calls": CALLS, "by": BYS}),
    "format": st.fixed_dictionaries({"d": st.one_of(st.none(), st.lists(ANYTEXT, min_size=6, max_size=6))}),
    "inputlookup": st.fixed_dictionaries({"t": W, "e": st.one_of(st.none(), COND)}),
    "join": st.fixed_dictionaries({"f": FIELDLIST, "sub": W}), "makeresults": st.just({}),
    "top": st.fixed_dictionaries({"n": st.one_of(st.none(), NUM), "f": FIELDLIST, "by": st.one_of(st.none(), FIELDLIST)}), "rex": st.fixed_dictionaries({"re": st.sampled_from(["(?<x>a+)", "s/a b/c/g", "(?<y>\\d+) [^|]"])}),
    "tstats": st.fixed_dictionaries({"calls": CALLS.map(named), "m": W, "e": st.one_of(st.none(), COND), "by": BYS}),
    "map": st.fixed_dictionaries({"sub": W, "v": ANYTEXT.filter(lambda s: "*" not in s and s != "" and not spl.SNAPLIKE.match(s))}),
    "mvcombine": st.fixed_dictionaries({"f": W, "d": st.one_of(st.none(), ANYTEXT)}), "mvexpand": st.fixed_dictionaries({"f": W, "n": st.one_of(st.none(), NUM)}),
    "return": st.fixed_dictionaries({"n": st.one_of(st.none(), NUM), "k": st.sampled_from(["plain", "$", "="]), "f": st.lists(st.tuples(W, W).map(list), min_size=1, max_size=3)}),
    "tail": st.fixed_dictionaries({"n": NUM}),
    "head": st.fixed_dictionaries({"n": st.one_of(NUM, st.tuples(W, st.sampled_from(["<", ">=", "="]), st.integers(0, 99)).map(list)), "kl": st.one_of(st.none(), BOOL), "nu": st.one_of(st.none(), BOOL)}),
    "fields": st.fixed_dictionaries({"sign": st.sampled_from(["", "+ ", "- "]), "f": FIELDLIST}), "table": st.fixed_dictionaries({"f": FIELDLIST}),
    "fillnull": st.fixed_dictionaries({"v": st.one_of(st.none(), TEXT), "f": st.lists(W, max_size=3)}), "regex": st.fixed_dictionaries({"f": st.one_of(st.none(), W), "op": st.sampled_from(["=", "!="]), "re": ANYTEXT}),
    "rename": st.fixed_dictionaries({"p": st.lists(st.tuples(W, TEXT).map(list), min_size=1, max_size=3)}),
    "sort": st.fixed_dictionaries({"n": st.one_of(st.none(), NUM), "lim": BOOL, "f": st.lists(st.tuples(st.sampled_from(["", "+", "-"]), W).map(list), min_size=1, max_size=3), "desc": BOOL}),
    "spath": st.fixed_dictionaries({"i": st.one_of(st.none(), W), "o": st.one_of(st.none(), W), "p": st.lists(W, min_size=1, max_size=3).map(".".join), "kw": BOOL}),
    "lookup": st.fixed_dictionaries({"t": W, "f": st.lists(st.tuples(W, W).map(list), min_size=1, max_size=3), "al": BOOL, "out": st.one_of(st.none(), st.fixed_dictionaries({"f": FIELDLIST, "al": BOOL}))}),
    "multisearch": st.fixed_dictionaries({"subs": st.lists(W, min_size=2, max_size=4)}),
}
BODY["rare"] = BODY["top"]
LEADING = {"makeresults", "datamodel", "tstats", "inputlookup", "multisearch"}


@st.composite
def queries(draw, kinds=None):
    k = draw(st.sampled_from(kinds or sorted(BODY)))
    opts = []
    for name, _, kind, _ in OPTS[k][1]:
        if kind == "s!" or draw(st.booleans()):
            opts.append([name, draw(VALUE[kind])])
    opts = draw(st.permutations(opts)) if len(opts) > 1 else opts
    return {"c": k, "o": [list(o) for o in opts], "b": draw(BODY[k]), "y": draw(spl.styles()), "next": draw(NEXT), "at": draw(st.sampled_from(["top", "top", "sub"]))}


def quoted(s):
    return '"' + s + '"'


def spell_text(s, sty):
    return s if W_OK(s) and sty.flip() else quoted(s)


def W_OK(s):
    return bool(s) and all(c in "abcdefghijklmnopqrstuvwxyz0123456789_" for c in s) and s[0].isalpha()


def spell_opt(name, v, kind, sty):
    eq = "=" if name in ("limit",) else ["=", "=", " = ", "= "][sty.pick(4)]
    t = {"b": lambda: cmds.spell_bool(v, sty), "n": lambda: str(v), "s": lambda: spell_text(v, sty), "s!": lambda: spell_text(v, sty), "span": lambda: cmds.spell_span(v, sty),
         "join": lambda: v, "mark": lambda: "MARK", "sed": lambda: ["sed", "SED", '"sed"'][sty.pick(3)]}[kind]()
    return f"{name}{eq}{t} "


def spell_call(c, sty):
    t = c["fn"] if c["fn"] == "count" else f"{c['fn']}({c['a']})"
    return t + (f" {sty.kw('AS')} {c['as']}" if c["as"] else "")


def call_tree(c):
    t = ["Call", {"name": c["fn"], "args": [] if c["fn"] == "count" else [FIELD(c["a"])]}]
    return ["Alias", {"expr": t, "name": c["as"]}] if c["as"] else t


def spell_cond(e, top=True):
    if e[0] == "cmp":
        return f"{e[1]}{e[2]}{e[3]}"
    t = f"{spell_cond(e[1], False)} {e[0]} {spell_cond(e[2], False)}"
    return t if top else f"({t})"


def const(v):
    return ["StrValue", v[1:-1]] if isinstance(v, str) else ["IntValue", v]


def cond_tree(e):
    if e[0] == "cmp":
        return ["Binary", {"left": FIELD(e[1]), "symbol": e[2], "right": const(e[3])}]
    return ["Binary", {"left": cond_tree(e[1]), "symbol": e[0], "right": cond_tree(e[2])}]


def span_tree(s):
    return ["TimeSpan", {"value": s[0], "scale": s[1]}] if s else None


def by_text(by, sty):
    return cmds.spell_bys(by, sty)


def by_tree(by):
    return [["MaybeSpannedField", {"field": FIELD(f), "span": span_tree(s)}] for f, s in by]


def sub_tree(w):
    return ["Pipeline", {"commands": [["SearchCommand", {"expr": ["Binary", {"left": FIELD("sub_"), "symbol": "=", "right": FIELD(w)}]}]]}]


def alias_tree(f, a):
    return ["Alias", {"expr": FIELD(f), "name": a}]


def body(k, b, sty, opts):
    """(text of what follows the options, attributes it stands for)"""
    fl = lambda fs: cmds.sep_list(fs, sty)  # noqa: E731
    FS = lambda fs: [FIELD(f) for f in fs]  # noqa: E731
    if k == "addtotals":
        return " ".join(b["f"]), {"fields": FS(b["f"])}
    if k == "collect":
        return (fl(b["f"]) if b["f"] else ""), {"fields": FS(b["f"])}
    if k == "bin":
        return (b["f"] + (f" {sty.kw('as')} {b['as']}" if b["as"] else "")), {"field": alias_tree(b["f"], b["as"]) if b["as"] else FIELD(b["f"])}
    if k == "convert":
        t = " ".join(f"{fn}({f})" + (f" {sty.kw('as')} {a}" if a else "") for fn, f, a in b["convs"])
        return t, {"convs": [["FieldConversion", {"func": fn, "field": FIELD(f), "alias": FIELD(a) if a else None}] for fn, f, a in b["convs"]]}
    if k == "datamodel":
        return " ".join(x for x in [b["m"], b["d"], b["mode"] if b["d"] else None] if x), {"data_model_name": b["m"], "dataset_name": b["d"], "search_mode": b["mode"] if b["d"] else None}
    if k == "dedup":
        s = b["sort"]
        t = (" " + sty.kw("sortby") + " " + " ".join(sg + f for sg, f in s)) if s else ""
        tr = ["SortCommand", {"fields_to_sort": [[sg or None, FIELD(f)] for sg, f in s] if s else SORTDEF, "count": 0, "descending": False}]
        return " ".join(b["f"]) + t, {"num_results": 1 if b["n"] is None else b["n"], "fields": FS(b["f"]), "sort_by": tr}
    if k == "eventstats":
        return fl([spell_call(c, sty) for c in b["calls"]]) + (f" {sty.kw('by')} " + fl(b["by"]) if b["by"] else ""), {"funcs": [call_tree(c) for c in b["calls"]], "by": FS(b["by"])}
    if k == "streamstats":
        return fl([spell_call(c, sty) for c in b["calls"]]) + by_text(b["by"], sty), {"funcs": [call_tree(c) for c in b["calls"]], "by": by_tree(b["by"])}
    if k == "stats":
        return fl([spell_call(c, sty) for c in b["calls"]]) + by_text(b["by"], sty), {"funcs": [call_tree(c) for c in b["calls"]], "by": by_tree(b["by"]) if b["by"] else None, "dedup_split_vals": False}
    if k == "format":
        names = ["row_prefix", "col_prefix", "col_sep", "col_end", "row_sep", "row_end"]
        return (" ".join(quoted(x) for x in b["d"]) if b["d"] else ""), dict(zip(names, b["d"] or ["(", "(", "AND", ")", "OR", ")"]))
    if k == "inputlookup":
        return b["t"] + (f" {sty.kw('where')} {spell_cond(b['e'])}" if b["e"] else ""), {"table_name": b["t"], "where_expr": cond_tree(b["e"]) if b["e"] else None}
    if k == "join":
        return fl(b["f"]) + f" [search sub_={b['sub']}]", {"fields": FS(b["f"]), "sub_search": sub_tree(b["sub"])}
    if k == "makeresults":
        return "", {}
    if k in ("top", "rare"):
        t = fl(b["f"]) + (f" {sty.kw('by')} " + fl(b["by"]) if b["by"] else "")
        at = {"fields": FS(b["f"]), "by": FS(b["by"]) if b["by"] else None}
        if b["n"] is not None:
            at["n"] = b["n"]
        return t, at
    if k == "rex":
        return quoted(b["re"]), {"regex": b["re"]}
    if k == "tstats":
        t = " ".join(spell_call(c, sty) for c in b["calls"]) + f" {sty.kw('from')} datamodel={b['m']}" + (f" {sty.kw('where')} {spell_cond(b['e'])}" if b["e"] else "") + by_text(b["by"], sty)
        return t, {"exprs": [call_tree(c) for c in b["calls"]], "datamodel": b["m"], "nodename": None, "where_condition": cond_tree(b["e"]) if b["e"] else None, "by_fields": by_tree(b["by"]) if b["by"] else None, "by_prefix": None}
    if k == "map":
        inner = f"search sub_={b['sub']} x=\"{b['v']}\""
        s = sub_tree(b["sub"])
        e = s[1]["commands"][0][1]
        e["expr"] = ["Binary", {"left": e["expr"], "symbol": "AND", "right": ["Binary", {"left": FIELD("x"), "symbol": "=", "right": ["StrValue", b["v"]]}]}]
        return "search=" + quoted(inner.replace("\\", "\\\\").replace('"', '\\"')), {"search": s}
    if k == "mvcombine":
        return ("" if b["d"] is None else f"delim={quoted(b['d'])} ") + b["f"], {"delim": b["d"], "field": FIELD(b["f"])}
    if k == "mvexpand":
        return b["f"] + ("" if b["n"] is None else f" limit={b['n']}"), {"field": FIELD(b["f"]), "limit": b["n"]}
    if k == "return":
        n = "" if b["n"] is None else f"{b['n']} "
        if b["k"] == "=":
            return n + " ".join(f"{a}={f}" for a, f in b["f"]), {"count": ["IntValue", 1 if b["n"] is None else b["n"]], "fields": [alias_tree(f, a) for a, f in b["f"]]}
        return n + " ".join(("$" if b["k"] == "$" else "") + f for f, _ in b["f"]), {"count": ["IntValue", 1 if b["n"] is None else b["n"]], "fields": FS([f for f, _ in b["f"]])}
    if k == "tail":
        return str(b["n"]), {"n": b["n"]}
    if k == "head":
        n = b["n"]
        t, e = (f"{n[0]}{n[1]}{n[2]}", cond_tree(["cmp", *n])) if isinstance(n, list) else (["", "limit="][sty.pick(2)] + str(n), ["IntValue", n])
        for name, v in (("keeplast", b["kl"]), ("null", b["nu"])):
            t += "" if v is None else f" {name}={cmds.spell_bool(v, sty)}"
        return t, {"eval_expr": e, "keep_last": ["BoolValue", bool(b["kl"])], "null_option": ["BoolValue", bool(b["nu"])]}
    if k == "fields":
        return b["sign"] + fl(b["f"]), {"remove_fields": b["sign"] == "- ", "fields": FS(b["f"])}
    if k == "table":
        return fl(b["f"]), {"fields": FS(b["f"])}
    if k == "fillnull":
        v = "" if b["v"] is None else f"value={spell_text(b['v'], sty)} "
        return v + " ".join(b["f"]), {"value": "0" if b["v"] is None else b["v"], "fields": FS(b["f"]) if b["f"] else None}
    if k == "regex":
        f, op = (b["f"], b["op"]) if b["f"] else (None, None)
        return (f + op if f else "") + quoted(b["re"]), {"item": [FIELD(f), op] if f else None, "regex": b["re"]}
    if k == "rename":
        return ", ".join(f"{f} {sty.kw('as')} {spell_text(a, sty)}" for f, a in b["p"]), {"alias": [alias_tree(f, a) for f, a in b["p"]]}
    if k == "sort":
        n = "" if b["n"] is None else ("limit=" if b["lim"] else "") + f"{b['n']} "
        return n + ", ".join(s + f for s, f in b["f"]) + (" " + sty.kw("desc") if b["desc"] else ""), {"fields_to_sort": [[s or None, FIELD(f)] for s, f in b["f"]], "count": 10000 if b["n"] is None else b["n"], "descending": b["desc"]}
    if k == "spath":
        t = "".join(f"{n}={v} " for n, v in (("input", b["i"]), ("output", b["o"])) if v)
        return t + ("path=" if b["kw"] else "") + b["p"], {"input": b["i"] or "_raw", "output": b["o"], "path": b["p"]}
    if k == "lookup":
        def items(fs, al):
            return ", ".join(f"{f} {sty.kw('AS')} {a}" if al else f for f, a in fs), [["AliasedField", {"field": FIELD(f), "alias": a}] if al else FIELD(f) for f, a in fs]
        t, fs = items(b["f"], b["al"])
        out = None
        if b["out"]:
            ot, of = items([[f, f + "_o"] for f in b["out"]["f"]], b["out"]["al"])
            t += f" OUTPUT {ot}"
            out = ["LookupOutput", {"kv": "OUTPUT", "fields": of}]
        return f"{b['t']} {t}", {"dataset": b["t"], "fields": fs, "output": out}
    if k == "multisearch":
        return " ".join(f"[search sub_={w}]" for w in b["subs"]), {"pipelines": [sub_tree(w) for w in b["subs"]]}
    raise AssertionError(k)


def build(case):
    """query text and the tree of its command"""
    k, b = case["c"], case["b"]
    sty = spl.Style(case["y"])
    cls, table = OPTS[k]
    kinds = {n: kd for n, _, kd, _ in table}
    attrs = {a: d for _, a, _, d in table}
    given = dict(map(tuple, case["o"]))
    for n, a, kd, _ in table:
        if n in given:
            attrs[a] = span_tree(given[n]) if kd == "span" else given[n]
    text = "".join(spell_opt(n, v, kinds[n], sty) for n, v in case["o"])
    t, more = body(k, b, sty, given)
    attrs.update(more)
    if k == "map":
        text = t + " " + text
    else:
        text += t
    n = f"{b['n']} " if k in ("dedup", "top", "rare") and b["n"] is not None else ""
    text = f"{sty.kw(k)} {n}{text}".rstrip(" ")
    return text, [cls, attrs]


def check(case):
    import spl_transpiler as s
    text, want = build(case)
    q = ("| " if case["c"] in LEADING else "search z=9 | ") + text + (" " + case["next"] if case["next"] else "")
    if case["at"] == "sub":
        q = f"search a=1 | join k [{q}]"
    try:
        p = s.parse(q)
    except ValueError as e:
        raise Violation(f"{q!r} is refused: {str(e)[:300]}", query=q)
    cs = tree.debug(repr(p))[1]["commands"]
    if case["at"] == "sub":
        if len(cs) != 2:
            raise Violation(f"{q!r}: {len(cs)} commands read, 2 written", query=q)
        cs = cs[1][1]["sub_search"][1]["commands"]
    first = 0 if case["c"] in LEADING else 1
    n = first + 1 + (1 if case["next"] else 0)
    if len(cs) != n:
        raise Violation(f"{q!r}: {len(cs)} commands read, {n} written", query=q)
    got = cs[first]
    expect_equal(want, got, f"tree of {text!r}", query=q)
    return {"nontrivial": bool(case["o"]) or bool(case["b"]), "labels": [case["c"]], "sample": q}


# ---- text that is not consumed is an error

JUNK = [")", "]", "(", "[", '"', "'", "a b)", "= =", "|", "| |", ",", "| nosuchcommand x", "| search", "[search a=1", "| eval x=", "| where", "\\", "`m`", "| stats", "| table", "&", "~", "| head x y", "| tail", "| rename a"]


def junk():
    return st.fixed_dictionaries({"q": queries(), "j": st.integers(0, len(JUNK) - 1), "sp": st.sampled_from([" ", "\n", "  "])})


def check_junk(case):
    import spl_transpiler as s
    text, _ = build(case["q"])
    q = ("| " if case["q"]["c"] in LEADING else "search z=9 | ") + text
    bad = q + case["sp"] + JUNK[case["j"]]
    try:
        s.parse(q)
    except ValueError as e:
        raise Violation(f"{q!r} is refused: {str(e)[:200]}", query=q)
    try:
        p = s.parse(bad)
    except ValueError:
        return {"nontrivial": True, "labels": [JUNK[case["j"]]], "sample": bad}
    raise Violation(f"{bad!r} is accepted: {repr(p)[:600]}", query=bad)


# ---- an option whose value is of the wrong kind is an error

WRONG = {"b": ["maybe", "3", '"x y"', "1.5", "yes_no"], "n": ["t", "abc", '"3"', "1.5", '""', "-1h"], "span": ["abc", '"x"', "t", "2.5"], "s": ["3", "1.5", "-1d@d", "10.0.0.0/8"], "s!": ["3", "1.5"], "join": ["3"], "sed": ["foo", "3"]}


@st.composite
def wrongs(draw):
    c = draw(queries([k for k in sorted(BODY) if OPTS[k][1]]))
    n, _, kind, _ = draw(st.sampled_from(OPTS[c["c"]][1]))
    c["o"] = [o for o in c["o"] if o[0] != n]
    return dict(c, bad=[n, draw(st.sampled_from(WRONG[kind]))], pos=draw(st.integers(0, len(c["o"]))), next=None, at="top")


def check_wrong(case):
    import spl_transpiler as s
    good, _ = build(case)
    mark = "zzmark"
    c = dict(case, y=[], o=case["o"][:case["pos"]] + [[mark, None]] + case["o"][case["pos"]:])
    table = OPTS[c["c"]][1]
    OPTS[c["c"]] = (OPTS[c["c"]][0], table + [(mark, mark, "mark", None)])
    try:
        text, _ = build(c)
    finally:
        OPTS[c["c"]] = (OPTS[c["c"]][0], table)
    text = text.replace("zzmark=MARK", "=".join(case["bad"]))
    q = ("| " if case["c"] in LEADING else "search z=9 | ") + text
    try:
        p = s.parse(q)
    except ValueError:
        return {"nontrivial": True, "labels": [case["c"]], "sample": q}
    # the option may be read as something else than an option (a field, say), but never be left out
    raise Violation(f"{q!r} is accepted: {repr(p)[:600]}", query=q)


SUBS = [
    Sub("wrong_values", check_wrong, wrongs, quick=3000, rule="an option with a value of the wrong kind (text for a number, a number for a flag, ...) among valid ones is an error"),
    Sub("options", check, queries, quick=24000, rule="every command, a random subset of its options in random order, random body, alone, followed by another command or in a nested search: the tree against what was written; non-trivial: has options or a body"),
    Sub("junk", check_junk, junk, quick=3000, rule="a valid query followed by text that is no SPL is an error"),
]
