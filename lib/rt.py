"""What a runtime-mode plan means: each library call replaced by the dataframe / column operation it stands for.

This is the *documented* meaning of the library's commands and functions (C23-C25 judge the library itself).
"""
import cmds
import spl
from cmds import MAIN, col
from core import Violation
from spl import B, lit

SOURCE_KW = {"source": "source", "source_type": "sourcetype", "host": "host", "host_tag": "tag::host", "event_type": "eventtype", "event_type_tag": "tag::eventtype",
             "saved_splunk": "savedsplunk", "splunk_server": "splunk_server"}


def unliteral(p):
    if isinstance(p, list) and p and p[0] in ("lit", "py"):
        return p[1]
    return p


def lower(p, used=None):
    """used: list that collects the commands.* calls met."""
    used = [] if used is None else used
    if not isinstance(p, list) or not p:
        return p
    k = p[0]
    if not isinstance(k, str):
        return [lower(x, used) for x in p]
    if k in ("lit", "py", "col"):
        return p
    if k.startswith("commands."):
        used.append(k[9:])
        return command(k[9:], p[1], dict(p[2]), p[2], used)
    if k.startswith("functions.eval."):
        return eval_fn(k[15:], [lower(x, used) for x in p[1]], p[2])
    return [k, *[lower(x, used) for x in p[1:]]]


def eval_fn(name, args, kw):
    name = name.rstrip("_")
    if kw:
        raise Violation(f"keyword arguments for functions.eval.{name}: {kw}")
    for row in spl.ARITY.get(name, []):
        kinds = row[1]
        if kinds and kinds[-1].endswith("+"):
            ok = len(args) >= len(kinds)
        elif kinds and kinds[-1] == "case*":
            ok = len(args) >= 2 and len(args) % 2 == 0
        else:
            ok = len(args) == len(kinds) and "idx2" not in kinds
        if ok:
            vals = []
            for i, a in enumerate(args):
                kind = kinds[min(i, len(kinds) - 1)]
                if kind == "field":
                    a = a[1] if a[0] == "col" else a
                elif kind in spl.LITERAL_KINDS:
                    a = unliteral(a)
                vals.append(a)
            return row[3](*vals)
    return ["functions.eval." + name, args]


def stats_fn(p, used):
    """(aggregate, ordered by time?)"""
    if not (isinstance(p, list) and p and isinstance(p[0], str) and p[0].startswith("functions.stats.")):
        raise Violation(f"not a library aggregate: {p}")
    name = p[0][16:].rstrip("_")
    args = [lower(x, used) for x in p[1]]
    if p[2]:
        raise Violation(f"keyword arguments for functions.stats.{name}")
    if not args:
        return cmds.STATS0[name](), False
    x = args[0]
    while isinstance(x, list) and x and x[0] == "alias":   # a name below an aggregate means nothing
        x = x[1]
    if name == "count":
        # the library counts conditions itself
        return ["F.count", x], False
    return cmds.stats_fn(name, x), name in cmds.ORDERED


def group(df, by, aggs, used):
    out = []
    for name, f in aggs:
        a, ordered = stats_fn(f, used)
        if ordered:
            df = ["orderBy", df, cmds.TIME_ORDER]
        out.append(["alias", a, name])
    by = by[1:] if isinstance(by, list) and by and by[0] == "list" else by
    return ["agg", ["groupBy", df, [lower(b, used) for b in by]], out]


def command(name, args, kw, order, used):
    df = args[0] if args else None
    df = None if df is None or df == ["py", None] else lower(df, used)
    if name == "search":
        conds = [lower(a, used) for a in args[1:]]
        if df is None:
            df = ["table", unliteral(kw["index"])] if "index" in kw else MAIN
        elif "index" in kw:
            raise Violation("index given for a dataframe that is there already")
        for k, v in order:
            if k != "index":
                conds.append(B("==", col(SOURCE_KW.get(k, k)), lower(v, used)))
        for c in conds:
            df = ["where", df, c]
        return df
    if name == "eval":
        df = cmds.src(df)
        for k, v in order:
            df = ["withColumn", df, k, lower(v, used)]
        return df
    if name == "fill_null":
        a = [["value", lit(unliteral(kw["value"]))]]
        f = kw.get("fields")
        if f is not None and f != ["py", None]:
            a.append(["subset", f])
        return ["df.fillna", cmds.src(df), a]
    if name == "stats":
        return group(cmds.src(df), kw.get("by", []), [[k, v] for k, v in order if k != "by"], used)
    if name == "data_model":
        if df is not None:
            raise Violation("data model given a dataframe")
        ds = unliteral(kw.get("dataset_name"))
        return ["table", ".".join([unliteral(kw["data_model_name"])] + (ds or "").split(".")[1:])]
    if name == "tstats":
        fr = kw.get("from_")
        if (df is None) == (fr is None):
            raise Violation("tstats takes a dataframe or a data model")
        if fr is not None:
            d = dict(fr[1:])
            node = unliteral(d.get("nodename"))
            df = ["table", ".".join([unliteral(d["datamodel"])] + (node or "").split(".")[1:])]
        if kw.get("fill_null_value") is not None:
            df = ["df.fillna", df, [["value", lit(unliteral(kw["fill_null_value"]))]]]
        if "where" in kw:
            df = ["where", df, lower(kw["where"], used)]
        return group(df, kw.get("by", []), [[k, v] for k, v in order if k not in ("by", "from_", "fill_null_value", "where")], used)
    raise Violation(f"unknown library command {name}")
