"""C07 search and where keep exactly the matching rows."""
import fractions
import re

import cmds
import evalplan
import run
import spl
from core import Skip, Sub, Violation
from hypothesis import strategies as st

Fr = fractions.Fraction

# ---- an independent matcher of SPL search conditions on event rows (field -> number or text; _raw)


def wild(p, text):
    return re.match("".join(".*" if c == "*" else re.escape(c) for c in p) + r"\Z", text, re.S) is not None


def matches(e, row):
    k = e[0]
    if k == "t":
        return e[1].lower() in row["_raw"].lower()
    if k == "not":
        return not matches(e[1], row)
    if k == "and":
        return matches(e[1], row) and matches(e[2], row)
    if k == "or":
        return matches(e[1], row) or matches(e[2], row)
    if k == "sc":
        return compare(e[1], row[e[2]], e[3])
    if k == "sin":
        return any(compare("=", row[e[1]], v) for v in e[2])
    raise AssertionError(e)


def compare(op, have, want):
    if want[0] == "w":
        r = wild(want[1], have if isinstance(have, str) else str(have))
        return r if op in ("=", "==") else not r
    w = Fr(spl.num_value(want[1])) if want[0] == "n" else want[1]
    if op in ("=", "=="):
        return have == w
    if op == "!=":
        return have != w
    return {"<": have < w, "<=": have <= w, ">": have > w, ">=": have >= w}[op]


# fields have a fixed type so that every comparison is between like values
NUM = ["a", "b", "port", "x y", "n.1"]
TXT = ["user", "host", "src", "m-1", "d'q"]


def cond(depth):
    numv = spl.numbers().map(lambda t: ["n", t])
    txtv = st.one_of(st.sampled_from(["x", "foo", "GET /", "a.b", "Zed", "10.0.0.1"]), spl.strings(True).filter(cmds.ok_svalue)).map(lambda s: ["s", s])
    word = st.sampled_from(["x", "foo", "admin", "win-host", "a:b"]).map(lambda s: ["bw", s])
    wildv = cmds.wildcards().map(lambda w: ["w", w])
    op = st.sampled_from(["=", "==", "!=", "<", "<=", ">", ">="])
    leaf = st.one_of(
        st.tuples(st.just("sc"), op, st.sampled_from(NUM), numv).map(list),
        st.tuples(st.just("sc"), op, st.sampled_from(TXT), st.one_of(txtv, word)).map(list),
        st.tuples(st.just("sc"), st.sampled_from(["=", "==", "!="]), st.sampled_from(TXT), wildv).map(list),
        st.tuples(st.just("t"), cmds.terms(True)).map(list),
        st.tuples(st.just("sin"), st.sampled_from(NUM), st.lists(numv, min_size=1, max_size=4)).map(list),
        st.tuples(st.just("sin"), st.sampled_from(TXT), cmds.some(st.one_of(txtv, word, wildv), 1, 4)).map(list),
    )
    return st.recursive(leaf, lambda ch: st.one_of(st.tuples(st.just("and"), ch, ch).map(list), st.tuples(st.just("or"), ch, ch).map(list),
                                                    st.tuples(st.just("not"), ch).map(list)), max_leaves=depth)


def searches():
    return st.fixed_dictionaries({"e": cond(7), "y": spl.styles(40), "kw": st.booleans(), "pos": st.integers(0, 2), "seed": st.integers(0, 2 ** 32)})


def literals(e, acc):
    if isinstance(e, list) and e:
        if e[0] in ("n", "s", "w", "bw", "t"):
            acc.append(e)
        else:
            for x in e:
                literals(x, acc)
    return acc


def rows(e, seed, n=14):
    """Rows biased to the condition's own literals and near misses."""
    import random
    rng = random.Random(seed)
    lits = literals(e, [])
    nums = [Fr(spl.num_value(x[1])) for x in lits if x[0] == "n"] or [Fr(1)]
    nums += [x + 1 for x in nums] + [x - Fr(1, 2) for x in nums]
    txts = [x[1] for x in lits if x[0] in ("s", "bw")]
    txts += [x[1].replace("*", rng.choice(["", "zz", "\n", "*", "a b"])) for x in lits if x[0] == "w"]
    txts += [t.upper() for t in txts] + [t + "q" for t in txts] + [t[1:] for t in txts] + ["", "x", "other"]
    raws = [x[1] for x in lits if x[0] == "t"] or [""]
    raws = raws + [r.upper() for r in raws] + [r[:-1] for r in raws] + [r.replace("%", "zz").replace("_", "z") for r in raws]
    for _ in range(n):
        row = {f: rng.choice(nums) for f in NUM}
        row.update({f: rng.choice(txts) for f in TXT})
        row["_raw"] = rng.choice(["", "<<", "pre "]) + "".join(rng.sample(raws, min(len(raws), rng.randrange(0, 3)))) + rng.choice(["", " post"])
        yield row


def judge_filter(e, filt, q, code, seed):
    kept = 0
    total = 0
    for row in rows(e, seed):
        want = matches(e, row)
        got = evalplan.truth(evalplan.ev(filt, row.__getitem__))
        total += 1
        kept += want
        if got is not want:
            raise Violation(f"{q!r} {'drops' if want else 'keeps'} a row it should {'keep' if want else 'drop'}: { {k: str(v) for k, v in row.items()} }",
                            query=q, code=code)
    return kept, total


def check_search(case):
    e = case["e"]
    if any(x[0] == "t" and not x[1].isascii() for x in literals(e, [])):
        raise Skip()        # case folding outside ASCII is Spark's business
    text = cmds.spell_s(e, spl.Style(case["y"]))
    q = ("search " if case["kw"] or case["pos"] else "") + text
    if case["pos"] == 1:
        q = "index=main | " + q
    elif case["pos"] == 2:
        q = "search 1=1 | head 5 | ".replace("search 1=1", "search index=main") + q
    plan, code = run.observe(q)
    base = [cmds.MAIN, ["table", "main"], ["limit", ["table", "main"], 5]][case["pos"]]
    plan = evalplan.norm(plan)
    if plan[0] != "where" or plan[1] != evalplan.norm(base):
        raise Violation(f"{q!r} is not a filter on its input", query=q, code=code, plan=plan)
    kept, total = judge_filter(e, plan[2], q, code, case["seed"])
    mixed = 0 < kept < total
    return {"nontrivial": mixed, "labels": ["mixed" if mixed else "all-or-none"], "sample": q}


# ---- where: conditions over typed rows, evaluated by a direct interpreter of the eval language

def wcond():
    num = st.one_of(st.sampled_from(NUM).map(lambda n: ["f", n]), spl.numbers().map(lambda t: ["n", t]))
    numx = st.recursive(num, lambda ch: st.tuples(st.just("b"), st.sampled_from(["+", "-", "*"]), ch, ch).map(list), max_leaves=4)
    txtv = st.one_of(st.sampled_from(["x", "foo", "GET /", "a.b"]), spl.strings(True)).map(lambda s: ["s", s])
    txt = st.sampled_from(TXT).map(lambda n: ["f", n])
    op = st.sampled_from(["=", "==", "!=", "<", "<=", ">", ">="])
    leaf = st.one_of(
        st.tuples(st.just("c"), op, numx, numx).map(list),
        st.tuples(st.just("c"), op, txt, st.one_of(txtv, txt)).map(list),
        st.tuples(st.just("c"), st.sampled_from(["=", "==", "!="]), txt, cmds.wildcards().filter(spl_wild_ok).map(lambda w: ["w", w])).map(list),
        st.tuples(st.just("in"), st.sampled_from(NUM), cmds.some(spl.numbers().map(lambda t: ["n", t]), 1, 4)).map(list),
        st.tuples(st.just("in"), st.sampled_from(TXT), cmds.some(txtv, 1, 4)).map(list),
        st.tuples(st.just("call"), st.just("in"), st.tuples(txt, txtv, txtv).map(list)).map(list),
        st.booleans().map(lambda v: ["bool", v]),
    )
    return st.recursive(leaf, lambda ch: st.one_of(st.tuples(st.just("and"), ch, ch).map(list), st.tuples(st.just("or"), ch, ch).map(list),
                                                    st.tuples(st.just("not"), ch).map(list)), max_leaves=7)


def spl_wild_ok(w):
    return True


def interp(e, row):
    k = e[0]
    if k == "f":
        return row[e[1]]
    if k == "n":
        return Fr(spl.num_value(e[1]))
    if k == "s":
        return e[1]
    if k == "bool":
        return e[1]
    if k == "b":
        a, b = interp(e[2], row), interp(e[3], row)
        return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
    if k == "c":
        if e[3][0] == "w":
            r = wild(e[3][1], interp(e[2], row))
            return r if e[1] != "!=" else not r
        a, b = interp(e[2], row), interp(e[3], row)
        return {"=": a == b, "==": a == b, "!=": a != b}[e[1]] if e[1] in ("=", "==", "!=") else \
            {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
    if k == "in":
        return any(row[e[1]] == interp(v, row) for v in e[2])
    if k == "call":
        return any(interp(e[2][0], row) == interp(v, row) for v in e[2][1:])
    if k == "not":
        return not interp(e[1], row)
    return (interp(e[1], row) and interp(e[2], row)) if k == "and" else (interp(e[1], row) or interp(e[2], row))


def wheres():
    return st.fixed_dictionaries({"e": wcond(), "y": spl.styles(40), "pos": st.integers(0, 1), "seed": st.integers(0, 2 ** 32)})


def check_where(case):
    e = case["e"]
    q = ("index=main | " if case["pos"] else "") + "where " + spl.spell(e, spl.Style(case["y"]))
    plan, code = run.observe(q)
    plan = evalplan.norm(plan)
    if plan[0] != "where" or plan[1] != cmds.MAIN:
        raise Violation(f"{q!r} is not a filter on its input", query=q, code=code, plan=plan)
    kept = total = 0
    for row in rows(e, case["seed"]):
        want = interp(e, row)
        got = evalplan.truth(evalplan.ev(plan[2], row.__getitem__))
        total += 1
        kept += want
        if got is not want:
            raise Violation(f"{q!r} {'drops' if want else 'keeps'} a row it should {'keep' if want else 'drop'}: { {k: str(v) for k, v in row.items()} }",
                            query=q, code=code)
    mixed = 0 < kept < total
    return {"nontrivial": mixed, "labels": ["mixed" if mixed else "all-or-none"], "sample": q}


# ---- CIDR ranges and wildcard text with characters LIKE treats specially

def cidrs():
    net = st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255), st.integers(0, 255), st.integers(0, 32)).map(lambda t: "%d.%d.%d.%d/%d" % t)
    return st.fixed_dictionaries({"net": net, "f": st.sampled_from(["ip", "src_ip", "a.b"]), "neg": st.booleans(), "in": st.sampled_from(["search", "where", "cidr="]),
                                  "and": st.booleans()})


def check_cidr(case):
    f, net = case["f"], case["net"]
    c = ["F.expr", ["lit", f"cidr_match('{net}', {f})"]]
    if case["in"] == "cidr=":
        q = f"search {'NOT ' if case['neg'] else ''}{f}={net}"
    else:
        name = spl.spell_field(f)
        q = f"{case['in']} {'NOT ' if case['neg'] else ''}cidrmatch(\"{net}\", {name})"
    exp = ["~", c] if case["neg"] else c
    if case["and"]:
        q += " AND z=1"
        exp = ["bin", "&", exp, ["bin", "==", ["col", "z"], ["lit", 1]]]
    plan, code = run.observe(q)
    evalplan.expect_plan(["where", cmds.MAIN, exp], plan, repr(q), query=q, code=code)
    return {"nontrivial": True, "labels": [case["in"]], "sample": q}


# ---- known rough edges, one query each (see known_findings.json)

def check_literal(case):
    """{"q", "rows": [[row, kept]]}"""
    plan, code = run.observe(case["q"])
    plan = evalplan.norm(plan)
    for row, want in case["rows"]:
        got = evalplan.truth(evalplan.ev(plan[2], lambda n: evalplan.conv(row[n])))
        if got is not want:
            raise Violation(f"{case['q']!r} {'drops' if want else 'keeps'} {row}", query=case["q"], code=code)
    return {"nontrivial": True}


LITERALS = [
    {"q": "search foo", "rows": [[{"_raw": "a FOO b"}, True], [{"_raw": "fo o"}, False]]},
    {"q": "search 00", "rows": [[{"_raw": "10 20"}, False], [{"_raw": "x 00"}, True]]},
    {"q": "search f=\"a_*\"", "rows": [[{"f": "a_b"}, True], [{"f": "axb"}, False]]},
    {"q": "search f=\"5%*\"", "rows": [[{"f": "5% off"}, True], [{"f": "50 off"}, False]]},
]

SUBS = [
    Sub("search", check_search, searches, quick=5000, rule="random search condition over typed fields, run on 14 rows built from its own literals and near misses; non-trivial when it keeps some and drops some"),
    Sub("where", check_where, wheres, quick=4000, rule="random where condition, same rows; non-trivial when it keeps some and drops some"),
    Sub("cidr", check_cidr, cidrs, quick=600, rule="CIDR ranges in search and where, negated and combined"),
    Sub("terms", check_literal, cases=lambda: LITERALS, rule="fixed terms and wildcards on fixed rows"),
]
