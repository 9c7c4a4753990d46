"""C19 macro calls are found exactly."""
from core import Sub, Violation, expect_equal
from hypothesis import strategies as st

RESERVED = set("""AFTER AND APPLY AS ASC BEFORE BETWEEN BIN BRANCH BY DEDUP DISTINCT EVENTSTATS EXISTS EXPORT FIT FROM
FUNCTION GROUP GROUPBY HAVING HEAD HISTPERC IMPORT IN INNER INTO IS JOIN LIKE LIMIT LOOKUP NOT OFFSET ON ONCHANGE OR ORDER
ORDERBY OUTER OUTPUTNEW RENAME RESET RETURN REX SEARCH SELECT SORT STATS STREAMSTATS THRU THROUGH TIMECHART TIMEWRAP UNION
WHERE WHILE XOR TERM T F TRUE FALSE""".split())


def word():
    return st.from_regex(r"[a-z][a-z0-9_]{0,6}", fullmatch=True).filter(lambda w: w.upper() not in RESERVED)


def quoted():
    inner = st.text(st.one_of(st.sampled_from(list(" ,()=|`'[]$.*%éß中a1_-")), st.characters(codec="utf-8", exclude_characters='"\\')), max_size=8)
    # escape sequences only as whole pairs
    return st.lists(st.one_of(inner, st.sampled_from(['\\"', "\\\\", "\\n"])), max_size=3).map(lambda p: '"' + "".join(p) + '"')


def atom():
    return st.one_of(word(), st.integers(-999, 999).map(str), quoted(), st.sampled_from(["1.5", "-0.25", "5m", "a.b", "x*", "10.0.0.1"]),
                     st.from_regex(r"'[a-z ,()=]{1,6}'", fullmatch=True))


def value():
    return st.recursive(
        atom(),
        lambda ch: st.one_of(
            st.tuples(word(), st.lists(ch, min_size=0, max_size=3)).map(lambda t: f"{t[0]}({', '.join(t[1])})"),
            st.tuples(atom(), st.sampled_from([" + ", " - ", " * ", " . ", " OR "]), atom()).map("".join),
            ch.map(lambda v: f"({v})"),
        ), max_leaves=4)


def call():
    args = st.one_of(
        st.none(),
        st.just([]),
        st.lists(st.tuples(st.none(), value()).map(list), min_size=1, max_size=4),
        st.lists(st.tuples(word(), value()).map(list), min_size=1, max_size=4),
        st.lists(st.tuples(st.one_of(st.none(), word()), value()).map(list), min_size=1, max_size=4),
    )
    name = st.one_of(word(), st.sampled_from(["security_content_ctime", "my-macro", "a:b", "m1", "Sysmon", "x/y", "a*"]))
    return st.fixed_dictionaries({"name": name, "args": args,
                                  "sp": st.lists(st.sampled_from(["", "", " ", "  ", "\n", "\t"]), min_size=8, max_size=8)})


def plain():
    return st.one_of(st.sampled_from(["", " ", "index=main | ", " | search x=1 ", ' eval a="q\\"" , ', " by ", "日本 ", '"', "(", "\n", "''"]),
                     st.text(st.characters(codec="utf-8", exclude_characters="`"), max_size=12))


def strategy():
    return st.fixed_dictionaries({"chunks": st.lists(st.tuples(plain(), call()).map(list), max_size=5), "suffix": plain()})


def spell(c):
    sp = c["sp"]
    out = "`" + sp[0] + c["name"]
    if c["args"] is not None:
        parts = [(f"{n}={v}" if n is not None else v) for n, v in c["args"]]
        # blanks around separators and parentheses do not belong to the arguments
        out += sp[1] + "(" + sp[2] + (sp[3] + "," + sp[4]).join(parts) + sp[5] + ")"
    return out + sp[6] + "`"


def observe(text):
    from spl_transpiler.spl_transpiler import detect_macros
    chunks, suffix = detect_macros(text)
    return {"chunks": [[p, m.macro_name, [list(a) for a in m.args]] for p, m in chunks], "suffix": suffix}


def check(case):
    text = "".join(p + spell(c) for p, c in case["chunks"]) + case["suffix"]
    exp = {"chunks": [[p, c["name"], [[n, v] for n, v in (c["args"] or [])]] for p, c in case["chunks"]],
           "suffix": case["suffix"]}
    try:
        got = observe(text)
    except ValueError as e:
        raise Violation(f"macro calls in {text!r} not recognised: {e}", text=text)
    expect_equal(exp, got, f"macro calls of {text!r}", text=text)
    n = len(case["chunks"])
    return {"nontrivial": n > 0, "labels": [f"calls={n}"], "sample": text}


def check_text(text):
    """Any text at all: the pieces put back together are the text."""
    try:
        got = observe(text)
    except ValueError:
        if "`" not in text:
            raise Violation("text without back-quotes refused", text=text)
        return {"nontrivial": True, "labels": ["refused"]}
    if "`" not in text:
        expect_equal({"chunks": [], "suffix": text}, got, "text without back-quotes", text=text)
        return {"nontrivial": bool(text.strip()), "labels": ["plain"]}
    # prefixes and suffix occur in order, separated by back-quoted stretches that contain name and arguments
    pos = 0
    for prefix, name, args in got["chunks"]:
        if not text.startswith(prefix, pos) or "`" in prefix:
            raise Violation("prefix is not the text before the call", text=text, got=got)
        pos += len(prefix)
        if text[pos:pos + 1] != "`":
            raise Violation("no back-quote after prefix", text=text, got=got)
        q = pos + 1
        for piece in [name] + [x for a in args for x in a if x is not None]:
            at = text.find(piece, q)
            if at < 0:
                raise Violation("name or argument is not in the text of the call", text=text, got=got)
            q = at + len(piece)
        end = text.find("`", q)
        if end < 0 or text[q:end].strip(" \t\r\n)(") != "":
            raise Violation("call has content that is not reported", text=text, got=got)
        pos = end + 1
    if text[pos:] != got["suffix"]:
        raise Violation("pieces do not add up to the text", text=text, got=got)
    return {"nontrivial": True, "labels": ["split"]}


def soup():
    tok = st.sampled_from(["`", "`", "`", "m", "m(", ")", "(", ",", "=", "a", "b", '"', "'", "\\", " ", "1", "|", "f(x)", "x=1", "\n", "é", "$"])
    return st.one_of(st.lists(tok, max_size=16).map("".join), st.text(max_size=20))


SUBS = [
    Sub("calls", check, strategy, quick=6000, rule="random text interleaved with 0-5 spelled macro calls; non-trivial when it contains a call"),
    Sub("any_text", check_text, soup, quick=6000, rule="back-quote-heavy token soup and arbitrary Unicode; non-trivial unless blank"),
]
