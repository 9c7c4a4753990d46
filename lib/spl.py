"""SPL as data: names, strings, expressions; how they may be spelt; what they mean in PySpark.

An expression is a JSON list:
  ["f", name]  ["n", text]  ["s", text]  ["bool", True]        leaves
  ["b", op, l, r]    op in + - * / .          ["c", op, l, r]   op in = == != < <= > >=
  ["and"/"or", l, r] ["not", x] ["in", field, [leaf, ..]] ["call", fn, [args]]
  ["w", pattern]     only on the right of = and != (an eval string containing *)
"""
import re

from hypothesis import strategies as st

RESERVED = set("""AFTER AND APPLY AS ASC BEFORE BETWEEN BIN BRANCH BY DEDUP DISTINCT EVENTSTATS EXISTS EXPORT FIT FROM
FUNCTION GROUP GROUPBY HAVING HEAD HISTPERC IMPORT IN INNER INTO IS JOIN LIKE LIMIT LOOKUP NOT OFFSET ON ONCHANGE OR ORDER
ORDERBY OUTER OUTPUTNEW OUTPUT RENAME RESET RETURN REX SEARCH SELECT SORT STATS STREAMSTATS THRU THROUGH TIMECHART TIMEWRAP UNION
WHERE WHILE XOR TERM T F TRUE FALSE WITH DESC D SPAN""".split())
BARE = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
SNAPLIKE = re.compile(r"[+-]?\d*\w*@\w+")


class Style:
    """Spelling choices, consumed in order; exhausted or all-zero = the plainest spelling."""

    def __init__(self, choices=()):
        self.c = list(choices)
        self.i = 0

    def pick(self, n):
        if self.i >= len(self.c):
            return 0
        v = self.c[self.i]
        self.i += 1
        return v % n if v >= 0 else 0

    def kw(self, word):
        k = self.pick(3)
        return word if k == 0 else word.swapcase() if k == 1 else "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(word))

    def sp(self):          # obligatory blank
        return [" ", "  ", "\n", "\t", " \n "][self.pick(5)]

    def osp(self):         # optional blank, plainest: none
        return ["", " ", "  ", "\n"][self.pick(4)]

    def comma(self):
        return [", ", ",", " , ", ",\n", "  ,"][self.pick(5)]

    def flip(self):
        return self.pick(2) == 1


PLAIN = Style()


def styles(maxn=24):
    return st.one_of(st.just([]), st.lists(st.integers(0, 5), min_size=0, max_size=maxn))


# ---------------------------------------------------------------- names and strings

def esc_single(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def esc_double(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def is_bare(name):
    return bool(BARE.match(name)) and name.upper() not in RESERVED


def spell_field(name, sty=PLAIN):
    """A field in an expression."""
    if is_bare(name) and sty.pick(3) != 1:
        return name
    return esc_single(name)


def spell_name(name, sty=PLAIN):
    """A field where only fields can stand (lists, targets, by clauses): double quotes work as well."""
    if is_bare(name) and sty.pick(3) != 1:
        return name
    if sty.pick(2) == 1:
        return esc_single(name)
    return esc_double(name)


def spell_string(s, sty=PLAIN):
    return esc_double(s)


ASCII_WORD = st.from_regex(r"[a-z][a-z0-9_]{2,6}", fullmatch=True).filter(lambda w: w.upper() not in RESERVED)
POOL = ["a", "b", "c", "user", "host", "bytes", "_time", "src_ip", "status", "x1", "Total", "dest", "port", "msg", "Xy"]
WEIRD_CH = list(" .,;:()[]{}=<>!|`$#@^&+-/~?_aZ09éßñ中日🙂'\"\\")


def plain_names():
    return st.one_of(st.sampled_from(POOL), st.sampled_from(POOL), ASCII_WORD)


def weird_names():
    """Names that need quoting: blanks, punctuation, quotes, backslashes, any script."""
    return st.text(st.one_of(st.sampled_from(WEIRD_CH), st.characters(codec="utf-8", exclude_categories=["Cc", "Cs"], exclude_characters="*")),
                   min_size=1, max_size=8).filter(ok_name)


def ok_name(n):
    return n != "" and n.strip() == n and "*" not in n and "$" not in n and n[0] not in "+-"


def names(weird=False):
    return st.one_of(plain_names(), plain_names(), weird_names()) if weird else plain_names()


def ok_string(s):
    return "*" not in s and not SNAPLIKE.match(s)


def plain_strings():
    return st.one_of(st.sampled_from(["", "x", "hello", "a b", "GET", "10", "t", "5m", "null", "%", "_", "x%y", "[0-9]+", "#"]),
                     st.from_regex(r"[a-zA-Z0-9 _.,:;()/|=<>-]{0,8}", fullmatch=True)).filter(ok_string)


def strings(weird=False):
    if not weird:
        return plain_strings()
    return st.one_of(plain_strings(), st.text(st.one_of(st.sampled_from(WEIRD_CH), st.characters(codec="utf-8", exclude_categories=["Cs"], exclude_characters="*")),
                                              max_size=10).filter(ok_string))


def numbers():
    ints = st.one_of(st.integers(-3, 12), st.integers(-10 ** 6, 10 ** 9), st.just(0)).map(str)
    dbl = st.tuples(st.integers(-999, 9999), st.from_regex(r"[0-9]{1,4}", fullmatch=True)).map(lambda t: f"{t[0]}.{t[1]}")
    return st.one_of(ints, ints, dbl)


def num_value(text):
    return float(text) if "." in text else int(text)


# ---------------------------------------------------------------- function table
# name -> list of signatures (arg kinds, result kind); kinds: n s b any f(ield) int str(ing literal)
# translation: args are plans unless the kind is a literal one

def B(op, l, r):
    return ["bin", op, l, r]


def lit(v):
    return ["lit", v]


def _nest(fn):
    def f(*a):
        r = a[0]
        for x in a[1:]:
            r = [fn, r, x]
        return r
    return f


def _sum(*a):
    r = a[0]
    for x in a[1:]:
        r = B("+", r, x)
    return r


def _avg(*a):
    return B("/", _sum(*a), lit(len(a)))


def _F(name, *fixed):
    return lambda *a: [f"F.{name}", *a, *[lit(x) for x in fixed]]


def _case(*a):
    r = ["F.when", a[0], a[1]]
    for i in range(2, len(a), 2):
        r = ["m.when", r, a[i], a[i + 1]]
    return r


def _validate(*a):
    r = ["F.when", ["~", a[0]], a[1]]
    for i in range(2, len(a), 2):
        r = ["m.when", r, ["~", a[i]], a[i + 1]]
    return r


def _cidr(net, field):
    return ["F.expr", lit(f"cidr_match('{net}', {sql_ident(field)})")]


def sql_ident(name):
    if all(re.match(r"[A-Za-z_]\w*\Z", p, re.A) for p in name.split(".")):
        return name
    return "`" + name.replace("`", "``") + "`"


def _mvindex2(x, s, e):
    return ["F.slice", x, lit(s if s < 0 else s + 1), lit(e - s + 1)]


def _mvzip(a, b, d=","):
    return ["F.zip_with", a, b, ["lambda", 2, ["F.concat_ws", lit(d), ["arg", 0], ["arg", 1]]]]


def java_quote(s):
    return "".join(("\\" + c) if c in r"\.^$|?*+()[]{}&-~#" else c for c in s)


UNARY = dict(abs="abs", ceiling="ceil", exp="exp", floor="floor", ln="log", log="log10", sqrt="sqrt", acos="acos", acosh="acosh",
             asin="asin", asinh="asinh", atan="atan", atanh="atanh", cos="cos", cosh="cosh", sin="sin", sinh="sinh", tan="tan", tanh="tanh")

# (name, arg kinds, result, translate)  -- "n+" = one or more
TABLE = []
for _n, _s in UNARY.items():
    TABLE.append((_n, ["n"], "n", _F(_s)))
TABLE += [
    ("atan2", ["n", "n"], "n", _F("atan2")), ("hypot", ["n", "n"], "n", _F("hypot")), ("pow", ["n", "n"], "n", _F("pow")),
    ("log", ["n", "n"], "n", lambda x, b: B("/", ["F.log", x], ["F.log", b])),
    ("round", ["n"], "n", lambda x: ["F.round", x, lit(0)]), ("round", ["n", "int"], "n", lambda x, k: ["F.round", x, lit(k)]),
    ("pi", [], "n", lambda: lit(3.141592653589793)), ("random", [], "n", lambda: ["F.rand"]),
    ("exact", ["n"], "n", lambda x: ["m.cast", x, lit("double")]),
    ("sum", ["n+"], "n", _sum), ("avg", ["n+"], "n", _avg),
    ("max", ["n+"], "n", _nest("F.greatest")), ("min", ["n+"], "n", _nest("F.least")),
    ("bit_and", ["n", "n"], "n", lambda a, b: ["m.bitwiseAND", a, b]), ("bit_or", ["n", "n"], "n", lambda a, b: ["m.bitwiseOR", a, b]),
    ("bit_xor", ["n", "n"], "n", lambda a, b: ["m.bitwiseXOR", a, b]), ("bit_not", ["n"], "n", _F("bitwise_not")),
    ("bit_shift_left", ["n", "pint"], "n", lambda a, k: ["F.shiftleft", a, lit(k)]),
    ("bit_shift_right", ["n", "pint"], "n", lambda a, k: ["F.shiftright", a, lit(k)]),
    ("case", ["b", "any", "case*"], "any", _case), ("validate", ["b", "any", "case*"], "any", _validate),
    ("if", ["b", "any", "any"], "any", lambda c, a, b: ["m.otherwise", ["F.when", c, a], b]),
    ("coalesce", ["any+"], "any", _F("coalesce")), ("nullif", ["any", "any"], "any", _F("nullif")),
    ("cidrmatch", ["net", "field"], "b", _cidr),
    ("false", [], "b", lambda: lit(False)), ("true", [], "b", lambda: lit(True)), ("null", [], "any", lambda: lit(None)),
    ("isnull", ["any"], "b", _F("isnull")), ("isnotnull", ["any"], "b", _F("isnotnull")),
    ("like", ["s", "str"], "b", lambda x, p: ["F.like", x, lit(p)]),
    ("match", ["s", "re"], "b", lambda x, p: ["F.regexp_like", x, lit(p)]),
    ("in", ["any", "leaf+"], "b", lambda x, *v: ["m.isin", x, *v]),
    ("tonumber", ["s"], "n", lambda x: ["m.cast", x, lit("double")]), ("tostring", ["any"], "s", lambda x: ["m.cast", x, lit("string")]),
    ("md5", ["s"], "s", _F("md5")), ("sha1", ["s"], "s", _F("sha1")), ("sha256", ["s"], "s", _F("sha2", 256)), ("sha512", ["s"], "s", _F("sha2", 512)),
    ("now", [], "n", lambda: ["F.current_timestamp"]), ("time", [], "n", lambda: ["F.current_timestamp"]),
    ("len", ["s"], "n", _F("length")), ("lower", ["s"], "s", _F("lower")), ("upper", ["s"], "s", _F("upper")),
    ("ltrim", ["s", "str"], "s", lambda x, c: ["F.ltrim", x, lit(c)]), ("rtrim", ["s", "str"], "s", lambda x, c: ["F.rtrim", x, lit(c)]),
    ("trim", ["s", "str"], "s", lambda x, c: ["F.trim", x, lit(c)]),
    ("replace", ["s", "re", "str"], "s", lambda x, r, t: ["F.regexp_replace", x, lit(r), lit(java_replacement(t))]),
    ("substr", ["s", "sub", "len"], "s", lambda x, s, n: ["F.substr", x, lit(s), lit(n)]), ("urldecode", ["s"], "s", _F("url_decode")),
    ("split", ["s", "str"], "mv", lambda x, d: ["F.split", x, lit(java_quote(d))]),
    ("mvappend", ["any+"], "mv", _F("concat")), ("mvcount", ["mv"], "n", _F("size")),
    ("mvindex", ["mv", "idx"], "any", lambda x, i: ["F.get", x, lit(i)]), ("mvindex", ["mv", "idx2"], "mv", lambda x, ab: _mvindex2(x, *ab)),
    ("mvzip", ["mv", "mv"], "mv", _mvzip), ("mvzip", ["mv", "mv", "str"], "mv", _mvzip),
    ("json_keys", ["s"], "any", _F("json_object_keys")),
    ("json_valid", ["s"], "b", lambda x: ["m.isNotNull", ["F.get_json_object", x, lit("$")]]),
]
LITERAL_KINDS = {"int", "sub", "len", "pint", "str", "re", "net", "field", "idx", "idx2"}
BY_RESULT = {}
for _t in TABLE:
    BY_RESULT.setdefault(_t[2], []).append(_t)
ARITY = {}
for _t in TABLE:
    ARITY.setdefault(_t[0], []).append(_t)


def java_replacement(t):
    """Text that stands for itself in a Java regex replacement."""
    return t.replace("\\", "\\\\").replace("$", "\\$")


def pick_sig(name, args):
    """The table row a call belongs to."""
    n = len(args)
    for row in ARITY[name]:
        kinds = row[1]
        if kinds and kinds[-1].endswith("+"):
            if n >= len(kinds):
                return row
        elif kinds and kinds[-1] == "case*":
            if n >= 2 and n % 2 == 0:
                return row
        elif kinds and kinds[-1] == "idx2":
            if n == 3:
                return row
        elif n == len(kinds):
            return row
    return None


# ---------------------------------------------------------------- spelling of expressions

LEVEL = {"or": 0, "and": 1, "not": 2, "c": 3, "in": 3, ".": 4, "+": 5, "-": 5, "*": 6, "/": 6}


def level(e, search=False):
    k = e[0]
    if k == "b":
        return LEVEL[e[1]]
    if search and k in ("and", "or"):
        return {"and": 0, "or": 1}[k]
    return LEVEL.get(k, 9)


def spell(e, sty=PLAIN, need=0, top=False):
    """e as SPL eval text, parenthesised where grouping needs it."""
    lv = level(e)
    text = _spell(e, sty)
    if lv < need or (not top and e[0] not in ("bool",) and sty.pick(12) == 11):
        return "(" + sty.osp() + text + sty.osp() + ")"
    return text


def _spell(e, sty):
    k = e[0]
    if k == "f":
        return spell_field(e[1], sty)
    if k == "n":
        return e[1]
    if k in ("s", "w"):
        return spell_string(e[1], sty)
    if k == "bool":
        return "true()" if e[1] else "false()"
    if k == "b":
        op = e[1]
        lv = LEVEL[op]
        # - and / are not associative: the right operand binds tighter; so does everything for a plain reading
        l = spell(e[2], sty, lv)
        r = spell(e[3], sty, lv + 1)
        return f"{l}{sty.sp()}{op}{sty.sp()}{r}"
    if k == "c":
        l = spell(e[2], sty, 4)
        r = spell(e[3], sty, 4)
        s1, s2 = [("", ""), (" ", " "), (" ", ""), ("", "  "), ("\n", " ")][sty.pick(5)]
        return f"{l}{s1}{e[1]}{s2}{r}"
    if k in ("and", "or"):
        lv = LEVEL[k]
        l = spell(e[1], sty, lv)
        r = spell(e[2], sty, lv + 1)
        return f"{l}{sty.sp()}{sty.kw(k.upper())}{sty.sp()}{r}"
    if k == "not":
        return f"{sty.kw('NOT')}{sty.sp()}{spell(e[1], sty, 2)}"
    if k == "in":
        vals = sty.comma().join(spell(v, sty, 9, top=True) for v in e[2])
        return f"{spell_field(e[1], sty)}{sty.sp()}{sty.kw('IN')}{sty.sp() if sty.pick(2) == 0 else ''}({sty.osp()}{vals}{sty.osp()})"
    if k == "call":
        name = e[1]
        args = sty.comma().join(spell_arg(x, sty) for x in e[2])
        return f"{name}({sty.osp()}{args}{sty.osp()})"
    raise AssertionError(e)


def spell_arg(x, sty):
    if x[0] == "lit":
        return spell_lit(x[1])
    return spell(x, sty)


def spell_lit(v):
    if isinstance(v, str):
        return esc_double(v)
    return str(v)


# ---------------------------------------------------------------- meaning of expressions

class Unsupported(Exception):
    pass


def like_pattern(w):
    return w.replace("*", "%")


def tx(e):
    k = e[0]
    if k == "f":
        return ["col", e[1]]
    if k == "n":
        return lit(num_value(e[1]))
    if k == "s":
        return lit(e[1])
    if k == "bool":
        return lit(e[1])
    if k == "b":
        if e[1] == ".":
            return ["F.concat", tx(e[2]), tx(e[3])]
        return B(e[1], tx(e[2]), tx(e[3]))
    if k == "c":
        if e[3][0] == "w":
            p = ["m.like", tx(e[2]), lit(like_pattern(e[3][1]))]
            return p if e[1] in ("=", "==") else ["~", p]
        return B("==" if e[1] == "=" else e[1], tx(e[2]), tx(e[3]))
    if k in ("and", "or"):
        return B("&" if k == "and" else "|", tx(e[1]), tx(e[2]))
    if k == "not":
        return ["~", tx(e[1])]
    if k == "in":
        r = None
        for v in e[2]:
            c = B("==", ["col", e[1]], tx(v))
            r = c if r is None else B("|", r, c)
        return r
    if k == "call":
        row = pick_sig(e[1], e[2])
        if row is None:
            raise Unsupported(e[1])
        args = []
        for i, x in enumerate(e[2]):
            name_only = i < len(row[1]) and row[1][i] == "field"
            args.append(x[1] if x[0] == "lit" or name_only else tx(x))
        if row[1] and row[1][-1] == "idx2":
            args = [args[0], (args[1], args[2])]
        return row[3](*args)
    raise AssertionError(e)


# ---------------------------------------------------------------- generating expressions

_CACHE = {}
NETS = ["10.0.0.0/8", "192.168.1.0/24", "fe80::/10", "0.0.0.0/0"]
REGEXES = ["^x", "a.c", "[0-9]+", "x*", "\\d{2,3}$", "(foo|bar)", "\\.", "a\\\\b", "^$", "é+", "[^\"']"]


def leaf(kind, weird=False):
    key = ("leaf", kind, weird)
    if key in _CACHE:
        return _CACHE[key]
    f = names(weird).map(lambda n: ["f", n])
    n = numbers().map(lambda x: ["n", x])
    s = strings(weird).map(lambda x: ["s", x])
    r = {"n": st.one_of(f, f, n), "s": st.one_of(f, f, s), "any": st.one_of(f, f, n, s), "mv": f,
         "b": st.one_of(st.tuples(st.just("c"), OPS_C, f, st.one_of(f, n, s)).map(list), f,
                        st.booleans().map(lambda v: ["bool", v])),
         "leaf": st.one_of(n, s)}[kind]
    _CACHE[key] = r
    return r


OPS_C = st.sampled_from(["=", "==", "!=", "<", "<=", ">", ">="])
OPS_B = st.sampled_from(["+", "-", "*", "/"])


def literal(kind, weird=False):
    if kind == "int":
        return st.integers(-4, 8).map(lambda v: ["lit", v])
    if kind == "sub":
        return st.integers(-5, 9).filter(bool).map(lambda v: ["lit", v])
    if kind == "len":
        return st.integers(0, 9).map(lambda v: ["lit", v])
    if kind == "pint":
        return st.integers(0, 40).map(lambda v: ["lit", v])
    if kind == "idx":
        return st.integers(-5, 9).map(lambda v: ["lit", v])
    if kind == "str":
        return strings(weird).map(lambda v: ["lit", v])
    if kind == "re":
        return st.sampled_from(REGEXES).map(lambda v: ["lit", v])
    if kind == "net":
        return st.sampled_from(NETS).map(lambda v: ["lit", v])
    raise AssertionError(kind)


def idx2():
    pos = st.integers(0, 6).flatmap(lambda s: st.integers(s, s + 5).map(lambda e: [["lit", s], ["lit", e]]))
    neg = st.integers(-6, -1).flatmap(lambda s: st.integers(s, -1).map(lambda e: [["lit", s], ["lit", e]]))
    return st.one_of(pos, neg)


def _args(draw, kinds, depth, weird, allow):
    out = []
    for k in kinds:
        if k in ("n", "s", "b", "any", "mv"):
            out.append(_gen(draw, k, depth, weird, allow))
        elif k in ("n+", "any+"):
            out += [_gen(draw, k[:-1], depth, weird, allow) for _ in range(draw(st.integers(1, 4)))]
        elif k == "leaf+":
            out += draw(st.lists(leaf("leaf", weird), min_size=1, max_size=4))
        elif k == "case*":
            for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
                out += [_gen(draw, "b", depth, weird, allow), _gen(draw, "any", depth, weird, allow)]
        elif k == "idx2":
            out += draw(IDX2)
        elif k == "field":
            out.append(["f", draw(names(weird))])
        else:
            out.append(draw(literal(k, weird)))
    return out


IDX2 = idx2()
KINDS_ANY = st.sampled_from(["n", "s", "b", "mv", "call"])


def _rows(kind, allow):
    key = ("rows", kind, None if allow is None else tuple(sorted(allow)))
    if key not in _CACHE:
        rows = [r for r in TABLE if (kind == "call" or r[2] == kind or r[2] == "any") and (allow is None or r[0] in allow)]
        _CACHE[key] = st.sampled_from(rows) if rows else None
    return _CACHE[key]


CHOICE = {
    "n": st.sampled_from(["leaf"] + ["b"] * 3 + ["call"] * 3), "s": st.sampled_from(["leaf", "."] + ["call"] * 2),
    "b": st.sampled_from(["leaf", "c", "c", "and", "or", "not", "in", "call", "and", "or"]), "mv": st.sampled_from(["leaf", "call", "call"]),
    "any": st.sampled_from(["leaf", "n", "s", "b", "mv", "call", "n", "s"]),
}


def _gen(draw, kind, depth, weird, allow):
    if depth <= 0:
        return draw(leaf(kind, weird))
    c = draw(CHOICE[kind])
    if c in ("n", "s", "b", "mv"):
        return _gen(draw, c, depth, weird, allow)
    if c == "leaf":
        return draw(leaf(kind, weird))
    if c == "b":
        return ["b", draw(OPS_B), _gen(draw, "n", depth - 1, weird, allow), _gen(draw, "n", depth - 1, weird, allow)]
    if c == ".":
        return ["b", ".", _gen(draw, "any", depth - 1, weird, allow), _gen(draw, "any", depth - 1, weird, allow)]
    if c == "c":
        return ["c", draw(OPS_C), _gen(draw, "any", depth - 1, weird, allow), _gen(draw, "any", depth - 1, weird, allow)]
    if c in ("and", "or"):
        return [c, _gen(draw, "b", depth - 1, weird, allow), _gen(draw, "b", depth - 1, weird, allow)]
    if c == "not":
        return ["not", _gen(draw, "b", depth - 1, weird, allow)]
    if c == "in":
        return ["in", draw(names(weird)), draw(st.lists(leaf("leaf", weird), min_size=1, max_size=4))]
    rows = _rows("call" if kind == "any" else kind, allow)
    if rows is None:
        return draw(leaf(kind, weird))
    row = draw(rows)
    return ["call", row[0], _args(draw, row[1], depth - 1, weird, allow)]


@st.composite
def _expr(draw, kind, depth, weird, allow):
    return _gen(draw, kind, depth, weird, allow)


def expr(kind="any", depth=2, weird=False, allow=None):
    """allow: function names to use (None = all, () = none)"""
    key = ("expr", kind, depth, weird, None if allow is None else tuple(sorted(allow)))
    if key not in _CACHE:
        _CACHE[key] = _expr(kind, depth, weird, allow)
    return _CACHE[key]


@st.composite
def call_of(draw, row, depth=1, weird=False, allow=None):
    return ["call", row[0], _args(draw, row[1], depth, weird, allow)]


def size(e):
    return 1 + sum(size(x) for x in e if isinstance(x, list) and x and isinstance(x[0], (str, list))) if isinstance(e, list) else 0


def functions_in(e, acc=None):
    acc = set() if acc is None else acc
    if isinstance(e, list):
        if e and e[0] == "call":
            acc.add(e[1])
        for x in e:
            functions_in(x, acc)
    return acc


def ops_in(e):
    n = 0
    if isinstance(e, list) and e:
        if e[0] in ("b", "c", "and", "or", "not", "in"):
            n = 1
        for x in e:
            n += ops_in(x)
    return n
