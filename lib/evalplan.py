"""Do two plans mean the same?

`norm` removes differences that cannot matter (nesting of associative operators, python scalars vs
literals, consecutive filters).  Column expressions that still differ are *evaluated* on many rows -
three-valued logic, exact numbers, other functions uninterpreted - and only a row on which the values
differ makes them different.
"""
import datetime
import fractions
import functools
import hashlib
import random
import re

from core import Violation, eq_plan, first_diff

Fr = fractions.Fraction
ASSOC = {"+", "*", "&", "|"}
DF = {"table", "where", "withColumn", "withColumnRenamed", "groupBy", "agg", "orderBy", "limit", "tail", "select", "unionByName",
      "join", "alias", "range", "createDataFrame"}


SYNONYM = {"F.substring": "F.substr", "F.ceiling": "F.ceil", "F.power": "F.pow", "m.isNull": "F.isnull", "m.isNotNull": "F.isnotnull",
           "m.substr": "F.substr", "m.astype": "m.cast", "F.sign": "F.signum", "m.rlike": "F.regexp_like", "F.rlike": "F.regexp_like",
           "m.like": "F.like", "m.ilike": "F.ilike", "F.countDistinct": "F.count_distinct", "F.regexp": "F.regexp_like"}


def is_df(p):
    return isinstance(p, list) and p and isinstance(p[0], str) and (
        (p[0] in DF and not (p[0] == "alias" and not is_df(p[1]))) or p[0].startswith("df.") or p[0].startswith("commands."))


def norm(p):
    if not isinstance(p, list) or not p:
        return p
    k = p[0]
    if not isinstance(k, str):
        return [norm(x) for x in p]
    if k == "py":
        return ["lit", p[1]]
    if k == "lit":
        return p
    q = [norm(x) for x in p]
    if k in SYNONYM:
        q[0] = SYNONYM[k]
    if k == "bin" and q[1] in ASSOC:
        flat = []
        for x in q[2:]:
            if isinstance(x, list) and x[0] == "assoc" and x[1] == q[1]:
                flat += x[2:]
            else:
                flat.append(x)
        return ["assoc", q[1], *flat]
    if k == "F.concat":
        flat = []
        for x in q[1:]:
            if isinstance(x, list) and x[0] == "F.concat":
                flat += x[1:]
            else:
                flat.append(x)
        return ["F.concat", *flat]
    if q[0] == "F.regexp_like" and isinstance(q[2], list) and q[2][0] == "col":
        q[2] = ["lit", q[2][1]]      # F.regexp_like(c, "re") names a column in PySpark 4: known finding of C12, judged there
    if q[0] in ("F.regexp_like", "F.regexp_extract") and isinstance(q[2], list) and q[2][0] == "lit" and isinstance(q[2][1], str):
        q[2] = ["lit", re.sub(r"\\(.)", lambda m: '"' if m[1] == '"' else m[0], q[2][1], flags=re.S)]
    if q[0] == "F.regexp_extract" and isinstance(q[2], list) and q[2][0] == "lit" and isinstance(q[2][1], str):
        # a group's name plays no part, but Spark knows only names of letters and digits
        q[2] = ["lit", re.sub(r"\(\?<[A-Za-z][A-Za-z0-9]*>", "(", q[2][1])]
    if q[0] in ("F.date_format", "F.to_timestamp") and len(q) == 3 and q[2][0] == "lit" and isinstance(q[2][1], str):
        lay = layouts(q[2][1])
        if lay is not None:
            q[2] = ["lit", lay]
    if q[0] == "F.window" and q[2][0] == "lit":
        q[2] = ["lit", interval(q[2][1])]
    if q[0] == "F.expr" and isinstance(q[1], list) and q[1][0] == "lit" and isinstance(q[1][1], str) and q[1][1].upper().startswith("INTERVAL "):
        return ["F.expr", ["lit", interval(q[1][1])]]
    if k == "F.split" and isinstance(q[2], list) and q[2][0] == "lit" and isinstance(q[2][1], str):
        # a backslash before a character that is not special means that character
        q[2] = ["lit", re.sub(r"\\([^A-Za-z0-9.^$|?*+()\[\]{}\\])", r"\1", q[2][1])]
    if k == "F.expr" and isinstance(q[1], list) and q[1][0] == "lit" and isinstance(q[1][1], str):
        return ["F.expr", ["lit", re.sub(r"`([A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)`", r"\1", q[1][1], flags=re.A)]]
    if k == "join" and len(q) == 5 and isinstance(q[4], str):
        q[4] = {"leftouter": "left", "left_outer": "left"}.get(q[4], q[4])
    if k == "where" and is_df(q[1]) and q[1][0] == "where":
        a, b = q[1][2], q[2]
        fa = a[2:] if a[0] == "assoc" and a[1] == "&" else [a]
        fb = b[2:] if b[0] == "assoc" and b[1] == "&" else [b]
        return ["where", q[1][1], ["assoc", "&", *fa, *fb]]
    if k == "m.otherwise" and q[2] == ["lit", None]:
        return q[1]
    return q


def interval(t):
    """Spark interval text, canonically."""
    m = re.fullmatch(r"(?:INTERVAL )?\s*'?([+-]?\d+)'?\s+([A-Za-z]+?)S?", t, re.I)
    return f"{int(m[1])} {m[2].lower()}" if m else t


# ---------------------------------------------------------------- time formats
# Instants that tell every directive apart: (y, mo, d, h, mi, s, nanoseconds, zone name, offset minutes)
INSTANTS = [(2024, 3, 7, 5, 4, 9, 12345678, "EST", -300), (1999, 12, 25, 17, 36, 48, 900000000, "IST", 330), (2001, 1, 1, 0, 0, 0, 0, "UTC", 0),
            (2010, 10, 11, 12, 59, 3, 123456789, "CET", 60), (2008, 2, 29, 23, 8, 30, 5000, "NZDT", 780)]
MONTHS = "January February March April May June July August September October November December".split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def _java(letter, n, t):
    y, mo, d, h, mi, s, ns, zone, off = t
    day = datetime.date(y, mo, d)
    pad = lambda v: str(v).zfill(n)  # noqa: E731
    if letter in "yu":
        return str(y % 100).zfill(2) if n == 2 else pad(y)
    if letter in "ML":
        return pad(mo) if n <= 2 else MONTHS[mo - 1][:3] if n == 3 else MONTHS[mo - 1] if n == 4 else None
    simple = {"d": d, "H": h, "k": h or 24, "K": h % 12, "h": (h % 12) or 12, "m": mi, "s": s, "D": day.timetuple().tm_yday}
    if letter in simple:
        return pad(simple[letter]) if n <= (3 if letter == "D" else 2) else None
    if letter == "S":
        return f"{ns:09d}"[:n] if n <= 9 else None
    if letter == "a":
        return ("AM" if h < 12 else "PM") if n == 1 else None
    if letter == "E":
        return DAYS[day.weekday()][:3] if n <= 3 else DAYS[day.weekday()] if n == 4 else None
    if letter == "z":
        return zone if n <= 3 else None
    if letter in "xX" or (letter == "Z" and n <= 3):
        if letter == "X" and off == 0:
            return "Z"
        if letter == "Z":
            n = 2
        a, hh, mm = "+-"[off < 0], abs(off) // 60, abs(off) % 60
        return {1: f"{a}{hh:02d}" + (f"{mm:02d}" if mm else ""), 2: f"{a}{hh:02d}{mm:02d}", 3: f"{a}{hh:02d}:{mm:02d}", 4: f"{a}{hh:02d}{mm:02d}",
                5: f"{a}{hh:02d}:{mm:02d}"}.get(n)
    return None


@functools.lru_cache(4096)
def layouts(fmt):
    """What a Spark time format prints for INSTANTS; None when it is not a format this knows."""
    toks = []
    i = depth = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "'":
            j = i + 1       # as java.time does: a doubled quote inside, an empty text is a quote
            while j < len(fmt) and (fmt[j] != "'" or fmt[j + 1:j + 2] == "'"):
                j += 2 if fmt[j] == "'" else 1
            if j >= len(fmt):
                return None
            toks.append(fmt[i + 1:j].replace("''", "'") or "'")
            i = j + 1
        elif c.isascii() and c.isalpha():
            j = i
            while j < len(fmt) and fmt[j] == c:
                j += 1
            toks.append((c, j - i))
            i = j
        elif c == "[":
            depth += 1      # an optional section, which a whole instant always prints
            toks.append("")
            i += 1
        elif c == "]":
            depth -= 1
            if depth < 0:
                return None
            toks.append("")
            i += 1
        elif c in "#{}":
            return None
        else:
            toks.append(c)
            i += 1
    if depth:
        return None
    res = []
    for t in INSTANTS:
        out = ""
        for k in toks:
            v = k if isinstance(k, str) else _java(k[0], k[1], t)
            if v is None:
                return None
            out += v
        res.append(out)
    return "layouts:" + repr(res)


# ---------------------------------------------------------------- evaluation

def H(*x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=6).digest(), "big")


class U:
    """An uninterpreted value."""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = repr(k)

    def __eq__(self, o):
        return isinstance(o, U) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"U({self.k})"


def num(x):
    return isinstance(x, Fr)


def conv(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return Fr(v) if v == v and v not in (float("inf"), float("-inf")) else U("float", repr(v))
    return U(repr(v))


def truth(x):
    if x is None or isinstance(x, bool):
        return x
    return H("truth", repr(x)) % 2 == 0


def fold(op, vals):
    if op == "&":
        vals = [truth(v) for v in vals]
        return False if False in vals else None if None in vals else True
    if op == "|":
        vals = [truth(v) for v in vals]
        return True if True in vals else None if None in vals else False
    if None in vals:
        return None
    if all(num(v) for v in vals):
        r = vals[0]
        for v in vals[1:]:
            r = r + v if op == "+" else r * v
        return r
    # associative and commutative uninterpreted
    flat = []
    for v in vals:
        flat.append(repr(v))
    return U(op, sorted(flat))


def binop(op, a, b):
    if op in ASSOC:
        return fold(op, [a, b])
    if a is None or b is None:
        return None
    if op == "==":
        return a == b and type(a) is type(b)
    if op == "!=":
        return not (a == b and type(a) is type(b))
    if op in ("<", "<=", ">", ">="):
        if (num(a) and num(b)) or (isinstance(a, str) and isinstance(b, str)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        ra, rb = H(repr(a)), H(repr(b))
        return {"<": ra < rb, "<=": ra <= rb, ">": ra > rb, ">=": ra >= rb}[op]
    if num(a) and num(b):
        if op == "-":
            return a - b
        if op in "/%" and b == 0:
            return None
        return a / b if op == "/" else a % b
    return U(op, a, b)


def like_re(pat, flags=0):
    out, i = "", 0
    while i < len(pat):
        c = pat[i]
        if c == "\\" and i + 1 < len(pat):
            out += re.escape(pat[i + 1])
            i += 2
            continue
        out += ".*" if c == "%" else "." if c == "_" else re.escape(c)
        i += 1
    return re.compile(out + r"\Z", re.S | flags)


def text(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "true" if v else "false"
    if num(v) and v.denominator == 1:
        return str(v.numerator)
    return repr(v)


def ev(p, row):
    k = p[0]
    if k == "lit" or k == "py":
        return conv(p[1])
    if k == "col":
        return row(p[1])
    if k == "arg":
        return U("arg", p[1])
    if k == "assoc":
        return fold(p[1], [ev(x, row) for x in p[2:]])
    if k == "bin":
        return binop(p[1], ev(p[2], row), ev(p[3], row))
    if k == "~":
        t = truth(ev(p[1], row))
        return None if t is None else not t
    if k == "alias":
        return U("alias", p[2], ev(p[1], row))
    if k == "F.coalesce":
        for x in p[1:]:
            v = ev(x, row)
            if v is not None:
                return v
        return None
    if k in ("F.when", "m.when", "m.otherwise"):
        return case(p, row)
    if k in ("F.isnull",):
        return ev(p[1], row) is None
    if k in ("F.isnotnull",):
        return ev(p[1], row) is not None
    if k in ("F.like", "F.ilike") and len(p) == 3:
        v, pat = text(ev(p[1], row)), ev(p[2], row)
        if v is None or pat is None:
            return None
        return bool(like_re(pat, re.I if "ilike" in k else 0).match(v)) if isinstance(pat, str) else U(k, v, pat)
    if k == "m.isin":
        v = ev(p[1], row)
        if v is None:
            return None
        vals = [ev(x, row) for x in (p[2][1:] if p[2][0] == "list" else p[2:])]
        if any(x == v for x in vals):
            return True
        return None if None in vals else False
    if k in ("F.greatest", "F.least"):
        vs = [v for v in (ev(x, row) for x in p[1:]) if v is not None]
        flat = []
        for v in vs:
            flat.append(v)
        if not flat:
            return None
        key = (lambda v: (0, v, "")) if all(num(v) for v in flat) else (lambda v: (1, H(repr(v)), ""))
        return max(flat, key=key) if k == "F.greatest" else min(flat, key=key)
    if k == "F.concat":
        vs = [ev(x, row) for x in p[1:]]
        return None if None in vs else U("concat", *[text(v) for v in vs])
    return U(k, *[evx(x, row) for x in p[1:]])


def evx(x, row):
    if isinstance(x, list) and x and isinstance(x[0], str):
        if is_df(x):
            return U("df", repr(norm(x)))
        return ev(x, row)
    if isinstance(x, list):
        return tuple(evx(y, row) for y in x)
    return ("raw", x)


def case(p, row):
    branches, default = [], None
    if p[0] == "m.otherwise":
        default, p = p[2], p[1]
    while p[0] == "m.when":
        branches.append((p[2], p[3]))
        p = p[1]
    if p[0] != "F.when":
        return U("case?", repr(p))
    branches.append((p[1], p[2]))
    for c, v in reversed(branches):
        if truth(ev(c, row)) is True:
            return ev(v, row)
    return None if default is None else ev(default, row)


def leaves(p, cols, lits):
    if isinstance(p, list) and p:
        if p[0] == "col":
            cols.add(p[1])
        elif p[0] in ("lit", "py"):
            lits.append(p[1])
        else:
            for x in p[1:] if isinstance(p[0], str) else p:
                leaves(x, cols, lits)


def equations(p, out):
    if isinstance(p, list):
        if len(p) == 4 and p[0] == "bin" and p[1] in ("==", "!=") and isinstance(p[2], list) and p[2][:1] == ["col"] and isinstance(p[3], list) and p[3][:1] in (["col"], ["lit"]):
            e = (p[2][1], p[3][0], p[3][1])
            if e not in out:
                out.append(e)
        for x in p[1:]:
            equations(x, out)


def differing_row(a, b, trials=60):
    """A row on which two column expressions differ, or None."""
    cols, lits = set(), []
    leaves(a, cols, lits)
    leaves(b, cols, lits)
    pool = [conv(v) for v in lits if v is not None]
    pool += [v + 1 for v in pool if num(v)] + [v - 1 for v in pool if num(v)]
    pool += [v.replace("%", "zz") for v in pool if isinstance(v, str)] + [v.replace("%", "") + "q" for v in pool if isinstance(v, str)]
    rng = random.Random(H(repr(a), repr(b)))
    cols = sorted(cols, key=repr)
    eqs = []
    equations(a, eqs)
    equations(b, eqs)
    for t in range(trials * 2 if eqs else trials):
        row = {}
        for c in cols:
            r = rng.random()
            if r < 0.12:
                row[c] = None
            elif r < 0.5 and pool:
                row[c] = rng.choice(pool)
            elif r < 0.75:
                row[c] = Fr(rng.randrange(-20, 50))
            elif r < 0.9:
                row[c] = rng.choice(["x", "abc", "", "Hello", "10", "a b"])
            else:
                row[c] = rng.random() < 0.5
        if t >= trials:  # rows on which (nearly) all the equalities hold: long conjunctions are decided by those
            free = rng.randrange(len(eqs)) if t % 3 else None
            for i, (c, kind, v) in enumerate(eqs):
                if i != free and (t % 2 or rng.random() < 0.9):
                    w = row.get(v) if kind == "col" else conv(v) if v is not None else None
                    if w is None:
                        w = Fr(7)
                        if kind == "col":
                            row[v] = w
                    row[c] = w
            if free is not None:
                row[eqs[free][0]] = "zz-other"
        va, vb = ev(a, row.__getitem__), ev(b, row.__getitem__)
        if type(va) is not type(vb) or va != vb:
            return {"row": {k: repr(v) for k, v in row.items()}, "expected": repr(va), "observed": repr(vb)}
    return None


def same(a, b, path="$"):
    """None, or a description of the difference.  a, b normalised."""
    if eq_plan(a, b):
        return None
    if is_df(a) or is_df(b):
        if not (is_df(a) and is_df(b) and a[0] == b[0] and len(a) == len(b)):
            return first_diff(a, b, path)
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            d = same(x, y, f"{path}.{a[0]}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and a and b:
        if isinstance(a[0], list) and isinstance(b[0], list):
            if len(a) != len(b):
                return first_diff(a, b, path)
            for i, (x, y) in enumerate(zip(a, b)):
                d = same(x, y, f"{path}[{i}]")
                if d:
                    return d
            return None
        if isinstance(a[0], str) and isinstance(b[0], str) and (iscolumn(a) and iscolumn(b)):
            if a[0] == b[0] == "alias":
                if a[2] != b[2]:
                    return first_diff(a, b, path)
                return same(a[1], b[1], path)
            if has_df(a) or has_df(b):
                return first_diff(a, b, path)
            r = differing_row(a, b)
            if r is None:
                return None
            return f"{first_diff(a, b, path)}; they differ on {r}"
    return first_diff(a, b, path)


COLK = {"col", "lit", "bin", "assoc", "~", "alias", "arg", "neg"}


def iscolumn(p):
    return p[0] in COLK or p[0].startswith(("F.", "m."))


def has_df(p):
    return isinstance(p, list) and (is_df(p) or any(has_df(x) for x in p))


def expect_plan(expected, observed, what, **info):
    a, b = norm(expected), norm(observed)
    d = same(a, b)
    if d:
        raise Violation(f"{what}: {d}", expected=a, observed=b, **info)
