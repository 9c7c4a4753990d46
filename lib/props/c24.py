"""C24 each function of the runtime eval library computes, row by row, the value SPL defines (on real Spark)."""
import calendar
import datetime as dt
import hashlib
import ipaddress
import math
import re
from decimal import ROUND_HALF_UP, Decimal
from urllib.parse import unquote_plus

import sparkrun
from core import Skip, Sub, Violation
from hypothesis import strategies as st

# ---------------------------------------------------------------- rows

WORDS = ["alpha", "Beta", "a.b", "x-y", "10.0.0.1", "", " ", "  pad ", "straße", "ÅÄö", "日本語", "naïve", "😀a", "a,b,,c", "a|b", "100%", "tab\tx", "under_score", "UPPER", "a\nb",
         "aXbXc", "x1y22z333", "(p)", "[q]", "$1", "%20", "'q'", '"dq"', "a+b"]
TEXT = st.one_of(st.sampled_from(WORDS), st.text(alphabet="abcXYZ019 .,-_%äéßλЖ日😀+*()[]$'\"/", max_size=8))
OPT = lambda s: st.one_of(s, s, s, s, st.none())
IPS = st.one_of(st.sampled_from(["10.0.0.1", "10.0.0.255", "10.0.1.0", "192.168.1.77", "0.0.0.0", "255.255.255.255", "172.16.5.4", "not an ip", ""]),
                st.tuples(*[st.integers(0, 255)] * 4).map(lambda t: ".".join(map(str, t))))
JSONS = st.sampled_from(['{}', '{"a": 1}', '{"a": {"b": [1, 2]}, "c": null}', '{"x y": "é", "z": 2}', '[1, 2]', '[]', '{', '{"a": }', 'plain', '', '{"b": "}"}'])
FINITE = lambda lo, hi: st.one_of(st.integers(int(lo * 100), int(hi * 100)).map(lambda n: n / 100), st.floats(lo, hi, allow_nan=False, width=32).map(lambda x: x + 0.0))
TIMES = st.one_of(st.integers(0, 4102444799), st.sampled_from([0, 951782399, 951782400, 1709164799, 1711846799, 1735689599, 1735689600, 1706745600, 68169600]))
# integers are exact in float64
COLS = {
    "i": ("bigint", OPT(st.one_of(st.integers(-1000, 1000), st.sampled_from([0, 1, -1, 7, 2**31, -2**31 - 1, 2**52])))),
    "u": ("bigint", OPT(st.one_of(st.integers(0, 4096), st.sampled_from([0, 1, 255, 2**31, 2**40 + 5])))),
    "d": ("double", OPT(FINITE(-1000, 1000))),
    "f": ("double", OPT(FINITE(-1, 1))),
    "p": ("double", OPT(FINITE(1, 50))),
    "s": ("string", OPT(TEXT)),
    "n": ("string", OPT(st.one_of(st.integers(-999, 99999).map(str), st.integers(-9999, 9999).map(lambda n: str(n / 100)), st.sampled_from(["0", "007", "1e3", "-2.5e-2"])))),
    "h": ("string", OPT(st.one_of(st.integers(0, 2**40).map(lambda n: format(n, "x")), st.integers(0, 255).map(lambda n: format(n, "b")), st.sampled_from(["0A4", "ff", "FF", "zz", "", "12", "777", "-1f"])))),
    "m": ("array<string>", OPT(st.lists(st.sampled_from(["a", "b", "c d", "10", "ß", ""]), max_size=5))),
    "b": ("boolean", OPT(st.booleans())),
    "t": ("timestamp", OPT(TIMES)),
    "a": ("string", OPT(IPS)),
    "j": ("string", OPT(JSONS)),
}
NAMES = [k + n for k in COLS for n in "12"]
SCHEMA = ", ".join(f"{c} {COLS[c[0]][0]}" for c in NAMES)


class Out(Exception):
    """SPL does not define the value here."""


# ---------------------------------------------------------------- references

def strict(fn):
    def g(*xs):
        if any(x is None for x in xs):
            return None
        try:
            return fn(*xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Out()
    return g


def finite(fn):
    def g(*xs):
        v = fn(*xs)
        if not math.isfinite(v) or abs(v) > 1e15:
            raise Out()
        return v
    return strict(g)


def integral(x):
    if not isinstance(x, int) or isinstance(x, bool):
        raise Out()
    return x


def nonneg(x):
    if integral(x) < 0:
        raise Out()
    return x


def small(v):
    if abs(v) >= 2**53:
        raise Out()
    return v


def half_up(x, places=0):
    return float(Decimal(repr(float(x))).quantize(Decimal(1).scaleb(-places), rounding=ROUND_HALF_UP)) if places else int(Decimal(repr(float(x))).quantize(Decimal(1), rounding=ROUND_HALF_UP))


def like_re(p):
    return "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in p)


def r_like(x, p):
    if "\\" in p:
        raise Out()
    return re.fullmatch(like_re(p), x, re.S) is not None


def r_case(*a):
    for c, v in zip(a[::2], a[1::2]):
        if c is True:
            return v
    return None


def r_validate(*a):
    for c, v in zip(a[::2], a[1::2]):
        if c is False:
            return v
    return None


def r_coalesce(*a):
    return next((x for x in a if x is not None), None)


def numbers(fn):
    def g(*a):
        xs = [x for x in a if x is not None]
        if len(xs) < len(a):
            raise Out()
        return fn(xs)
    return g


def extreme(fn):
    def g(*a):
        xs = [x for x in a if x is not None]
        return fn(xs) if xs else None
    return g


def cidr(net, ip):
    try:
        return ipaddress.ip_address(ip) in ipaddress.ip_network(net, strict=False)
    except ValueError:
        return False


def r_cidr(net, ip):
    return False if ip is None or net is None else cidr(net, ip)


def dotted(x):
    return int(ipaddress.IPv4Address(x))


def r_ipmask(mask, ip):
    try:
        return str(ipaddress.IPv4Address(dotted(mask) & dotted(ip)))
    except ValueError:
        return None


def r_printf(f, *args):
    if f is None or any(a is None for a in args):
        raise Out()
    try:
        return f % args
    except (TypeError, ValueError, OverflowError):
        raise Out()


def to_text(x):
    if isinstance(x, bool) or isinstance(x, float):
        raise Out()
    return str(x)


def r_tostring(x, fmt=None):
    if x is None:
        return None
    if fmt is None:
        return to_text(x)
    if isinstance(x, bool) or (fmt != "commas" and (not isinstance(x, int) or x < 0)):
        raise Out()
    if fmt == "binary":
        return format(x, "b")
    if fmt == "hex":
        return "0x" + format(x, "X")
    if fmt == "commas":
        if isinstance(x, int):
            return f"{x:,}"
        if abs(Decimal(repr(x)) * 1000 % 10) == 5:
            raise Out()                       # the rounding of exact halves is not specified
        t = format(Decimal(repr(x)).quantize(Decimal("0.01"), rounding=ROUND_HALF_UP), ",f")
        if float(t.replace(",", "")) != x and abs(float(t.replace(",", "")) - x) < 1e-9:
            raise Out()
        return ("commas", t)
    days, rest = divmod(x, 86400)
    return (f"{days}+" if days else "") + f"{rest // 3600:02d}:{rest % 3600 // 60:02d}:{rest % 60:02d}"


def r_tonumber(x, base=10):
    if x is None:
        return None
    if base == 10:
        return float(x)
    if not re.fullmatch(r"-?[0-9A-Za-z]*", x):
        raise Out()
    try:
        return int(x, base)
    except ValueError:
        return None


def r_replace(x, rx, rep):
    return re.sub(rx, lambda m: re.sub(r"\\(\d)", lambda g: m.group(int(g.group(1))) or "", rep), x)


def r_substr(x, start, length):
    if start == 0 or -start > len(x):
        raise Out()
    i = start - 1 if start > 0 else len(x) + start
    return x[i:i + length]


def r_mvindex(m, start, end=None):
    n = len(m)
    s = start if start >= 0 else n + start
    if end is None:
        return m[s] if 0 <= s < n else None
    e = end if end >= 0 else n + end
    return m[max(s, 0):e + 1] if e >= 0 else []


def r_split(x, d):
    return x.split(d)


def r_mvzip(a, b, d=","):
    if len(a) != len(b):
        raise Out()
    return [x + d + y for x, y in zip(a, b)]


def r_json_valid(x):
    import json
    if x is None:
        return False
    try:
        json.loads(x)
        return True
    except ValueError:
        return False


def r_json_keys(x):
    import json
    try:
        v = json.loads(x)
    except ValueError:
        return None
    return list(v) if isinstance(v, dict) else None


def shift(t, n, scale):
    if scale == "months":
        m = t.year * 12 + t.month - 1 + n
        y, m = divmod(m, 12)
        return t.replace(year=y, month=m + 1, day=min(t.day, calendar.monthrange(y, m + 1)[1]))
    return t + dt.timedelta(**{scale: n})


def snap(t, scale):
    t = t.replace(microsecond=0)
    if scale == "seconds":
        return t
    t = t.replace(second=0)
    if scale == "minutes":
        return t
    t = t.replace(minute=0)
    if scale == "hours":
        return t
    t = t.replace(hour=0)
    if scale == "days":
        return t
    if scale == "weeks":
        return t - dt.timedelta(days=t.weekday())
    return t.replace(day=1)


def r_relative(t, span=None, sn=None, off=None):
    if span is not None:
        t = shift(t, *span)
    if sn is not None:
        t = snap(t, sn)
    if off is not None:
        t = shift(t, *off)
    return t


SHOWN = {"%Y": lambda t: f"{t.year:04d}", "%m": lambda t: f"{t.month:02d}", "%d": lambda t: f"{t.day:02d}", "%H": lambda t: f"{t.hour:02d}", "%M": lambda t: f"{t.minute:02d}",
         "%S": lambda t: f"{t.second:02d}", "%y": lambda t: f"{t.year % 100:02d}", "%j": lambda t: f"{t.timetuple().tm_yday:03d}", "%I": lambda t: f"{(t.hour + 11) % 12 + 1:02d}",
         "%p": lambda t: "AM" if t.hour < 12 else "PM", "%F": lambda t: f"{t.year:04d}-{t.month:02d}-{t.day:02d}", "%T": lambda t: f"{t.hour:02d}:{t.minute:02d}:{t.second:02d}",
         "%b": lambda t: t.strftime("%b"), "%B": lambda t: t.strftime("%B"), "%a": lambda t: t.strftime("%a"), "%A": lambda t: t.strftime("%A"), "%%": lambda t: "%",
         "%3N": lambda t: "000", "%6N": lambda t: "000000", "%3Q": lambda t: "000", "%6Q": lambda t: "000000", "%f": lambda t: "000000", "%Q": lambda t: "000", "%z": lambda t: "+0000"}


def r_strftime(t, f):
    return re.sub(r"%(?:[369][NQ]|.)", lambda m: SHOWN[m.group(0)](t), f)


# ---------------------------------------------------------------- table of functions
# name -> list of (argument kinds, result kind, reference); upper case: expression of that kind, "=x": parameter strategy x
N1 = lambda fn, k="D": [((k,), "D", finite(fn))]
PARAMS = {
    "shift": st.integers(0, 12), "base": st.sampled_from([2, 8, 16, 36, 16]), "logbase": st.sampled_from([2, 10, 3, 7]), "places": st.integers(0, 4),
    "start": st.sampled_from([1, 2, 3, -1, -2, 5, 40]), "length": st.integers(0, 6), "idx": st.integers(-4, 4), "chars": st.sampled_from([" ", "a", "ab", "x1", "_", ".,", "%"]),
    "delim": st.sampled_from([",", ".", "|", "X", "a", "||", "-", " ", "(", "\\", "[", "+", "$", "ab"]),
    "regex": st.sampled_from(["a", "[0-9]+", "(a)(b)?", "^a", "b$", "[aX]", "x|y", "(\\d)(\\d)", "a.b", " +", "(.)\\.(.)"]),
    "rep": st.sampled_from(["", "_", "\\1", "<\\1>", "$", "$1", "a$b", "\\1\\1", "é"]),
    "fmt": st.lists(st.one_of(st.sampled_from(sorted(SHOWN)), st.sampled_from(["-", ":", " ", "T", "at ", "'", "[x]", "day "])), min_size=1, max_size=5).map("".join).map(lambda f: f if "%" in f else f + "%H"),
    "net": st.sampled_from(["10.0.0.0/8", "10.0.0.0/24", "10.0.0.77/24", "192.168.1.64/26", "0.0.0.0/0", "10.0.0.1/32", "bogus", "255.255.255.255/31"]),
    "mask": st.sampled_from(["255.255.255.0", "0.255.0.244", "0.0.0.0", "255.255.255.255", "255.0.0.255", "128.0.0.1", "255.255.0"]),
    "like": st.sampled_from(["a%", "%a%", "_", "%", "", "a_b", "%.%", "10.0.%", "%X_", "A%", "%日%", "__"]),
    "pat": st.sampled_from(["a", "^a", "[0-9]", "b$", "a.b", "^$", "(?i)beta", "X|Y", "\\.", "日"]),
    "tofmt": st.sampled_from(["binary", "hex", "commas", "duration", "hex", "duration"]),
    "vals": st.lists(st.sampled_from(["alpha", "Beta", "a.b", "", "x", "日本語"]), min_size=1, max_size=4), "ivals": st.lists(st.integers(-3, 300), min_size=1, max_size=4),
    "span": st.fixed_dictionaries({"value": st.integers(-90, 90), "scale": st.sampled_from(["months", "weeks", "days", "hours", "minutes", "seconds"])}),
    "snap": st.sampled_from(["months", "weeks", "days", "hours", "minutes", "seconds"]),
    "pf1": st.sampled_from(["%d", "<%5d>", "%-5d|", "%05d", "%+d", "%x", "%X", "%o", "%s", "n=%d%%", "%.3f", "%8.2f", "%e", "%c"]),
    "pf2": st.sampled_from(["%s-%d", "%-6s|%3d", "%10s%x", "%.2s=%d"]),
}
FUNCS = {
    "bit_and": [(("U", "U"), "U", strict(lambda a, b: nonneg(a) & nonneg(b)))], "bit_or": [(("U", "U"), "U", strict(lambda a, b: nonneg(a) | nonneg(b)))],
    "bit_xor": [(("U", "U"), "U", strict(lambda a, b: nonneg(a) ^ nonneg(b)))], "bit_not": [(("I",), "I", strict(lambda a: ~integral(a)))],
    "bit_shift_left": [(("U", "=shift"), "U", strict(lambda a, n: small(nonneg(a) << n)))], "bit_shift_right": [(("U", "=shift"), "U", strict(lambda a, n: nonneg(a) >> n))],
    "case": [(("B", "S", "B", "S"), "S", r_case), (("B", "D"), "D", r_case), (("B", "S", "B", "S", "B", "S"), "S", r_case), (("B", "I", "B", "I"), "I", r_case)],
    "validate": [(("B", "S", "B", "S"), "S", r_validate), (("B", "D"), "D", r_validate), (("B", "S", "B", "S", "B", "S"), "S", r_validate)],
    "cidrmatch": [(("=net", "A"), "B", r_cidr)],
    "coalesce": [(("S", "S"), "S", r_coalesce), (("D", "D", "D"), "D", r_coalesce), (("I",), "I", r_coalesce), (("S", "S", "S", "S"), "S", r_coalesce)],
    "false": [((), "B", lambda: False)], "true": [((), "B", lambda: True)],
    "if_": [(("B", "S", "S"), "S", lambda c, a, b: a if c is True else b), (("B", "I", "I"), "I", lambda c, a, b: a if c is True else b), (("B", "D", "I"), "D", lambda c, a, b: a if c is True else b),
            (("B", "B", "B"), "B", lambda c, a, b: a if c is True else b)],
    "in_": [(("S", "=vals"), "B", strict(lambda x, v: x in v)), (("I", "=ivals"), "B", strict(lambda x, v: x in v))],
    "like": [(("S", "s:like"), "B", strict(r_like))], "match": [(("S", "s:pat"), "B", strict(lambda x, p: re.search(p, x) is not None))],
    "null": [((), "S", lambda: None)],
    "nullif": [(("S", "S"), "S", lambda a, b: None if a is not None and a == b else a), (("I", "I"), "I", lambda a, b: None if a is not None and a == b else a)],
    "ipmask": [(("s:mask", "A"), "S", strict(r_ipmask))],
    "printf": [(("s:pf1", "I"), "S", r_printf), (("s:pf2", "S", "I"), "S", r_printf)],
    "tonumber": [(("NS",), "D", r_tonumber), (("HS", "=base"), "I", r_tonumber)],
    "tostring": [(("I",), "S", r_tostring), (("S",), "S", r_tostring), (("U", "=tofmt"), "S", r_tostring), (("D", "=tofmt"), "S", r_tostring)],
    "md5": [(("S",), "S", strict(lambda x: hashlib.md5(x.encode()).hexdigest()))], "sha1": [(("S",), "S", strict(lambda x: hashlib.sha1(x.encode()).hexdigest()))],
    "sha256": [(("S",), "S", strict(lambda x: hashlib.sha256(x.encode()).hexdigest()))], "sha512": [(("S",), "S", strict(lambda x: hashlib.sha512(x.encode()).hexdigest()))],
    "relative_time": [(("T", "=span"), "T", strict(r_relative)), (("T", "=span", "=snap"), "T", strict(r_relative)), (("T", "=span", "=snap", "=span"), "T", strict(r_relative)),
                      (("T", "=none", "=snap"), "T", None), (("T", "=none", "=snap", "=span"), "T", None)],
    "strftime": [(("T", "=fmt"), "S", strict(r_strftime))], "strptime": [(("TS", "=tfmt"), "T", None)],
    "isnotnull": [((k,), "B", lambda x: x is not None) for k in "SDIBM"], "isnull": [((k,), "B", lambda x: x is None) for k in "SDIBM"],
    "json_keys": [(("J",), "M", strict(r_json_keys))], "json_valid": [(("J",), "B", r_json_valid)],
    "abs": [(("D",), "D", strict(abs)), (("I",), "I", strict(abs))], "ceiling": [(("D",), "I", strict(math.ceil)), (("I",), "I", strict(math.ceil))],
    "floor": [(("D",), "I", strict(math.floor)), (("I",), "I", strict(math.floor))], "exact": [(("D",), "D", strict(float)), (("I",), "D", strict(float))],
    "exp": N1(math.exp, "F") + N1(math.exp), "ln": N1(math.log, "P") + N1(math.log), "log": [(("P",), "D", finite(math.log10)), (("P", "=logbase"), "D", finite(lambda x, b: math.log(x) / math.log(b)))],
    "pi": [((), "D", lambda: math.pi)], "pow": [(("P", "F"), "D", finite(lambda a, b: math.pow(a, b))), (("D", "=n2"), "D", None)],
    "round": [(("D",), "D", strict(half_up)), (("D", "=places"), "D", strict(half_up)), (("I",), "I", strict(lambda x: x))], "sqrt": N1(math.sqrt, "P") + N1(math.sqrt),
    "sum_": [(("I", "I"), "I", numbers(lambda xs: small(sum(xs)))), (("D", "D", "I"), "D", numbers(sum)), (("D",), "D", numbers(sum))],
    "mvappend": [(("M", "M"), "M", strict(lambda *a: sum(a, []))), (("M", "M", "M"), "M", strict(lambda *a: sum(a, []))), (("M",), "M", strict(lambda a: a))],
    "mvcount": [(("M",), "I", None)], "mvindex": [(("M", "=idx"), "S", strict(r_mvindex)), (("M", "=idx", "=idx"), "M", strict(r_mvindex))],
    "mvzip": [(("M", "M"), "M", strict(r_mvzip)), (("M", "M", "=delim"), "M", strict(r_mvzip))], "split": [(("S", "=delim"), "M", strict(r_split))],
    "avg": [(("D", "D"), "D", numbers(lambda xs: sum(xs) / len(xs))), (("I", "D", "I"), "D", numbers(lambda xs: sum(xs) / len(xs))), (("I", "I"), "D", numbers(lambda xs: sum(xs) / len(xs))), (("D",), "D", numbers(lambda xs: xs[0]))],
    "max_": [(("D", "D"), "D", extreme(max)), (("I", "D", "D"), "D", extreme(max)), (("I",), "I", extreme(max)), (("I", "I", "I"), "I", extreme(max))],
    "min_": [(("D", "D"), "D", extreme(min)), (("I", "D", "D"), "D", extreme(min)), (("I",), "I", extreme(min)), (("I", "I", "I"), "I", extreme(min))],
    "len_": [(("S",), "I", strict(len))], "lower": [(("S",), "S", strict(str.lower))], "upper": [(("S",), "S", strict(str.upper))],
    "ltrim": [(("S", "=chars"), "S", strict(lambda x, c: x.lstrip(c)))], "rtrim": [(("S", "=chars"), "S", strict(lambda x, c: x.rstrip(c)))], "trim": [(("S", "=chars"), "S", strict(lambda x, c: x.strip(c)))],
    "replace": [(("S", "=regex", "=rep"), "S", None)], "substr": [(("S", "=start", "=length"), "S", strict(r_substr))], "urldecode": [(("US",), "S", strict(unquote_plus))],
    "acos": N1(math.acos, "F"), "asin": N1(math.asin, "F"), "atan": N1(math.atan), "acosh": N1(math.acosh, "P"), "asinh": N1(math.asinh), "atanh": [(("F",), "D", finite(math.atanh))],
    "atan2": [(("D", "D"), "D", finite(math.atan2))], "cos": N1(math.cos), "cosh": N1(math.cosh, "F"), "hypot": [(("D", "D"), "D", finite(math.hypot))], "sin": N1(math.sin), "sinh": N1(math.sinh, "F"),
    "tan": N1(math.tan), "tanh": N1(math.tanh),
}
PARAMS["none"] = st.none()
PARAMS["n2"] = st.sampled_from([2, 3, 0, 1])
PARAMS["tfmt"] = st.sampled_from(["%Y-%m-%d %H:%M:%S", "%F %T", "%Y-%m-%dT%H:%M:%S"])
UNSUPPORTED = ["lookup:3", "searchmatch:1", "isbool:1", "isint:1", "isnum:1", "isstr:1", "typeof:1", "json_object:2", "json_array:2", "json_array_to_mv:2", "json_extract:2", "json_extract_exact:2", "commands:1",
               "mvdedup:1", "mvfilter:1", "mvfind:2", "mvjoin:2", "mvmap:2", "mvrange:3", "mvsort:1", "mv_to_json_array:1", "spath:2"]
RESULT = {}
for _n, _rows in FUNCS.items():
    for _i, (_a, _r, _f) in enumerate(_rows):
        RESULT.setdefault(_r, []).append((_n, _i))
FROM = {"I": "iu", "U": "u", "D": "dipf", "F": "f", "P": "p", "S": "snaj", "NS": "n", "HS": "h", "M": "m", "B": "b", "T": "t", "A": "a", "J": "j"}
NESTED = {"I": ["I", "U"], "U": ["U"], "D": ["D", "I"], "S": ["S"], "M": ["M"], "B": ["B"], "T": ["T"]}


@st.composite
def expression(draw, kind, depth):
    if kind.startswith("="):
        return ["p", draw(PARAMS[kind[1:]])]
    if kind.startswith("s:"):
        return ["s", draw(PARAMS[kind[2:]])]
    if kind in ("TS", "US"):
        return ["c", "s1" if kind == "TS" else "s2", 0]     # replaced below
    choice = draw(st.integers(0, 9))
    if choice >= 7 and depth and kind in NESTED:
        return draw(call(draw(st.sampled_from(NESTED[kind])), depth - 1))
    if choice == 6:
        if kind in "IU" or kind == "D":
            return ["n", draw(st.sampled_from([0, 1, 2, 3, 7, 100])) if kind != "D" else draw(st.sampled_from([0, 1, 2.5, -0.5, 10, 0.1])), draw(st.integers(0, 1))]
        if kind == "S":
            return ["s", draw(st.sampled_from(WORDS))]
        if kind == "B":
            return ["cmp", draw(st.sampled_from(["i1", "i2", "d1", "u1"])), draw(st.sampled_from(["==", ">", "<="])), draw(st.integers(-2, 300))]
    k = draw(st.sampled_from(FROM[kind]))
    return ["c", k + draw(st.sampled_from("12")), draw(st.integers(0, 1))]


@st.composite
def call(draw, kind=None, depth=1, name=None, i=None):
    if name is not None:
        if i is None:
            i = draw(st.integers(0, len(FUNCS[name]) - 1))
    else:
        opts = RESULT[kind]
        name, i = opts[draw(st.integers(0, len(opts) - 1))]
    kinds = FUNCS[name][i][0]
    args = [draw(expression(k, depth)) for k in kinds]
    if name == "urldecode":
        args = [["s", draw(st.sampled_from(["a%20b", "http%3A%2F%2Fx%3Fa%3Db", "%E6%97%A5", "plain", "", "100%25", "%C3%A9%C3%9F"]))]]
    if name == "strptime":
        # text that the format describes
        f = args[1][1]
        t = draw(TIMES)
        args[0] = ["s", (dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t)).strftime(f.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S"))]
    return ["f", name, i, args]


ALL = sorted(FUNCS)
SIGNATURES = [(n, i) for n in ALL for i in range(len(FUNCS[n]))]
CHUNKS = 4


@st.composite
def cases(draw, nrows=6, ncalls=36):
    rows = [[draw(COLS[c[0]][1]) for c in NAMES] for _ in range(draw(st.integers(1, nrows)))]
    k = draw(st.integers(0, 2 * CHUNKS - 1))
    if k >= CHUNKS:      # every function in every form, in turn
        calls = [draw(call(name=n, i=i, depth=1)) for n, i in SIGNATURES[k - CHUNKS::CHUNKS]]
    else:
        calls = [draw(call(name=draw(st.sampled_from(ALL)), depth=2)) for _ in range(draw(st.integers(1, ncalls)))]
    return {"ansi": draw(st.booleans()), "rows": rows, "calls": calls}


# ---------------------------------------------------------------- evaluation

EPOCH = dt.datetime(1970, 1, 1)


def refval(e, row, ansi):
    k = e[0]
    if k == "c":
        v = row[NAMES.index(e[1])]
        return EPOCH + dt.timedelta(seconds=v) if e[1][0] == "t" and v is not None else v
    if k in ("n", "s", "p"):
        return e[1]
    if k == "cmp":
        v = row[NAMES.index(e[1])]
        return None if v is None else {"==": v == e[3], ">": v > e[3], "<=": v <= e[3]}[e[2]]
    name, i, args = e[1:]
    vals = [refval(a, row, ansi) for a in args]
    if any(isinstance(v, tuple) for v in vals):          # rounded text: not used any further
        raise Out()
    fn = FUNCS[name][i][2]
    if name == "relative_time":
        def span(x):
            return None if x is None else (x["value"], x["scale"])
        t, rest = vals[0], vals[1:] + [None] * (4 - len(vals))
        if t is None:
            return None
        try:
            v = r_relative(t, span(rest[0]), rest[1], span(rest[2]))
        except (ValueError, OverflowError):
            raise Out()
        if not 1900 < v.year < 2200:
            raise Out()
        return v
    if name == "strptime":
        if vals[0] is None:
            return None
        return dt.datetime.strptime(vals[0], vals[1].replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S"))
    if name == "mvcount":
        if vals[0] is None:
            if not ansi:
                raise Out()               # Spark's own setting decides what the size of nothing is
            return None
        return len(vals[0])
    if name == "pow" and i == 1:
        return finite(math.pow)(*vals)
    if name == "replace":
        x, rx, rep = vals
        if x is None:
            return None
        if "\\1" in rep and "(" not in rx:
            raise Out()
        return r_replace(x, rx, rep)
    if name == "tostring" and len(vals) == 1 and not isinstance(vals[0], (int, str, type(None))):
        raise Out()
    if name == "tonumber" and len(vals) == 2 and vals[0] is not None and len(vals[0]) > 11:
        raise Out()
    if name in ("json_valid",) and vals[0] == "":
        raise Out()
    v = fn(*vals)
    if FUNCS[name][i][1] == "D" and isinstance(v, int) and not isinstance(v, bool):
        v = float(v)
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) >= 2**53:
        raise Out()
    return v


def build(e, F, ev):
    k = e[0]
    if k == "c":
        return F.col(e[1]) if e[2] else e[1]
    if k == "n":
        return F.lit(e[1]) if e[2] else e[1]
    if k == "s":
        return F.lit(e[1])
    if k == "p":
        return e[1]
    if k == "cmp":
        c = F.col(e[1])
        return {"==": c == e[3], ">": c > e[3], "<=": c <= e[3]}[e[2]]
    return getattr(ev, e[1])(*[build(a, F, ev) for a in e[3]])


def names_in(e):
    yield e[1]
    for a in e[3]:
        if a[0] == "f":
            yield from names_in(a)


def same(exp, got):
    if isinstance(exp, tuple):
        return isinstance(got, str) and got in (exp[1], exp[1].rstrip("0").rstrip("."), re.sub(r"(\.\d)0$", r"\1", exp[1]))
    if exp is None or got is None:
        return exp is got
    if isinstance(exp, bool) or isinstance(got, bool):
        return exp is got
    if isinstance(exp, (int, float)):
        return isinstance(got, (int, float)) and math.isclose(exp, got, rel_tol=1e-9, abs_tol=1e-9)
    return type(exp) is type(got) and exp == got


def show(e):
    k = e[0]
    if k == "c":
        return f"F.col({e[1]!r})" if e[2] else repr(e[1])
    if k in ("n", "p"):
        return repr(e[1])
    if k == "s":
        return f"F.lit({e[1]!r})"
    if k == "cmp":
        return f"F.col({e[1]!r}) {e[2]} {e[3]}"
    return f"{e[1]}({', '.join(show(a) for a in e[3])})"


def check(case):
    import warnings
    warnings.filterwarnings("ignore")
    F, ev = mods()
    sparkrun.ansi(case["ansi"])
    todo = []
    for e in case["calls"]:
        try:
            exp = [refval(e, r, case["ansi"]) for r in case["rows"]]
        except Out:
            exp = None
        if exp is not None:
            todo.append((e, exp))
    if not todo:
        raise Skip()
    rows = [[EPOCH + dt.timedelta(seconds=v) if n[0] == "t" and v is not None else v for n, v in zip(NAMES, r)] for r in case["rows"]]
    df = sparkrun.frame([[i] + r for i, r in enumerate(rows)], "row int, " + SCHEMA).coalesce(1)
    cols = []
    for n, (e, exp) in enumerate(todo):
        try:
            cols.append(build(e, F, ev).alias(f"r{n}"))
        except Exception as x:
            raise Violation(f"{show(e)} raises {type(x).__name__}: {str(x)[:200]}")
    try:
        got = sorted(df.select("row", *cols).collect())
        table = [list(g)[1:] for g in got]
    except Exception:
        table = None
        for n, (e, exp) in enumerate(todo):
            try:
                got = sorted((tuple(r) for r in df.select("row", cols[n]).collect()), key=lambda r: r[0])
            except Exception as x:
                raise Violation(f"{show(e)} fails on Spark (ANSI {'on' if case['ansi'] else 'off'}): {str(x)[:300]}", expected=exp)
            judge(e, exp, [g[1] for g in got], case)
    if table is not None:
        for n, (e, exp) in enumerate(todo):
            judge(e, exp, [r[n] for r in table], case)
    labels = sorted({f"fn {n}" for e, _ in todo for n in names_in(e)})
    return {"nontrivial": len(todo) >= 1, "labels": ["judged call"] * len(todo) + ["dropped call"] * (len(case["calls"]) - len(todo)) + labels,
            "sample": {"ansi": case["ansi"], "rows": len(rows), "calls": [show(e) for e, _ in todo[:4]]}}


def judge(e, exp, got, case):
    got = [sparkrun.plain(v) for v in got]
    got = [v.replace(tzinfo=None) if isinstance(v, dt.datetime) else v for v in got]
    for i, (x, g) in enumerate(zip(exp, got)):
        if not same(x, g):
            row = {n: v for n, v in zip(NAMES, case["rows"][i]) if n in str(e)}
            raise Violation(f"{show(e)} on {row} gives {g!r}, expected {x!r}", expected=str(x), observed=str(g))


_M = {}


def mods():
    if not _M:
        sparkrun.session()
        from pyspark.sql import functions as F
        from spl_transpiler.runtime.functions import eval as ev
        _M["m"] = (F, ev)
    return _M["m"]


def setup():
    F, ev = mods()
    sparkrun.frame([[1]], "a int").collect()


# ---------------------------------------------------------------- refusals and clock

def refused_cases():
    for f in UNSUPPORTED:
        yield {"f": f.split(":")[0], "n": int(f.split(":")[1])}
    for f, n in (("case", 1), ("case", 3), ("validate", 1), ("validate", 5), ("case", 0), ("validate", 0)):
        yield {"f": f, "n": n}


def check_refused(case):
    F, ev = mods()
    fn = getattr(ev, case["f"])
    args = ["a", "b", "c", "d", "e"][:case["n"]]
    if case["f"] in ("mvrange",):
        args = [1, 2, 3]
    if case["f"] == "json_array_to_mv":
        args = ["a", True]
    try:
        v = fn(*args)
    except (NotImplementedError, ValueError):
        return {"nontrivial": True, "labels": ["refused"], "sample": case}
    raise Violation(f"{case['f']} with {case['n']} arguments is not refused but gives {v!r}")


def clock_cases():
    for f in ("now", "time"):
        for ansi in (True, False):
            yield {"f": f, "ansi": ansi}


def check_clock(case):
    F, ev = mods()
    sparkrun.ansi(case["ansi"])
    a = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None) - dt.timedelta(seconds=5)
    rows = sparkrun.frame([[1], [2]], "a int").select(getattr(ev, case["f"])().cast("double").alias("t")).collect()
    b = dt.datetime.now(dt.timezone.utc).replace(tzinfo=None) + dt.timedelta(seconds=5)
    for r in rows:
        t = EPOCH + dt.timedelta(seconds=r.t)
        if not a <= t <= b:
            raise Violation(f"{case['f']}() gives {t}, between {a} and {b} expected")
    if case["f"] == "now" and len({r.t for r in rows}) != 1:
        raise Violation("now() differs between rows of one job")
    return {"nontrivial": True, "labels": [case["f"]], "sample": case}


EDGES = {
    "mvzip of lists of different lengths": ("mvzip('m1', 'm2')", lambda F, ev: ev.mvzip("m1", "m2"), ["a,c"]),
    "tonumber of text that is no number": ("tonumber('s1')", lambda F, ev: ev.tonumber("s1"), None),
    "mvcount of nothing": ("mvcount('m3')", lambda F, ev: ev.mvcount("m3"), None),
    "tostring of a boolean": ("tostring('b1')", lambda F, ev: ev.tostring("b1"), "True"),
}


def edge_cases():
    for k in EDGES:
        for ansi in (True, False):
            yield {"what": k, "ansi": ansi}


def check_edge(case):
    F, ev = mods()
    sparkrun.ansi(case["ansi"])
    text, make, exp = EDGES[case["what"]]
    df = sparkrun.frame([["abc", ["a"], ["c", "d"], None, True]], "s1 string, m1 array<string>, m2 array<string>, m3 array<string>, b1 boolean")
    try:
        got = df.select(make(F, ev).alias("x")).collect()[0].x
    except Exception as e:
        got = f"{type(e).__name__}"
    if got != exp:
        raise Violation(f"{case['what']}: {text} gives {got!r}, expected {exp!r} (ANSI {'on' if case['ansi'] else 'off'})")
    return {"nontrivial": True, "labels": [case["what"]], "sample": case}


SUBS = [
    Sub("calls", check, strategy=cases, quick=320, thorough=12000, shards=4, setup=setup,
        rule="a case is a table of 1-6 rows over 26 typed columns and up to 36 (nested) calls run as one Spark job; non-trivial if at least one call's value is defined by SPL on every row (each such call is counted as 'judged call')"),
    Sub("refused", check_refused, cases=refused_cases, shards=1, setup=setup, rule="every case: a function the library does not implement, or an impossible number of arguments"),
    Sub("edges", check_edge, cases=edge_cases, shards=1, setup=setup, rule="every case: an input on which Spark's own default differs from SPL's"),
    Sub("clock", check_clock, cases=clock_cases, shards=1, setup=setup, rule="every case"),
]
