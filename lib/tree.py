"""Syntax trees of the tree under test as plain data, read in two independent ways.

walk(node)   through the Python attributes
debug(text)  from the repr

Both give: structures ["Name", {attr: value}], one-value leaves ["StrValue", value], lists, numbers, strings, None.
Variants of the enumerations (Expr_Leaf, Command_EvalCommand ...) that only wrap a structure are left out.
"""
import re

LEAVES = {"BoolValue", "IntValue", "StrValue", "DoubleValue", "Field", "Wildcard", "Variable", "IPv4CIDR", "NullValue"}
ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", '"': '"', "'": "'", "0": "\0"}
TOK = re.compile(r'\s*(?:([A-Za-z_]\w*)|(-?(?:\d+(?:\.\d+)?(?:[eE]-?\d+)?|inf|NaN))|("(?:[^"\\]|\\.)*")|([\[\](){},:]))', re.S)


def unescape(s):
    return re.sub(r"\\(?:u\{([0-9a-fA-F]+)\}|(.))", lambda m: chr(int(m[1], 16)) if m[1] else ESC[m[2]], s, flags=re.S)


class Debug:
    def __init__(self, text):
        self.toks, pos = [], 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                if not text[pos:].strip():
                    break
                raise ValueError(f"repr not understood at {text[pos:pos+40]!r}")
            self.toks.append((m.lastindex, m[m.lastindex]))
            pos = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (0, "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, p):
        t = self.next()
        if t[1] != p:
            raise ValueError(f"repr: {p} expected, {t[1]} found")

    def items(self, close):
        out = []
        while self.peek()[1] != close:
            out.append(self.value())
            if self.peek()[1] == ",":
                self.next()
        self.next()
        return out

    def value(self):
        k, t = self.next()
        if k == 2:
            return float(t) if re.search(r"[.eEiN]", t) else int(t)
        if k == 3:
            return unescape(t[1:-1])
        if t == "[":
            return self.items("]")
        if t == "(":
            return self.items(")")
        if k != 1:
            raise ValueError(f"repr: unexpected {t}")
        if t in ("true", "false"):
            return t == "true"
        if t == "None":
            return None
        if self.peek()[1] == "(":
            self.next()
            xs = self.items(")")
            if t == "Some":
                return xs[0]
            if t in LEAVES and not (len(xs) == 1 and isinstance(xs[0], list)):
                return [t, xs[0]] if xs else [t]
            if len(xs) == 1 and isinstance(xs[0], list):
                return xs[0]
            return [t, xs]
        if self.peek()[1] == "{":
            self.next()
            d = {}
            while self.peek()[1] != "}":
                name = self.next()[1]
                self.expect(":")
                d[name] = self.value()
                if self.peek()[1] == ",":
                    self.next()
            self.next()
            return [t, d]
        return [t]


def debug(text):
    d = Debug(text)
    v = d.value()
    if d.i != len(d.toks):
        raise ValueError("repr: text left over")
    return v


def attributes(node):
    t = type(node)
    return [n for n in dir(t) if not n.startswith("_") and not isinstance(getattr(t, n), type)]


def is_variant(node):
    return hasattr(type(node), "_0")


def walk(n):
    if n is None or isinstance(n, (bool, int, float, str)):
        return n
    if isinstance(n, (list, tuple)):
        return [walk(x) for x in n]
    if is_variant(n):
        return walk(n._0)
    name = type(n).__name__
    attrs = attributes(n)
    if attrs:
        return [name, {a: walk(getattr(n, a)) for a in attrs}]
    return debug(repr(n))


def nodes(n):
    """every node of a tree, outermost first"""
    if n is None or isinstance(n, (bool, int, float, str)):
        return
    if isinstance(n, (list, tuple)):
        for x in n:
            yield from nodes(x)
        return
    yield n
    if is_variant(n):
        yield from nodes(n._0)
        return
    for a in attributes(n):
        yield from nodes(getattr(n, a))
