"""C26 syntax trees are faithful, immutable values."""
import cmds
import spl
import tree
from core import Sub, Violation
from hypothesis import strategies as st

from props import c11


def queries():
    tail = c11.queries().map(lambda c: ["opt", c])
    pipe = st.fixed_dictionaries({"p": cmds.pipelines(1, 4, True), "y": spl.styles()}).map(lambda c: ["pipe", c])
    return st.one_of(pipe, tail)


def text_of(q):
    if q[0] == "pipe":
        return cmds.render_pipeline(q[1]["p"], spl.Style(q[1]["y"]))
    t, _ = c11.build(q[1])
    t = ("| " if q[1]["c"] in c11.LEADING else "search z=9 | ") + t + (" " + q[1]["next"] if q[1]["next"] else "")
    return f"search a=1 | join k [{t}]" if q[1]["at"] == "sub" else t


def parse(q):
    import spl_transpiler as s
    try:
        return s.parse(q)
    except ValueError as e:
        raise Violation(f"{q!r} is refused: {str(e)[:200]}", query=q)


def render(p, rt):
    import spl_transpiler as s
    try:
        return s.render_pyspark(p, allow_runtime=rt, format_code=False)
    except RuntimeError as e:
        return "RuntimeError: " + str(e)


def constructible(n):
    return type(n).__text_signature__ is not None or tree.is_variant(n)


def rebuild(n, change=None):
    """The same tree made with the public constructors; change: (id of node, attribute, new value)"""
    if n is None or isinstance(n, (bool, int, float, str)):
        return n
    if isinstance(n, list):
        return [rebuild(x) for x in n]
    if isinstance(n, tuple):
        return tuple(rebuild(x) for x in n)
    if tree.is_variant(n):
        return type(n)(rebuild(n._0))
    attrs = tree.attributes(n)
    if attrs:
        return type(n)(**{a: rebuild(getattr(n, a)) for a in attrs})
    v = tree.debug(repr(n))
    if len(v) == 2 and not isinstance(v[1], dict) and v[0] in tree.LEAVES:
        return type(n)(v[1])
    return n   # nothing to build it from (NullValue)


def check_faithful(case):
    q = text_of(case["q"])
    p = parse(q)
    rep = repr(p)
    if tree.walk(p) != tree.debug(rep):
        raise Violation(f"{q!r}: attributes and repr tell different things", query=q, attributes=tree.walk(p), repr=rep)
    r = rebuild(p)
    if not (r == p and p == r) or r != p:
        raise Violation(f"{q!r}: the rebuilt tree is not equal", query=q, tree=rep, rebuilt=repr(r))
    if hash(r) != hash(p):
        raise Violation(f"{q!r}: the rebuilt tree hashes differently", query=q, tree=rep)
    if repr(r) != rep:
        raise Violation(f"{q!r}: the rebuilt tree has another repr", query=q, tree=rep, rebuilt=repr(r))
    for rt in (False, True):
        if render(p, rt) != render(r, rt):
            raise Violation(f"{q!r}: the rebuilt tree renders to other code", query=q, runtime=rt)
    again = parse(q)
    if again != p or hash(again) != hash(p) or repr(again) != rep:
        raise Violation(f"{q!r}: parsed again, another tree", query=q)
    n = sum(1 for _ in tree.nodes(p))
    return {"nontrivial": n > 4, "labels": [f"nodes<{10 * (n // 10 + 1)}"] if n < 50 else ["nodes>=50"], "sample": q}


# ---- immutability

def check_frozen(case):
    q = text_of(case["q"])
    p = parse(q)
    rep, h, code = repr(p), hash(p), render(p, False)
    for n in list(tree.nodes(p)):
        attrs = ["_0"] if tree.is_variant(n) else tree.attributes(n)
        for a in attrs:
            v = getattr(n, a)
            for new in (v, None, 7, "x", []):
                try:
                    setattr(n, a, new)
                except (AttributeError, TypeError):
                    continue
                raise Violation(f"{q!r}: {type(n).__name__}.{a} can be assigned", query=q)
            try:
                delattr(n, a)
            except (AttributeError, TypeError):
                pass
            else:
                raise Violation(f"{q!r}: {type(n).__name__}.{a} can be deleted", query=q)
            if isinstance(v, list):   # a list handed out is the caller's own
                k = len(v)
                v.append(v[0] if v else 1)
                v.reverse()
                v.clear()
                if len(getattr(n, a)) != k:
                    raise Violation(f"{q!r}: {type(n).__name__}.{a} can be changed in place", query=q)
        try:
            n.brand_new = 1
        except (AttributeError, TypeError):
            pass
        else:
            raise Violation(f"{q!r}: {type(n).__name__} takes new attributes", query=q)
    if repr(p) != rep or hash(p) != h or render(p, False) != code or parse(q) != p:
        raise Violation(f"{q!r}: the tree changed", query=q)
    return {"nontrivial": True, "labels": sorted({type(n).__name__ for n in tree.nodes(p)})[:12], "sample": q}


# ---- every attribute counts: a tree with one attribute changed is another tree

def changed(v, k):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 if v < 2**62 else v - 1
    if isinstance(v, float):
        return v + 1.0
    if isinstance(v, str):
        return [v + "x", "x" + v, v.swapcase() if v.swapcase() != v else v + " ", v[:-1] if v else "y"][k % 4]
    if isinstance(v, list) and len(v) > 1 and k % 2 and not tree_eq(v[0], v[-1]):
        return type(v)([v[-1], *v[1:-1], v[0]])
    if isinstance(v, list) and v:
        return [v[:-1], v + [v[0]]][k // 2 % 2]
    return Ellipsis


def tree_eq(a, b):
    return type(a) is type(b) and tree.walk(a) == tree.walk(b)


def edit(n, path, k):
    """a copy of the tree with the value at the path (list of choices) changed"""
    if isinstance(n, (list, tuple)):
        if n and path and (path[0] % 3 != 2 or isinstance(n, tuple)):
            i = path[0] // 3 % len(n)
            out = list(n)
            out[i] = edit(n[i], path[1:], k)
            return type(n)(out)
        c = changed(n, k)
        return n if c is Ellipsis else c
    if n is None or isinstance(n, (bool, int, float, str)):
        c = changed(n, k)
        return n if c is Ellipsis else c
    if tree.is_variant(n):
        return type(n)(edit(n._0, path, k))
    attrs = tree.attributes(n)
    if attrs:
        a = attrs[(path[0] if path else k) % len(attrs)]
        d = {x: getattr(n, x) for x in attrs}
        d[a] = edit(d[a], path[1:], k)
        return type(n)(**d)
    v = tree.debug(repr(n))
    if len(v) == 2 and v[0] in tree.LEAVES:
        return type(n)(changed(v[1], k))
    return n


def check_edit(case):
    q = text_of(case["q"])
    p = parse(q)
    e = edit(p, case["path"], case["k"])
    same = repr(e) == repr(p)
    if (e == p) != same or (p == e) != same or (e != p) == same:
        raise Violation(f"{q!r}: trees are {'equal' if e == p else 'different'} but read differently", query=q, tree=repr(p), other=repr(e))
    if same and hash(e) != hash(p):
        raise Violation(f"{q!r}: equal trees hash differently", query=q)
    if not same and tree.walk(e) != tree.debug(repr(e)):
        raise Violation(f"{q!r}: edited tree reads back wrong", query=q, other=repr(e))
    if not same and hash(e) == hash(p):
        raise Violation(f"{q!r}: two different trees hash the same", query=q, tree=repr(p), other=repr(e))
    if p != parse(q):
        raise Violation(f"{q!r}: editing a copy changed the tree", query=q)
    for rt in (False, True):
        a = render(e, rt)
        if a != render(e, rt):
            raise Violation(f"{q!r}: edited tree renders differently each time", query=q)
    return {"nontrivial": not same, "labels": ["same" if same else "changed"], "sample": [repr(p)[:300], repr(e)[:300]]}


def edits():
    return st.fixed_dictionaries({"q": queries(), "path": st.lists(st.integers(0, 11), min_size=4, max_size=14), "k": st.integers(0, 3)})


# ---- two queries: equal trees exactly when they read the same, and then the same program

def check_pair(case):
    a, b = text_of(case["a"]), text_of(case["b"])
    p, r = parse(a), parse(b)
    same = repr(p) == repr(r)
    if (p == r) != same or (r == p) != same:
        raise Violation(f"{a!r} and {b!r}: equality and content disagree", a=repr(p), b=repr(r))
    if (len({p, r}) == 1) != same:
        raise Violation(f"{a!r} and {b!r}: sets mistake the trees", a=repr(p), b=repr(r))
    for rt in (False, True):
        if same and render(p, rt) != render(r, rt):
            raise Violation(f"{a!r} and {b!r}: equal trees, different code", a=repr(p))
    return {"nontrivial": True, "labels": ["equal" if same else "different"], "sample": [a, b]}


@st.composite
def pairs(draw):
    a = draw(queries())
    how = draw(st.integers(0, 3))
    if how == 0 or (a[0] == "opt" and how < 3):
        b = [a[0], dict(a[1], y=draw(spl.styles()))]
    elif a[0] == "opt":
        b = [a[0], dict(a[1], b=draw(c11.BODY[a[1]["c"]]))]
    else:
        b = draw(queries())
    return {"a": a, "b": b}


def one():
    return st.fixed_dictionaries({"q": queries()})


SUBS = [
    Sub("faithful", check_faithful, one, quick=5000, rule="trees of generated queries read through attributes and through repr, rebuilt with the constructors, compared, hashed, rendered in both modes; non-trivial: more than 4 nodes"),
    Sub("frozen", check_frozen, one, quick=2500, rule="every attribute of every node assigned and deleted, every list handed out changed in place"),
    Sub("edits", check_edit, edits, quick=6000, rule="one value anywhere in a tree changed through the constructors: other tree, other hash, original untouched; non-trivial: the value could be changed"),
    Sub("pairs", check_pair, pairs, quick=4000, rule="two queries, or two spellings of one: trees equal exactly when they read the same"),
]
