"""A recording stand-in for (spark, F, commands, functions).

Generated code is executed against it; what comes out is a plain nested-list description of the
dataframe program ("plan").  The stand-in is strict: it refuses whatever real PySpark would refuse
at call time (unknown function/method, argument list the real signature does not bind, argument of a
kind the real parameter does not take, `and`/`or`/`not` on columns, non-string names).
"""
import ast
import builtins
import inspect
import re

import pyspark.sql.functions as REAL_F
from pyspark.sql import Column as RealColumn
from pyspark.sql import DataFrame as RealDataFrame
from pyspark.sql.classic.column import Column as _ClassicColumn  # noqa: F401  (import check only)


class Rejected(Exception):
    """PySpark (or Python) would reject this program."""


_KINDS = {}
LENIENT = []      # truthy: accept F.count(), which top and rare emit (see known_findings.json)


def _kinds(annotation):
    """Which kinds of value an annotation admits; None = do not check."""
    if annotation is inspect.Parameter.empty:
        return None
    s = annotation if isinstance(annotation, str) else getattr(annotation, "__name__", None) if isinstance(annotation, type) else str(annotation)
    if s is None:
        return None
    if s in _KINDS:
        return _KINDS[s]
    k = set()
    toks = set(re.findall(r"\w+", s))
    if "Any" in toks or "Callable" in toks or "DataFrame" in toks:
        k = None
    else:
        if "ColumnOrName" in toks:
            k |= {"column", "str"}
        if "Column" in toks:
            k.add("column")
        if "str" in toks:
            k.add("str")
        if "int" in toks:
            k |= {"int", "bool"}
        if "float" in toks or "LiteralType" in toks or "PrimitiveType" in toks:
            k |= {"int", "float", "bool"}
        if "bool" in toks:
            k.add("bool")
        if "LiteralType" in toks or "PrimitiveType" in toks:
            k |= {"str", "none"}
        if "Optional" in toks or "None" in toks:
            k.add("none")
        if toks & {"List", "Sequence", "Iterable", "list", "Tuple"}:
            k.add("list")
        if toks & {"Dict", "dict", "Mapping"}:
            k.add("dict")
        if not k:
            k = None
    _KINDS[s] = k
    return k


def _kind_of(v):
    if isinstance(v, Column):
        return "column"
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, (list, tuple)):
        return "list"
    if isinstance(v, dict):
        return "dict"
    return type(v).__name__


_SIGS = {}


def _sig(fn):
    if fn not in _SIGS:
        _SIGS[fn] = inspect.signature(fn)
    return _SIGS[fn]


def _bind(where, fn, args, kwargs, self_arg=False):
    sig = _sig(fn)
    try:
        b = sig.bind(*((None,) if self_arg else ()), *args, **kwargs)
    except TypeError as e:
        raise Rejected(f"{where}: {e}") from None
    for name, val in b.arguments.items():
        p = sig.parameters[name]
        if name == "self":
            continue
        k = _kinds(p.annotation)
        if k is None:
            continue
        vals = val if p.kind is p.VAR_POSITIONAL else list(val.values()) if p.kind is p.VAR_KEYWORD else [val]
        for v in vals:
            if _kind_of(v) not in k:
                if p.kind is p.VAR_POSITIONAL and isinstance(v, (list, tuple)):
                    continue
                raise Rejected(f"{where}: argument {name!r} does not take {_kind_of(v)} (allowed {sorted(k)})")


_NAMES = {}


def _takes_names(fn):
    """Parameters for which a plain string names a column."""
    if fn not in _NAMES:
        _NAMES[fn] = {n for n, p in _sig(fn).parameters.items() if "ColumnOrName" in str(p.annotation)}
    return _NAMES[fn]


def _fargs(fn, a, k):
    """Arguments in positional form; strings that name columns become columns."""
    sig = _sig(fn)
    b = sig.bind(*a, **k)
    names = _takes_names(fn)
    out, kw, contiguous = [], [], True
    for n, p in sig.parameters.items():
        if n not in b.arguments:
            if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                contiguous = False
            continue
        v = b.arguments[n]

        def one(x):
            if n in names and isinstance(x, str):
                return ["col", x]
            return enc(x)
        if p.kind is p.VAR_POSITIONAL:
            if len(v) == 1 and isinstance(v[0], (list, tuple)):
                v = v[0]
            out += [one(x) for x in v]
        elif p.kind is p.VAR_KEYWORD:
            kw += [[x, enc(y)] for x, y in v.items()]
        elif contiguous and p.kind is not p.KEYWORD_ONLY:
            out.append(one(v))
        else:
            kw.append([n, one(v)])
    if kw:
        out.append(["kw", *sorted(kw)])
    return out


def enc(v):
    """Encode a Python value appearing as an argument."""
    if isinstance(v, Column):
        return v._n
    if isinstance(v, (DataFrame, Grouped)):
        return v._n
    if isinstance(v, (list, tuple)):
        return ["list", *[enc(x) for x in v]]
    if isinstance(v, dict):
        return ["dict", *[[k, enc(x)] for k, x in v.items()]]
    if isinstance(v, Opaque):
        return v._n
    if isinstance(v, type(lambda: 0)):
        params = list(inspect.signature(v).parameters)
        r = v(*[Column(["arg", i]) for i in range(len(params))])
        return ["lambda", len(params), enc(r)]
    if v is None or isinstance(v, (bool, int, float, str)):
        return ["py", v]
    raise Rejected(f"unexpected python value {v!r}")


def _operand(v):
    """Operand of a column operator: python scalars become literals, as in PySpark."""
    if isinstance(v, Column):
        return v._n
    if v is None or isinstance(v, (bool, int, float, str)):
        return ["lit", v]
    raise Rejected(f"column operator applied to {type(v).__name__}")


def _binop(op):
    def f(self, other):
        return Column(["bin", op, self._n, _operand(other)])
    return f


def _rbinop(op):
    def f(self, other):
        return Column(["bin", op, _operand(other), self._n])
    return f


class Column:
    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    __hash__ = None
    for _op, _nm in (("==", "eq"), ("!=", "ne"), ("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge"),
                     ("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "truediv"), ("%", "mod"), ("&", "and"), ("|", "or")):
        locals()[f"__{_nm}__"] = _binop(_op)
        if _nm in ("add", "sub", "mul", "truediv", "mod", "and", "or"):
            locals()[f"__r{_nm}__"] = _rbinop(_op)

    def __invert__(self):
        return Column(["~", self._n])

    def __neg__(self):
        return Column(["neg", self._n])

    def __bool__(self):
        raise Rejected("CANNOT_CONVERT_COLUMN_INTO_BOOL")

    def __iter__(self):
        raise Rejected("Column is not iterable")

    def __call__(self, *a, **k):
        raise Rejected("Column is not callable")

    def __getitem__(self, k):
        return Column(["m.getItem", self._n, enc(k)])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = RealColumn.__dict__.get(name)
        if real is None or not callable(real):
            # PySpark turns any other attribute into a nested field access
            raise Rejected(f"Column has no method {name!r}")

        def call(*a, **k):
            _bind(f"Column.{name}", real, a, k, self_arg=True)
            if name in ("alias", "name"):
                if len(a) != 1 or k:
                    raise Rejected("alias takes one name here")
                return Column(["alias", self._n, a[0]])
            if name == "otherwise" or name == "when":
                if self._n[0] not in ("F.when", "m.when"):
                    raise Rejected(f"{name}() not on a when expression")
            return Column([f"m.{name}", self._n, *[enc(x) for x in a], *([["kw", *[[x, enc(y)] for x, y in k.items()]]] if k else [])])
        return call


class Grouped:
    def __init__(self, n):
        self._n = n

    def agg(self, *cols):
        if not cols:
            raise Rejected("agg() needs at least one expression")
        for c in cols:
            if not isinstance(c, Column):
                raise Rejected("agg() takes columns")
        return DataFrame(["agg", self._n, [c._n for c in cols]])


def _as_col(v, where):
    if isinstance(v, Column):
        return v._n
    if isinstance(v, str):
        return ["col", v]
    raise Rejected(f"{where}: takes columns or names, not {type(v).__name__}")


class DataFrame:
    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def select(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        return DataFrame(["select", self._n, [_as_col(c, "select") for c in cols]])

    def where(self, cond):
        if not isinstance(cond, Column):
            raise Rejected("where() takes a column")
        return DataFrame(["where", self._n, cond._n])

    filter = where

    def withColumn(self, name, col):
        if not isinstance(name, str) or not isinstance(col, Column):
            raise Rejected("withColumn(name, column)")
        return DataFrame(["withColumn", self._n, name, col._n])

    def withColumnRenamed(self, a, b):
        if not isinstance(a, str) or not isinstance(b, str):
            raise Rejected("withColumnRenamed(name, name)")
        return DataFrame(["withColumnRenamed", self._n, a, b])

    def groupBy(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        return Grouped(["groupBy", self._n, [_as_col(c, "groupBy") for c in cols]])

    groupby = groupBy

    def agg(self, *cols):
        return Grouped(["groupBy", self._n, []]).agg(*cols)

    def orderBy(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        if not cols:
            raise Rejected("orderBy() needs columns")
        return DataFrame(["orderBy", self._n, [_as_col(c, "orderBy") for c in cols]])

    sort = orderBy

    def limit(self, n):
        if isinstance(n, bool) or not isinstance(n, int):
            raise Rejected("limit(int)")
        if not 0 <= n < 2 ** 31:
            raise Rejected(f"limit({n}) out of range")
        return DataFrame(["limit", self._n, n])

    def tail(self, n):
        if isinstance(n, bool) or not isinstance(n, int):
            raise Rejected("tail(int)")
        return DataFrame(["tail", self._n, n])

    def unionByName(self, other, allowMissingColumns=False):
        if not isinstance(other, DataFrame):
            raise Rejected("unionByName(DataFrame)")
        return DataFrame(["unionByName", self._n, other._n, bool(allowMissingColumns)])

    def join(self, other, on=None, how=None):
        if not isinstance(other, DataFrame):
            raise Rejected("join(DataFrame)")
        if how is not None and not isinstance(how, str):
            raise Rejected("join how")
        return DataFrame(["join", self._n, other._n, None if on is None else enc(on), how])

    def alias(self, name):
        if not isinstance(name, str):
            raise Rejected("alias(name)")
        return DataFrame(["alias", self._n, name])

    def __bool__(self):
        return True

    def __call__(self, *a, **k):
        raise Rejected("DataFrame is not callable")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(RealDataFrame, name, None)
        if real is None or not callable(real):
            raise Rejected(f"DataFrame has no method {name!r}")

        def call(*a, **k):
            if any(isinstance(x, Column) for x in a) and name in ("fillna",):
                raise Rejected("fillna does not take columns")
            sig = _sig(real)
            try:
                b = sig.bind(None, *a, **k)
            except TypeError as e:
                raise Rejected(f"DataFrame.{name}: {e}") from None
            args = {n: v for n, v in b.arguments.items() if n != "self"}
            flat = []
            for n, v in args.items():
                flat.append([n, enc(v)])
            return DataFrame([f"df.{name}", self._n, flat])
        return call


class Opaque:
    """Result of a runtime eval/stats function (a column-like value)."""

    def __init__(self, n):
        self._n = n

    def alias(self, name):
        return Opaque(["alias", self._n, name])


class _F:
    def __getattr__(self, name):
        real = getattr(REAL_F, name, None)
        if real is None or not callable(real) or name.startswith("_"):
            raise Rejected(f"pyspark.sql.functions has no {name!r}")

        def call(*a, **k):
            if name == "count" and not a and not k and LENIENT:
                return Column(["F.count"])
            _bind(f"F.{name}", real, a, k)
            if name in ("col", "column"):
                if not isinstance(a[0], str):
                    raise Rejected("F.col takes a name")
                return Column(["col", a[0]])
            if name == "lit":
                v = a[0] if a else next(iter(k.values()))
                if isinstance(v, Column):
                    return v
                if isinstance(v, (list, tuple, dict)):
                    raise Rejected("F.lit of a container")
                return Column(["lit", v])
            return Column([f"F.{name}", *_fargs(real, a, k)])
        return call


class _Spark:
    def table(self, name):
        if not isinstance(name, str):
            raise Rejected("spark.table(name)")
        return DataFrame(["table", name])

    def createDataFrame(self, *a, **k):
        return DataFrame(["createDataFrame", ["list", *[enc(x) for x in a]], {n: enc(v) for n, v in k.items()}])

    def range(self, *a, **k):
        return DataFrame(["range", *[enc(x) for x in a]])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Rejected(f"spark has no recorded method {name!r}")


class _Commands:
    """Runtime commands: recorded, bound against the real library's signatures."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(self._real, name, None)
        if real is None or not callable(real):
            raise Rejected(f"commands has no {name!r}")

        def call(*a, **k):
            try:
                inspect.signature(real).bind(*a, **k)
            except TypeError as e:
                raise Rejected(f"commands.{name}: {e}") from None
            return DataFrame([f"commands.{name}", [enc(x) for x in a], [[n, enc(v)] for n, v in k.items()]])
        return call


class _FnModule:
    def __init__(self, real, path):
        self._real, self._path = real, path

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(self._real, name, None)
        if real is None or not callable(real):
            raise Rejected(f"{self._path} has no {name!r}")

        def call(*a, **k):
            try:
                inspect.signature(real).bind(*a, **k)
            except TypeError as e:
                raise Rejected(f"{self._path}.{name}: {e}") from None
            kind = Column if self._path == "functions.eval" else Opaque
            return kind([f"{self._path}.{name}", [enc(x) for x in a], [[n, enc(v)] for n, v in k.items()]])
        return call


class _Functions:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in ("eval", "stats"):
            raise Rejected(f"functions has no {name!r}")
        return _FnModule(getattr(self._real, name), f"functions.{name}")


_REAL = {}


def _runtime():
    if not _REAL:
        from spl_transpiler.runtime import commands, functions
        _REAL.update(commands=commands, functions=functions)
    return _REAL


SAFE_BUILTINS = {"float": float}
F = _F()
SPARK = _Spark()


def free_names(tree):
    names, assigned = [], set()
    for stmt in tree.body:
        for node in ast.walk(stmt):
            if isinstance(node, ast.Name):
                if isinstance(node.ctx, ast.Load) and node.id not in assigned:
                    names.append(node.id)
        for node in ast.walk(stmt):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                assigned.add(node.id)
    return names, assigned


ALLOWED_NODES = (
    ast.Module, ast.Expr, ast.Assign, ast.Name, ast.Load, ast.Store, ast.Call, ast.Attribute, ast.Constant,
    ast.keyword, ast.BinOp, ast.UnaryOp, ast.Compare, ast.List, ast.Dict, ast.Tuple, ast.Invert, ast.USub, ast.UAdd,
    ast.BitAnd, ast.BitOr, ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.Eq, ast.NotEq, ast.Lt, ast.LtE,
    ast.Gt, ast.GtE, ast.Starred, ast.Lambda, ast.arguments, ast.arg,
)


def run_lenient(code, runtime=False):
    LENIENT.append(1)
    try:
        return run(code, runtime)
    finally:
        LENIENT.pop()


def run(code, runtime=False, full=False):
    """Execute generated code; return the plan of its final expression.

    Raises Rejected for anything PySpark/Python would not accept or that is not the documented shape:
    assignments of fresh names followed by exactly one final expression."""
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError) as e:
        raise Rejected(f"not valid Python: {e}") from None
    if not tree.body or not isinstance(tree.body[-1], ast.Expr):
        raise Rejected("program does not end in an expression")
    assigned = []
    for st in tree.body[:-1]:
        if not isinstance(st, ast.Assign) or len(st.targets) != 1 or not isinstance(st.targets[0], ast.Name):
            raise Rejected(f"unexpected statement {ast.unparse(st)[:80]!r}")
        if st.targets[0].id in assigned:
            raise Rejected(f"name {st.targets[0].id} assigned twice")
        assigned.append(st.targets[0].id)
    for n in ast.walk(tree):
        if not isinstance(n, ALLOWED_NODES):
            raise Rejected(f"unexpected construct {type(n).__name__} in generated code")
    env = {"__builtins__": SAFE_BUILTINS, "spark": SPARK, "F": F}
    if runtime:
        real = _runtime()
        env["commands"] = _Commands(real["commands"])
        env["functions"] = _Functions(real["functions"])
    try:
        for st in tree.body[:-1]:
            exec(compile(ast.Module([st], []), "<generated>", "exec"), env)
        result = eval(compile(ast.Expression(tree.body[-1].value), "<generated>", "eval"), env)
    except Rejected:
        raise
    except RecursionError:
        raise
    except Exception as e:
        raise Rejected(f"{type(e).__name__}: {e}") from None
    if not isinstance(result, DataFrame):
        raise Rejected(f"final expression is a {builtins.type(result).__name__}, not a dataframe")
    if full:
        return result._n, {a: env[a]._n if hasattr(env[a], "_n") else repr(env[a]) for a in assigned}
    return result._n
