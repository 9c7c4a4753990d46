"""Runs generated programs with the real pyspark.sql.functions over a dataframe that takes any column.

The recording stand-in (fakespark) judges calls by PySpark's annotations; here the calls are really made, so that
what PySpark or the JVM refuses when a column is built (argument types, SQL text, attribute names) shows."""
import inspect

import sparkrun


class Stub:
    """Any dataframe: methods have DataFrame's own signatures; grouped data likewise."""

    def __init__(self, real):
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        from pyspark.sql import DataFrame, GroupedData
        if name.startswith("__"):
            raise AttributeError(name)
        fn = inspect.getattr_static(self._real, name)     # AttributeError where there is none
        if not callable(fn):
            return Stub(self._real)

        def call(*a, **k):
            inspect.signature(fn).bind(self, *a, **k)
            return Stub(GroupedData if name in ("groupBy", "groupby", "rollup", "cube") else DataFrame)
        return call


class AnyStub:
    def __getattr__(self, name):
        from pyspark.sql import DataFrame
        return lambda *a, **k: Stub(DataFrame)


class StubSpark:
    def __getattr__(self, name):
        from pyspark.sql import DataFrame, SparkSession
        fn = inspect.getattr_static(SparkSession, name)
        if isinstance(fn, property) or not callable(fn):
            return StubReader()

        def call(*a, **k):
            inspect.signature(fn).bind(self, *a, **k)
            return Stub(DataFrame)
        return call


class StubReader:
    def __getattr__(self, name):
        from pyspark.sql import DataFrame
        return lambda *a, **k: Stub(DataFrame)


def start():
    sparkrun.session()
    from pyspark.sql import functions as F
    F.col("a")


def run(code, runtime=False):
    from pyspark.sql import functions as F
    env = {"spark": StubSpark(), "F": F}
    if runtime:
        from spl_transpiler.runtime import functions
        env.update(commands=AnyStub(), functions=functions)
    exec(compile(code, "<program>", "exec"), env)
