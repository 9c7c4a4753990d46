"""A real local Spark session, one per worker (see C23 to C25)."""
import os
import sys
import time
import warnings

_S = {}


def session():
    if "s" in _S:
        return _S["s"]
    warnings.filterwarnings("ignore")
    os.environ["TZ"] = "UTC"
    time.tzset()
    os.environ.setdefault("SPARK_LOCAL_IP", "127.0.0.1")
    os.environ.setdefault("SPARK_LOCAL_HOSTNAME", "localhost")
    os.environ["PYSPARK_PYTHON"] = os.environ["PYSPARK_DRIVER_PYTHON"] = sys.executable
    import logging
    logging.getLogger("py4j").setLevel(logging.CRITICAL)
    from pyspark.sql import SparkSession
    cwd = os.getcwd()
    s = (SparkSession.builder.master("local[1]").appName("verif").config("spark.ui.enabled", "false").config("spark.sql.shuffle.partitions", "1")
         .config("spark.default.parallelism", "1").config("spark.driver.memory", "1g").config("spark.sql.session.timeZone", "UTC")
         .config("spark.driver.host", "127.0.0.1").config("spark.driver.bindAddress", "127.0.0.1").config("spark.sql.warehouse.dir", cwd + "/wh")
         .config("spark.driver.extraJavaOptions", f"-Dderby.system.home={cwd} -Xss8m -XX:TieredStopAtLevel=1 -XX:+UseSerialGC -Duser.timezone=UTC").config("spark.log.level", "OFF")
         .config("spark.sql.codegen.wholeStage", "false").config("spark.sql.codegen.factoryMode", "NO_CODEGEN").config("spark.local.dir", cwd)
         .config("spark.python.worker.reuse", "true").getOrCreate())
    s.sparkContext.setLogLevel("OFF")
    _S["s"] = s
    return s


def ansi(on):
    session().conf.set("spark.sql.ansi.enabled", "true" if on else "false")


def frame(rows, schema):
    """rows: list of lists"""
    return session().createDataFrame([tuple(r) for r in rows], schema)


def table(name, rows, schema):
    """One partition, rows in the order given."""
    frame(rows, schema).coalesce(1).createOrReplaceTempView(name)


def plain(v):
    """Row / array / timestamp values as plain Python."""
    from pyspark.sql import Row
    if isinstance(v, Row):
        return [plain(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v
