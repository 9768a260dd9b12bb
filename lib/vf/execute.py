"""Run generated PySpark code on the model of Spark and normalise what comes back."""
import math
import os

from pyspark import core
from pyspark import sql as psql
from pyspark.sql import SparkSession, DataFrame
from pyspark.sql import functions as F

from . import impl
from .execute_code import value_of


class Session:
    """A catalogue of tables, built once per job."""

    def __init__(self, tables):
        self.spark = SparkSession()
        self.tables = tables
        for name, (schema, rows) in tables.items():
            self.spark.add(name, schema, rows)

    def use(self):
        SparkSession.current = self.spark
        return self.spark


def steps():
    return psql.STEPS[0]


_RT = {}


def runtime_ns():
    if not _RT:
        from spl_transpiler.runtime import commands, functions
        _RT.update(commands=commands, functions=functions)
    return _RT


TRACE = os.environ.get("VF_TRACE")  # a directory: tools/golden.py collects (code, tables) pairs from the checks' own runs


def evaluate(code, session, rt=False):
    if TRACE:
        from . import trace
        return trace.recorded(_evaluate, code, session, rt)
    return _evaluate(code, session, rt)


def _evaluate(code, session, rt):
    """The value of generated code: its statements, then its last expression."""
    ns = {"spark": session.use(), "F": F}
    if rt:
        ns.update(runtime_ns())
    return value_of(code, ns)


class Out:
    """Result of a query: columns (in order) and rows (tuples in that order)."""
    __slots__ = ("cols", "rows", "types", "kind")

    def __init__(self, cols, rows, types=None, kind="df"):
        self.cols, self.rows, self.types, self.kind = list(cols), [tuple(r) for r in rows], types, kind

    def __repr__(self):
        return f"{self.cols} {self.rows}"


def out_of(v):
    if isinstance(v, DataFrame):
        return Out(v.columns, v.rows, [core.type_name(a.type) for a in v.attrs])
    if isinstance(v, list):
        cols = list(v[0]) if v else []
        return Out(cols, [tuple(r.values()) for r in v], kind="list")
    raise TypeError(f"not a data frame: {type(v).__name__}")


def run(spl, session, rt=False):
    """('ok', Out, code) | ('unsupported', message, None) | ('broken', message, code)"""
    r = impl.convert(spl, rt)
    if r[0] == "err":
        return ("unsupported", r[1], None)
    try:
        return ("ok", out_of(evaluate(r[1], session, rt)), r[1])
    except Exception as e:
        return ("broken", f"{type(e).__name__}: {e}", r[1])


# ------------------------------------------------------------------ comparing
def norm(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if math.isnan(v):
                return "NaN"
            if v == int(v) if abs(v) < 1e15 else False:
                return ("n", int(v))
            return ("n", float(f"{v:.9g}"))
        return ("n", v) if abs(v) < 1e15 else ("n", float(f"{v:.9g}"))
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, norm(x)) for k, x in v.items())
    return v


def key(r):
    return repr(r)


def same(got, exp, ordered=False, cols_ordered=False):
    """None, or what is different."""
    gc, ec = got.cols, exp.cols
    if len(set(gc)) != len(gc):
        return f"duplicate columns {gc}"
    if (gc != ec) if cols_ordered else (sorted(gc) != sorted(ec)):
        return f"columns {gc} instead of {ec}"
    perm = [gc.index(c) for c in ec]
    if [tuple(map(r.__getitem__, perm)) for r in got.rows] == exp.rows and not any(
            type(x) is not type(y) for r, q in zip(got.rows, exp.rows) for x, y in zip((r[i] for i in perm), q)):
        return None
    g = [tuple(norm(r[i]) for i in perm) for r in got.rows]
    e = [tuple(norm(x) for x in r) for r in exp.rows]
    if not ordered:
        g, e = sorted(g, key=key), sorted(e, key=key)
    if g != e:
        return f"rows {show(g)} instead of {show(e)} (columns {ec})"
    return None


def show(rows, n=6):
    def one(v):
        return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "n" else v
    s = ", ".join("(" + ", ".join(repr(one(v)) for v in r) + ")" for r in rows[:n])
    return f"[{s}{', …' if len(rows) > n else ''}]"
