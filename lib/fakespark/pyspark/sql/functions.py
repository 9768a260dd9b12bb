"""Constructors with PySpark's signatures; anything not listed is an AttributeError, as in PySpark."""
import re as _re
from ..core import Column as _C, cname as _c, wrap as _w, need_col as _need, AnalysisException as _AE, parse_type as _pt


def col(name):
    if not isinstance(name, str):
        raise TypeError("[NOT_STR] col() needs a str")
    return _C("col", name)


column = col


def lit(v):
    return v if isinstance(v, _C) else _w(v)


_UNITS = {"MICROSECOND": 1, "MILLISECOND": 1000, "SECOND": 10**6, "MINUTE": 60 * 10**6, "HOUR": 3600 * 10**6,
          "DAY": 86400 * 10**6, "WEEK": 7 * 86400 * 10**6}


def _interval(n, unit):
    u = unit.upper()
    u = u[:-1] if u.endswith("S") else u
    if u in _UNITS:
        return (0, n * _UNITS[u])
    if u == "MONTH":
        return (n, 0)
    if u == "QUARTER":
        return (3 * n, 0)
    if u == "YEAR":
        return (12 * n, 0)
    raise _AE(f"bad interval unit {unit}")


def expr(s):
    if not isinstance(s, str):
        raise TypeError("[NOT_STR] expr")
    m = _re.fullmatch(r"\s*INTERVAL\s+([+-]?\d+)\s+([A-Za-z]+)\s*", s, _re.I)
    if m:
        return _C("fn", "interval", (_interval(int(m.group(1)), m.group(2)),))
    m = _re.fullmatch(r"\s*cidr_match\('([^']*)',\s*([A-Za-z_][\w.]*|`[^`]*`|'[^']*')\)\s*", s)
    if m:
        if m.group(2)[0] == "'":
            return _C("fn", "cidr_match", (_w(m.group(1)), _w(m.group(2)[1:-1])))
        return _C("fn", "cidr_match", (_w(m.group(1)), _C("col", m.group(2))))
    raise _AE(f"PARSE_SYNTAX_ERROR (outside the model) {s!r}")


def when(cond, v):
    _need(cond)
    return _C("case", ((cond, _w(v)),), None)


def asc(c): return _c(c).asc()
def desc(c): return _c(c).desc()


def _fn(name):
    def f(c):
        return _C("fn", name, (_c(c),))
    f.__name__ = name
    return f


for _n in ("abs", "ceil", "floor", "exp", "sqrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan",
           "asinh", "acosh", "atanh", "lower", "upper", "length", "size", "md5", "sha1", "bitwise_not", "url_decode",
           "json_object_keys", "negative"):
    globals()[_n] = _fn(_n)
ceiling = ceil  # noqa: F821
char_length = length  # noqa: F821


def _fn2(name):
    def f(a, b):
        return _C("fn", name, tuple(_c(x) if isinstance(x, (_C, str)) else _w(x) for x in (a, b)))
    f.__name__ = name
    return f


for _n in ("pow", "atan2", "hypot"):
    globals()[_n] = _fn2(_n)
power = pow  # noqa: F821


def isnull(c): return _C("isnull", _c(c))
def isnotnull(c): return _C("not", _C("isnull", _c(c)))
def like(s, p, escapeChar=None): return _C("like", _c(s), _c(p), False)
def ilike(s, p, escapeChar=None): return _C("like", _c(s), _c(p), True)
def regexp_like(s, p): return _C("fn", "regexp_like", (_c(s), _c(p)))
rlike = regexp = regexp_like


def regexp_extract(s, p, idx):
    if not isinstance(p, str) or isinstance(idx, bool) or not isinstance(idx, int):
        raise TypeError("regexp_extract(col, str, int)")
    return _C("fn", "regexp_extract", (_c(s), p, idx))


def regexp_replace(s, p, r):
    return _C("fn", "regexp_replace", (_c(s), _w(p), _w(r)))


def nullif(a, b): return _C("fn", "nullif", (_c(a), _c(b)))


def coalesce(*cs):
    if not cs:
        raise _AE("WRONG_NUM_ARGS coalesce")
    return _C("fn", "coalesce", tuple(_c(x) for x in cs))


def greatest(*cs):
    if len(cs) < 2:
        raise ValueError("greatest needs two columns")
    return _C("fn", "greatest", tuple(_c(x) for x in cs))


def least(*cs):
    if len(cs) < 2:
        raise ValueError("least needs two columns")
    return _C("fn", "least", tuple(_c(x) for x in cs))


def concat(*cs): return _C("fn", "concat", tuple(_c(x) for x in cs))


def concat_ws(sep, *cs):
    if not isinstance(sep, str):
        raise TypeError("concat_ws sep")
    return _C("fn", "concat_ws", (sep,) + tuple(_c(x) for x in cs))


def array(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = tuple(cs[0])
    return _C("fn", "array", tuple(_c(x) for x in cs))


def sha2(c, n):
    if n not in (224, 256, 384, 512, 0):
        raise ValueError("numBits")
    return _C("fn", "sha2", (_c(c), n))


def _int(n, what):
    if isinstance(n, bool) or not isinstance(n, int):
        raise TypeError(f"{what} must be an int, got {type(n).__name__}")
    return n


def shiftleft(c, n): return _C("fn", "shiftleft", (_c(c), _int(n, "numBits")))
def shiftright(c, n): return _C("fn", "shiftright", (_c(c), _int(n, "numBits")))


def round(c, scale=0):
    if isinstance(scale, _C):
        if scale.op != "lit" or not isinstance(scale.args[0], int):
            raise _AE("round scale must be foldable int")
        scale = scale.args[0]
    return _C("fn", "round", (_c(c), _int(scale, "scale")))


def log(a, b=None):
    if b is None:
        return _C("fn", "ln", (_c(a),))
    if isinstance(a, bool) or not isinstance(a, (int, float)):
        raise TypeError("log: the base is a number")  # a Column fails in py4j
    return _C("fn", "logb", (_w(a), _c(b)))


def ln(c): return _C("fn", "ln", (_c(c),))


def _trim(name):
    def f(c, trim=None):
        return _C("fn", name, (_c(c),) if trim is None else (_c(c), _c(trim)))
    f.__name__ = name
    return f


ltrim, rtrim, trim = _trim("ltrim"), _trim("rtrim"), _trim("trim")


def substring(s, pos, len):
    return _C("fn", "substring", (_c(s),) + tuple(_c(x) if isinstance(x, str) else _w(x) for x in (pos, len)))


def contains(a, b): return _C("fn", "contains", (_c(a), _c(b)))
def startswith(a, b): return _C("fn", "startswith", (_c(a), _c(b)))
def endswith(a, b): return _C("fn", "endswith", (_c(a), _c(b)))


def replace(s, search, replace=None):
    return _C("fn", "replace", (_c(s), _c(search), _c(replace) if replace is not None else _w("")))


def split(s, pattern, limit=-1):
    if isinstance(pattern, _C):
        if pattern.op != "lit" or not isinstance(pattern.args[0], str):
            raise _AE("split pattern outside the model")
        pattern = pattern.args[0]
    return _C("fn", "split", (_c(s), pattern))


def get(c, i):
    return _C("fn", "get", (_c(c), _c(i) if isinstance(i, str) else _w(i)))


def slice(c, start, length):
    return _C("fn", "slice", (_c(c),) + tuple(_c(x) if isinstance(x, str) else _w(x) for x in (start, length)))


def zip_with(a, b, f):
    return _C("zip", _c(a), _c(b), f)


def get_json_object(c, path):
    if not isinstance(path, str):
        raise TypeError("path")
    return _C("fn", "get_json_object", (_c(c), path))


def current_timestamp(): return _C("fn", "current_timestamp", ())
now = current_timestamp
def rand(seed=None): return _C("fn", "rand", ())


def to_timestamp(c, format=None):
    if format is None:
        return _C("fn", "to_timestamp", (_c(c),))
    if not isinstance(format, str):
        raise TypeError("format")
    return _C("fn", "to_timestamp", (_c(c), format))


def date_format(c, format):
    if not isinstance(format, str):
        raise TypeError("format")
    return _C("fn", "date_format", (_c(c), format))


def date_trunc(format, c):
    if not isinstance(format, str):
        raise TypeError("format")
    return _C("fn", "date_trunc", (format, _c(c)))


def window(c, windowDuration, slideDuration=None, startTime=None):
    if not isinstance(windowDuration, str):
        raise TypeError("windowDuration")
    m = _re.fullmatch(r"\s*(\d+)\s+([A-Za-z]+)\s*", windowDuration)
    if not m:
        raise _AE(f"bad window duration {windowDuration!r}")
    mo, us = _interval(int(m.group(1)), m.group(2))
    if mo:
        raise _AE("Intervals greater than a month is not supported")
    if us <= 0:
        raise _AE("window duration must be positive")
    return _C("fn", "window", (_c(c), us))


def _agg(name, *cols, **kw):
    return _C("agg", name, tuple(cols), kw)


def count(c): return _agg("count", _w(1) if isinstance(c, str) and c == "*" else _c(c))
def _a1(name):
    def f(c):
        return _agg(name, _c(c))
    f.__name__ = name
    return f


for _n in ("sum", "avg", "min", "max", "collect_list", "collect_set", "stddev_samp", "stddev_pop", "var_samp", "var_pop"):
    globals()[_n] = _a1(_n)
mean = avg  # noqa: F821
stddev = stddev_samp  # noqa: F821
variance = var_samp  # noqa: F821


def mode(c, deterministic=False): return _agg("mode", _c(c))
def approx_count_distinct(c, rsd=None): return _agg("approx_count_distinct", _c(c))
def count_distinct(c, *cs): return _agg("count_distinct", _c(c), *[_c(x) for x in cs])
countDistinct = count_distinct


def _b(v):
    if not isinstance(v, bool):
        raise TypeError("ignorenulls must be a bool")
    return v


def first(c, ignorenulls=False): return _agg("first", _c(c), ignorenulls=_b(ignorenulls))
def last(c, ignorenulls=False): return _agg("last", _c(c), ignorenulls=_b(ignorenulls))


def _p(p):
    if isinstance(p, _C):
        if p.op != "lit" or not isinstance(p.args[0], (int, float)):
            raise _AE("percentage must be foldable")
        p = p.args[0]
    if not isinstance(p, (int, float)):
        raise TypeError("percentage")
    return float(p)


def percentile(c, percentage, frequency=1): return _agg("percentile", _c(c), p=_p(percentage))
def percentile_approx(c, percentage, accuracy=10000): return _agg("percentile_approx", _c(c), p=_p(percentage))


def lag(c, offset=1, default=None): return _C("fn", "lag", (_c(c),))


def udf(f=None, returnType=None):
    def deco(fn):
        rt = returnType.simple() if hasattr(returnType, "simple") else _pt(returnType)

        def call(*args):
            return _C("fn", "udf", (fn, rt, tuple(_c(a) for a in args)))
        call.__name__ = fn.__name__
        call.func = fn
        return call
    return deco if f is None else deco(f)
