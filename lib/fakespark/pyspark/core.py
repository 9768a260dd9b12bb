"""Semantics of the model: types, columns, binding (analysis) and evaluation."""
import datetime as dt
import functools
import hashlib
import ipaddress
import json
import math
import re

UTC = dt.timezone.utc


class AnalysisException(Exception):
    pass


class SparkError(Exception):
    """A run-time (data dependent) failure of a query, e.g. an ANSI cast error."""


# ------------------------------------------------------------------ types
NULL, BOOL, LONG, DOUBLE, STR, TS, INTERVAL = "void", "boolean", "bigint", "double", "string", "timestamp", "interval"


def is_array(t):
    return isinstance(t, tuple) and t[0] == "array"


def is_struct(t):
    return isinstance(t, tuple) and t[0] == "struct"


def arr(t):
    return ("array", t)


def type_name(t):
    if is_array(t):
        return f"array<{type_name(t[1])}>"
    if is_struct(t):
        return "struct<" + ",".join(f"{n}:{type_name(x)}" for n, x in t[1]) + ">"
    return t


def type_of_value(v):
    if v is None:
        return NULL
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return LONG
    if isinstance(v, float):
        return DOUBLE
    if isinstance(v, str):
        return STR
    if isinstance(v, dt.datetime):
        return TS
    if isinstance(v, (list, tuple)):
        t = NULL
        for x in v:
            t = common(t, type_of_value(x), "array literal")
        return arr(t)
    raise AnalysisException(f"unsupported literal {v!r}")


def common(a, b, what):
    """ANSI least common type (the part the corpus covers)."""
    if a == b:
        return a
    if a == NULL:
        return b
    if b == NULL:
        return a
    if is_array(a) and is_array(b):
        return arr(common(a[1], b[1], what))
    s = {a, b} if not (is_array(a) or is_array(b) or is_struct(a) or is_struct(b)) else set()
    if s == {LONG, DOUBLE}:
        return DOUBLE
    if STR in s:
        (o,) = s - {STR}
        if o in (LONG, DOUBLE, BOOL, TS):
            return o
    raise AnalysisException(f"DATATYPE_MISMATCH {type_name(a)} vs {type_name(b)} in {what}")


NUM_RE = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$")


def fmt_double(v):
    if math.isnan(v):
        return "NaN"
    if math.isinf(v):
        return "Infinity" if v > 0 else "-Infinity"
    a = abs(v)
    if v == 0:
        return "-0.0" if math.copysign(1, v) < 0 else "0.0"
    if 1e-3 <= a < 1e7:
        s = repr(v)
        if "e" in s:
            s = f"{v:.10f}".rstrip("0")
        return s if "." in s else s + ".0"
    m, e = f"{v:e}".split("e")
    r = repr(v)
    if "e" in r:
        m = r.split("e")[0]
    else:
        digits = r.replace("-", "").replace(".", "").lstrip("0").rstrip("0") or "0"
        m = ("-" if v < 0 else "") + digits[0] + "." + (digits[1:] or "0")
    if "." not in m:
        m += ".0"
    return f"{m}E{int(e)}"


def fmt_ts(v):
    s = v.strftime("%Y-%m-%d %H:%M:%S")
    if v.year < 1000:
        s = f"{v.year:04d}" + s[s.index("-"):]
    if v.microsecond:
        s += f".{v.microsecond:06d}".rstrip("0")
    return s


def parse_iso(s):
    s = s.strip()
    m = re.fullmatch(r"(\d{4})(?:-(\d{1,2})(?:-(\d{1,2})(?:[ T](\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.(\d{1,6}))?)?(Z)?)?)?)?", s)
    if not m:
        return None
    y, mo, d, h, mi, se, fr, _ = m.groups()
    try:
        return dt.datetime(int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(se or 0),
                           int((fr or "0").ljust(6, "0")), tzinfo=UTC)
    except ValueError:
        return None


def cast_value(v, f, t):
    if v is None or f == t:
        return v
    if t == STR:
        if f == BOOL:
            return "true" if v else "false"
        if f == DOUBLE:
            return fmt_double(v)
        if f == TS:
            return fmt_ts(v)
        if is_array(f):
            return "[" + ", ".join("null" if x is None else cast_value(x, f[1], STR) for x in v) + "]"
        return str(v)
    if t == DOUBLE:
        if f == STR:
            s = v.strip()
            if not NUM_RE.match(s):
                if s.lower() in ("nan",):
                    return math.nan
                if s.lower() in ("inf", "infinity", "+inf", "+infinity"):
                    return math.inf
                if s.lower() in ("-inf", "-infinity"):
                    return -math.inf
                raise SparkError(f"CAST_INVALID_INPUT {v!r} to DOUBLE")
            return float(s)
        if f == TS:
            return v.timestamp()
        return float(v)
    if t == LONG:
        if f == STR:
            s = v.strip()
            if not re.fullmatch(r"[+-]?\d+", s):
                raise SparkError(f"CAST_INVALID_INPUT {v!r} to BIGINT")
            return int(s)
        if f == DOUBLE:
            if math.isnan(v) or math.isinf(v):
                raise SparkError("CAST_OVERFLOW")
            return int(v)
        if f == TS:
            return math.floor(v.timestamp())
        return int(v)
    if t == BOOL:
        if f == STR:
            s = v.strip().lower()
            if s in ("t", "true", "y", "yes", "1"):
                return True
            if s in ("f", "false", "n", "no", "0"):
                return False
            raise SparkError(f"CAST_INVALID_INPUT {v!r} to BOOLEAN")
        return v != 0
    if t == TS:
        if f == STR:
            r = parse_iso(v)
            if r is None:
                raise SparkError(f"CAST_INVALID_INPUT {v!r} to TIMESTAMP")
            return r
        return dt.datetime.fromtimestamp(0, UTC) + dt.timedelta(microseconds=math.floor(v * 1000000))
    if is_array(t) and is_array(f):
        return [cast_value(x, f[1], t[1]) for x in v]
    raise SparkError(f"cast {f}->{t}")


CASTABLE = {STR: {DOUBLE, LONG, BOOL, TS}, LONG: {STR, DOUBLE, BOOL, TS}, DOUBLE: {STR, LONG, BOOL, TS},
            BOOL: {STR, LONG, DOUBLE}, TS: {STR, LONG, DOUBLE}, NULL: {STR, DOUBLE, LONG, BOOL, TS}}


def check_castable(f, t):
    if f == t or f == NULL:
        return
    if is_array(f) and is_array(t):
        return check_castable(f[1], t[1])
    if is_array(f) and t == STR:
        return
    if is_array(f) or is_struct(f) or t not in CASTABLE.get(f, ()):
        raise AnalysisException(f"DATATYPE_MISMATCH cannot cast {type_name(f)} to {type_name(t)}")


def parse_type(s):
    s = s.strip().lower()
    m = {"string": STR, "double": DOUBLE, "float": DOUBLE, "bigint": LONG, "long": LONG, "int": LONG, "integer": LONG,
         "boolean": BOOL, "timestamp": TS, "void": NULL}
    if s in m:
        return m[s]
    if s.startswith("array<") and s.endswith(">"):
        return arr(parse_type(s[6:-1]))
    raise AnalysisException(f"unknown type {s}")


# ------------------------------------------------------------------ columns
class Column:
    __slots__ = ("op", "args", "name")

    def __init__(self, op, *args, name=None):
        self.op, self.args, self.name = op, args, name

    def __bool__(self):
        raise ValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not'")

    def __iter__(self):
        raise TypeError("Column is not iterable")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Column<{self.op} {self.args!r}>"

    def __eq__(self, o): return Column("cmp", "=", self, wrap(o))
    def __ne__(self, o): return Column("cmp", "!=", self, wrap(o))
    def __lt__(self, o): return Column("cmp", "<", self, wrap(o))
    def __le__(self, o): return Column("cmp", "<=", self, wrap(o))
    def __gt__(self, o): return Column("cmp", ">", self, wrap(o))
    def __ge__(self, o): return Column("cmp", ">=", self, wrap(o))
    def __and__(self, o): return Column("and", self, wrap(o))
    def __rand__(self, o): return Column("and", wrap(o), self)
    def __or__(self, o): return Column("or", self, wrap(o))
    def __ror__(self, o): return Column("or", wrap(o), self)
    def __invert__(self): return Column("not", self)
    def __add__(self, o): return Column("arith", "+", self, wrap(o))
    def __radd__(self, o): return Column("arith", "+", wrap(o), self)
    def __sub__(self, o): return Column("arith", "-", self, wrap(o))
    def __rsub__(self, o): return Column("arith", "-", wrap(o), self)
    def __mul__(self, o): return Column("arith", "*", self, wrap(o))
    def __rmul__(self, o): return Column("arith", "*", wrap(o), self)
    def __truediv__(self, o): return Column("arith", "/", self, wrap(o))
    def __rtruediv__(self, o): return Column("arith", "/", wrap(o), self)
    def __mod__(self, o): return Column("arith", "%", self, wrap(o))
    def __neg__(self): return Column("fn", "negative", (self,))

    def alias(self, *names):
        if len(names) != 1 or not isinstance(names[0], str):
            raise TypeError("alias name must be one str")
        return Column("alias", self, names[0])

    name_ = alias

    def cast(self, t):
        return Column("cast", self, parse_type(t) if isinstance(t, str) else t.simple(), isinstance(t, str) and t.strip().lower() in ("int", "integer"))

    astype = cast

    def isNull(self): return Column("isnull", self)
    def isNotNull(self): return Column("not", Column("isnull", self))
    def like(self, o): return Column("like", self, wrap_str(o), False)
    def ilike(self, o): return Column("like", self, wrap_str(o), True)
    def rlike(self, o): return Column("fn", "regexp_like", (self, wrap_str(o)))
    def contains(self, o): return Column("fn", "contains", (self, wrap(o)))
    def startswith(self, o): return Column("fn", "startswith", (self, wrap(o)))
    def endswith(self, o): return Column("fn", "endswith", (self, wrap(o)))
    def substr(self, s, l): return Column("fn", "substring", (self, wrap(s), wrap(l)))

    def isin(self, *vals):
        if len(vals) == 1 and isinstance(vals[0], (list, set, tuple)):
            vals = tuple(vals[0])
        return Column("isin", self, tuple(wrap(v) for v in vals))

    def asc(self): return Column("sort", self, False)
    def desc(self): return Column("sort", self, True)
    def bitwiseAND(self, o): return Column("bit", "&", self, wrap(o))
    def bitwiseOR(self, o): return Column("bit", "|", self, wrap(o))
    def bitwiseXOR(self, o): return Column("bit", "^", self, wrap(o))

    def when(self, c, v):
        if self.op != "case" or self.args[1] is not None:
            raise ValueError("when() can only be applied on a Column previously generated by when() function")
        need_col(c)
        return Column("case", self.args[0] + ((c, wrap(v)),), None)

    def otherwise(self, v):
        if self.op != "case" or self.args[1] is not None:
            raise ValueError("otherwise() can only be applied on a Column previously generated by when()")
        return Column("case", self.args[0], wrap(v))

    def over(self, w):
        return Column("over", self, w)

    def getField(self, n): return Column("field", self, n)

    def between(self, a, b): return (self >= a) & (self <= b)
    def eqNullSafe(self, o): return Column("eqns", self, wrap(o))


def need_col(c):
    if not isinstance(c, Column):
        raise TypeError(f"[NOT_COLUMN] Argument should be a Column, got {type(c).__name__}")


def wrap(v):
    if isinstance(v, Column):
        return v
    if v is None or isinstance(v, (bool, int, float, str, dt.datetime, list, tuple)):
        return Column("lit", v)
    raise TypeError(f"[NOT_COLUMN] cannot convert {type(v).__name__} to a Column")


def wrap_str(v):
    if isinstance(v, Column) or isinstance(v, str):
        return wrap(v)
    raise TypeError("[NOT_COLUMN_OR_STR]")


def cname(v):
    """pyspark's ColumnOrName: a str is a column name."""
    if isinstance(v, Column):
        return v
    if isinstance(v, str):
        return Column("col", v)
    raise TypeError(f"[NOT_COLUMN_OR_STR] Argument should be a Column or str, got {type(v).__name__}")


# ------------------------------------------------------------------ binding
class Attr:
    __slots__ = ("name", "type", "quals")

    def __init__(self, name, type_, quals=frozenset()):
        self.name, self.type, self.quals = name, type_, quals


class B:
    """A bound expression: static type and evaluator fn(row, group).
    narrow: a 32-bit INT in Spark (a literal, or arithmetic on nothing but such literals), kept under LONG here."""
    __slots__ = ("type", "fn", "agg", "grouped", "narrow")

    def __init__(self, type_, fn, agg=False, narrow=False):
        self.type, self.fn, self.agg, self.narrow = type_, fn, agg, narrow


class Env:
    def __init__(self, attrs, mode="row", group_keys=None, rows=None):
        self.attrs, self.mode, self.group_keys, self.rows = attrs, mode, group_keys, rows

    def resolve(self, name):
        parts = split_name(name)
        lo = [p.lower() for p in parts]
        cands = []
        for i, a in enumerate(self.attrs):
            if a.name.lower() == lo[0]:
                cands.append((i, parts[1:]))
        if len(parts) > 1:
            q = [(i, parts[2:]) for i, a in enumerate(self.attrs) if lo[0] in a.quals and a.name.lower() == lo[1]]
            cands = q or cands
        if not cands:
            raise AnalysisException(f"UNRESOLVED_COLUMN {name!r} among {[a.name for a in self.attrs]}")
        if len(cands) > 1:
            raise AnalysisException(f"AMBIGUOUS_REFERENCE {name!r}")
        return cands[0]


def split_name(name):
    if not isinstance(name, str):
        raise TypeError("column name must be str")
    out, cur, i = [], "", 0
    if name == "":
        return [""]
    while i < len(name):
        c = name[i]
        if c == "`":
            j = name.find("`", i + 1)
            if j < 0 or cur:
                raise AnalysisException(f"INVALID_ATTRIBUTE_NAME_SYNTAX {name!r}")
            out.append(name[i + 1:j])
            i = j + 1
            if i < len(name):
                if name[i] != ".":
                    raise AnalysisException(f"INVALID_ATTRIBUTE_NAME_SYNTAX {name!r}")
                i += 1
                if i == len(name):
                    raise AnalysisException(f"INVALID_ATTRIBUTE_NAME_SYNTAX {name!r}")
            continue
        if c == ".":
            if i == 0 or name[i - 1] == "." or i == len(name) - 1:
                raise AnalysisException(f"INVALID_ATTRIBUTE_NAME_SYNTAX {name!r}")
            out.append(cur)
            cur = ""
            i += 1
            continue
        cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


def default_name(c):
    if c.op == "col":
        return split_name(c.args[0])[-1]
    if c.op == "alias":
        return c.args[1]
    if c.op == "field":
        return c.args[1]
    if c.op == "fn" and c.args[0] == "window":
        return "window"
    return f"<expr:{c.op}>"


def struct_field(b, f):
    if not is_struct(b.type):
        raise AnalysisException(f"INVALID_EXTRACT_BASE_FIELD_TYPE {f}")
    for n, t in b.type[1]:
        if n.lower() == f.lower():
            g = b.fn
            return B(t, lambda r, grp, g=g, n=n: None if g(r, grp) is None else g(r, grp)[n], b.agg)
    raise AnalysisException(f"FIELD_NOT_FOUND {f}")


def coerce(b, t, what="", implicit=False):
    if b.type == t:
        return b
    check_castable(b.type, t)
    f, g = b.type, b.fn
    return B(t, lambda r, grp: cast_value(g(r, grp), f, t), b.agg)


def coerce_common(bs, what):
    t = NULL
    for b in bs:
        t = common(t, b.type, what)
    return t, [coerce(b, t, what) for b in bs]


def num_or_fail(b, what):
    if b.type in (LONG, DOUBLE):
        return b
    if b.type in (STR, NULL):
        return coerce(b, DOUBLE)
    raise AnalysisException(f"DATATYPE_MISMATCH {what} needs a number, got {type_name(b.type)}")


def str_or_fail(b, what):
    if b.type == STR:
        return b
    if is_array(b.type) or is_struct(b.type):
        raise AnalysisException(f"DATATYPE_MISMATCH {what} needs a string, got {type_name(b.type)}")
    return coerce(b, STR)


def cmp_key(v):
    """Total order used for comparisons and sorting: NaN is the largest."""
    if isinstance(v, float):
        return (1, 0.0) if math.isnan(v) else (0, v)
    if isinstance(v, (int, bool)):
        return (0, v)
    if isinstance(v, (list, tuple)):
        return [(x is not None, cmp_key(x) if x is not None else 0) for x in v]
    if isinstance(v, dict):
        return [(x is not None, cmp_key(x) if x is not None else 0) for x in v.values()]
    if isinstance(v, str):
        return v.encode("utf-8")
    return v


def bool_or_fail(b, what):
    if b.type == BOOL:
        return b
    if b.type == NULL:
        return B(BOOL, lambda r, g: None, b.agg)
    if b.type == STR:  # ANSI implicit cast of strings in boolean operators is not done for columns
        raise AnalysisException(f"DATATYPE_MISMATCH {what} needs a boolean, got string")
    raise AnalysisException(f"DATATYPE_MISMATCH {what} needs a boolean, got {type_name(b.type)}")


@functools.lru_cache(maxsize=4096)
def like_regex(p):
    out, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "\\":
            if i + 1 >= len(p) or p[i + 1] not in "\\%_":
                raise SparkError(f"INVALID_FORMAT.ESC like pattern {p!r}")
            out += re.escape(p[i + 1])
            i += 2
            continue
        out += ".*" if c == "%" else "." if c == "_" else re.escape(c)
        i += 1
    return re.compile(out, re.S)


@functools.lru_cache(maxsize=4096)
def java_regex(p):
    if re.search(r"(?<!\\)(?:\\\\)*\(\?(?:P|<(?![=!]|[A-Za-z][A-Za-z0-9]*>))", p):
        raise SparkError(f"INVALID_PARAMETER_VALUE.PATTERN {p!r}: not a group of Java")
    try:
        return re.compile(re.sub(r"(?<!\\)((?:\\\\)*)\(\?<([A-Za-z])", r"\1(?P<\2", p), re.ASCII)
    except re.error as e:
        raise SparkError(f"INVALID_PARAMETER_VALUE.PATTERN {p!r}: {e}")


AGGS = {"count", "sum", "avg", "min", "max", "first", "last", "collect_list", "collect_set", "count_distinct",
        "approx_count_distinct", "percentile", "percentile_approx", "stddev_samp", "stddev_pop", "var_samp", "var_pop",
        "mode"}


def bind(c, env):
    need_col(c)
    op, a = c.op, c.args
    if op == "alias":
        return bind(a[0], env)
    if env.group_keys is not None and env.mode == "agg":
        for kc, kb in env.group_keys:
            if same(kc, c):
                return B(kb.type, lambda r, g, kb=kb: kb.fn(g[0], None), False)
    if op == "col":
        i, rest = env.resolve(a[0])
        if env.mode == "agg":
            for kc, kb in env.group_keys:
                if kc.op == "col" and Env.resolve(env, kc.args[0]) == (i, rest):
                    return B(kb.type, lambda r, g, kb=kb: kb.fn(g[0], None))
            raise AnalysisException(f"MISSING_AGGREGATION {a[0]}")
        b = B(env.attrs[i].type, lambda r, g, i=i: r[i])
        for f in rest:
            b = struct_field(b, f)
        return b
    if op == "lit":
        v = a[0]
        t = type_of_value(v)
        return B(t, lambda r, g: v, narrow=t == LONG and -2**31 <= v < 2**31)
    if op == "cmp":
        o = a[0]
        t, (x, y) = coerce_common([bind(a[1], env), bind(a[2], env)], "comparison " + o)
        f, h = x.fn, y.fn

        def go(r, g):
            p, q = f(r, g), h(r, g)
            if p is None or q is None:
                return None
            p, q = cmp_key(p), cmp_key(q)
            return {"=": p == q, "!=": p != q}[o] if o in ("=", "!=") else (
                p < q if o == "<" else p <= q if o == "<=" else p > q if o == ">" else p >= q)
        return B(BOOL, go, x.agg or y.agg)
    if op == "eqns":
        t, (x, y) = coerce_common([bind(a[0], env), bind(a[1], env)], "<=>")
        return B(BOOL, lambda r, g: x.fn(r, g) == y.fn(r, g), x.agg or y.agg)
    if op in ("and", "or"):
        x, y = bool_or_fail(bind(a[0], env), op), bool_or_fail(bind(a[1], env), op)
        f, h = x.fn, y.fn
        if op == "and":
            def go(r, g):
                p = f(r, g)
                if p is False:
                    return False
                q = h(r, g)
                return False if q is False else None if p is None or q is None else True
        else:
            def go(r, g):
                p = f(r, g)
                if p is True:
                    return True
                q = h(r, g)
                return True if q is True else None if p is None or q is None else False
        return B(BOOL, go, x.agg or y.agg)
    if op == "not":
        x = bool_or_fail(bind(a[0], env), "not")
        f = x.fn
        return B(BOOL, lambda r, g: None if f(r, g) is None else not f(r, g), x.agg)
    if op == "isnull":
        x = bind(a[0], env)
        f = x.fn
        return B(BOOL, lambda r, g: f(r, g) is None, x.agg)
    if op == "arith":
        return bind_arith(a[0], bind(a[1], env), bind(a[2], env))
    if op == "bit":
        x, y = bind(a[1], env), bind(a[2], env)
        for z in (x, y):
            if z.type not in (LONG, NULL):
                raise AnalysisException(f"DATATYPE_MISMATCH bitwise {type_name(z.type)}")
        o = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[a[0]]
        return B(LONG, lambda r, g: None if x.fn(r, g) is None or y.fn(r, g) is None else o(x.fn(r, g), y.fn(r, g)),
                 x.agg or y.agg, x.narrow and y.narrow)
    if op == "cast":
        b = coerce(bind(a[0], env), a[1])
        if not a[2]:
            return B(b.type, b.fn, b.agg)

        def to_int(r, g):
            v = b.fn(r, g)
            if v is not None and not -2**31 <= v < 2**31:
                raise SparkError("CAST_OVERFLOW")
            return v
        return B(b.type, to_int, b.agg, True)
    if op == "like":
        x, y = str_or_fail(bind(a[0], env), "like"), str_or_fail(bind(a[1], env), "like")

        def go(r, g):
            p, q = x.fn(r, g), y.fn(r, g)
            if p is None or q is None:
                return None
            if a[2]:
                p, q = p.lower(), q.lower()
            return like_regex(q).fullmatch(p) is not None
        return B(BOOL, go, x.agg or y.agg)
    if op == "isin":
        bs = [bind(a[0], env)] + [bind(v, env) for v in a[1]]
        t, bs = coerce_common(bs, "in")

        def go(r, g):
            p = bs[0].fn(r, g)
            if p is None:
                return None
            seen = False
            for b in bs[1:]:
                q = b.fn(r, g)
                if q is None:
                    seen = True
                elif cmp_key(q) == cmp_key(p):
                    return True
            return None if seen else False
        return B(BOOL, go, any(b.agg for b in bs))
    if op == "case":
        conds = [bool_or_fail(bind(x, env), "when") for x, _ in a[0]]
        vals = [bind(y, env) for _, y in a[0]] + ([bind(a[1], env)] if a[1] is not None else [])
        t, vals = coerce_common(vals, "case")
        els = vals[-1] if a[1] is not None else None

        def go(r, g):
            for k, x in enumerate(conds):
                if x.fn(r, g) is True:
                    return vals[k].fn(r, g)
            return els.fn(r, g) if els is not None else None
        return B(t, go, any(b.agg for b in conds + vals))
    if op == "field":
        return struct_field(bind(a[0], env), a[1])
    if op == "sort":
        raise AnalysisException("sort order outside orderBy")
    if op == "agg":
        return bind_agg(c, env)
    if op == "over":
        raise AnalysisException("window functions are outside the model")
    if op == "fn":
        from . import fns
        return fns.bind_fn(a[0], a[1], env)
    if op == "zip":
        x, y = bind(a[0], env), bind(a[1], env)
        if not is_array(x.type) or not is_array(y.type):
            raise AnalysisException("zip_with needs arrays")
        n = len(env.attrs)
        env2 = Env(list(env.attrs) + [Attr("\0l", x.type[1]), Attr("\0r", y.type[1])])
        body = bind(a[2](Column("col", "\0l"), Column("col", "\0r")), env2)

        def go(r, g):
            p, q = x.fn(r, g), y.fn(r, g)
            if p is None or q is None:
                return None
            m = max(len(p), len(q))
            p, q = list(p) + [None] * (m - len(p)), list(q) + [None] * (m - len(q))
            return [body.fn(tuple(r) + (u, v), g) for u, v in zip(p, q)]
        return B(arr(body.type), go)
    raise AnalysisException(f"unknown op {op}")


def same(a, b):
    if a is b:
        return True
    if not isinstance(a, Column) or not isinstance(b, Column):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return type(a) is type(b) and not callable(a) and a == b
    return a.op == b.op and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))


def bind_arith(o, x, y):
    ag = x.agg or y.agg
    if TS in (x.type, y.type) and INTERVAL in (x.type, y.type) and o in "+-":
        if x.type == INTERVAL:
            x, y = y, x
        return B(TS, lambda r, g: None if x.fn(r, g) is None else add_interval(x.fn(r, g), y.fn(r, g), o), ag)
    if o == "-" and x.type == TS and y.type == TS:
        raise AnalysisException("timestamp difference is outside the model")
    if x.type == STR and y.type == STR:
        if o == "/":
            pass
        else:
            x, y = coerce(x, DOUBLE), coerce(y, DOUBLE)
    for z in (x, y):
        if z.type not in (LONG, DOUBLE, STR, NULL):
            raise AnalysisException(f"DATATYPE_MISMATCH arithmetic on {type_name(z.type)}")
    narrow = x.narrow and y.narrow and o != "/"
    if o == "/":
        x, y = coerce(x, DOUBLE), coerce(y, DOUBLE)
        t = DOUBLE
    else:
        t = common(x.type, y.type, "arithmetic")
        if t == NULL:
            t = DOUBLE
        x, y = coerce(x, t), coerce(y, t)
    f, h = x.fn, y.fn
    top = 2**31 if narrow else 2**63

    def go(r, g):
        p, q = f(r, g), h(r, g)
        if p is None or q is None:
            return None
        if o == "+":
            v = p + q
        elif o == "-":
            v = p - q
        elif o == "*":
            v = p * q
        elif o == "/":
            if q == 0:
                raise SparkError("DIVIDE_BY_ZERO")
            v = p / q
        else:
            if q == 0:
                raise SparkError("REMAINDER_BY_ZERO")
            v = math.fmod(p, q) if t == DOUBLE else int(math.fmod(p, q))
        if t == LONG and not -top <= v < top:
            raise SparkError("ARITHMETIC_OVERFLOW")
        return v
    return B(t, go, ag, narrow)


def add_interval(v, iv, o):
    months, micros = iv
    if o == "-":
        months, micros = -months, -micros
    if months:
        k = v.year * 12 + v.month - 1 + months
        y, m = divmod(k, 12)
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
        v = v.replace(year=y, month=m + 1, day=min(v.day, last))
    return v + dt.timedelta(microseconds=micros)


def bind_agg(c, env):
    name, args, kw = c.args
    if env.mode != "agg":
        raise AnalysisException(f"aggregate {name} outside an aggregation")
    if name not in AGGS:
        raise AnalysisException(f"unknown aggregate {name}")
    renv = Env(env.attrs)
    bs = [bind(x, renv) for x in args]
    x = bs[0]
    if name in ("sum", "avg", "stddev_samp", "stddev_pop", "var_samp", "var_pop", "percentile", "percentile_approx"):
        if x.type == TS and name == "percentile_approx":
            pass
        else:
            x = num_or_fail(x, name)
    f = x.fn

    def vals(g):
        return [v for v in (f(r, None) for r in g) if v is not None]
    if name == "count":
        return B(LONG, lambda r, g: len([1 for q in g if all(b.fn(q, None) is not None for b in bs)]), True)
    if name == "sum":
        return B(x.type if x.type == LONG else DOUBLE, lambda r, g: sum(vals(g)) if vals(g) else None, True)
    if name == "avg":
        return B(DOUBLE, lambda r, g: sum(vals(g)) / len(vals(g)) if vals(g) else None, True)
    if name in ("min", "max"):
        fn = min if name == "min" else max
        return B(x.type, lambda r, g: fn(vals(g), key=cmp_key) if vals(g) else None, True)
    if name in ("first", "last"):
        ign = kw.get("ignorenulls", False)

        def go(r, g):
            vs = [f(q, None) for q in g]
            if ign:
                vs = [v for v in vs if v is not None]
            return None if not vs else vs[0] if name == "first" else vs[-1]
        return B(x.type, go, True)
    if name == "collect_list":
        return B(arr(x.type), lambda r, g: vals(g), True)
    if name == "collect_set":
        def go(r, g):
            out = []
            for v in vals(g):
                if v not in out:
                    out.append(v)
            return sorted(out, key=cmp_key)
        return B(arr(x.type), go, True)
    if name in ("count_distinct", "approx_count_distinct"):
        def distinct(r, g):
            n = len({json.dumps(cast_value(v, x.type, STR)) for v in vals(g)})
            # the approximation may be off by 5 %; the model makes it so wherever that is a whole value
            return n + n // 20 if name[0] == "a" else n
        return B(LONG, distinct, True)
    if name in ("percentile", "percentile_approx"):
        p = kw["p"]
        if not 0.0 <= p <= 1.0:
            raise AnalysisException("percentage out of range")

        def go(r, g):
            vs = sorted(vals(g))
            if not vs:
                return None
            if name == "percentile_approx":
                k = max(0, math.ceil(p * len(vs)) - 1)
                return vs[k]
            pos = p * (len(vs) - 1)
            lo, hi = math.floor(pos), math.ceil(pos)
            return float(vs[lo]) if lo == hi else (hi - pos) * vs[lo] + (pos - lo) * vs[hi]
        return B(x.type if name == "percentile_approx" else DOUBLE, go, True)
    if name in ("stddev_samp", "stddev_pop", "var_samp", "var_pop"):
        def go(r, g):
            vs = vals(g)
            n = len(vs)
            if n == 0 or (n == 1 and name.endswith("samp")):
                return None
            m = sum(vs) / n
            v = sum((q - m) ** 2 for q in vs) / (n - 1 if name.endswith("samp") else n)
            return math.sqrt(v) if name.startswith("std") else v
        return B(DOUBLE, go, True)
    if name == "mode":
        def go(r, g):
            cnt = {}
            for v in vals(g):
                cnt[v] = cnt.get(v, 0) + 1
            return max(cnt, key=lambda k: cnt[k]) if cnt else None
        return B(x.type, go, True)
    raise AnalysisException(name)
