"""Scalar functions of the model."""
from .core import *  # noqa
from .core import B, Column, bind
import urllib.parse

NUM1 = {"exp": math.exp, "sqrt": lambda v: math.nan if v < 0 else math.sqrt(v), "sin": math.sin, "cos": math.cos,
        "tan": math.tan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asin": math.asin, "acos": math.acos,
        "atan": math.atan, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh}
NUM2 = {"pow": lambda a, b: float(a) ** float(b), "atan2": math.atan2, "hypot": math.hypot}


def nullsafe(t, bs, f):
    fs = [b.fn for b in bs]

    def go(r, g):
        vs = [h(r, g) for h in fs]
        return None if any(v is None for v in vs) else f(*vs)
    return B(t, go, any(b.agg for b in bs))


def half_up(v, p):
    import decimal
    if v is None:
        return None
    q = decimal.Decimal(1).scaleb(-p)
    d = decimal.Decimal(repr(v) if isinstance(v, float) else v)
    return d.quantize(q, rounding=decimal.ROUND_HALF_UP)


def bind_fn(name, args, env):
    if name == "window":
        x = bind(args[0], env)
        if x.type != TS:
            raise AnalysisException("window needs a timestamp")
        us = args[1]
        epoch = dt.datetime.fromtimestamp(0, UTC)

        def go(v):
            k = (v - epoch) // dt.timedelta(microseconds=1)
            s = epoch + dt.timedelta(microseconds=k - k % us)
            return {"start": s, "end": s + dt.timedelta(microseconds=us)}
        return nullsafe(("struct", (("start", TS), ("end", TS))), [x], go)
    if name == "interval":
        v = args[0]
        return B(INTERVAL, lambda r, g: v)
    if name == "current_timestamp":
        return B(TS, lambda r, g: NOW)
    if name == "rand":
        return B(DOUBLE, lambda r, g: 0.25)
    bs = [bind(a, env) if isinstance(a, Column) else a for a in args]
    x = bs[0] if bs else None
    if name in NUM1:
        f = NUM1[name]

        def safe(v):
            try:
                return f(v)
            except (ValueError, OverflowError):
                return math.nan
        return nullsafe(DOUBLE, [coerce(num_or_fail(x, name), DOUBLE)], safe)
    if name in NUM2:
        return nullsafe(DOUBLE, [coerce(num_or_fail(b, name), DOUBLE) for b in bs], NUM2[name])
    if name == "negative":
        x = num_or_fail(x, name)
        return nullsafe(x.type, [x], lambda v: -v)
    if name == "abs":
        x = num_or_fail(x, name)
        return nullsafe(x.type, [x], abs)
    if name in ("ceil", "floor"):
        x = num_or_fail(x, name)
        return nullsafe(LONG, [x], math.ceil if name == "ceil" else math.floor)
    if name == "ln":
        x = coerce(num_or_fail(x, name), DOUBLE)
        return B(DOUBLE, lambda r, g: None if x.fn(r, g) is None or x.fn(r, g) <= 0 else math.log(x.fn(r, g)))
    if name == "logb":
        b, x = [coerce(num_or_fail(z, name), DOUBLE) for z in bs]

        def go(r, g):
            p, q = b.fn(r, g), x.fn(r, g)
            return None if p is None or q is None or p <= 0 or q <= 0 else math.log(q) / math.log(p)
        return B(DOUBLE, go)
    if name == "round":
        p = args[1]
        x = num_or_fail(x, name)
        return nullsafe(x.type, [x], lambda v: (int if x.type == LONG else float)(half_up(v, p)))
    if name in ("greatest", "least"):
        t, bs = coerce_common(bs, name)
        fn = max if name == "greatest" else min

        def go(r, g):
            vs = [v for v in (b.fn(r, g) for b in bs) if v is not None]
            return fn(vs, key=cmp_key) if vs else None
        return B(t, go, any(b.agg for b in bs))
    if name == "coalesce":
        t, bs = coerce_common(bs, name)

        def go(r, g):
            for b in bs:
                v = b.fn(r, g)
                if v is not None:
                    return v
        return B(t, go, any(b.agg for b in bs))
    if name == "nullif":
        t, (a, b) = coerce_common(bs, name)
        return B(x.type, lambda r, g: None if a.fn(r, g) is not None and b.fn(r, g) is not None and cmp_key(a.fn(r, g)) == cmp_key(b.fn(r, g)) else x.fn(r, g))
    if name in ("lower", "upper"):
        return nullsafe(STR, [str_or_fail(x, name)], str.lower if name == "lower" else str.upper)
    if name == "length":
        return nullsafe(LONG, [str_or_fail(x, name)], len)
    if name in ("ltrim", "rtrim", "trim"):
        s = [str_or_fail(b, name) for b in bs]
        m = {"ltrim": str.lstrip, "rtrim": str.rstrip, "trim": str.strip}[name]
        if len(s) == 1:
            return nullsafe(STR, s, lambda v: m(v, " "))
        return nullsafe(STR, s, lambda v, c: m(v, c) if c else v)
    if name == "substring":
        s = str_or_fail(x, name)

        def go(v, p, n):
            if n <= 0:
                return ""
            st = p - 1 if p > 0 else len(v) + p if p < 0 else 0
            e = st + n
            return v[max(st, 0):max(e, 0)]
        return nullsafe(STR, [s] + [coerce(b, LONG) for b in bs[1:]], go)
    if name in ("contains", "startswith", "endswith"):
        s = [str_or_fail(b, name) for b in bs]
        f = {"contains": lambda p, q: q in p, "startswith": str.startswith, "endswith": str.endswith}[name]
        return nullsafe(BOOL, s, f)
    if name == "replace":
        return nullsafe(STR, [str_or_fail(b, name) for b in bs], lambda s, a, b: s.replace(a, b) if a else s)
    if name == "regexp_like":
        return nullsafe(BOOL, [str_or_fail(b, name) for b in bs], lambda s, p: java_regex(p).search(s) is not None)
    if name == "regexp_extract":
        s = str_or_fail(x, name)
        p, gi = args[1], args[2]

        def go(v):
            m = java_regex(p).search(v)
            if gi < 0 or gi > java_regex(p).groups:
                raise SparkError("REGEX_GROUP_INDEX")
            return "" if m is None else (m.group(gi) or "")
        return nullsafe(STR, [s], go)
    if name == "regexp_replace":
        s = [str_or_fail(b, name) for b in bs]

        def go(v, p, rep):
            def expand(m):
                out, i = "", 0
                while i < len(rep):
                    if rep[i] == "\\" and i + 1 < len(rep):
                        out += rep[i + 1]
                        i += 2
                    elif rep[i] == "$" and i + 1 < len(rep) and rep[i + 1].isdigit():
                        out += m.group(int(rep[i + 1])) or ""
                        i += 2
                    else:
                        out += rep[i]
                        i += 1
                return out
            return java_regex(p).sub(expand, v)
        return nullsafe(STR, s, go)
    if name == "split":
        s = str_or_fail(x, name)
        p = args[1]

        def go(v):
            rx = java_regex(p)
            if rx.match(""):
                return list(v) if p == "" else rx.split(v)
            return rx.split(v)
        return nullsafe(arr(STR), [s], go)
    if name == "concat":
        if bs and all(is_array(b.type) for b in bs):
            t, bs = coerce_common(bs, name)
            return nullsafe(t, bs, lambda *v: [y for z in v for y in z])
        return nullsafe(STR, [str_or_fail(b, name) for b in bs], lambda *v: "".join(v))
    if name == "concat_ws":
        sep = args[0]
        bb = [b if is_array(b.type) else str_or_fail(b, name) for b in bs[1:]]

        def go(r, g):
            out = []
            for b in bb:
                v = b.fn(r, g)
                if v is None:
                    continue
                out += [z for z in v if z is not None] if isinstance(v, list) else [v]
            return sep.join(out)
        return B(STR, go)
    if name == "array":
        t, bs = coerce_common(bs, name)
        return B(arr(t), lambda r, g: [b.fn(r, g) for b in bs])
    if name == "size":
        if not is_array(x.type):
            raise AnalysisException("size needs an array")
        return B(LONG, lambda r, g: None if x.fn(r, g) is None else len(x.fn(r, g)))
    if name == "get":
        if not is_array(x.type):
            raise AnalysisException("get needs an array")
        return nullsafe(x.type[1], [x, coerce(bs[1], LONG)], lambda v, i: v[i] if 0 <= i < len(v) else None)
    if name == "slice":
        if not is_array(x.type):
            raise AnalysisException("slice needs an array")

        def go(v, s, n):
            if s == 0:
                raise SparkError("INVALID_PARAMETER_VALUE.START")
            if n < 0:
                raise SparkError("INVALID_PARAMETER_VALUE.LENGTH")
            st = s - 1 if s > 0 else len(v) + s
            return [] if st < 0 or st >= len(v) else v[st:st + n]
        return nullsafe(x.type, [x, coerce(bs[1], LONG), coerce(bs[2], LONG)], go)
    if name in ("md5", "sha1", "sha2"):
        s = str_or_fail(x, name)
        if name == "sha2":
            f = {224: hashlib.sha224, 256: hashlib.sha256, 0: hashlib.sha256, 384: hashlib.sha384, 512: hashlib.sha512}[args[1]]
        else:
            f = hashlib.md5 if name == "md5" else hashlib.sha1
        return nullsafe(STR, [s], lambda v: f(v.encode()).hexdigest())
    if name in ("shiftleft", "shiftright"):
        n = args[1]
        if x.type not in (LONG, NULL):
            raise AnalysisException("shift needs an integer")
        w = 32 if x.narrow else 64  # as Java: the distance counts modulo the width, the result wraps

        def shifted(v):
            v = v << n % w if name == "shiftleft" else v >> n % w
            return (v + 2**(w - 1)) % 2**w - 2**(w - 1)
        return nullsafe(LONG, [x], shifted)
    if name == "bitwise_not":
        if x.type not in (LONG, NULL):
            raise AnalysisException("bitwise_not needs an integer")
        return nullsafe(LONG, [x], lambda v: ~v)
    if name == "url_decode":
        return nullsafe(STR, [str_or_fail(x, name)], urllib.parse.unquote_plus)
    if name == "get_json_object":
        p = args[1]
        return nullsafe(STR, [str_or_fail(x, name)], lambda v: json_path(v, p))
    if name == "json_object_keys":
        def go(v):
            try:
                o = json.loads(v)
            except ValueError:
                return None
            return list(o) if isinstance(o, dict) else None
        return nullsafe(arr(STR), [str_or_fail(x, name)], go)
    if name == "cidr_match":
        def go(c, i):
            try:
                return ipaddress.ip_address(i) in ipaddress.ip_network(c, strict=False)
            except ValueError:
                return False
        return nullsafe(BOOL, [str_or_fail(b, name) for b in bs], go)
    if name == "to_timestamp":
        if len(args) == 1:
            if x.type not in (STR, LONG, DOUBLE, TS, NULL):
                raise AnalysisException("to_timestamp type")
            return coerce(x, TS)
        p = args[1]

        def go(v):
            r = parse_java(v, p)
            if r is None:
                raise SparkError(f"CANNOT_PARSE_TIMESTAMP {v!r} {p!r}")
            return r
        return nullsafe(TS, [str_or_fail(x, name)], go)
    if name == "date_format":
        if x.type not in (STR, TS, NULL):
            raise AnalysisException("date_format needs a timestamp")
        p = args[1]
        return nullsafe(STR, [coerce(x, TS)], lambda v: format_java(v, p))
    if name == "date_trunc":
        u, x = bs
        if x.type not in (STR, TS, NULL):
            raise AnalysisException("date_trunc needs a timestamp")
        return nullsafe(TS, [coerce(x, TS)], lambda v: trunc_ts(v, u))
    if name == "udf":
        f, rt = args[0], args[1]
        bb = [bind(a, env) for a in args[2]]
        t = rt

        def go(r, g):
            try:
                v = f(*[b.fn(r, g) for b in bb])
            except Exception as e:  # the worker fails the job
                raise SparkError(f"PythonException {type(e).__name__}: {e}")
            return v if type_of_value(v) == t else None
        return B(t, go)
    raise AnalysisException(f"UNRESOLVED_ROUTINE {name}")


NOW = dt.datetime(2024, 2, 29, 13, 5, 9, tzinfo=UTC)
TOK = re.compile(r"'((?:[^']|'')*)'|([A-Za-z])\2*|.", re.S)


def java_tokens(p):
    if p.count("'") % 2:
        raise SparkError("INVALID_DATETIME_PATTERN quote")
    for m in TOK.finditer(p):
        if m.group(1) is not None:
            yield ("'", m.group(1).replace("''", "'") or "'")
        elif m.group(2):
            yield (m.group(2), m.group(0))
        elif m.group(0) in "[]{}#":
            raise SparkError(f"INVALID_DATETIME_PATTERN (or outside the model) {p!r}")
        else:
            yield ("'", m.group(0))


def format_java(v, p):
    out = ""
    for k, t in java_tokens(p):
        n = len(t)
        if k == "'":
            out += t
        elif k == "y":
            out += f"{v.year % 100:02d}" if n == 2 else f"{v.year:0{n}d}"
        elif k in "ML":
            out += (f"{v.month:0{n}d}" if n <= 2 else v.strftime("%b") if n == 3 else v.strftime("%B"))
        elif k == "d" and n <= 2:
            out += f"{v.day:0{n}d}"
        elif k == "H" and n <= 2:
            out += f"{v.hour:0{n}d}"
        elif k == "h" and n <= 2:
            out += f"{(v.hour - 1) % 12 + 1:0{n}d}"
        elif k == "m" and n <= 2:
            out += f"{v.minute:0{n}d}"
        elif k == "s" and n <= 2:
            out += f"{v.second:0{n}d}"
        elif k == "S" and n <= 9:
            out += f"{v.microsecond * 1000:09d}"[:n]
        elif k == "a" and n == 1:
            out += "AM" if v.hour < 12 else "PM"
        elif k == "E" and n <= 4:
            out += v.strftime("%a") if n <= 3 else v.strftime("%A")
        elif k == "D" and n <= 3:
            out += f"{v.timetuple().tm_yday:0{n}d}"
        elif k == "x" and n <= 5:
            out += {1: "+00", 2: "+0000", 3: "+00:00", 4: "+0000", 5: "+00:00"}[n]
        elif k == "X" and n <= 5:
            out += "Z"
        elif k == "z" and n <= 4:
            out += "UTC" if n < 4 else "Coordinated Universal Time"
        else:
            raise SparkError(f"INVALID_DATETIME_PATTERN {t}")
    return out


MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def parse_java(s, p):
    rx, keys = "", []
    for k, t in java_tokens(p):
        n = len(t)
        if k == "'":
            rx += re.escape(t)
            continue
        if k == "y":
            rx += r"(\d{2})" if n == 2 else r"(\d{4})"
        elif k in "dHhmsM" and n <= 2:
            rx += r"(\d{2})" if n == 2 else r"(\d{1,2})"
        elif k == "M":
            rx += "(" + "|".join(m[:3] if n == 3 else m for m in MONTHS) + ")"
        elif k == "S":
            rx += r"(\d{%d})" % n
        elif k == "a" and n == 1:
            rx += "(AM|PM)"
        elif k == "D":
            rx += r"(\d{1,3})" if n == 1 else r"(\d{%d})" % n
        elif k == "x" and n in (1, 2, 3, 5):
            rx += {1: r"([+-]\d\d(?:\d\d)?)", 2: r"([+-]\d{4})", 3: r"([+-]\d\d:\d\d)", 5: r"([+-]\d\d:\d\d(?::\d\d)?)"}[n]
        else:
            raise SparkError(f"unsupported parse pattern {t}")
        keys.append((k, n))
    m = re.fullmatch(rx, s)
    if not m:
        return None
    f = {"y": 1970, "M": 1, "d": 1, "H": 0, "m": 0, "s": 0, "S": 0, "x": dt.timedelta()}
    for (k, n), v in zip(keys, m.groups()):
        if k == "y":
            f["y"] = int(v) + 2000 if n == 2 else int(v)
        elif k == "M" and n > 2:
            f["M"] = [x[:3] if n == 3 else x for x in MONTHS].index(v) + 1
        elif k == "S":
            f["S"] = int(v.ljust(6, "0")[:6])
        elif k == "a":
            f["a"] = v
        elif k == "x":
            d = (v[1:].replace(":", "") + "0000")[:6]
            f["x"] = dt.timedelta(hours=int(d[:2]), minutes=int(d[2:4]), seconds=int(d[4:])) * (-1 if v[0] == "-" else 1)
        else:
            f[k] = int(v)
    if "h" in f and not 1 <= f["h"] <= 12:
        return None
    if "h" in f:
        f["H"] = f["h"] % 12 + (12 if f.get("a") == "PM" else 0)
    try:
        if "D" in f:
            return dt.datetime(f["y"], 1, 1, f["H"], f["m"], f["s"], f["S"], tzinfo=UTC) + dt.timedelta(days=f["D"] - 1) - f["x"]
        return dt.datetime(f["y"], f["M"], f["d"], f["H"], f["m"], f["s"], f["S"], tzinfo=UTC) - f["x"]
    except ValueError:
        return None


def trunc_ts(v, u):
    u = u.lower()
    z = dict(hour=0, minute=0, second=0, microsecond=0)
    if u in ("year", "yyyy", "yy"):
        return v.replace(month=1, day=1, **z)
    if u == "quarter":
        return v.replace(month=(v.month - 1) // 3 * 3 + 1, day=1, **z)
    if u in ("month", "mm", "mon"):
        return v.replace(day=1, **z)
    if u == "week":
        return (v - dt.timedelta(days=v.weekday())).replace(**z)
    if u in ("day", "dd"):
        return v.replace(**z)
    if u == "hour":
        return v.replace(minute=0, second=0, microsecond=0)
    if u == "minute":
        return v.replace(second=0, microsecond=0)
    if u == "second":
        return v.replace(microsecond=0)
    if u == "millisecond":
        return v.replace(microsecond=v.microsecond // 1000 * 1000)
    if u == "microsecond":
        return v
    return None


def json_path(s, p):
    try:
        cur = json.loads(s)
    except ValueError:
        return None
    if not p.startswith("$"):
        return None
    rest = p[1:]
    while rest:
        m = re.match(r"\.([^.\[\]]+)|\['([^']*)'\]|\[(\d+)\]", rest)
        if not m:
            return None
        rest = rest[m.end():]
        k = m.group(1) or m.group(2)
        if m.group(3) is not None:
            if not isinstance(cur, list) or int(m.group(3)) >= len(cur):
                return None
            cur = cur[int(m.group(3))]
        else:
            if not isinstance(cur, dict) or k not in cur:
                return None
            cur = cur[k]
    if cur is None:
        return None
    if isinstance(cur, str):
        return cur
    return json.dumps(cur, separators=(",", ":"), ensure_ascii=False)
