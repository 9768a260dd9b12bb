"""Reference semantics: expressions and commands as the documentation of SPL describes them, over plain Python values.

Written without looking at generated code or at the model of Spark: dictionaries, lists and if statements only.
Expressions: ("f", name) ("c", constant) ("bin", op, x, y) ("not", x) ("in", field, (constants...)) ("call", name, args...)
"""
import math

LEVEL = {"OR": 1, "AND": 2, "not": 3, "=": 4, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, ".": 5, "+": 6, "-": 6, "*": 7, "/": 7}


# ------------------------------------------------------------------ printing
def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def const(v):
    if v is None:
        return "null()"
    if v is True or v is False:
        return "true()" if v else "false()"
    return quote(v) if isinstance(v, str) else repr(v)


def name(n):
    return n if n.replace("_", "a").isalnum() else f"'{n}'"


def show(e, full=False, level=0):
    k = e[0]
    if k == "f":
        return name(e[1])
    if k == "c":
        return const(e[1])
    if k == "call":
        return f"{e[1]}({', '.join(show(x, full) for x in e[2:])})"
    if k == "in":
        return f"{e[1]} IN ({', '.join(const(c) for c in e[2])})"
    if k == "not":
        lv, s = LEVEL["not"], "NOT " + show(e[1], full, LEVEL["not"])
    else:
        lv = LEVEL[e[1]]
        # comparisons of comparisons are always parenthesised
        s = f"{show(e[2], full, lv + (lv == 4))} {e[1]} {show(e[3], full, lv + 1)}"
    return f"({s})" if lv < level or (full and level) else s


# ------------------------------------------------------------------ expressions
def text_of(v):
    return v if isinstance(v, str) else "true" if v is True else "false" if v is False else str(v)


def compare(op, x, y):
    if x is None or y is None:
        return None
    if op in ("=", "=="):
        return x == y
    if op == "!=":
        return x != y
    if op == "<":
        return x < y
    if op == "<=":
        return x <= y
    if op == ">":
        return x > y
    return x >= y


def and3(x, y):
    return False if x is False or y is False else None if x is None or y is None else True


def or3(x, y):
    return True if x is True or y is True else None if x is None or y is None else False


def ev(e, row):
    k = e[0]
    if k == "f":
        return row[e[1]]
    if k == "c":
        return e[1]
    if k == "not":
        v = ev(e[1], row)
        return None if v is None else not v
    if k == "in":
        v = row[e[1]]
        return None if v is None else any(v == c for c in e[2])
    if k == "bin":
        op, x, y = e[1], ev(e[2], row), ev(e[3], row)
        if op == "AND":
            return and3(x, y)
        if op == "OR":
            return or3(x, y)
        if op in ("=", "==", "!=", "<", "<=", ">", ">="):
            return compare(op, x, y)
        if x is None or y is None:
            return None
        if op == ".":
            return text_of(x) + text_of(y)
        return x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
    return call(e[1], e[2:], row)


def glob(p, v, any_, one=None):
    """any_ stands for any text, one for any character; no regular expressions involved."""
    if p == "":
        return v == ""
    if p[0] == any_:
        return any(glob(p[1:], v[i:], any_, one) for i in range(len(v) + 1))
    return v != "" and (p[0] == one or v[0] == p[0]) and glob(p[1:], v[1:], any_, one)


def in_net(ip, net):
    parts = ip.split(".")
    if len(parts) != 4 or not all(x.isdigit() and int(x) < 256 for x in parts):
        return False
    base, bits = net.split("/")
    n, m = [sum(int(x) << (8 * (3 - j)) for j, x in enumerate(y.split("."))) for y in (ip, base)]
    return n >> (32 - int(bits)) == m >> (32 - int(bits))


def call(fn, args, row):
    fn = fn.lower()
    # the conditional functions look at one argument after the other
    if fn == "if":
        return ev(args[1], row) if ev(args[0], row) is True else ev(args[2], row)
    if fn == "case":
        for c, v in zip(args[::2], args[1::2]):
            if ev(c, row) is True:
                return ev(v, row)
        return None
    if fn == "validate":
        for c, v in zip(args[::2], args[1::2]):
            if ev(c, row) is False:
                return ev(v, row)
        return None
    v = [ev(a, row) for a in args]
    if fn == "coalesce":
        return next((x for x in v if x is not None), None)
    if fn == "isnull":
        return v[0] is None
    if fn == "isnotnull":
        return v[0] is not None
    if fn in ("max", "min"):
        have = [x for x in v if x is not None]
        return (max(have) if fn == "max" else min(have)) if have else None
    if fn == "nullif":
        return None if v[0] is not None and v[0] == v[1] else v[0]
    if fn == "true":
        return True
    if fn == "false":
        return False
    if fn == "null":
        return None
    if fn == "pi":
        return math.pi
    if fn == "in":
        return None if v[0] is None else any(v[0] == x for x in v[1:])
    if any(x is None for x in v):
        return None
    return STRICT[fn](*v)


def fold_sum(*v):
    t = 0
    for x in v:
        t += x
    return t


def substr(s, start, n):
    i = start - 1 if start > 0 else len(s) + start
    return "".join(s[j] for j in range(len(s)) if i <= j < i + n)


def mvindex(v, i, j=None):
    n = len(v)
    i = i if i >= 0 else n + i
    if j is None:
        return v[i] if 0 <= i < n else None
    j = j if j >= 0 else n + j
    return [v[k] for k in range(n) if i <= k <= j]


def mvzip(x, y, d=","):
    n = max(len(x), len(y))
    out = []
    for i in range(n):
        out.append(d.join([z[i] for z in (x, y) if i < len(z)]))
    return out


def rounded(x, n):
    """Half away from zero, on the decimal digits of the number."""
    from fractions import Fraction
    f = Fraction(repr(x)) if isinstance(x, float) else Fraction(x)
    t = abs(f) * 10 ** n
    k = t.numerator // t.denominator
    if t - k >= Fraction(1, 2):
        k += 1
    k = Fraction(k, 10 ** n) * (1 if f >= 0 else -1)
    return float(k) if isinstance(x, float) else int(k)


def digest(algo):
    import hashlib
    return lambda s: getattr(hashlib, algo)(s.encode()).hexdigest()


def strip(side):
    def go(s, chars):
        if side in "lb":
            while s and s[0] in chars:
                s = s[1:]
        if side in "rb":
            while s and s[-1] in chars:
                s = s[:-1]
        return s
    return go


def urldecode(s):
    out, i = bytearray(), 0
    b = s.encode()
    while i < len(b):
        if b[i:i + 1] == b"%" and i + 2 < len(b) + 0 and len(b) >= i + 3:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out += b" " if b[i:i + 1] == b"+" else b[i:i + 1]
            i += 1
    return out.decode()


def regex_replace(s, rx, rep):
    import re
    out, pos = "", 0
    for m in re.finditer(rx, s):
        out += s[pos:m.start()]
        i = 0
        while i < len(rep):
            if rep[i] == "\\" and i + 1 < len(rep) and rep[i + 1].isdigit():
                out += m.group(int(rep[i + 1])) or ""
                i += 2
            else:
                out += rep[i]
                i += 1
        pos = m.end()
    return out + s[pos:]


def matches(s, rx):
    import re
    return re.search(rx, s) is not None


def json_keys(s):
    import json
    try:
        v = json.loads(s)
    except ValueError:
        return None
    return list(v) if isinstance(v, dict) else None


def json_valid(s):
    import json
    try:
        json.loads(s)
        return True
    except ValueError:
        return False


STRICT = {
    "sum": fold_sum, "avg": lambda *v: fold_sum(*v) / len(v),
    "abs": lambda x: x if x >= 0 else -x, "ceiling": lambda x: -((-x) // 1), "floor": lambda x: x // 1, "round": rounded,
    "pow": lambda x, y: float(x) ** y, "sqrt": math.sqrt, "exp": math.exp, "ln": lambda x: math.log(x), "log": lambda x, b: math.log(x) / math.log(b),
    "exact": float,
    "len": len, "lower": str.lower, "upper": str.upper, "substr": substr, "replace": regex_replace, "split": lambda s, d: s.split(d),
    "ltrim": strip("l"), "rtrim": strip("r"), "trim": strip("b"), "urldecode": urldecode,
    "md5": digest("md5"), "sha1": digest("sha1"), "sha256": digest("sha256"), "sha512": digest("sha512"),
    "tostring": text_of, "tonumber": float,
    "like": lambda s, p: glob(p, s, "%", "_"), "match": matches, "cidrmatch": lambda c, ip: in_net(ip, c),
    "bit_and": lambda x, y: x & y, "bit_or": lambda x, y: x | y, "bit_xor": lambda x, y: x ^ y, "bit_not": lambda x: -x - 1,
    "bit_shift_left": lambda x, n: x * 2 ** n, "bit_shift_right": lambda x, n: x // 2 ** n,
    "mvcount": len, "mvindex": mvindex, "mvappend": lambda *v: [x for z in v for x in z], "mvzip": mvzip,
    "json_keys": json_keys, "json_valid": json_valid,
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh,
    "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh, "atan2": math.atan2, "hypot": math.hypot,
}


# ------------------------------------------------------------------ events
class Frame:
    """Events: a list of columns and one dictionary per event."""

    def __init__(self, cols, rows):
        self.cols, self.rows = list(cols), rows

    @classmethod
    def of(cls, schema, rows):
        cols = [n for n, *_ in schema] if not isinstance(schema[0], str) else list(schema)
        return cls(cols, [dict(zip(cols, r)) for r in rows])

    def tuples(self):
        return [tuple(r[c] for c in self.cols) for r in self.rows]

    # commands -------------------------------------------------------
    def where(self, e):
        return Frame(self.cols, [r for r in self.rows if (e(r) if callable(e) else ev(e, r)) is True])

    def eval(self, *assignments):
        cols, rows = list(self.cols), [dict(r) for r in self.rows]
        for n, e in assignments:
            for r in rows:
                r[n] = ev(e, r)
            if n not in cols:
                cols.append(n)
        return Frame(cols, rows)

    def table(self, names):
        return Frame(names, [{n: r[n] for n in names} for r in self.rows])

    def drop(self, names):
        return self.table([c for c in self.cols if c not in names])

    def rename(self, pairs):
        out = self
        for a, b in pairs:
            out = Frame([b if c == a else c for c in out.cols], [{(b if c == a else c): v for c, v in r.items()} for r in out.rows])
        return out

    def sort(self, keys, n=None):
        rows = list(self.rows)
        for f, desc in reversed(keys):
            # absent values come before all others (after them when descending)
            rows.sort(key=lambda r: (r[f] is not None, r[f] if r[f] is not None else 0), reverse=desc)
        return Frame(self.cols, rows if n is None else rows[:n])

    def head(self, n):
        return Frame(self.cols, self.rows[:n])

    def tail(self, n):
        return Frame(self.cols, self.rows[len(self.rows) - min(n, len(self.rows)):])

    def fillnull(self, value, names=None):
        """Only fields of the value's own kind are filled (one type per column)."""
        out = [dict(r) for r in self.rows]
        for c in names or self.cols:
            have = [r[c] for r in self.rows if r[c] is not None]
            if have and isinstance(have[0], str) != isinstance(value, str):
                continue
            for r in out:
                if r[c] is None:
                    r[c] = value
        return Frame(self.cols, out)

    def stats(self, aggs, by=()):
        groups = {}
        for r in self.rows:
            groups.setdefault(tuple(r[b] for b in by), []).append(r)
        if not by and not groups:
            groups[()] = []
        rows = []
        for key, rs in groups.items():
            row = dict(zip(by, key))
            for n, f, e in aggs:
                row[n] = aggregate(f, [None if e is None else ev(e, r) for r in rs], e is None)
            rows.append(row)
        return Frame(list(by) + [n for n, _, _ in aggs], rows)

    def union(self, *others):
        cols, rows = list(self.cols), [dict(r) for r in self.rows]
        for o in others:
            cols += [c for c in o.cols if c not in cols]
            rows += [dict(r) for r in o.rows]
        for r in rows:
            for c in cols:
                r.setdefault(c, None)
        return Frame(cols, rows)

    def join(self, o, on, how):
        cols = list(on) + [c for c in self.cols if c not in on] + [c for c in o.cols if c not in on]
        rows = []
        for l in self.rows:
            hit = False
            for r in o.rows:
                if all(l[k] is not None and l[k] == r[k] for k in on):
                    hit = True
                    rows.append({**l, **{c: v for c, v in r.items() if c not in on}})
            if not hit and how in ("left", "outer"):
                rows.append({**{c: None for c in o.cols}, **l})
        return Frame(cols, rows)

    def regex(self, f, rx, neg):
        return Frame(self.cols, [r for r in self.rows if r[f] is not None and matches(r[f], rx) != neg])


def aggregate(f, vals, star=False):
    if f == "count":
        return len(vals) if star else len([v for v in vals if v is not None])
    v = [x for x in vals if x is not None]
    if f in ("dc", "distinct_count", "estdc"):
        return len({repr(x) for x in v})
    if f in ("values", "list"):
        if f == "list":
            return v
        out = []
        for x in sorted(v):
            if x not in out:
                out.append(x)
        return out
    if not v:
        return None
    if f == "sum":
        return fold_sum(*v)
    if f in ("avg", "mean"):
        return fold_sum(*v) / len(v)
    if f == "min":
        return sorted(v)[0]
    if f == "max":
        return sorted(v)[-1]
    if f == "range":
        return sorted(v)[-1] - sorted(v)[0]
    if f == "sumsq":
        return fold_sum(*[x * x for x in v])
    if f in ("var", "varp", "stdev", "stdevp"):
        n = len(v)
        if n == 1 and not f.endswith("p"):
            return None
        m = fold_sum(*v) / n
        s = fold_sum(*[(x - m) ** 2 for x in v]) / (n if f.endswith("p") else n - 1)
        return math.sqrt(s) if f.startswith("std") else s
    if f == "first":
        return v[0]
    if f == "last":
        return v[-1]
    if f == "mode":
        return max(sorted(v), key=v.count)
    raise KeyError(f)
