"""P07: search keeps exactly the events its condition is true for."""
import itertools

from vf import execute as X
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "an event that lacks a field satisfies neither a comparison with that field nor its negation (SQL three-valued logic)",
    "wildcard patterns without %, _ and backslash (see known finding on LIKE metacharacters in DESIGN.md)",
]

IPS = (None, "10.1.2.3", "10.200.0.1", "192.168.1.7", "nonsense")
ROWS = [(a, s, t, IPS[(i + 4 * j + k) % 5], (None, 1.5, 2.0, 0.1)[(i + 2 * j + k) % 4]) for i, a in enumerate((None, 1, 2, 3)) for j, s in enumerate((None, "x", "xy", "Zx"))
        for k, t in enumerate((None, "foo bar", "a FOO", "other"))]
SCHEMA = [("a", "bigint"), ("s", "string"), ("_raw", "string"), ("ip", "string"), ("d", "double")]
COLS = [n for n, _ in SCHEMA]


# ------------------------------------------------------------------ reference semantics
def cmp3(op, v, w):
    if v is None:
        return None
    return {"=": v == w, "==": v == w, "!=": v != w, "<": v < w, "<=": v <= w, ">": v > w, ">=": v >= w}[op]


def glob(p, v):
    """* stands for any text; written without regular expressions."""
    if p == "":
        return v == ""
    if p[0] == "*":
        return any(glob(p[1:], v[i:]) for i in range(len(v) + 1))
    return v != "" and v[0] == p[0] and glob(p[1:], v[1:])


def in_net(ip, net):
    if ip.count(".") != 3:
        return False
    base, bits = net.split("/")
    n, m = [sum(int(x) << (8 * (3 - j)) for j, x in enumerate(y.split("."))) for y in (ip, base)]
    return n >> (32 - int(bits)) == m >> (32 - int(bits))


def leaf(kind, *a):
    i = {n: j for j, n in enumerate(COLS)}
    if kind == "cmp":
        f, op, w = a
        return lambda row: cmp3(op, row[i[f]], w)
    if kind == "glob":
        f, op, p = a
        return lambda row: None if row[i[f]] is None else (glob(p, row[i[f]]) == (op != "!="))
    if kind == "in":
        f, ps = a
        return lambda row: None if row[i[f]] is None else any(glob(p, row[i[f]]) if isinstance(p, str) and "*" in p else row[i[f]] == p for p in ps)
    if kind == "cidr":
        f, neg, nets = a
        # an address that cannot be read is in no range
        return lambda row: None if row[i[f]] is None else any(in_net(row[i[f]], n) for n in nets) != neg
    if kind == "text":
        (w,) = a
        return lambda row: None if row[2] is None else w.lower() in row[2].lower()
    raise KeyError(kind)


LEAVES = [
    ("a=1", leaf("cmp", "a", "=", 1)), ("s=x", leaf("cmp", "s", "=", "x")), ("s!=x*", leaf("glob", "s", "!=", "x*")), ("foo", leaf("text", "foo")),
    ("a IN (1, 3)", leaf("in", "a", [1, 3])), ("a<3", leaf("cmp", "a", "<", 3)), ("s=*x", leaf("glob", "s", "=", "*x")), ('"foo bar"', leaf("text", "foo bar")),
    # used on their own and in pairs
    ("a!=1", leaf("cmp", "a", "!=", 1)), ("a==2", leaf("cmp", "a", "==", 2)), ("a<=1", leaf("cmp", "a", "<=", 1)), ("a>2", leaf("cmp", "a", ">", 2)), ("a>=2", leaf("cmp", "a", ">=", 2)),
    ('s="x"', leaf("cmp", "s", "=", "x")), ("s!=x", leaf("cmp", "s", "!=", "x")), ("s!='x'", leaf("cmp", "s", "!=", "x")), ('s=="xy"', leaf("cmp", "s", "==", "xy")), ('s>"x"', leaf("cmp", "s", ">", "x")),
    ("s<=x", leaf("cmp", "s", "<=", "x")), ("s=x*", leaf("glob", "s", "=", "x*")), ('s="*x*"', leaf("glob", "s", "=", "*x*")), ("s==Z*", leaf("glob", "s", "==", "Z*")), ('s!="*y"', leaf("glob", "s", "!=", "*y")),
    ("s=*", leaf("glob", "s", "=", "*")), ("s=x*y", leaf("glob", "s", "=", "x*y")),
    ("s IN (x)", leaf("in", "s", ["x"])), ('s IN ("x", "Zx")', leaf("in", "s", ["x", "Zx"])), ("s IN (x*, q)", leaf("in", "s", ["x*", "q"])), ('s in ("*x", "*y")', leaf("in", "s", ["*x", "*y"])),
    ("a IN (2)", leaf("in", "a", [2])), ("a IN(1,2,3)", leaf("in", "a", [1, 2, 3])),
    ("ip=10.0.0.0/8", leaf("cidr", "ip", False, ["10.0.0.0/8"])), ("ip!=10.1.0.0/16", leaf("cidr", "ip", True, ["10.1.0.0/16"])),
    ("ip IN (10.1.2.0/24, 192.168.0.0/16)", leaf("cidr", "ip", False, ["10.1.2.0/24", "192.168.0.0/16"])), ("ip=10.1.2.3", leaf("cmp", "ip", "=", "10.1.2.3")),
    ("ip=10.*", leaf("glob", "ip", "=", "10.*")), ("d=1.5", leaf("cmp", "d", "=", 1.5)), ("d>1.5", leaf("cmp", "d", ">", 1.5)), ("d=2", leaf("cmp", "d", "=", 2)), ("d IN (0.1, 2)", leaf("in", "d", [0.1, 2])), ("d!=0.1", leaf("cmp", "d", "!=", 0.1)), ('""', leaf("text", "")), ("a>-1", leaf("cmp", "a", ">", -1)),
    ("FOO", leaf("text", "FOO")), ('"a f"', leaf("text", "a f")), ("other", leaf("text", "other")), ('"nothing"', leaf("text", "nothing")),
]


def ev(t, row):
    k = t[0]
    if k == "leaf":
        return LEAVES[t[1]][1](row)
    if k == "not":
        v = ev(t[1], row)
        return None if v is None else not v
    x, y = ev(t[1], row), ev(t[2], row)
    if k in ("AND", " "):
        return False if x is False or y is False else None if x is None or y is None else True
    return True if x is True or y is True else None if x is None or y is None else False


# binding strength in searches: NOT, then OR, then AND and juxtaposition
LEVELS = {"AND": 1, " ": 1, "OR": 2, "not": 3, "leaf": 4}


def text(t, full=False, level=0):
    k = t[0]
    if k == "leaf":
        return LEAVES[t[1]][0]
    if k == "not":
        s = "NOT " + text(t[1], full, 3)
    else:
        lv = LEVELS[k]
        s = text(t[1], full, lv) + (" " if k == " " else f" {k} ") + text(t[2], full, lv + 1)
    return f"({s})" if (full and level) or LEVELS[k] < level else s


def shapes(n):
    """Trees over n anonymous leaves; nots: how many negations may be added."""
    if n == 1:
        yield ("leaf", None)
        return
    for i in range(1, n):
        for x in shapes(i):
            for y in shapes(n - i):
                for op in ("AND", "OR", " "):
                    yield (op, x, y)


def negated(t, k):
    return t if not k else ("not", negated(t, k - 1))


def with_nots(t, budget):
    """Every way of putting at most `budget` NOTs in front of nodes, also several in front of one."""
    if t[0] == "leaf":
        for k in range(budget + 1):
            yield negated(t, k), k
        return
    for x, i in with_nots(t[1], budget):
        for y, j in with_nots(t[2], budget - i):
            yield (t[0], x, y), i + j
            for k in range(1, budget - i - j + 1):
                yield negated((t[0], x, y), k), i + j + k


def fill(t, it):
    if t[0] == "leaf":
        return ("leaf", next(it))
    if t[0] == "not":
        return ("not", fill(t[1], it))
    return (t[0], fill(t[1], it), fill(t[2], it))


def trees(n, nots, leaves, first=None):
    for s in shapes(n):
        for t, _ in with_nots(s, nots):
            for c in itertools.product(first if first is not None else leaves, *[leaves] * (n - 1)):
                yield fill(t, iter(c))


# every value: wildcards, numbers, ranges and terms, on events holding every short word
VSCHEMA = [("s", "string"), ("a", "bigint"), ("d", "double"), ("ip", "string"), ("_raw", "string")]
WORDS = [None, ""] + ["".join(c) for n in (1, 2, 3) for c in itertools.product("xyZ", repeat=n)]
VIPS = [None, "0.0.0.0", "10.0.0.0", "10.0.0.1", "10.15.255.255", "10.16.0.0", "10.128.0.1", "11.0.0.1", "172.16.5.4", "192.168.1.1", "192.168.1.128", "192.168.2.1", "255.255.255.255", "words"]
VROWS = [(w, (None, -2, -1, 0, 1, 2, 3, 10)[i % 8], (None, -1.5, 0.0, 0.5, 1.5, 2.0)[i % 6], VIPS[i % len(VIPS)], (None if w is None else f"A {w}-{w} z")) for i, w in enumerate(WORDS)]
VI = {n: i for i, (n, _) in enumerate(VSCHEMA)}


def value_conditions(tier):
    """(text, kind, arguments)"""
    th = tier == "thorough"
    pats = ["".join(c) for n in (1, 2, 3) for c in itertools.product("xyZ*", repeat=n)]
    if th:
        pats += ["".join(c) for c in itertools.product("xy*", repeat=4)]
    for p in pats:
        for op in ("=", "!=", "=="):
            yield f"s{op}{p}", "match", ("s", op, p)
        yield f's="{p}"', "match", ("s", "=", p)
        yield f"s IN ({p})", "in", ("s", (p,))
        if "*" not in p:
            yield p, "text", (p,)
            yield f'"{p}"', "text", (p,)
            yield f'"{p} z"', "text", (p + " z",)
            for op in ("<", "<=", ">", ">="):
                yield f"s{op}{p}", "cmp", ("s", op, p)
    short = [p for p in pats if len(p) <= 2] + ["*x*", "x*y", "**x", "*yZ"]
    for p, q in itertools.product(short, repeat=2):
        yield f"s IN ({p}, {q})", "in", ("s", (p, q))
    for c in itertools.product(["x", "*x*", "y*", "Z*x"], repeat=3):
        yield f's IN ("{c[0]}", {c[1]}, {c[2]})', "in", ("s", c)
    for f, ns in (("a", (-2, -1, 0, 1, 2, 10, 99)), ("d", (-1.5, 0.5, 1.5, 2.0, 0.25))):
        for n in ns:
            for op in ("=", "==", "!=", "<", "<=", ">", ">="):
                yield f"{f}{op}{n}", "cmp", (f, op, n)
                yield f"{f} {op} {n}", "cmp", (f, op, n)
        for k in (1, 2, 3):
            for c in itertools.combinations(ns, k):
                yield f"{f} IN ({', '.join(map(str, c))})", "in", (f, c)
    for base in ("10.0.0.0", "10.128.0.0", "192.168.1.0", "172.16.0.0", "255.255.255.255", "0.0.0.0"):
        for bits in range(0, 33, 1 if th else 4):
            # only networks written with their base address
            n = sum(int(x) << (8 * (3 - j)) for j, x in enumerate(base.split(".")))
            if n & ((1 << (32 - bits)) - 1):
                continue
            net = f"{base}/{bits}"
            yield f"ip={net}", "cidr", ("ip", False, (net,))
            yield f"ip!={net}", "cidr", ("ip", True, (net,))
            yield f"ip IN ({net}, 11.0.0.0/8)", "cidr", ("ip", False, (net, "11.0.0.0/8"))
    for ip in VIPS[1:-1]:
        for op in ("=", "!=", "=="):
            yield f"ip{op}{ip}", "cmp", ("ip", op, ip)
        yield f"ip IN ({ip}, 10.0.0.1)", "in", ("ip", (ip, "10.0.0.1"))


def holds(kind, args, row):
    if kind == "text":
        return None if row[4] is None else args[0].lower() in row[4].lower()
    v = row[VI[args[0]]]
    if v is None:
        return None
    if kind == "match":
        return (glob(args[2], v) if "*" in args[2] else v == args[2]) == (args[1] != "!=")
    if kind == "cmp":
        return cmp3(args[1], v, args[2])
    if kind == "in":
        return any(glob(p, v) if isinstance(p, str) and "*" in p else v == p for p in args[1])
    return any(in_net(v, n) for n in args[2]) != args[1]


def probe_value(r, session, text, kind, args, neg, rt):
    q = f"search index=main {'NOT ' if neg else ''}{text}"
    exp = sem.Out([n for n, _ in VSCHEMA], [row for row in VROWS if holds(kind, args, row) is (not neg)])
    sem.check(r, q, session, exp, {"kind": "value1", "t": [text, kind, args], "neg": neg, "rt": rt}, rt)


FORMS = [  # how the condition is put into a query
    ("search {}", (False,)),
    ("search index=main {}", (False, True)),
    ("search index=main | search {}", (False, True)),
    ("search {} index=main", (False, True)),
]


def jobs(tier):
    th = tier == "thorough"
    out = [{"kind": "trees", "n": 1, "nots": 3 if not th else 6, "leaves": len(LEAVES), "first": list(range(len(LEAVES)))}]
    for i in range(len(LEAVES)):
        out.append({"kind": "trees", "n": 2, "nots": 2 if not th else 3, "leaves": len(LEAVES), "first": [i], "forms": th})
    for i in range(5 if not th else 8):
        out.append({"kind": "trees", "n": 3, "nots": 1 if not th else 2, "leaves": 5 if not th else 8, "first": [i]})
    n = sum(1 for _ in value_conditions(tier))
    out += [{"kind": "values", "tier": tier, "at": i} for i in range(0, n, 300)]
    if th:
        for i in range(4):
            out.append({"kind": "trees", "n": 4, "nots": 1, "leaves": 4, "first": [i]})
    return out


def bounds(tier):
    th = tier == "thorough"
    return (f"every condition of 1 and 2 of {len(LEAVES)} comparisons, wildcards, IN lists and free-text terms, and of 3{' (8 leaves) and 4 (4 leaves)' if th else ' of 5'} of them, joined by AND, OR and "
            f"juxtaposition, with up to {2 if th else 1} NOTs (on pairs {3 if th else 2}, on single conditions {6 if th else 3}, also several in a row), minimal and full parentheses, in {len(FORMS)} query forms and both modes, on {len(ROWS)} events that combine every value of every field; "
            f"every word and pattern of up to {4 if th else 3} characters from x, y, Z and *, alone and in IN lists of up to 3, numbers, ranges of every{' ' if th else ' fourth '}prefix length, with and without NOT, on {len(VROWS)} events")


def run(job):
    r = Res()
    session = X.Session({"main": (SCHEMA, ROWS)})
    if job["kind"] in ("values", "value1"):
        session = X.Session({"main": (VSCHEMA, VROWS)})
        if job["kind"] == "value1":
            t, k, a = _tup(job["t"])
            probe_value(r, session, t, k, a, job["neg"], job["rt"])
            return r
        for t, k, a in itertools.islice(value_conditions(job["tier"]), job["at"], job["at"] + 300):
            for neg in (False, True):
                for rt in (False, True):
                    probe_value(r, session, t, k, a, neg, rt)
        return r
    if job["kind"] == "one":
        t = _tup(job["t"])
        probe(r, session, t, job["form"], job["rt"], job["full"])
        return r
    for t in trees(job["n"], job["nots"], range(job["leaves"]), job["first"]):
        forms = FORMS if job["n"] < 2 or job.get("forms") else FORMS[1:2]
        for f, modes in forms:
            for rt in modes:
                probe(r, session, t, f, rt, False)
        if job["n"] > 1:
            probe(r, session, t, FORMS[0][0], False, True)
    return r


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def probe(r, session, t, form, rt, full):
    cond = text(t, full)
    if form.endswith("index=main") and t[0] in ("AND", "OR", " "):
        cond = f"({cond})"
    q = form.format(cond)
    exp = sem.Out(COLS, [row for row in ROWS if ev(t, row) is True])
    sem.check(r, q, session, exp, {"kind": "one", "t": t, "form": form, "rt": rt, "full": full}, rt)
    r.sample(q, 1)
