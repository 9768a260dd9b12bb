"""P09: a pipeline is the composition of its commands."""
import itertools

from vf import execute as X
from vf import ref as R
from vf import sem
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "sort keys and by fields are present in every event; tail stands last (its list of rows cannot be piped on: known finding of P11)",
]
F, C = (lambda n: ("f", n)), (lambda v: ("c", v))
B = lambda o, x, y: ("bin", o, x, y)  # noqa: E731
A, Bf, Cf = F("a"), F("b"), F("c")

MAIN = [(1, 5, "x", "k1"), (None, 3, "y", "k2"), (2, 3, "xy", "k1"), (7, 1, "x", "k3"), (2, 9, "", "k2")]
SCHEMA = [("a", "bigint"), ("b", "bigint"), ("c", "string"), ("k", "string")]
OTHER = [("k1", 10, "p"), ("k3", 30, None), ("k4", 40, "q")]
OSCHEMA = [("k", "string"), ("v", "bigint"), ("w", "string")]
MORE = [(4, "x", 100), (None, "z", 200)]
MSCHEMA = [("a", "bigint"), ("c", "string"), ("m", "bigint")]
SES = X.Session({"main": (SCHEMA, MAIN), "other": (OSCHEMA, OTHER), "more": (MSCHEMA, MORE)})


class Flow(R.Frame):
    """Events, and whether their order is determined."""
    ordered = True


def flow(f, ordered):
    g = Flow(f.cols, f.rows)
    g.ordered = ordered
    return g


def keep(fn):
    return lambda f: flow(fn(f), f.ordered)


def present(f, *names):
    return all(r[n] is not None for r in f.rows for n in names)


def sort(keys):
    def go(f):
        if not present(f, *[k for k, _ in keys]):
            return None
        vals = [tuple(r[k] for k, _ in keys) for r in f.rows]
        return flow(f.sort(keys, 10000), f.ordered or len(set(vals)) == len(vals))
    return go


def stats(aggs, by):
    return lambda f: flow(f.stats(aggs, by), False) if present(f, *by) else None


def ordered(fn):
    return lambda f: flow(fn(f), True) if f.ordered else None


def fresh(f, *names):
    return not set(names) & set(f.cols)


def lookup(f):
    out = []
    for r in f.rows:
        hit = next((o for o in OTHER if o[0] == r["k"]), None) if r["k"] is not None else None
        out.append({**{c: v for c, v in r.items() if c != "w"}, "w": hit[2] if hit else None})
    return flow(R.Frame([c for c in f.cols if c != "w"] + ["w"], out), f.ordered)


def rex(f):
    rows = [{**r, "g": r["c"] and (r["c"][:1] if r["c"][:1] == "x" else ""), "h": r["c"] and (r["c"][1:2] if r["c"][:1] == "x" else "")} for r in f.rows]
    rows = [{**r, "g": r["c"] if r["c"] is None else r["g"], "h": r["c"] if r["c"] is None else r["h"]} for r in rows]
    return flow(R.Frame(f.cols + [c for c in "gh" if c not in f.cols], rows), f.ordered)


def total(name, fields):
    def go(f):
        rows = [{**r, name: sum(r[x] for x in fields if r[x] is not None)} for r in f.rows]
        return flow(R.Frame([c for c in f.cols if c != name] + [name] if name not in f.cols else f.cols, rows), f.ordered)
    return go


NUM, STR = "n", "s"
# SPL, the fields it uses with their types, what it does (None when it does not apply)
MENU = [
    ("search a=2", {"a": NUM}, keep(lambda f: f.where(B("==", A, C(2))))),
    ("search c=x*", {"c": STR}, keep(lambda f: f.where(lambda r: None if r["c"] is None else r["c"].startswith("x")))),
    ("search NOT a=2 OR c=x", {"a": NUM, "c": STR}, keep(lambda f: f.where(lambda r: (r["a"] is not None and r["a"] != 2) or r["c"] == "x"))),
    ("where a < b", {"a": NUM, "b": NUM}, keep(lambda f: f.where(B("<", A, Bf)))),
    ("where isnull(a) OR c == \"x\"", {"a": NUM, "c": STR}, keep(lambda f: f.where(lambda r: r["a"] is None or r["c"] == "x"))),
    ("eval d=a + b", {"a": NUM, "b": NUM}, keep(lambda f: f.eval(("d", B("+", A, Bf))))),
    ("eval a=b * 2, b=a - 1", {"b": NUM, "a": NUM}, keep(lambda f: f.eval(("a", B("*", Bf, C(2))), ("b", B("-", A, C(1)))))),
    ("eval c=c . \"!\"", {"c": STR}, keep(lambda f: f.eval(("c", B(".", Cf, C("!")))))),
    ("eval a=coalesce(a, d)", {"a": NUM, "d": NUM}, keep(lambda f: f.eval(("a", ("call", "coalesce", A, F("d")))))),
    ("eval b=len(c)", {"c": STR}, keep(lambda f: f.eval(("b", ("call", "len", Cf))))),
    ("stats sum(a) as a, count as b by c", {"a": NUM, "c": STR}, stats([("a", "sum", A), ("b", "count", None)], ["c"])),
    ("stats max(b) as b by k, c", {"b": NUM, "k": STR, "c": STR}, stats([("b", "max", Bf)], ["k", "c"])),
    ("stats dc(c) as a, min(b) as b", {"c": STR, "b": NUM}, stats([("a", "dc", Cf), ("b", "min", Bf)], [])),
    ("stats count by k", {"k": STR}, stats([("count", "count", None)], ["k"])),
    ("sort - b, c", {"b": NUM, "c": STR}, sort([("b", True), ("c", False)])),
    ("sort k, - c", {"k": STR, "c": STR}, sort([("k", False), ("c", True)])),
    ("head 2", {}, ordered(lambda f: f.head(2))),
    ("head limit=1", {}, ordered(lambda f: f.head(1))),
    ("fields c, a", {"c": None, "a": None}, keep(lambda f: f.table(["c", "a"]))),
    ("fields - b", {"b": None}, keep(lambda f: f.drop(["b"]))),
    ("table k b c", {"k": None, "b": None, "c": None}, keep(lambda f: f.table(["k", "b", "c"]))),
    ("rename a as d", {"a": None}, lambda f: flow(f.rename([("a", "d")]), f.ordered) if fresh(f, "d") else None),
    ("rename d as a", {"d": None}, lambda f: flow(f.rename([("d", "a")]), f.ordered) if fresh(f, "a") else None),
    ("rename count as b", {"count": None}, lambda f: flow(f.rename([("count", "b")]), f.ordered) if fresh(f, "b") else None),
    ("fillnull value=6 a", {"a": NUM}, keep(lambda f: f.eval(("a", ("call", "coalesce", A, C(6)))))),
    ("fillnull value=none w", {"w": STR}, keep(lambda f: f.eval(("w", ("call", "coalesce", F("w"), C("none")))))),
    ("addtotals fieldname=b a b", {"a": NUM, "b": NUM}, total("b", ["a", "b"])),
    ("rex field=c \"(?<g>x)(?<h>.?)\"", {"c": STR}, rex),
    ("lookup other k OUTPUT w", {"k": STR}, lookup),
    ("join k [search index=other | where v > 10 | rename w as u] | table a b c u v", {"k": STR, "a": None, "b": None, "c": None}, lambda f: flow(f.join(R.Frame.of(OSCHEMA, OTHER).where(B(">", F("v"), C(10))).rename([("w", "u")]), ["k"], "inner").table(["a", "b", "c", "u", "v"]), f.ordered) if fresh(f, "v", "u") else None),
    ("join type=left k [search index=other | fields k, v] | fields c, v, a", {"k": STR, "a": None, "c": None}, lambda f: flow(f.join(R.Frame.of(OSCHEMA, OTHER).table(["k", "v"]), ["k"], "left").table(["c", "v", "a"]), f.ordered) if fresh(f, "v") else None),
    ("tail 1", {}, ordered(lambda f: f.tail(1))),
    ("eval a=v", {"v": NUM}, keep(lambda f: f.eval(("a", F("v"))))),
    ("stats first(a) as a, last(b) as b by k", {"a": NUM, "b": NUM, "k": STR}, lambda f: stats([("a", "first", A), ("b", "last", Bf)], ["k"])(f) if f.ordered else None),
    ("search b>2 b<9 c!=y", {"b": NUM, "c": STR}, keep(lambda f: f.where(lambda r: r["b"] is not None and 2 < r["b"] < 9 and r["c"] is not None and r["c"] != "y"))),
]
TYPES = {"a": NUM, "b": NUM, "d": NUM, "v": NUM, "m": NUM, "count": NUM}
SOURCES = {
    "search index=main": lambda: flow(R.Frame.of(SCHEMA, MAIN), True),
    "index=main b>2": lambda: flow(R.Frame.of(SCHEMA, MAIN).where(B(">", Bf, C(2))), True),
    "multisearch [search index=main a=2] [search index=more | eval k=\"k3\"]": lambda: flow(R.Frame.of(SCHEMA, MAIN).where(B("==", A, C(2))).union(R.Frame.of(MSCHEMA, MORE).eval(("k", C("k3")))), True),
    "search index=main | fields a, b, c | eval k=\"k1\"": lambda: flow(R.Frame.of(SCHEMA, MAIN).table(["a", "b", "c"]).eval(("k", C("k1"))), True),
}


def apply(src, seq):
    f = SOURCES[src]()
    for n, i in enumerate(seq):
        spl, uses, fn = MENU[i]
        if spl.startswith("tail") and n < len(seq) - 1:
            return None
        if not set(uses) <= set(f.cols):
            return None
        f = fn(f)
        if f is None:
            return None
    return f


def run_one(r, src, seq, rt):
    f = apply(src, seq)
    if f is None:
        return
    spl = " | ".join([src] + [MENU[i][0] for i in seq])
    # a list without rows has no columns to show
    cols = [] if seq and MENU[seq[-1]][0].startswith("tail") and not f.rows else f.cols
    sem.check(r, spl, SES, X.Out(cols, f.tuples()), ["one", src, list(seq), rt], rt, f.ordered, bool(seq) and MENU[seq[-1]][0].startswith(("table", "fields c")), f"{len(seq)} commands")


def run(job):
    r = Res()
    if job[0] == "one":
        run_one(r, job[1], tuple(job[2]), job[3])
        return r
    src, depth, heads, rt = job[1:]
    for h in heads:
        for rest in itertools.product(range(len(MENU)), repeat=depth - len(h)):
            run_one(r, src, tuple(h) + rest, rt)
    r.sample(f"{src} then {heads[0]} …")
    return r


def jobs(tier):
    n = range(len(MENU))
    srcs = list(SOURCES)
    for src in srcs:
        for rt in (False, True):
            for d in (1, 2):
                for c in chunks([h for h in itertools.product(n, repeat=d) if apply(src, h)], 200):
                    yield ["run", src, d, c, rt]
    top = 4 if tier == "thorough" else 3
    for src in (srcs if tier == "thorough" else srcs[:2]):
        for rt in (False, True):
            hs = [h for h in itertools.product(n, repeat=2) if apply(src, h)]
            for c in chunks(hs, 30 if top == 3 else 2):
                yield ["run", src, 3, c, rt]
    if tier == "thorough":
        for rt in (False, True):
            hs = [h for h in itertools.product(n, repeat=3) if apply(srcs[0], h)]
            for c in chunks(hs, 60):
                yield ["run", srcs[0], 4, c, rt]


def bounds(tier):
    return {"menu": f"{len(MENU)} commands", "sources": len(SOURCES), "length": "up to 3 commands after the source" + (" for every source, 4 for the first" if tier == "thorough" else " for two sources, 2 for the others"), "modes": 2}
