"""P30: runtime commands called from Python, one after the other, do what the SPL commands of their names do."""
import itertools

from pyspark.sql import functions as F
from spl_transpiler.runtime import commands, functions
from spl_transpiler.runtime.base import Expr
from vf import execute as X
from vf import ref as R
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates what the library does as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "plain numbers as arguments are constants, plain texts name columns; the values of fill_null are given as texts",
    "aggregations whose result depends on the order of the events are only judged where _time orders them",
]
SCHEMA = [("_time", "bigint"), ("k", "string"), ("s", "string"), ("a", "bigint"), ("d", "double")]
NAMES = [n for n, _ in SCHEMA]
TABLES = {}
for _n, _t in enumerate(("main", "M", "M.R", "M.R.x", "M.R.x.y", "N.Q", "R", "R.x", "x", "R.R")):
    TABLES[_t] = (SCHEMA, [(100 - 7 * ((3 * i + _n) % 7), ("x", "y", None)[(i + _n) % 3], (None, "p", "0", "")[(i * i + _n) % 4], None if (i + _n) % 4 == 3 else i - 2 + 10 * _n, None if i == 1 else i / 2 + _n) for i in range(6 - _n % 2)])
C, N = (lambda n: ("f", n)), (lambda v: ("c", v))
# (the ways to write the condition in Python, the condition, the fields it needs)
CONDS = [
    (["F.col('a') > 1", "Expr(kind='raw', value=F.col('a') > 1)"], lambda e: None if e["a"] is None else e["a"] > 1, "a"),
    (["F.col('k') == 'x'", "functions.eval.in_('k', ['x'])"], lambda e: None if e["k"] is None else e["k"] == "x", "k"),
    (["~(F.col('k') == 'x')", "F.col('k') != 'x'"], lambda e: None if e["k"] is None else e["k"] != "x", "k"),
    (["functions.eval.isnull('s')", "F.col('s').isNull()"], lambda e: e["s"] is None, "s"),
    (["functions.eval.isnotnull('k')", "F.col('k').isNotNull()"], lambda e: e["k"] is not None, "k"),
    (["(F.col('d') < 2) | (F.col('a') >= 3)"], lambda e: or3(None if e["d"] is None else e["d"] < 2, None if e["a"] is None else e["a"] >= 3), "ad"),
]
KEYWORDS = [("a=1", lambda e: None if e["a"] is None else e["a"] == 1, "a"), ("k=F.lit('x')", lambda e: None if e["k"] is None else e["k"] == "x", "k"), ("s='k'", lambda e: None if e["s"] is None or e["k"] is None else e["s"] == e["k"], "sk"), ("d=Expr(kind='literal', value=1.5)", lambda e: None if e["d"] is None else e["d"] == 1.5, "d"),
            ("a=F.col('_time') - 80", lambda e: None if e["a"] is None else e["a"] == e["_time"] - 80, "a_")]


def or3(x, y):
    return True if x is True or y is True else None if x is None or y is None else False


class Events:
    """Columns with their types, and events."""

    def __init__(self, types, rows):
        self.types, self.rows = types, rows

    @classmethod
    def table(cls, name):
        return cls(dict(SCHEMA), [dict(zip(NAMES, r)) for r in TABLES[name][1]])

    def out(self):
        return X.Out(list(self.types), [tuple(r[c] for c in self.types) for r in self.rows])

    def search(self, conds):
        return Events(self.types, [r for r in self.rows if all(c(r) is True for c in conds)])

    def eval(self, *assignments):
        types, rows = dict(self.types), [dict(r) for r in self.rows]
        for n, t, f in assignments:
            for r in rows:
                r[n] = f(r)
            types[n] = t if not isinstance(t, tuple) else types[t[0]]
        return Events(types, rows)

    def fill(self, value, names):
        rows = [dict(r) for r in self.rows]
        for n in names if names is not None else self.types:
            t = self.types[n]
            if t == "string":
                v = value
            elif t in ("bigint", "double") and value.lstrip("-").isdigit():
                v = int(value) if t == "bigint" else float(value)
            else:
                continue
            for r in rows:
                if r[n] is None:
                    r[n] = v
        return Events(self.types, rows)

    def stats(self, aggs, by):
        groups = {}
        for r in self.rows:
            groups.setdefault(tuple(f(r) for _, f in by), []).append(r)
        if not by and not groups:
            groups[()] = []
        rows = [{**{n: v for (n, _), v in zip(by, key)}, **{n: agg(rs) for n, _, agg in aggs}} for key, rs in groups.items()]
        return Events({**{n: self.types.get(n, {"key": self.types.get("k"), "big": "boolean"}.get(n)) for n, _ in by}, **{n: self.types[t[0]] if isinstance(t, tuple) else t for n, t, _ in aggs}}, rows)


def over(f, field):
    return lambda rs: R.aggregate(f, [r[field] for r in rs])


def at(pick, field):
    def agg(rs):
        have = [(r["_time"], r[field]) for r in rs if r[field] is not None]
        return pick(have)[1] if have else None
    return agg


# (text, field that is needed, type of the result, aggregation)
AGGS = [("functions.stats.count()", "", "bigint", len), ("functions.stats.sum_('a')", "a", "bigint", over("sum", "a")), ("functions.stats.max(F.col('d'))", "d", "double", over("max", "d")), ("functions.stats.min('s')", "s", "string", over("min", "s")), ("functions.stats.dc('k')", "k", "bigint", over("dc", "k")), ("functions.stats.values('s')", "s", "array", over("values", "s")),
        ("functions.stats.earliest('a')", "a_", ("a",), at(min, "a")), ("functions.stats.latest(Expr(kind='column', value='s'))", "s_", ("s",), at(max, "s")), ("functions.stats.avg('d')", "d", "double", over("avg", "d")), ("functions.stats.range('a')", "a", "bigint", over("range", "a")), ("functions.stats.latest_time()", "_", "bigint", over("max", "_time")),
        ("functions.stats.sum_(F.col('a') * 2)", "a", "bigint", lambda rs: (lambda v: None if v is None else 2 * v)(R.aggregate("sum", [r["a"] for r in rs])))]
BYS = [("", []), ("by=['k'], ", ["k"]), ("by=[F.col('k'), 's'], ", ["k", "s"]), ("by=(Expr(kind='column', value='s'),), ", ["s"]), ("by=['a', 'k'], ", ["a", "k"])]


def needs(letters, types):
    return all({"_": "_time"}.get(c, c) in types for c in letters) and (not set(letters) & set("s") or types.get("s") == "string") and all(types.get(c) in ("bigint", "double") for c in letters if c in "ad")


def operations(deep):
    """(text, needed fields, what it does to the events)"""
    ops = []

    def search(args, fs, letters):
        ops.append((f"commands.search(df, {args})", letters, lambda e: e.search(fs)))
    for n, (ways, f, letters) in enumerate(CONDS):
        for w in ways if deep or n < 2 else ways[:1]:
            search(w, [f], letters)
    for kw, f, letters in KEYWORDS:
        search(kw, [f], letters)
    search(f"{CONDS[0][0][0]}, {CONDS[4][0][0]}", [CONDS[0][1], CONDS[4][1]], "ak")
    search(f"{CONDS[5][0][0]}, k=F.lit('x')", [CONDS[5][1], KEYWORDS[1][1]], "adk")
    search("a=1, k=F.lit('x')", [KEYWORDS[0][1], KEYWORDS[1][1]], "ak")
    # more conditions at once, each of which leaves out an event of its own
    for order in (1, -1):
        cuts = list(range(-2, 10))[::order]
        search(", ".join(f"F.col('a') != {v}" for v in cuts), [lambda r, v=v: None if r["a"] is None else r["a"] != v for v in cuts], "a")
    ops.append(("commands.search(df)", "", lambda e: e))
    ops.append(("commands.search(df=df)", "", lambda e: e))
    num = lambda f: (lambda r: None if r["a"] is None else f(r["a"]))  # noqa: E731
    for args, letters, what in [
        ("x=5", "", [("x", "bigint", lambda r: 5)]), ("x='a'", "a", [("x", ("a",), lambda r: r["a"])]), ("a=F.col('a') + 1", "a", [("a", ("a",), num(lambda v: v + 1))]), ("x=F.col('a') + 1, y=F.col('x') * 2", "a", [("x", ("a",), num(lambda v: v + 1)), ("y", ("x",), lambda r: None if r["x"] is None else r["x"] * 2)]),
        ("s=F.lit('q')", "", [("s", "string", lambda r: "q")]), ("x=functions.eval.len_('s')", "s", [("x", "bigint", lambda r: None if r["s"] is None else len(r["s"]))]), ("k=None", "k", [("k", "null", lambda r: None)]), ("**{'df': 1, 'exprs': 'k', 'index': F.lit('i')}", "k", [("df", "bigint", lambda r: 1), ("exprs", ("k",), lambda r: r["k"]), ("index", "string", lambda r: "i")]),
        ("a='d', d='a'", "ad", [("a", ("d",), lambda r: r["d"]), ("d", ("a",), lambda r: r["a"])]), ("x=functions.eval.coalesce('s', 'k', F.lit('z'))", "sk", [("x", "string", lambda r: next(v for v in (r["s"], r["k"], "z") if v is not None))]),
        ("x=functions.eval.if_(F.col('a') > 0, 'a', -1)", "a", [("x", ("a",), lambda r: r["a"] if r["a"] is not None and r["a"] > 0 else -1)]), ("x=True", "", [("x", "boolean", lambda r: True)]), ("", "", []),
        ("x=1, a=F.col('x'), s=F.lit(None)", "", [("x", "bigint", lambda r: 1), ("a", "bigint", lambda r: r["x"]), ("s", "null", lambda r: None)])]:
        ops.append((f"commands.eval(df, {args})", letters, lambda e, what=what: e.eval(*what)))
    ops.append(("commands.eval(df, " + ", ".join(f"x{i}={i}" for i in range(20)) + ")", "", lambda e: e.eval(*[(f"x{i}", "bigint", lambda r, i=i: i) for i in range(20)])))
    for value in ("0", "z", "", "-7"):
        ops.append((f"commands.fill_null(df, {value!r})", "", lambda e, v=value: e.fill(v, None)))
        for fields, letters in ((["s"], "s"), (["a", "k"], "ak"), (["k", "d"], "kd"), ([], "")):
            if deep or value == "0" or fields == ["a", "k"]:
                ops.append((f"commands.fill_null(df, value={value!r}, fields={fields!r})", letters, lambda e, v=value, fs=fields: e.fill(v, fs)))
    ops.append(("commands.fill_null(df, '1', None)", "", lambda e: e.fill("1", None)))
    pairs = [(x,) for x in AGGS] + [(AGGS[i], AGGS[j]) for i, j in ([(0, 1), (6, 7), (1, 6), (7, 3), (2, 5), (9, 4), (8, 0), (10, 6)] if not deep else itertools.permutations(range(len(AGGS)), 2))]
    for aggs in pairs:
        for b, by in BYS if len(aggs) == 2 else BYS[:3]:
            # results are named as fields are, so that commands may follow
            names = [n for n in ("a", "s", "r", "v") if n not in by][:len(aggs)]
            letters = "".join(x[1] for x in aggs) + "".join(by)
            ops.append((f"commands.stats(df, {b}" + ", ".join(f"{n}={x[0]}" for n, x in zip(names, aggs)) + ")", letters, lambda e, aggs=aggs, by=by, names=names: e.stats([(n, x[2], x[3]) for n, x in zip(names, aggs)], [(n, lambda r, n=n: r[n]) for n in by])))
    ops.append(("commands.stats(df, by=[F.col('k').alias('key'), (F.col('a') > 1).alias('big')], n=functions.stats.count())", "ak", lambda e: e.stats([("n", "bigint", len)], [("key", lambda r: r["k"]), ("big", num(lambda v: v > 1))])))
    for fill, f in (("", None), ("fill_null_value='0', ", "0"), ("fill_null_value='z', ", "z"))[:3 if deep else 2]:
        for w, c, wl in (("", None, ""), ("where=F.col('a') > 1, ", CONDS[0][1], "a")):
            for b, by in BYS[:4] if deep else BYS[:3]:
                def tstats(e, f=f, c=c, by=by):
                    e = e.search([c]) if c else e
                    e = e.fill(f, by) if f is not None else e
                    return e.stats([("n", "bigint", len), ("v", "bigint", over("sum", "a"))], [(n, lambda r, n=n: r[n]) for n in by])
                ops.append((f"commands.tstats(df, {fill}{w}{b}n=functions.stats.count(), v=functions.stats.sum_('a'))", "a" + wl + "".join(by), tstats))
    return ops


# where a pipeline begins: (text, table, conditions)
STARTS = [("spark.table('main')", "main", []), ("commands.search(index='main')", "main", []), ("commands.search(None, F.col('a') > 1, index='main')", "main", [CONDS[0][1]]), ("commands.search(None, index='main', a=1)", "main", [KEYWORDS[0][1]]), ("commands.data_model('M')", "M", []), ("commands.data_model(data_model_name='M', dataset_name='R')", "M.R", []),
          ("commands.data_model(None, 'M', 'R.x')", "M.R.x", []), ("commands.data_model(None, 'M.R', 'R.x', 'search', False, False, False)", "M.R.x", []), ("commands.data_model(None, 'M.R')", "M.R", []), ("commands.data_model(None, 'M.R', 'R', search_mode='search')", "M.R", []), ("commands.data_model('N.Q')", "N.Q", []), ("commands.data_model(None, 'R', 'R')", "R.R", []), ("commands.data_model(data_model_name='R.x', dataset_name=None)", "R.x", []), ("commands.data_model(None, 'M', 'R.x.y', strict_fields=True, summaries_only=True, allow_old_summaries=True)", "M.R.x.y", [])]
FROMS = [("{'datamodel': 'M'}", "M"), ("{'datamodel': 'M.R'}", "M.R"), ("{'datamodel': 'M', 'nodename': 'R'}", "M.R"), ("{'datamodel': 'M.R', 'nodename': 'R.x'}", "M.R.x"), ("Spec(datamodel='M', nodename='R.x')", "M.R.x"), ("Spec(datamodel='N.Q')", "N.Q"), ("Spec(datamodel='M.R', nodename='R.x.y')", "M.R.x.y"), ("Spec(datamodel='M.R', nodename='R')", "M.R"), ("Spec(datamodel='M', nodename=None)", "M"), ("{'datamodel': 'R.x'}", "R.x"), ("{'datamodel': 'R', 'nodename': 'R'}", "R.R")]
REFUSED = ["commands.data_model()", "commands.data_model(None)", "commands.data_model(df, 'M')", "commands.data_model(df, data_model_name='M', dataset_name='R')", "commands.data_model('M', 'R')", "commands.data_model('M', search_mode='flat')", "commands.data_model(None, 'M', 'R', None)", "commands.data_model(None, 'M.R', 'Q.x')", "commands.data_model(None, 'M.R', 'x')", "commands.data_model(dataset_name='R')",
           "commands.tstats(n=functions.stats.count())", "commands.tstats(None, by=['k'], n=functions.stats.count())", "commands.tstats(df, from_={'datamodel': 'M'}, n=functions.stats.count())", "commands.tstats(from_={'datamodel': 'M.R', 'nodename': 'Q'}, n=functions.stats.count())", "commands.tstats(from_={'nodename': 'R'}, n=functions.stats.count())", "commands.tstats(from_='M', n=functions.stats.count())",
           "commands.search()", "commands.search(None, F.col('a') > 1)", "commands.search(df, nosuch=1)", "commands.search(df, F.col('nosuch') > 1)", "commands.eval(df, x='nosuch')", "commands.eval(df, 5)", "commands.eval(x=5)", "commands.eval(df, x=F.col('y'), y=1)", "commands.fill_null(df)", "commands.fill_null(df, '0', ['nosuch'])", "commands.fill_null(df, '0', 's')",
           "commands.stats(df, n=5)", "commands.stats(df, n='count')", "commands.stats(df, n=F.count('a'))", "commands.stats(df, ['k'], n=functions.stats.count())", "commands.stats(df, by='k', n=functions.stats.count())", "commands.stats(df, by=['nosuch'], n=functions.stats.count())", "commands.stats(df, n=functions.stats.sum_('nosuch'))", "commands.stats(n=functions.stats.count())",
           "commands.stats(df, n=functions.stats.estdc_error('a'))", "commands.stats(df, n=functions.stats.per_day('a'))", "commands.stats(df, n=functions.stats.per_hour('a'))"]


def space(session):
    from spl_transpiler.runtime.commands.tstats import DataModelSpecifier
    return {"F": F, "functions": functions, "commands": commands, "Expr": Expr, "Spec": DataModelSpecifier, "spark": session.use()}


CODE = {}


def call(ns, text, df):
    if text not in CODE:
        CODE[text] = compile(text, "<call>", "eval")
    try:
        return eval(CODE[text], ns, {"df": df}), None
    except Exception as e:
        return None, f"{type(e).__name__}: {str(e)[:300]}"


def judge(r, path, df, why, want, job):
    r.states += 1
    r.traces += 1
    text = " ; ".join(path)
    if why:
        r.bad(path[-1], f"after {text}: fails with {why}", job)
        return False
    d = X.same(X.out_of(df), want.out(), cols_ordered=True)
    if d:
        r.bad(path[-1], f"df = {text}: {d}", job)
        return False
    r.outcomes["equal, some rows" if want.rows else "equal, no rows"] += 1
    return True


def follow(r, ns, ops, path, df, events, depth, job):
    before = X.out_of(df)
    for text, letters, f in ops:
        if not needs(letters, events.types) or len(set(events.types)) > 9:
            continue
        r.transitions += 1
        got, why = call(ns, text, df)
        want = f(events)
        if not judge(r, path + [text], got, why, want, job):
            continue
        if depth > 1:
            follow(r, ns, ops, path + [text], got, want, depth - 1, job)
    d = X.same(X.out_of(df), before, True, True)
    if d:
        r.bad("changed", f"commands that use the frame of {' ; '.join(path)} change it: {d}", job)


def run(job):
    r = Res()
    s = X.Session(TABLES)
    ns = space(s)
    ops = operations(job["deep"])
    if job["kind"] == "starts":
        for text, table, conds in STARTS:
            df, why = call(ns, text, None)
            e = Events.table(table).search(conds)
            r.transitions += 1
            if judge(r, [text], df, why, e, job):
                follow(r, ns, ops, [text], df, e, 1, job)
        df = s.use().table("main")
        for text in REFUSED:
            r.states += 1
            r.traces += 1
            got, why = call(ns, text, df)
            if why is None:
                r.bad(f"accepted: {text}", f"{text} is accepted", job)
            else:
                r.outcomes["refused as it must be"] += 1
    elif job["kind"] == "tstats":
        for (spec, table), (w, cond), (fill, f), (b, by), agg in itertools.product(FROMS, [("", None)] + [(f"where={c[0][0]}, ", c[1]) for c in CONDS], (("", None), ("fill_null_value='0', ", "0"), ("fill_null_value='z', ", "z")), BYS, AGGS if job["deep"] else AGGS[:8]):
            e = Events.table(table)
            e = e.search([cond]) if cond else e
            e = e.fill(f, by) if f is not None else e
            e = e.stats([("r", agg[2], agg[3])], [(n, lambda x, n=n: x[n]) for n in by])
            if set(agg[1]) & set(by) and f is not None:
                continue
            text = f"commands.tstats(from_={spec}, {w}{fill}{b}r={agg[0]})"
            got, why = call(ns, text, None)
            r.transitions += 1
            judge(r, [text], got, why, e, job)
    else:
        df = s.use().table("main")
        text, letters, f = ops[job["first"]]
        got, why = call(ns, text, df)
        e = f(Events.table("main"))
        r.transitions += 1
        if judge(r, ["spark.table('main')", text], got, why, e, job):
            follow(r, ns, ops, ["spark.table('main')", text], got, e, job["depth"] - 1, job)
        r.sample(text)
    return r


def jobs(tier):
    deep = tier == "thorough"
    yield {"kind": "starts", "deep": deep}
    yield {"kind": "tstats", "deep": deep}
    for i in range(len(operations(deep))):
        yield {"kind": "histories", "first": i, "depth": 3, "deep": deep}


def bounds(tier):
    deep = tier == "thorough"
    return f"every sequence of 3 of {len(operations(deep))} calls (as far as their fields are there) on a table of {len(TABLES['main'][1])} events; {len(STARTS)} ways to begin x every call; tstats from {len(FROMS)} datasets x {len(CONDS) + 1} conditions x 3 values for absent fields x {len(BYS)} groupings x {len(AGGS) if deep else 8} aggregations; {len(REFUSED)} calls to be refused"
