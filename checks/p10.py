"""P10: stats groups events and aggregates each group."""
import datetime
import itertools
import math

from vf import execute as X
from vf import impl
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "every event has the fields it is grouped by",
    "approximate aggregates of Spark (approx_count_distinct, percentile_approx) are exact on small groups",
]

f = lambda n: ("f", n)  # noqa: E731
k = lambda v: ("c", v)  # noqa: E731
b = lambda op, x, y: ("bin", op, x, y)  # noqa: E731

SCHEMA = [("k", "string"), ("j", "bigint"), ("my key", "string"), ("a", "bigint"), ("c", "bigint"), ("d", "double"), ("s", "string")]
A = (None, 1, 3)
KIND = list(itertools.product(("x", "y"), A))


def row(i, kind):
    """The i-th event of a table; the last columns vary with both its kind and its place."""
    key, a = kind
    return (key, 1 + (i % 2), key.upper(), a, 2 * i + (a or 0), {None: 0.5, 1: None, 3: 2.5}.get(a, 1.5), {None: "p", 1: "q", 3: None}.get(a, "m") if i % 2 else "r")


def tables(n):
    for m in range(n + 1):
        for kinds in itertools.product(KIND, repeat=m):
            yield [row(i, kd) for i, kd in enumerate(kinds)]


BIG = [[row(i, KIND[(i * m + o) % 6]) for i in range(9)] for m, o in ((1, 0), (5, 2), (2, 1))]
# many events and many different values
HUGE = [[row(i, ("xy"[i % 3 % 2], None if i % 11 == 5 else (i * 37) % 211)) for i in range(240)]]
# one most frequent value in every group, for mode
NUM = ["sum", "avg", "mean", "min", "max", "range", "sumsq", "var", "varp", "stdev", "stdevp", "median", "percentile1", "percentile25", "percentile50", "percentile90", "percentile99", "upperperc95", "exactperc50", "exactperc30"]
ANY = ["count", "dc", "distinct_count", "estdc", "values", "list", "first", "last", "min", "max"]
REFUSED = ["per_day(a)", "per_hour(a)", "per_minute(a)", "per_second(a)", "rate_avg(a)", "rate_sum(a)", "estdc_error(a)", "sum()", "sum(a, c)", "avg()", "count(a, c)", "dc(a, c)", "max()", "percentilex(a)", "exactperc(a)"]
ARGS_N = [f("a"), f("d"), b("+", f("a"), f("c")), ("call", "len", f("s")), ("call", "if", b("=", f("k"), k("x")), f("a"), f("c")), ("call", "eval", b("*", f("a"), k(2)))]
ARGS_S = [f("s"), ("call", "upper", f("k")), f("a"), f("d")]
BYS = [([], ""), (["k"], "by k"), (["k", "j"], "by k, j"), (["j", "k"], "by j k"), (["j"], "BY j"), (["my key"], "by 'my key'"), (["my key", "k"], 'by "my key", k')]
ALIAS = [None, "x", "my total", "count", "df", "sum", "class"]
CONDS = [b(">", f("a"), k(1)), b("=", f("k"), k("x")), b("AND", ("call", "isnotnull", f("a")), b("!=", f("s"), k("r"))), ("not", b("=", f("a"), f("c")))]


def colname(fn):
    for p in ("exactperc", "percentile", "upperperc"):
        if fn.startswith(p):
            return p
    return fn


def body(e):
    return e[2] if e is not None and e[0] == "call" and e[1] == "eval" else e


def text(fn, e):
    return fn if e is None else f"{fn}({R.show(e)})"


def agg_value(fn, vals, star):
    v = sorted((x for x in vals if x is not None), key=lambda x: (isinstance(x, str), x))
    for p in ("percentile", "upperperc", "exactperc"):
        if fn.startswith(p):
            q = int(fn[len(p):]) / 100
            break
    else:
        if fn != "median":
            return R.aggregate(fn, vals, star)
        p, q = "percentile", 0.5
    if not v:
        return None
    if p == "exactperc":
        at = q * (len(v) - 1)
        lo = math.floor(at)
        return v[lo] + (at - lo) * (v[min(lo + 1, len(v) - 1)] - v[lo])
    return v[max(math.ceil(q * len(v)), 1) - 1]


def expect(rows, aggs, by):
    """aggs: (name, function, expression or None)"""
    names = [n for n, _ in SCHEMA]
    events = [dict(zip(names, r)) for r in rows]
    groups = {}
    for r in events:
        groups.setdefault(tuple(r[n] for n in by), []).append(r)
    if not by and not groups:
        groups[()] = []
    out = []
    for key, rs in groups.items():
        cells = list(key)
        for _, fn, e in aggs:
            if fn == "count" and e is not None and e[0] == "call" and e[1] == "eval":
                cells.append(sum(R.ev(e[2], r) is True for r in rs))
            else:
                e = body(e)
                cells.append(agg_value(fn, [None if e is None else R.ev(e, r) for r in rs], e is None))
        out.append(tuple(cells))
    return X.Out(list(by) + [n for n, _, _ in aggs], out)


def query(items, bytext, prefix=""):
    parts = []
    for fn, e, alias in items:
        parts.append(text(fn, e) + (f" as {R.name(alias) if alias.isidentifier() else chr(34) + alias + chr(34)}" if alias else ""))
    return f'index="table" | stats {prefix}' + ", ".join(parts) + (f" {bytext}" if bytext else "")


def singles():
    for fn in NUM + ["mode"]:
        for e in ARGS_N:
            yield fn, e
    for fn in ANY:
        for e in ARGS_S + ([None] if fn == "count" else []):
            if (fn, e) not in [("min", f("a")), ("min", f("d")), ("max", f("a")), ("max", f("d"))]:
                yield fn, e
    for e in CONDS:
        yield "count", ("call", "eval", e)


def modes_tie(rows, aggs, by):
    """mode of a group in which several values are most frequent is any of them."""
    for _, fn, e in aggs:
        if fn != "mode":
            continue
        names = [n for n, _ in SCHEMA]
        groups = {}
        for r in rows:
            r = dict(zip(names, r))
            v = R.ev(body(e), r)
            if v is not None:
                groups.setdefault(tuple(r[n] for n in by), []).append(v)
        for vs in groups.values():
            c = sorted((vs.count(v) for v in set(vs)), reverse=True)
            if len(c) > 1 and c[0] == c[1]:
                return True
    return False


def over_tables(r, items, by, bytext, tabs, case, prefix=""):
    """One query, both modes, every table."""
    q = query(items, bytext, prefix)
    aggs = [(alias or colname(fn), fn, e) for fn, e, alias in items]
    for rt in (False, True):
        mode = "runtime" if rt else "standalone"
        r.states += 1
        kind, code = impl.convert(q, rt)
        if kind == "err":
            r.bad(f"{mode}:{q}", f"[{mode}] {q!r} was refused: {code[:300]}", case)
            continue
        comp = compiled(code)
        for rows in tabs:
            if modes_tie(rows, aggs, by):
                continue
            s0 = X.steps()
            r.traces += 1
            try:
                got = X.out_of(comp(X.Session({"table": (SCHEMA, rows)}), rt))
            except Exception as e:
                r.bad(f"{mode}:{q}", f"[{mode}] {q!r} became code that fails: {type(e).__name__}: {e}\n      {code}", case)
                break
            r.transitions += X.steps() - s0
            d = X.same(got, expect(rows, aggs, by))
            if d:
                r.bad(f"{mode}:{q}", f"[{mode}] {q!r} on {rows}: {d}\n      {code}", case)
                break
            r.outcomes[f"{len(got.rows)} groups"] += 1


def compiled(code):
    return lambda session, rt: X.evaluate(code, session, rt)


# ------------------------------------------------------------------ time order
TSCHEMA = [("_time", "timestamp"), ("k", "string"), ("a", "bigint")]
T0 = 1_700_000_000


def stamp(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc)


def time_tables(n):
    for m in range(1, n + 1):
        for order in itertools.permutations(range(m)):
            for vals in itertools.product((None, 1, 5), repeat=m):
                for keys in (("x",) * m, tuple("xy"[i % 2] for i in range(m))):
                    yield [(T0 + 60 * o + (7 if o else 0), kk, v) for o, v, kk in zip(order, vals, keys)]


TIMED = ["earliest(a)", "latest(a)", "earliest_time(a)", "latest_time(a)", "earliest_time", "latest_time", "earliest(_time)", "latest(k)", "rate(a)"]
TPAIRS = list(itertools.permutations(["earliest(a) as e", "latest(a) as l", "earliest_time(a) as et", "latest_time(a) as lt", "count as n", "sum(a) as t", "rate(a) as r"], 2))


def timed_value(fn, arg, rs):
    rs = sorted(rs, key=lambda r: r["_time"])
    v = [r[arg] for r in rs if r[arg] is not None] if arg else None
    if fn in ("earliest", "latest"):
        return None if not v else v[0] if fn == "earliest" else v[-1]
    if fn == "earliest_time":
        return rs[0]["_time"]
    if fn == "latest_time":
        return rs[-1]["_time"]
    if fn == "rate":
        return (rs[-1][arg] - rs[0][arg]) / (rs[-1]["_time"] - rs[0]["_time"])
    if fn == "count":
        return len(rs)
    return sum(v) if v else None


def jobs(tier):
    n = len(list(singles()))
    step = 4
    out = [{"kind": "single", "lo": lo, "step": step, "n": 4 if tier == "thorough" else 3} for lo in range(0, n, step)]
    fns = [("count", None)] + [(fn, f("a")) for fn in NUM + ANY[:-2]] + [("count", ("call", "eval", CONDS[0]))]
    for i in range(len(fns)):
        out.append({"kind": "pair", "i": i, "triples": tier == "thorough"})
    out.append({"kind": "alias"})
    many = [x for x in NUM + ANY if x not in ("mode", "estdc")] + [f"{p}{i}" for p in ("percentile", "upperperc", "exactperc") for i in range(1, 100)]
    out += [{"kind": "huge", "fns": many[lo::16]} for lo in range(16)]
    out.append({"kind": "refused"})
    out.append({"kind": "options"})
    tq = TIMED + ["|".join(p) for p in TPAIRS]
    for lo in range(0, len(tq), 4):
        out.append({"kind": "time", "q": tq[lo:lo + 4], "n": 4 if tier == "thorough" else 3})
    return out


def bounds(tier):
    n = len(list(singles()))
    return (f"{n} aggregations (function x argument) x {len(BYS)} by clauses x both modes on every table of up to {'4' if tier == 'thorough' else '3'} events of {len(KIND)} kinds; "
            f"on a table of 240 events with every percentile; every ordered pair of {len(NUM) + len(ANY)} aggregations{' and triples' if tier == 'thorough' else ''}; every alias of {len(ALIAS)}; time functions on every order and content of up to {'4' if tier == 'thorough' else '3'} events; {len(REFUSED)} refused calls")


def run(job):
    r = Res()
    kind = job["kind"]
    if kind == "single":
        tabs = list(tables(job["n"]))
        for fn, e in list(singles())[job["lo"]:job["lo"] + job["step"]]:
            for by, bt in BYS:
                # the full set of tables for the plain forms, the larger ones for all
                t = tabs + BIG if bt in ("", "by k", "by j k") else BIG
                over_tables(r, [(fn, e, "x")], by, bt, t, job)
                if bt in ("", "by k"):
                    over_tables(r, [(fn, e, None)], by, bt, BIG, job)
    elif kind == "huge":
        for fn in job["fns"]:
            for by, bt in BYS[:2]:
                over_tables(r, [(fn, None if fn == "count" else f("a"), "x")], by, bt, HUGE, job)
    elif kind == "pair":
        fns = [("count", None)] + [(fn, f("a")) for fn in NUM + ANY[:-2]] + [("count", ("call", "eval", CONDS[0]))]
        x = fns[job["i"]]
        for y in fns:
            for by, bt in BYS[:3]:
                over_tables(r, [(*x, "p"), (y[0], f("c") if y[1] == f("a") else y[1], "q")], by, bt, BIG, job)
            if colname(x[0]) != colname(y[0]):
                over_tables(r, [(*x, None), (*y, None)], ["k"], "by k", BIG[:1], job)
            if job["triples"]:
                for z in fns:
                    over_tables(r, [(*x, "p"), (*y, "q"), (*z, "r")], ["j", "k"], "by j k", BIG[:1], job)
    elif kind == "alias":
        for al in ALIAS:
            for by, bt in BYS:
                for fn, e in (("count", None), ("sum", f("a")), ("dc", f("s")), ("stdevp", f("a"))):
                    over_tables(r, [(fn, e, al)], by, bt, BIG, job)
        for a1, a2 in itertools.permutations(ALIAS, 2):
            if (a1 or "max") != (a2 or "min"):
                over_tables(r, [("max", f("a"), a1), ("min", f("c"), a2)], ["k"], "by k", BIG, job)
    elif kind == "options":
        for prefix in ("partitions=1 ", "partitions=4 ", "allnum=f ", "allnum=true ", "delim=\",\" ", "partitions=2 allnum=f delim=\":\" "):
            for by, bt in BYS:
                over_tables(r, [("sum", f("a"), "x"), ("count", None, None)], by, bt, BIG, job, prefix)
    elif kind == "refused":
        s = X.Session({"table": (SCHEMA, BIG[0])})
        for q in REFUSED:
            for tail in ("", " as x", " by k", " as x by k, j"):
                for lead in ("", "count as n, ", "max(a) as m "):
                    for rt in (False, True):
                        sem.check(r, f'index="table" | stats {lead}{q}{tail}', s, "reject", job, rt)
    elif kind == "time":
        tabs = list(time_tables(job["n"]))
        for item in job["q"]:
            parts = item.split("|")
            for by, bt in (([], ""), (["k"], " by k")):
                q = f'index="table" | stats {" ".join(parts)}{bt}'
                cols, fns = list(by), []
                for p in parts:
                    call, _, alias = p.partition(" as ")
                    fn, _, arg = call.rstrip(")").partition("(")
                    cols.append(alias or fn)
                    fns.append((fn, arg))
                rates = any(fn == "rate" for fn, _ in fns)
                for rt in (False, True):
                    mode = "runtime" if rt else "standalone"
                    r.states += 1
                    kd, code = impl.convert(q, rt)
                    if kd == "err":
                        r.bad(f"{mode}:{q}", f"[{mode}] {q!r} was refused: {code[:300]}", job)
                        continue
                    for rows in tabs:
                        ev = [dict(zip(("_time", "k", "a"), x)) for x in rows]
                        groups = {}
                        for e in ev:
                            groups.setdefault(tuple(e[n] for n in by), []).append(e)
                        if rates and any(len(g) < 2 or any(e["a"] is None for e in g) for g in groups.values()):
                            continue
                        exp = [key + tuple(timed_value(fn, arg, g) for fn, arg in fns) for key, g in groups.items()]
                        stamps = [i for i, (fn, arg) in enumerate(fns, len(by)) if fn.endswith("_time") or arg == "_time"]
                        exp = [tuple(stamp(x) if i in stamps else x for i, x in enumerate(t)) for t in exp]
                        s0 = X.steps()
                        r.traces += 1
                        try:
                            got = X.out_of(X.evaluate(code, X.Session({"table": (TSCHEMA, [(stamp(t), *rest) for t, *rest in rows])}), rt))
                        except Exception as e:
                            r.bad(f"{mode}:{q}", f"[{mode}] {q!r} became code that fails: {type(e).__name__}: {e}\n      {code}", job)
                            break
                        r.transitions += X.steps() - s0
                        d = X.same(got, X.Out(cols, exp))
                        if d:
                            r.bad(f"{mode}:{q}", f"[{mode}] {q!r} on {rows}: {d}\n      {code}", job)
                            break
                        r.outcomes["by time"] += 1
    return r
