"""P24: tstats and datamodel read the dataset they name and summarise it."""
import itertools

from vf import execute as X
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "fields are named without a dataset prefix; without fillnull_value every event has the fields it is grouped by",
    "the data model dataset M.R.x is the table of that name, as the repository's default table lookup has it",
]
SCHEMA = [("k", "string"), ("j", "bigint"), ("a", "bigint"), ("s", "string"), ("_time", "bigint")]
COLS = [c for c, _ in SCHEMA]
# every table differs from the others
TABLES = {}
for _n, _t in enumerate(("M", "M.R", "M.R.x", "M.R.x.y", "N.Q", "N", "R", "R.x", "x", "main")):
    TABLES[_t] = (SCHEMA, [(("x", "y", "xx")[(i + _n) % 3], 1 + (i * _n) % 2, None if (i + _n) % 4 == 3 else i + 10 * _n, (None, "p", "q", "r")[(i * i + _n) % 4], 1000 * i + _n) for i in range(5 + _n % 3)])
# (text after the aggregations, table)
SOURCES = [("from datamodel=M", "M"), ("FROM datamodel=M.R", "M.R"), ("from datamodel=M.R where nodename=R", "M.R"), ("from datamodel=M.R where nodename=R.x", "M.R.x"), ("From datamodel=M.R WHERE nodename=R.x.y", "M.R.x.y"), ("from datamodel=M where nodename=R.x", "M.R.x"),
           ("from datamodel=N.Q", "N.Q"), ("from datamodel=N", "N"), ("from datamodel=M where nodename=R", "M.R"), ("from datamodel=M.R.x", "M.R.x")]
AGGS = [("count", None, "count"), ("count", None, "n"), ("sum", "a", "total"), ("min", "a", "lo"), ("max", "_time", "lastTime"), ("min", "_time", "firstTime"), ("avg", "a", "m"), ("dc", "k", "d"), ("values", "s", "s"), ("count", "s", "cs"), ("list", "j", "js"), ("max", "a", "value"), ("first", "j", "a")]
WHERES = [("", lambda e: True),
          ("where a>=10", lambda e: e["a"] is not None and e["a"] >= 10),
          ('WHERE k="x"', lambda e: e["k"] == "x"),
          ("where k=x j=1", lambda e: e["k"] == "x" and e["j"] == 1),
          ("where (k=x OR a<3) j!=2", lambda e: (e["k"] == "x" or (e["a"] is not None and e["a"] < 3)) and e["j"] != 2),
          ('where k IN ("y", "xx")', lambda e: e["k"] in ("y", "xx")),
          ('where k="x*" NOT j=1', lambda e: e["k"].startswith("x") and e["j"] != 1),
          ("where (j=1 OR k=y) AND s=p", lambda e: (e["j"] == 1 or e["k"] == "y") and e["s"] == "p"),
          ("where a=12345", lambda e: False)]
BYS = [("", []), ("by k", ["k"]), ("BY k, j", ["k", "j"]), ("by j k", ["j", "k"])]
OPTIONS = ["", "summariesonly=true ", "summariesonly=f allow_old_summaries=t ", "chunk_size=5 ", "allow_old_summaries=true summariesonly=true chunk_size=100 ", "prestats=false local=f append=false include_reduced_buckets=false "]


def summarise(events, aggs, by, fill=None):
    groups = {}
    for e in events:
        groups.setdefault(tuple(fill if e[n] is None and fill is not None else e[n] for n in by), []).append(e)
    if not by and not groups:
        groups[()] = []
    return X.Out(by + [n for *_, n in aggs], [key + tuple(R.aggregate(f, [None if a is None else e[a] for e in rs], a is None) for f, a, _ in aggs) for key, rs in groups.items()])


def agg_text(aggs, kw):
    return " ".join((f if a is None else f"{f}({a})") + ("" if n == f else f" {kw} {n}") for f, a, n in aggs)


def events(table):
    return [dict(zip(COLS, t)) for t in TABLES[table][1]]


def aggs_lists(tier):
    yield from ([a] for a in AGGS)
    for t in itertools.product(AGGS, repeat=2):
        if t[0][2] != t[1][2] and not (t[0][1] is None and t[1][1] is None):
            yield list(t)
    if tier == "thorough":
        for t in itertools.product(AGGS, repeat=3):
            if len({x[2] for x in t}) == 3 and sum(x[1] is None for x in t) < 2:
                yield list(t)
    else:
        yield AGGS[:1] + AGGS[4:6]
        yield AGGS[1:4] + AGGS[6:9]


MODES = (False, True)


def job_tstats(r, job):
    ses = X.Session(TABLES)
    i = job["lo"]
    for aggs in itertools.islice(aggs_lists(job["tier"]), job["lo"], job["hi"]):
        i += 1
        for (st, table), (wt, cond) in itertools.product(SOURCES, WHERES):
            if len(aggs) == 2 and job["tier"] == "quick" and (i + SOURCES.index((st, table)) + len(wt)) % 3:
                continue
            for bt, by in BYS:
                if set(by) & {n for *_, n in aggs}:
                    continue
                i += 1
                q = "tstats " + OPTIONS[i % len(OPTIONS)] + agg_text(aggs, ("as", "AS", "As")[i % 3]) + f" {st} {wt} {bt}".rstrip()
                if i % 7 == 0:
                    q = q.replace(" ", "\n    ", 3)
                r.sample(q)
                e = summarise([x for x in events(table) if cond(x)], aggs, by)
                for rt in MODES:
                    sem.check(r, q, ses, e, job, rt, tag="tstats")


def job_fill(r, job):
    """fillnull_value stands for absent group-by fields; the runtime has it, standalone code does not (known)."""
    ses = X.Session(TABLES)
    for aggs, (st, table), (wt, cond), fill, by in itertools.product(list(aggs_lists("quick"))[:60], SOURCES[1:5], WHERES[:5], ("null", "x"), (["s"], ["s", "k"], ["k", "s"], [])):
        if set(by) & {n for *_, n in aggs} or any(a in by for _, a, _ in aggs):
            continue
        q = f"tstats fillnull_value={fill} {agg_text(aggs, 'as')} {st} {wt}" + (f" by {', '.join(by)}" if by else "")
        sem.check(r, q, ses, summarise([x for x in events(table) if cond(x)], aggs, by, fill), job, True, tag="fillnull_value")
    k, v, code = X.run("tstats fillnull_value=null count from datamodel=M by s", ses)
    e = summarise(events("M"), AGGS[:1], ["s"], "null")
    r.states += 1
    if not (k == "ok" and X.same(v, e) is None):
        r.bad("standalone fillnull_value", f"'tstats fillnull_value=null count from datamodel=M by s' becomes {code!r}", job)
    for w in ("j=1 OR k=y s=p", "s=p j=1 OR k=y", "j=1 OR k=y AND s=p"):
        for rt in MODES:
            k, v, code = X.run(f"tstats count as n from datamodel=M.R where {w} by k", ses, rt)
            e = summarise([x for x in events("M.R") if (x["j"] == 1 or x["k"] == "y") and x["s"] == "p"], AGGS[1:2], ["k"])
            r.states += 1
            if not (k == "ok" and X.same(v, e) is None):
                r.bad("where: AND binds tighter than OR", f"the condition of 'tstats count as n from datamodel=M.R where {w} by k' is a search, where OR binds tighter than AND, but becomes {code!r}", job)


THEN = [("", lambda es: es, None), (" | where j=1", lambda es: [e for e in es if e["j"] == 1], None), (" | table a, k", lambda es: es, ["a", "k"]), (" | search k=x | fields k, j", lambda es: [e for e in es if e["k"] == "x"], ["k", "j"]), (" | head 2", lambda es: es[:2], None),
        (" | sort - _time", lambda es: sorted(es, key=lambda e: -e["_time"]), None)]
MODELS = [("datamodel M search", "M"), ("datamodel M R search", "M.R"), ("datamodel M R.x search", "M.R.x"), ("datamodel M.R search", "M.R"), ("datamodel M.R R.x search", "M.R.x"), ("datamodel M.R R search", "M.R"), ("datamodel N Q search", "N.Q"), ("datamodel summariesonly=true M R search", "M.R"),
          ("datamodel strict_fields=true allow_old_summaries=t M R.x.y search", "M.R.x.y"), ("DATAMODEL M R SEARCH", "M.R"), ("datamodel\n  N\n  search", "N"), ("datamodel M.R R.x.y search", "M.R.x.y")]
REFUSED = ["tstats prestats=true count from datamodel=M", "tstats local=true count from datamodel=M", "tstats append=true count from datamodel=M", "tstats include_reduced_buckets=true count from datamodel=M", "tstats count from datamodel=M by PREFIX(k)", "tstats count from datamodel=M.R where k=x by prefix(k)",
           "datamodel", "datamodel M", "datamodel M R", "datamodel M R flat", "datamodel M acceleration_search", "datamodel search", "tstats count", "tstats count by k", "tstats count where k=x", "index=main | datamodel M search", "index=main | tstats count from datamodel=M", "tstats from datamodel=M", "tstats count from datamodel=",
           "tstats count from datamodel=M by", "tstats count from datamodel=M where", "tstats summariesonly=maybe count from datamodel=M", "datamodel M R search x"]
MISMATCH = ["tstats count from datamodel=M.R where nodename=Q.x", "tstats count from datamodel=M.R where nodename=x", "datamodel M.R Q.x search", "datamodel M.R x search"]


def job_model(r, job):
    ses = X.Session(TABLES)
    for (q, table), (text, f, cols), rt in itertools.product(MODELS, THEN, MODES):
        es = f(events(table))
        sem.check(r, q + text, ses, X.Out(cols or COLS, [tuple(e[c] for c in cols or COLS) for e in es]), job, rt, True, True, tag="datamodel")
    for (q, table), rt in itertools.product(MODELS, MODES):
        sem.check(r, q + " | stats count, sum(a) as total by k", ses, summarise(events(table), [AGGS[0], AGGS[2]], ["k"]), job, rt, tag="datamodel")
    for (st, table), rt in itertools.product(SOURCES, MODES):
        e = summarise(events(table), [AGGS[1]], ["k"])
        sem.check(r, f"tstats count as n {st} by k | where n>1 | sort - n, k | rename n as hits", ses, X.Out(["k", "hits"], sorted((t for t in e.rows if t[1] > 1), key=lambda t: (-t[1], t[0]))), job, rt, True, True, tag="tstats, then commands")
    for q, rt in itertools.product(REFUSED, MODES):
        sem.check(r, q, ses, "reject", job, rt)
    for q, rt in itertools.product(MISMATCH, MODES):
        r.states += 1
        k, v, code = X.run(q, ses, rt)
        if k == "ok":
            r.bad(f"{rt}:{q}", f"{q!r} names a node that is not in the dataset but became {code!r}", job)
        else:
            r.outcomes["refused as it must be"] += 1


def jobs(tier):
    n, step = sum(1 for _ in aggs_lists(tier)), 12
    return [{"kind": "tstats", "lo": lo, "hi": lo + step, "tier": tier} for lo in range(0, n, step)] + [{"kind": "fill", "tier": tier}, {"kind": "model"}]


def bounds(tier):
    return (f"{sum(1 for _ in aggs_lists(tier))} lists of up to {3 if tier == 'thorough' else 2} aggregations x {len(SOURCES)} datasets x {len(WHERES)} conditions x {len(BYS)} by clauses{'' if tier == 'thorough' else ' (a third of the datasets and conditions for two aggregations)'}, with {len(OPTIONS)} lists of options; fillnull_value in runtime mode; "
            f"{len(MODELS)} datamodel commands x {len(THEN) + 1} continuations; {len(REFUSED) + len(MISMATCH)} refused forms; both modes; every dataset a different table")


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
