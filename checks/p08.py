"""P08: a query reads exactly the indexes and sources it names."""
import itertools

from vf import execute as X
from vf import ref as R
from vf import impl, sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "several indexes required at once mean the events of all of them (the transpiler's documented reading of index=a index=b)",
]

f = lambda n: ("f", n)  # noqa: E731
b = lambda op, x, y: ("bin", op, x, y)  # noqa: E731

# every table has x, y and s; each has columns of its own, and a column called index
TABLES = {}
for i, t in enumerate(("main", "a", "b", "c", "t", "a_b", "db.tab")):
    schema = [("x", "bigint"), ("y", "bigint"), ("s", "string")] + ([("only_" + t[-1], "string")] if i % 2 else []) + [("shared", "bigint")] + ([("index", "string")] if i < 3 else [])
    rows = []
    for j, (x, y, s) in enumerate(itertools.product((None, 1, 2), (None, 2), ("foo", "bar"))):
        row = [x, y, s] + ([f"{t}{j}"] if i % 2 else []) + [100 * i + j] + ([("a", "b", None)[j % 3]] if i < 3 else [])
        rows.append(tuple(row))
    TABLES[t] = (schema, rows)
FRAMES = {t: R.Frame.of(*v) for t, v in TABLES.items()}

INDEX = [("index=a", "a"), ('index="b"', "b"), ("index=c", "c"), ("index = a", "a"), ("index=t", "t"), ("index=a_b", "a_b"), ("index=db.tab", "db.tab"), ("index=main", "main")]
COND = [("x=1", b("=", f("x"), ("c", 1))), ("y!=2", b("!=", f("y"), ("c", 2))), ("s=f*", ("call", "like", f("s"), ("c", "f%"))), ("NOT x=2", ("not", b("=", f("x"), ("c", 2)))),
        ("(x=1 OR y=2)", b("OR", b("=", f("x"), ("c", 1)), b("=", f("y"), ("c", 2))))]


def expected(terms):
    tables, conds = [], []
    for t, v in terms:
        if isinstance(v, str):
            if v not in tables:
                tables.append(v)
        else:
            conds.append(v)
    d = FRAMES[(tables or ["main"])[0]]
    if len(tables) > 1:
        d = d.union(*(FRAMES[t] for t in tables[1:]))
    for c in conds:
        d = d.where(c)
    return d


def joins(texts):
    """Ways of and-ing terms together."""
    yield " ".join(texts)
    if len(texts) > 1:
        yield " AND ".join(texts)
        yield "(" + " ".join(texts[:-1]) + ") " + texts[-1]
        yield texts[0] + " (" + " AND ".join(texts[1:]) + ")"
    if len(texts) > 2:
        yield texts[0] + " and " + " ".join(texts[1:])
        yield texts[0] + " (" + texts[1] + " " + texts[2] + ")" + "".join(" AND " + t for t in texts[3:])


def selections(n, tier):
    base = INDEX[:3] + COND if n > 2 else INDEX + COND
    if n > 3:
        base = INDEX[:3] + COND[:2]
    return itertools.product(base, repeat=n)


REFUSED = ["index=a OR index=b", "x=1 OR index=a", "index=a OR x=1", "(index=a OR index=b) x=1", "x=1 (y=2 OR (x=1 index=a))", "index=c (index=a OR index=b)", "(index=a x=1) OR (index=b y=2)",
           "index=a AND (x=1 OR index=b)", "x=1 OR (y=2 AND (x=2 AND index=a))", "index!=a", "x=1 index!=a", "index>a", "index<=a"]

# ---- what comes after the first pipe: index is a field like any other
AFTER = ["search index=a", "search index=a x=1", "search index=a OR x=2", "search NOT index=a", 'search index="b" OR index=a', "search index!=a", "search x=1 index=b y=2",
         "where index=\"a\"", "where index=\"a\" OR x=2", "eval x=index", "table index, x"]


def after(cmd, d):
    ix = lambda v, op="=": b(op, f("index"), ("c", v))  # noqa: E731
    x = lambda v: b("=", f("x"), ("c", v))  # noqa: E731
    y2 = b("=", f("y"), ("c", 2))
    if cmd == "eval x=index":
        return d.eval(("x", f("index")))
    if cmd == "table index, x":
        return d.table(["index", "x"])
    e = {AFTER[0]: ix("a"), AFTER[1]: b("AND", ix("a"), x(1)), AFTER[2]: b("OR", ix("a"), x(2)), AFTER[3]: ("not", ix("a")), AFTER[4]: b("OR", ix("b"), ix("a")), AFTER[5]: ix("a", "!="),
         AFTER[6]: b("AND", b("AND", x(1), ix("b")), y2), AFTER[7]: ix("a"), AFTER[8]: b("OR", ix("a"), x(2))}[cmd]
    return d.where(e)


# ---- the runtime's selectors
SEL = [  # parameter of the library, words of the query, column filtered by
    ("index", ("index",), None), ("source", ("source",), "_source"), ("source_type", ("sourcetype",), "_sourcetype"), ("host", ("host",), "_host"), ("host_tag", ("hosttag",), "_hosttag"),
    ("event_type", ("eventtype",), "_eventtype"), ("event_type_tag", ("eventtypetag",), "_eventtypetag"), ("saved_splunk", ("savedsplunk",), "_savedsearch"), ("splunk_server", ("splunk_server",), "_splunk_server"),
]
VALUE = {p: ("idx" if p == "index" else p[:2] + str(i)) for i, (p, _, _) in enumerate(SEL)}
LCOLS = [c for _, _, c in SEL if c]
LROWS = [tuple(("nope", VALUE[SEL[j + 1][0]])[(i >> j) & 1] if (i + j) % 11 else None for j in range(8)) + (i,) for i in range(256)]
LSCHEMA = [(c, "string") for c in LCOLS] + [("n", "bigint")]


def lookup_tables():
    out = {"idx": (LSCHEMA, LROWS), "Model.Set": (LSCHEMA, LROWS[:3])}
    s, t = VALUE["source"], VALUE["source_type"]
    for k, name in enumerate((f"{s}_silver", f"{t}_silver", f"{s}_{t}_silver")):
        out[name] = (LSCHEMA, LROWS[:-1 - k])
    return out


def selected(sub):
    """What default_table_lookup returns for a set of selectors: (table, rows)."""
    if "index" in sub:
        table, skip = "idx", ()
    elif "source" in sub or "source_type" in sub:
        table, skip = "_".join([VALUE[p] for p in ("source", "source_type") if p in sub] + ["silver"]), ("source", "source_type")
    else:
        return None
    rows = lookup_tables()[table][1]
    for j, (p, _, c) in enumerate(SEL[1:]):
        if p in sub and p not in skip:
            rows = [r for r in rows if r[j] == VALUE[p]]
    return rows


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        m = sum(1 for _ in selections(n, tier))
        out += [{"kind": "select", "n": n, "tier": tier, "at": i} for i in range(0, m, 150)]
    out += [{"kind": "after"}, {"kind": "refused"}]
    out += [{"kind": "settings"}]
    out += [{"kind": "direct", "at": i} for i in range(0, 512, 128)]
    out += [{"kind": "query", "k": k} for k in ((1, 2, 3, 4) if not th else range(1, 10))]
    return out


def bounds(tier):
    th = tier == "thorough"
    return (f"{len(LOOKUPS) + len(NO_LOOKUPS)} right and wrong names of the table lookup function in 3 ways; every sequence of 1-{5 if th else 4} terms from {len(INDEX)} index names and {len(COND)} conditions, and-ed in up to 6 ways, with and without the search keyword, in both modes; "
            f"{len(REFUSED)} misplaced indexes in {3} contexts; {len(AFTER)} later uses of a field called index; all 512 sets of the runtime's 9 selectors called directly, "
            f"{'all' if th else 'up to 4'} of them written in queries in every order of pairs, on events holding every combination of matches")


def run(job):
    r = Res()
    k = job["kind"]
    if k == "settings":
        return settings(r, job)
    if k in ("direct", "query", "lookup1", "query1"):
        return selectors(r, job)
    s = X.Session(TABLES)
    if k == "one":
        out = expected([(t, _tup(v)) for t, v in job["terms"]])
        sem.check(r, job["q"], s, X.Out(out.cols, out.tuples()), job, job["rt"], cols_ordered=True)
    elif k == "after1":
        probe_after(r, s, job["t"], job["cmd"], job["rt"])
    elif k == "refuse1":
        sem.check(r, job["q"], s, "reject", job, False)
    elif k == "select":
        for terms in itertools.islice(selections(job["n"], job["tier"]), job["at"], job["at"] + 150):
            named = {v for _, v in terms if isinstance(v, str)}
            out = expected(terms)
            exp = X.Out(out.cols, out.tuples())
            for i, q in enumerate(joins([t for t, _ in terms])):
                for pre in ("search ", "") if i < 2 else ("search ",):
                    # without a source the runtime has nothing to look up
                    for rt in (False, True) if named else (False,):
                        sem.check(r, pre + q, s, exp, {"kind": "one", "q": pre + q, "terms": terms, "rt": rt}, rt, cols_ordered=True)
            r.sample(q, 1)
    elif k == "after":
        for t, cmd in itertools.product(("main", "a", "b"), AFTER):
            for rt in (False, True):
                probe_after(r, s, t, cmd, rt)
    else:
        for q in REFUSED:
            for pre, post in (("", ""), ("search ", " | table x"), ("search ", " | where x = 1")):
                sem.check(r, pre + q + post, s, "reject", {"kind": "refuse1", "q": pre + q + post}, False)
    return r


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def probe_after(r, s, t, cmd, rt):
    out = after(cmd, FRAMES[t])
    sem.check(r, f"index={t} | {cmd}", s, X.Out(out.cols, out.tuples()), {"kind": "after1", "t": t, "cmd": cmd, "rt": rt}, rt)
    if cmd.startswith("search"):
        out = after(cmd, after("search NOT index=a", FRAMES[t]))
        sem.check(r, f"index={t} | search NOT index=a | {cmd}", s, X.Out(out.cols, out.tuples()), {"kind": "after1", "t": t, "cmd": cmd, "rt": rt}, rt)


LOOKUPS = ["os.path:join", "os:getcwd", "json:dumps", "json.decoder:JSONDecoder", "xml.etree.ElementTree:fromstring", "spl_transpiler.runtime.config:default_table_lookup", "p08:a_lookup"]
NO_LOOKUPS = ["", "os", ":", "os:", ":getcwd", "os.getcwd", "os:path:join", "nosuchmodule:f", "os.nosuchmodule:f", "os:nosuchname", "os.path:join:", "os:sep", "sys:path"]
NOT_CALLABLE = [5, None, [], 1.5, {}]


def a_lookup(**kw):
    from pyspark.sql import SparkSession
    return SparkSession.current.table({"a": "b"}.get(kw.get("index"), "main"))


def settings(r, job):
    """The function that finds tables is the one the setting names."""
    import importlib
    import os
    from spl_transpiler.runtime.config import SplTranspilerSettings, default_table_lookup
    VAR = "TRANSPILER_TABLE_LOOKUP_FUNCTION"

    def made(way, v):
        try:
            if way == "argument":
                return SplTranspilerSettings(table_lookup_function=v).table_lookup_function
            os.environ[way] = v
            return SplTranspilerSettings().table_lookup_function
        except ValueError:
            return "refused"
        finally:
            os.environ.pop(way, None)
    ways = ("argument", VAR, VAR.lower())
    for v, way in itertools.product(LOOKUPS, ways):
        m, n = v.split(":")
        exp = getattr(importlib.import_module(m), n)
        judge(r, job, f"{way} {v!r}", made(way, v), exp)
    for v, way in itertools.product(NO_LOOKUPS, ways):
        judge(r, job, f"{way} {v!r}", made(way, v), "refused")
    for v in NOT_CALLABLE:
        judge(r, job, f"argument {v!r}", made("argument", v), "refused")
    for v in (a_lookup, len, default_table_lookup, X.Session, lambda **kw: None):
        judge(r, job, f"argument {v!r}", made("argument", v), v)
    judge(r, job, "no setting", SplTranspilerSettings().table_lookup_function, default_table_lookup)
    # a query uses it
    s = X.Session(TABLES)
    from spl_transpiler.runtime import config
    st = config.settings()
    old = st.table_lookup_function
    try:
        st.table_lookup_function = made(VAR, "p08:a_lookup")
        for t, to in (("a", "b"), ("c", "main"), ("b", "main")):
            sem.check(r, f"index={t}", s, X.Out(FRAMES[to].cols, FRAMES[to].tuples()), job, True, cols_ordered=True)
    finally:
        st.table_lookup_function = old
    return r


def judge(r, job, what, got, exp):
    r.states += 1
    r.traces += 1
    r.transitions += 1
    if got is not exp and not (isinstance(got, str) and got == exp):
        r.bad(f"setting: {what}", f"the table lookup function set by {what} is {got!r} instead of {exp!r}", job)
    else:
        r.outcomes["setting"] += 1


def selectors(r, job):
    s = X.Session(lookup_tables())
    X.runtime_ns()
    if job["kind"] == "direct":
        for bits in range(job["at"], job["at"] + 128):
            direct(r, s, [p for i, (p, _, _) in enumerate(SEL) if bits >> i & 1])
        if not job["at"]:
            s.use()
            from spl_transpiler.runtime.config import default_table_lookup
            for kw in ({}, {"index": "idx"}, {"host": "h"}):
                r.states += 1
                got = default_table_lookup(data_model="Model.Set", **kw)
                if list(got.rows) != LROWS[:3]:
                    r.bad("lookup:data_model", f"default_table_lookup(data_model='Model.Set', **{kw}) returned {len(got.rows)} rows", {"kind": "direct", "at": 0})
                r.outcomes["data model"] += 1
    elif job["kind"] == "lookup1":
        direct(r, s, job["sub"])
    elif job["kind"] == "query1":
        query(r, s, job["sub"], job["extra"], job.get("form", 0))
    else:
        for sub in itertools.combinations(range(len(SEL)), job["k"]):
            orders = itertools.permutations(sub) if job["k"] <= 3 else (sub, sub[::-1])
            for o in orders:
                for extra in ("", "n<100", "NOT n>7"):
                    query(r, s, [SEL[i][0] for i in o], extra)
                if job["k"] < 4:
                    for form in range(1, len(FORMS)):
                        query(r, s, [SEL[i][0] for i in o], "", form)
    return r


def direct(r, s, sub):
    from spl_transpiler.runtime.config import default_table_lookup
    s.use()
    r.states += 1
    r.traces += 1
    exp = selected(sub)
    case = {"kind": "lookup1", "sub": sub}
    try:
        got = list(default_table_lookup(**{p: VALUE[p] for p in sub}).rows)
    except ValueError:
        got = None
    except Exception as e:
        r.bad(f"lookup:{','.join(sub)}", f"default_table_lookup({sub}) failed with {type(e).__name__}: {e}", case)
        return
    if got != exp:
        r.bad(f"lookup:{','.join(sub)}", f"default_table_lookup({sub}) returned {got and len(got)} events instead of {exp and len(exp)}", case)
    r.outcomes["refused without a source" if exp is None else "lookup equal"] += 1


FORMS = ["{}={}", '{}="{}"', "{} = {}", "{}=={}"]


def query(r, s, sub, extra, form=0):
    """The query asks the lookup function for exactly the selectors it names, and filters by the rest."""
    from spl_transpiler.runtime import config
    words = {p: w[0] for p, w, _ in SEL}
    parts = [FORMS[form].format(words[p], VALUE[p]) for p in sub]
    q = " ".join(parts[:1] + ([extra] if extra else []) + parts[1:])
    case = {"kind": "query1", "sub": list(sub), "extra": extra, "form": form}
    calls = []
    default = config.default_table_lookup

    def spy(**kw):
        calls.append(kw)
        return default(**kw)
    st = config.settings()
    old = st.table_lookup_function
    st.table_lookup_function = spy
    try:
        exp = selected(sub)
        if exp is None:
            k, v, code = X.run(q, s, True)
            r.states += 1
            if k == "ok" or len(calls) != 1:
                r.bad(f"query:{q}", f"{q!r} names no index, source or sourcetype but gave {k} {v}", case)
            r.outcomes["refused without a source"] += 1
        else:
            if extra == "n<100":
                exp = [x for x in exp if x[8] < 100]
            elif extra:
                exp = [x for x in exp if not x[8] > 7]
            sem.check(r, q, s, X.Out([n for n, _ in LSCHEMA], exp), case, True)
        want = {p: VALUE[p] for p in sub}
        got = {p: v for p, v in (calls[0] if calls else {}).items() if v is not None}
        if len(calls) != 1 or got != want:
            r.bad(f"query:{q}", f"{q!r} asked the lookup function for {calls} instead of {want}", case)
    finally:
        st.table_lookup_function = old
