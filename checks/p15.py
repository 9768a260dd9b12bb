"""P15: a pipeline is the composition of its commands, and both modes agree."""
import datetime
import itertools

from vf import execute as X
from vf import golden, impl
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "no two fields of a result share a name; tail stands last (its use before another command is a known finding of P11); the absolute values of now() and random() are not compared",
]
UTC = datetime.timezone.utc
SCHEMA = [("a", "bigint"), ("b", "bigint"), ("k", "string"), ("s", "string"), ("d", "double"), ("_time", "timestamp"), ("_raw", "string"), ("ip", "string")]
ROWS = [(i % 4 if i % 5 else None, (7 * i) % 5 - 1, ("x", "y", "z")[i % 3], (None, "p q", "10.0.0.7", "u=3;v=x", "")[i % 5], (0.5, None, -2.25, 10.0)[i % 4], datetime.datetime.fromtimestamp(1700000000 + 977 * i, UTC), f"raw u={i} user=x{i % 2} 10.1.{i}.3", (None, "10.1.2.3", "10.0.0.7", "11.1.2.3", "192.168.0.1")[i % 5]) for i in range(9)]
OTHER = [(i, i % 2, ("x", "y", "w")[i], "o" * i, 1.5 * i, datetime.datetime.fromtimestamp(1700000000 + 3600 * i, UTC), f"other {i}", f"10.{i}.0.0") for i in range(3)]
LOOKUP = ([("k", "string"), ("name", "string"), ("n", "bigint")], [("x", "ex", 1), ("y", None, 2), ("q", "qu", 3)])

# one command of every kind and option, so that each can follow each other
MENU = r'''
search a=1
search k=x OR b>1 NOT a=2
search s="p*"
search k IN (x, z) b!=0
where a > b
where isnull(a) OR like(s, "%q%")
where 'a' + b * 2 >= 3 AND NOT k = "y"
where cidrmatch("10.0.0.0/8", ip)
eval x=a + b
eval a=b, b=a
eval k=upper(k) . "-" . a
eval x=if(a > 1, "big", "small"), y=len(x)
eval x=case(a=1, "one", a=2, "two", true(), k)
eval x=coalesce(a, b, 9), y=round(d, 1), z=max(a, b)
eval x=substr(k, 1, 1), y=replace(s, "[0-9]+", "#"), z=split(s, " ")
eval x=mvappend(split(s, " "), split(k, ",")), y=mvcount(x)
eval x=strftime(_time, "%Y-%m-%d %H"), y=relative_time(_time, "-1d@h")
eval x=tostring(a), y=tonumber("12"), z=md5(k)
eval x=if(cidrmatch("10.1.0.0/16", ip), "in", "out"), y=nullif(k, "x"), z=null()
eval x=a * 2 - 1, x=x + 1, x=x * x
table k, a, b
table b k s d _time a _raw
fields k, a, b, s, ip
fields - d, _raw
fields + a, k
rename a as c
rename k as "my k", b as bb
fillnull
fillnull value=0 a
fillnull value=none s
stats count
stats count by k
stats sum(a) as a, max(b) as b, count by k
stats avg(d) as d, dc(k) as n, values(k) as k by b
stats min(a), max(a), range(a), first(k), last(k)
stats count(eval(a > 1)) as n, sum(eval(a + b)) as t by k
stats earliest(a) as e, latest(b) as l by k
stats percentile50(b) as p, median(a) as m, stdev(b) as sd
sort a
sort - b, k
sort 4 -a, +k
sort limit=2 d
head
head 3
head 5
head count < 3
tail 4
addtotals a b
addtotals fieldname=sum a b
bin span=1h _time
bin span=5m _time as t
join k [search index=other | fields k, a]
join type=left k [search index=other | rename a as c | fields k, c]
join type=outer k b [search index=other a=1 | table k, b, d]
lookup users k
lookup users k OUTPUT name AS who
rex field=_raw "u=(?<u>\d+)"
rex "user=(?<user>\w+) (?<ip>[\d.]+)"
convert rmcomma(s)
convert mktime(s)
convert ctime(_time) as when
spath input=_raw output=o path=q.r
tstats count from datamodel=main
datamodel main search
multisearch [search index=main] [search index=other]
search index=other
'''.strip().split("\n")
SOURCES = ["index=main", "index=main b>0", "multisearch [search index=main | where a=1] [search index=other | eval q=1]", "makeresults count=3 | eval a=1, b=2, k=\"x\", s=\"p\", d=2.5, _raw=\"u=1 user=x 1.2\", ip=\"10.1.2.3\""]
# triples start with these
FEW = ["eval x=a + b", "eval a=b, b=a", "where a > b", "search k=x OR b>1 NOT a=2", "fields k, a, b, s, ip", "rename a as c", "stats sum(a) as a, max(b) as b, count by k", "sort - b, k", "sort 4 -a, +k", "head 5", "fillnull value=0 a", "join k [search index=other | fields k, a]",
       "rex field=_raw \"u=(?<u>\\d+)\"", "addtotals fieldname=sum a b", "table k, a, b"]
MODES = (False, True)
NONE = "nothing"


def session(extra=None):
    return X.Session({"main": (SCHEMA, ROWS), "other": (SCHEMA, OTHER), "users": LOOKUP, **(extra or {})})


def outcome(r, q, ses, rt):
    r.states += 1
    s0 = X.steps()
    v = X.run(q, ses, rt)
    r.transitions += X.steps() - s0
    r.traces += 1
    return v


def brief(v):
    return v[0] if v[0] != "ok" else f"{v[1]!r}"[:300]


def twice(a, b):
    """Both hold the same columns, some of them twice."""
    return a.cols == b.cols and len(set(a.cols)) < len(a.cols)


def step(r, job, prefix, table, cmd, rt, ses2):
    """prefix | cmd must do to the table what cmd does to a table holding the result of prefix."""
    full = outcome(r, f"{prefix} | {cmd}", job["ses"], rt)
    alone = outcome(r, f"index=held | {cmd}", ses2, rt)
    if full[0] != alone[0]:
        r.bad(f"{prefix} | {cmd}", f"[{'runtime' if rt else 'standalone'}] {prefix!r} and, on its result, {cmd!r} are {alone[0]} ({alone[1]!r:.150}) but the pipeline {prefix + ' | ' + cmd!r} is {full[0]}: {full[1]!r:.200}\n      {full[2]}", job["case"])
    elif full[0] == "ok":
        d = X.same(full[1], alone[1], True, True)
        if d and not twice(full[1], alone[1]):
            r.bad(f"{prefix} | {cmd}", f"[{'runtime' if rt else 'standalone'}] {prefix + ' | ' + cmd!r} differs from {cmd!r} applied to the result of {prefix!r}: {d}\n      {full[2]}", job["case"])
        else:
            r.outcomes[f"composed, {'some' if full[1].rows else 'no'} rows"] += 1
    else:
        r.outcomes[f"both {full[0]}"] += 1
    return full


def modes(r, job, q, out):
    """Both modes agree where both can express the query."""
    a, b = (out[m] for m in MODES)
    if "unsupported" in (a[0], b[0]):
        r.outcomes[f"only {'runtime' if a[0] == 'unsupported' != b[0] else 'standalone' if a[0] != 'unsupported' else 'neither'}"] += 1
    elif a[0] != b[0]:
        r.bad(f"modes: {q}", f"{q!r} is {a[0]} standalone ({a[1]!r:.200}) but {b[0]} with the runtime ({b[1]!r:.200})", job["case"])
    elif a[0] == "ok":
        d = X.same(a[1], b[1], True, False)
        if d and not twice(a[1], b[1]):
            r.bad(f"modes: {q}", f"{q!r} standalone differs from runtime: {d}\n      {a[2]}\n      {b[2]}", job["case"])
        else:
            r.outcomes["modes agree"] += 1


def extend(r, job, prefix, outs, menu):
    """All commands of the menu after a prefix whose outcomes (per mode) are known; returns outcomes of the longer pipelines."""
    held = {}
    for m in MODES:
        v = outs[m]
        if v[0] == "ok" and v[1].kind == "df" and len(set(v[1].cols)) == len(v[1].cols) and v[1].cols:
            held[m] = session({"held": (list(zip(v[1].cols, v[1].types)), v[1].rows)})
    res = {}
    for cmd in menu:
        if not held:
            continue
        new = {m: step(r, job, prefix, None, cmd, m, held[m]) if m in held else (NONE, None, None) for m in MODES}
        if all(m in held for m in MODES):
            modes(r, job, f"{prefix} | {cmd}", new)
        res[cmd] = new
    return res


# places for a pipeline inside another query
INSIDE = ["index=other | join k [search {}]", "index=other | join type=left a k [search {}]", "multisearch [search {}] [search index=other]", "multisearch [search index=other | where a=1] [search {}]", "multisearch [search {} | head 2] [search index=other | fields k, a] [search {} | sort - a]",
          "index=other | join k [search {} | join type=left a [search index=other | fields a, b]] | sort k", "index=other | eval z=1 | join k [search {}] | stats count by z"]


def subsearches(r, job, j):
    """A pipeline in a subsearch does what it does on its own."""
    for c1, c2 in ((c1, c2) for c1 in job["first"] for c2 in [None] + (FEW if job["sub"] == 1 else MENU)):
        p = f"index=main | {c1}" + (f" | {c2}" if c2 else "")
        for rt in MODES:
            v = outcome(r, p, j["ses"], rt)
            if v[0] != "ok" or v[1].kind != "df" or not v[1].cols or len(set(v[1].cols)) < len(v[1].cols):
                continue
            ses2 = session({"held": (list(zip(v[1].cols, v[1].types)), v[1].rows)})
            for f in INSIDE:
                q = f.replace("{}", p)
                full, alone = outcome(r, q, j["ses"], rt), outcome(r, f.replace("{}", "index=held"), ses2, rt)
                d = f"{full[0]} ({full[1]!r:.200}), not {alone[0]} ({alone[1]!r:.200})" if full[0] != alone[0] else X.same(full[1], alone[1], True, True) if full[0] == "ok" and not twice(full[1], alone[1]) else None
                if d:
                    r.bad(q, f"[{'runtime' if rt else 'standalone'}] in {q!r} the subsearch does not return what it returns on its own: {d}\n      {full[2]}", job)
                else:
                    r.outcomes[f"subsearch, {full[0]}"] += 1


def recorded(job):
    """The model of Spark still gives the answers real Spark gave (this judges the model, not the repository)."""
    r = Res()
    ok, left, bad = golden.replay(False, job["golden"])
    r.outcomes["recorded answers of Spark reproduced by the model"] += ok
    r.outcomes["recorded answers of Spark left open"] += left
    r.traces += ok
    for e in bad:
        r.outcomes[MODEL_WRONG] += 1
        print(f"the model of Spark is wrong: {e['code']!r:.400}: {e['why']:.400}", flush=True)
    return r


MODEL_WRONG = "recorded answers of Spark the model does not give"
PARTS = 16


def finish(tier, total):
    if total.outcomes[MODEL_WRONG]:
        print(f"{total.outcomes[MODEL_WRONG]} {MODEL_WRONG}: no verdict")
        raise SystemExit(2)


def run(job):
    if "golden" in job:
        return recorded(job)
    r = Res()
    j = {"ses": session(), "case": job}
    if "sub" in job:
        subsearches(r, job, j)
        return r
    src = SOURCES[job["src"]]
    outs = {m: outcome(r, src, j["ses"], m) for m in MODES}
    modes(r, j, src, outs)
    first = extend(r, j, src, outs, job["first"])
    for c1, o1 in first.items():
        r.sample(f"{src} | {c1}")
        second = extend(r, j, f"{src} | {c1}", o1, MENU)
        if job["deep"]:
            for c2, o2 in second.items():
                if c2 in FEW or job["deep"] == 2:
                    extend(r, j, f"{src} | {c1} | {c2}", o2, MENU if job["deep"] == 2 or c1 in FEW[:job["wide"]] else FEW)
    return r


def jobs(tier):
    return programs(tier) + [{"golden": [i, PARTS]} for i in range(PARTS)]


def programs(tier):
    if tier == "thorough":
        return [{"src": s, "first": [c], "deep": 2 if s == 0 else 1, "wide": 99} for s in range(len(SOURCES)) for c in MENU] + [{"sub": 2, "first": [c]} for c in MENU]
    return [{"src": s, "first": MENU[i::12], "deep": 0, "wide": 0} for s in range(len(SOURCES)) for i in range(12)] + [{"src": 0, "first": [c], "deep": 1, "wide": 0} for c in FEW] + [{"sub": 1, "first": MENU[i::8]} for i in range(8)]


def bounds(tier):
    n = len(MENU)
    if tier == "thorough":
        return f"{n} commands covering every kind and option: every pipeline of up to 3 of them after the first source, and after the other {len(SOURCES) - 1} sources every pipeline of 2 followed by any third after {len(FEW)}; every pipeline of up to 2 in each of {len(INSIDE)} places for a subsearch; both modes; 9 events"
    return f"{n} commands covering every kind and option: every pipeline of up to 2 after each of {len(SOURCES)} sources, and of 3 of {len(FEW)} of them; every command, alone and before {len(FEW)} others, in each of {len(INSIDE)} places for a subsearch; both modes; 9 events"
