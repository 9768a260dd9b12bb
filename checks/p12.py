"""P12: table, fields, rename, fillnull, addtotals, bin and makeresults shape the columns of events."""
import datetime
import itertools

from vf import execute as X
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "the fields a command names exist, and the names rename assigns are new; every column has one type",
    "bin of times is aligned to the Unix epoch, for spans of seconds to days that divide a day or are whole days",
]

UTC = datetime.timezone.utc
T = [0, 1, 59, 60, 299, 300, 3599, 3600, 86399, 86400, 1700000000, 1700000001, 1709211909, 951782399]
ts = lambda x: datetime.datetime.fromtimestamp(x, UTC)  # noqa: E731
SCHEMA = [("a", "bigint"), ("c", "bigint"), ("d", "double"), ("s", "string"), ("u", "string"), ("my field", "bigint"), ("_time", "timestamp")]
NAMES = [n for n, _ in SCHEMA]
TYPE = dict(SCHEMA)
ROWS = [(a, c, d, s, "v" if i % 3 else None, i, ts(T[i % len(T)])) for i, (a, c, d, s) in enumerate(itertools.product((None, 5), (None, -2), (None, 0.5), (None, "x", "")))]
BASE = R.Frame.of(SCHEMA, ROWS)
SEPS = [", ", " ", ",", " , ", "   "]


def n(name):
    return R.name(name)


def q2(name):
    """In double quotes when it is not a plain word."""
    return name if R.name(name) == name else f'"{name}"'


def lists(k):
    for m in range(1, k + 1):
        yield from itertools.permutations(NAMES, m)


def out(f):
    return X.Out(f.cols, f.tuples())


TARGETS = ["x", "new name", "user.id", "Count", "X_1"]
VALUES = [(None, "0"), ("0", "0"), ("7", "7"), ("NULL", "NULL"), ('"n/a"', "n/a"), ('""', ""), ("unknown", "unknown"), ('"two words"', "two words"), ('"12"', "12"), ("-1", "-1")]


def fill(frame, value, names):
    rows = [dict(r) for r in frame.rows]
    try:
        num = int(value)
    except ValueError:
        num = None
    for c in names:
        v = value if TYPE[c] == "string" else num if TYPE[c] in ("bigint", "double") else None
        for r in rows:
            if r[c] is None:
                r[c] = v
    return R.Frame(frame.cols, rows)


SPANS = [("1s", 1), ("5s", 5), ("30s", 30), ("1m", 60), ("5m", 300), ("10m", 600), ("30min", 1800), ("1h", 3600), ("2h", 7200), ("12hours", 43200), ("1d", 86400), ("2d", 172800), ("90sec", 90), ("60secs", 60), ("1hr", 3600), ("3hrs", 10800), ("15mins", 900), ("1day", 86400), ("1minute", 60), ("20minutes", 1200), ("1second", 1), ("1hour", 3600), ("4days", 345600)]
BSCHEMA = [("_time", "timestamp"), ("when", "timestamp"), ("my time", "timestamp"), ("n", "bigint")]

REFUSED = ["fields a*", "fields - a*", "table *d", "table a, s*", "rename a* as b*", "rename a", "rename a as", "rename as b", "addtotals", "addtotals fieldname=t", "addtotals col=t a", "addtotals row=f col=true a", "bin _time", "bin minspan=5m _time", "bin bins=10 a",
           "bin span=5m", "bin span=10 a", "table", "fields", "fields -", "makeresults count=x", "makeresults 5", "rename a b", "addtotals row=maybe a"]
# shaping commands applied one after another: text and reference
MENU = [
    ("table a, s, d, _time", lambda f: f.table(["a", "s", "d", "_time"]) if {"a", "s", "d", "_time"} <= set(f.cols) else None),
    ("fields s, a, c", lambda f: f.table(["s", "a", "c"]) if {"a", "s", "c"} <= set(f.cols) else None),
    ("fields - c, u", lambda f: f.drop(["c", "u"])),
    ("fields - \"my field\"", lambda f: f.drop(["my field"])),
    ("rename a as x", lambda f: f.rename([("a", "x")]) if "a" in f.cols and "x" not in f.cols else None),
    ("rename x as a", lambda f: f.rename([("x", "a")]) if "x" in f.cols and "a" not in f.cols else None),
    ("rename s as t, d as \"the d\"", lambda f: f.rename([("s", "t"), ("d", "the d")]) if {"s", "d"} <= set(f.cols) and not {"t", "the d"} & set(f.cols) else None),
    ("fillnull value=0 c", lambda f: fill2(f, "0", ["c"])),
    ("fillnull value=none", lambda f: fill2(f, "none", None)),
    ("addtotals a c fieldname=t1", None),
    ("addtotals fieldname=tot a c", lambda f: total(f, "tot", ["a", "c"])),
    ("bin _time span=5m", lambda f: binned(f, "_time", "_time", 300)),
    ("bin span=1h _time as hour", lambda f: binned(f, "_time", "hour", 3600)),
]
MENU = [m for m in MENU if m[1]]


def fill2(f, value, names):
    if names and not set(names) <= set(f.cols):
        return None
    rows = [dict(r) for r in f.rows]
    for c in names or f.cols:
        have = [r[c] for r in f.rows if r[c] is not None]
        string = c in ("s", "u", "t")
        if not have and not string and c not in ("a", "c", "d", "x", "the d"):
            continue
        v = value if string else int(value) if value.lstrip("-").isdigit() and c not in ("_time", "hour") else None
        if v is not None:
            for r in rows:
                r[c] = v if r[c] is None else r[c]
    return R.Frame(f.cols, rows)


def total(f, name, names):
    if not set(names) <= set(f.cols):
        return None
    rows = [{**r, name: sum((r[c] for c in names if r[c] is not None), 0.0)} for r in f.rows]
    return R.Frame(f.cols + ([] if name in f.cols else [name]), rows)


def binned(f, src, dst, span):
    if src not in f.cols:
        return None
    rows = [{**r, dst: None if r[src] is None else ts(int(r[src].timestamp()) // span * span)} for r in f.rows]
    return R.Frame(f.cols + ([] if dst in f.cols else [dst]), rows)


def jobs(tier):
    th = tier == "thorough"
    ls = list(lists(4 if th else 3))
    step = 60
    res = [{"kind": "select", "lo": lo, "step": step, "k": 4 if th else 3} for lo in range(0, len(ls), step)]
    res += [{"kind": "drop"}, {"kind": "rename", "k": 1}, {"kind": "rename", "k": 2}, {"kind": "total"}, {"kind": "make"}, {"kind": "refused"}]
    res += [{"kind": "rename", "k": 3, "first": x} for x in NAMES]
    res += [{"kind": "fill", "v": i} for i in range(len(VALUES))]
    res += [{"kind": "bin", "s": i} for i in range(len(SPANS))]
    res += [{"kind": "pipe", "i": i, "depth": 4 if th else 3} for i in range(len(MENU))]
    return res


def bounds(tier):
    return (f"every list of up to {'4' if tier == 'thorough' else '3'} of {len(NAMES)} columns for table and fields and every set of columns for fields -, with {len(SEPS)} separators; renames of up to 3 columns; {len(VALUES)} fill values x every set of up to 3 columns, over every pattern of absent values; "
            f"every list of up to 3 addends; {len(SPANS)} spans x {len(T)} instants; every sequence of up to {'4' if tier == 'thorough' else '3'} of {len(MENU)} shaping commands; {len(REFUSED)} refused forms; both modes")


def absent(r, span, sec, s, f, job):
    """bin keeps the events that lack the time (known finding: Spark's window drops them)."""
    for rt in (False, True):
        for src in ("_time", "my time"):
            q = f'index="table" | bin span={span} {n(src)}'
            mode = "runtime" if rt else "standalone"
            e = binned(f, src, src, sec)
            k, v, code = X.run(q, s, rt)
            r.states += 1
            r.traces += 1
            if k != "ok":
                r.bad(f"{mode}:{q} (absent times)", f"[{mode}] {q!r} {k}: {v}", job)
            elif not X.same(v, out(e)):
                r.outcomes["bin keeps events without the time"] += 1
            elif not X.same(v, out(R.Frame(e.cols, [x for x in e.rows if x[src] is not None]))):
                r.bad("bin: events without the field", f"[{mode}] {q!r}: the events that lack {src} are gone", job)
            else:
                r.bad(f"{mode}:{q} (absent times)", f"[{mode}] {q!r}: {X.same(v, out(e))}", job)


def run(job):
    r = Res()
    kind = job["kind"]
    s = X.Session({"table": (SCHEMA, ROWS)})

    def both(q, f, ordered=False, cols=False, tag=""):
        for rt in (False, True):
            sem.check(r, f'index="table" | {q}', s, "reject" if f is None else out(f), job, rt, ordered, cols, tag)

    if kind == "select":
        for i, names in list(enumerate(lists(job["k"])))[job["lo"]:job["lo"] + job["step"]]:
            f = BASE.table(list(names))
            for j, sep in enumerate(SEPS if len(names) == 2 else SEPS[i % 3:i % 3 + 2]):
                for form in ("table ", "fields ", "fields + ", "fields +", "TABLE ", "Fields "):
                    if len(names) == 3 and form in ("TABLE ", "Fields ", "fields +") and i % 4:
                        continue
                    both(form + sep.join((q2 if (i + j) % 2 else n)(x) for x in names), f, True, True, "selected")
        both("table *", BASE, True, True, "selected")
    elif kind == "drop":
        for m in range(1, len(NAMES)):
            for i, names in enumerate(itertools.combinations(NAMES, m)):
                f = BASE.drop(names)
                for form in ("fields - ", "fields -", "FIELDS - "):
                    both(form + SEPS[i % len(SEPS)].join((q2 if i % 2 else n)(x) for x in reversed(names)), f, True, True, "dropped")
    elif kind == "rename":
        for srcs in itertools.permutations(NAMES, job["k"]):
            if job.get("first") not in (None, srcs[0]):
                continue
            for i, dsts in enumerate(itertools.permutations(TARGETS[:4 if job["k"] > 2 else 5], job["k"])):
                if any("." in d for d in dsts):
                    pass
                f = BASE.rename(list(zip(srcs, dsts)))
                sep = (", ", ",", " , ")[i % 3]
                word = ("as", "AS", "As")[i % 3]
                both("rename " + sep.join(f'{(q2 if i % 2 else n)(a)} {word} {q2(b) if "." not in b else chr(34) + b + chr(34)}' for a, b in zip(srcs, dsts)), f, True, False, "renamed")
    elif kind == "fill":
        text, value = VALUES[job["v"]]
        opt = "" if text is None else f"value={text}"
        both(f"fillnull {opt}", fill(BASE, value, NAMES), True, False, "filled")
        for m in (1, 2, 3):
            for i, names in enumerate(itertools.permutations(NAMES[:6], m)):
                sep = (" ", "  ")[i % 2]
                both(f"fillnull {opt} " + sep.join((q2 if i % 2 else n)(x) for x in names), fill(BASE, value, names), True, False, "filled")
    elif kind == "total":
        nums = ["a", "c", "d", "my field"]
        for m in (1, 2, 3, 4):
            for i, names in enumerate(itertools.permutations(nums, m)):
                body = " ".join((q2 if i % 2 else n)(x) for x in names)
                for opt, name in (("", "Total"), ("fieldname=tt ", "tt"), ('fieldname="the sum" ', "the sum"), ("row=true col=false ", "Total"), ("row=t fieldname=a ", "a"), ("fieldname=u labelfield=s ", "u"), ("row=f ", None)):
                    both(f"addtotals {opt}{body}", BASE if name is None else total(BASE, name, names), True, False, "totals")
    elif kind == "bin":
        span, sec = SPANS[job["s"]]
        rows = [(ts(x), ts(y), ts(y + 1), i) for i, (x, y) in enumerate(zip(T, reversed(T)))] + [(None, ts(7), None, 99)]
        absent(r, span, sec, X.Session({"table": (BSCHEMA, rows)}), R.Frame.of(BSCHEMA, rows), job)
        for k, src in enumerate(("_time", "when", "my time")):
            kept = [x for x in rows if x[k] is not None]
            s = X.Session({"table": (BSCHEMA, kept)})
            f = R.Frame.of(BSCHEMA, kept)
            for dst in (None, "slot", "new slot", "when", "n"):
                if dst == src:
                    continue
                al = "" if dst is None else f" as {q2(dst)}"
                e = binned(f, src, dst or src, sec)
                both(f"bin span={span} {n(src)}{al}", e, False, False, "bins")
                both(f"bin {q2(src)}{al} span={span}", e, False, False, "bins")
                both(f"bucket {n(src)}{al} span={span}", e, False, False, "bins")
                both(f"bin minspan=1s span={span} {n(src)}{al}", e, False, False, "bins")
    elif kind == "make":
        for cnt in (None, 0, 1, 2, 3, 7):
            for ann in (None, "t", "f", "true", "false"):
                for server, group in ((None, None), ("foo", None), ('"a b"', "g1"), (None, '"it\'s"')):
                    opts = [f"count={cnt}"] * (cnt is not None) + [f"annotate={ann}"] * (ann is not None) + [f"splunk_server={server}"] * (server is not None) + [f"splunk_server_group={group}"] * (group is not None)
                    for perm in itertools.islice(itertools.permutations(opts), 2):
                        q = "| makeresults " + " ".join(perm)
                        made(r, q, 1 if cnt is None else cnt, ann in ("t", "true"), (server or "local").strip('"'), group and group.strip('"'), job)
    elif kind == "refused":
        for q in REFUSED:
            for tail in ("", " | eval z=1", " | head 3"):
                both(q + tail, None)
    elif kind == "pipe":
        def go(q, f, d):
            both(q, f, True, False, "sequence")
            if d:
                for text, step in MENU:
                    g = step(f)
                    if g is not None and len(set(g.cols)) == len(g.cols):
                        go(f"{q} | {text}", g, d - 1)
        text, step = MENU[job["i"]]
        f = step(BASE)
        if f is not None:
            go(text, f, job["depth"] - 1)
    return r


def made(r, q, cnt, ann, server, group, job):
    for rt in (False, True):
        mode = "runtime" if rt else "standalone"
        r.states += 1
        k, v, code = X.run(q, X.Session({}), rt)
        r.traces += 1
        r.transitions += 1
        why = None
        if k != "ok":
            why = str(v)[:300]
        elif len(v.rows) != cnt:
            why = f"{len(v.rows)} events"
        else:
            want = {"_time": None}
            if ann:
                want.update(_raw=None, host=None, source=None, sourcetype=None, splunk_server=server, splunk_server_group=group)
            missing = [c for c in want if c not in v.cols]
            extra = [c for c in v.cols if c not in want and c != "id"]
            if missing or extra:
                why = f"columns {v.cols}"
            for t in v.rows:
                row = dict(zip(v.cols, t))
                if not isinstance(row["_time"], datetime.datetime):
                    why = f"_time is {row['_time']!r}"
                elif any(row[c] != x for c, x in want.items() if c != "_time"):
                    why = f"{row} instead of {want}"
        if why:
            r.bad(f"{mode}:{q}", f"[{mode}] {q!r}: {why}\n      {code}", job)
        else:
            r.outcomes["made"] += 1
