"""P11: sort, head, tail, top and rare order and select events."""
import collections
import itertools
import re

from vf import execute as X
from vf import impl
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "sort keys are present in every event; events with equal keys may come in any order",
    "top and rare are judged on the generated code with F.count() read as F.count(F.lit(1)) (the missing argument is a known finding, see DESIGN.md)",
]

SCHEMA = [("a", "bigint"), ("s", "string"), ("d", "double"), ("my field", "bigint"), ("id", "bigint")]
POOL = [(a, s, d, m) for a, s, d, m in itertools.product((1, 2, 10), ("b", "a"), (0.5, -1.5), (7, 3))]
FIELDS = ["a", "s", "d", "my field"]
SIGNS = ["", "+", "-", "- ", "+ "]


def data(seed, n=7):
    """n events in an order that agrees with no sort key."""
    rows = [POOL[(seed * 5 + i * 7) % len(POOL)] for i in range(n)]
    return [r + (i,) for i, r in enumerate(rows)]


DATA = [data(i) for i in range(4)]


def keyof(keys, desc):
    def less(x, y):
        for sign, f in keys:
            i = [n for n, _ in SCHEMA].index(f)
            down = (sign.strip() == "-") != desc
            if x[i] != y[i]:
                return (x[i] > y[i]) == down
        return None
    return less


def check_sorted(r, q, rt, rows, keys, desc, limit, case):
    mode = "runtime" if rt else "standalone"
    r.states += 1
    s0 = X.steps()
    try:
        k, v, code = X.run(q, X.Session({"table": (SCHEMA, rows)}), rt)
    except impl.Panic as e:
        r.bad(f"{mode}:{q}", f"[{mode}] {q!r} panicked: {e}", case)
        return
    r.traces += 1
    r.transitions += X.steps() - s0
    if k != "ok":
        r.bad(f"{mode}:{q}", f"[{mode}] {q!r} was refused or fails: {v[:300]}\n      {code}", case)
        return
    less = keyof(keys, desc)
    want = len(rows) if limit is None else min(limit, len(rows))
    why = None
    if sorted(v.cols) != sorted(n for n, _ in SCHEMA):
        why = f"columns {v.cols}"
    else:
        perm = [v.cols.index(n) for n, _ in SCHEMA]
        got = [tuple(t[i] for i in perm) for t in v.rows]
        rest = collections.Counter(rows)
        rest.subtract(got)
        if len(got) != want or any(c < 0 for c in rest.values()):
            why = f"{got} is not a choice of {want} of the events"
        elif any(less(y, x) for x, y in zip(got, got[1:])):
            why = f"{got} is not in order"
        elif got and any(less(o, got[-1]) for o, c in rest.items() if c > 0):
            why = f"{got} leaves out an event that comes first"
    if why:
        r.bad(f"{mode}:{q}", f"[{mode}] {q!r}: {why}\n      {code}", case)
    else:
        r.outcomes["sorted"] += 1


def key_lists(tier):
    for n in (1, 2, 3):
        signs = SIGNS if n == 1 else ["", "+", "-"] if n == 2 or tier == "thorough" else ["", "-"]
        for fs in itertools.permutations(FIELDS, n):
            for sg in itertools.product(signs, repeat=n):
                yield list(zip(sg, fs))


LIMITS = [("", None), ("0 ", None), ("1 ", 1), ("3 ", 3), ("limit=2 ", 2), ("100 ", 100), ("limit=0 ", None)]


def field(f):
    return R.name(f)


# ------------------------------------------------------------------ top and rare
TSCHEMA = [("x", "string"), ("y", "bigint"), ("my field", "string")]


def ttables():
    for n in range(0, 6):
        for xs in itertools.product("pqr", repeat=n):
            if n == 5 and xs[0] != "p":
                continue
            yield [(x, 1 + i % 2, x + "!") for i, x in enumerate(xs)]
    # more values than the default limit, each once, and with counts that fall and rise
    for xs in ("abcdefghijkl", "aaaabcdefgghijklllmn", "zyxwvutsrqponzzyyx"):
        yield [(x, ord(x), x + "!") for x in xs]


def count_fixed(code):
    """The generated code with the known missing argument of F.count() supplied."""
    return re.sub(r"F\.count\(\)", "F.count(F.lit(1))", code)


OPTS = [("", 10, {}), ("1 ", 1, {}), ("2 ", 2, {}), ("limit=1 ", 1, {}), ("limit=0 ", None, {}), ("0 ", None, {}), ("2 countfield=n ", 2, {"count": "n"}), ('countfield="how many" limit=2 ', 2, {"count": "how many"}),
        ("2 showcount=f ", 2, {"count": None}), ("showcount=true ", 10, {}), ("2 useother=f ", 2, {}), ("otherstr=zz ", 10, {})]
REFUSED = ["top", "top 2", "rare 3", "top useother=t x", "rare useother=true x", "top limit=-1 x", "top -1 x", "rare -3 x", "head -1", "head limit=-2", "tail -1", "sort -3 a", "sort limit=-1 a", "sort", "sort 3", "head x", "head a>3",
           "head count>3", "head count=3", "sort num(a)", "sort ip(s)", "sort str(s)", "sort auto(a)", "sort nosuch(a)", "sort a + 1", "head 1.5", "tail x", "tail 1.5", "top limit=x a", "rare limit=1.5 a", "x=1", "foo bar", "collect index=m", "nomv s", "sort a b", "stats count by"]


def jobs(tier):
    n = len(list(key_lists(tier)))
    step = 40
    out = [{"kind": "sort", "lo": lo, "step": step, "tier": tier} for lo in range(0, n, step)]
    out.append({"kind": "first", "n": 7 if tier == "thorough" else 5})
    out.append({"kind": "perm", "n": 6 if tier == "thorough" else 4})
    out += [{"kind": "top", "cmd": c, "opt": i} for c in ("top", "rare") for i in range(len(OPTS))]
    out.append({"kind": "known"})
    out.append({"kind": "refused"})
    return out


def bounds(tier):
    n = len(list(key_lists(tier)))
    return (f"{n} lists of up to 3 signed sort keys x {len(LIMITS)} limits x desc, on {len(DATA)} tables of 7 events, and every order of arrival of {6 if tier == 'thorough' else 4} events; "
            f"head and tail N for every N and table size up to {7 if tier == 'thorough' else 5}; top and rare with {len(OPTS)} option lists on every table of up to 4 (and a third of those of 5) events; {len(REFUSED)} refused forms")


def run(job):
    r = Res()
    kind = job["kind"]
    if kind == "sort":
        for i, keys in list(enumerate(key_lists(job["tier"])))[job["lo"]:job["lo"] + job["step"]]:
            body = ", ".join(sg + field(f) for sg, f in keys)
            for j, (lt, limit) in enumerate(LIMITS):
                for desc in ("", " desc", " DESC"):
                    if len(keys) == 3 and (i + j) % 3 and job["tier"] != "thorough":
                        continue
                    q = f'index="table" | sort {lt}{body}{desc}'
                    for rt in (False, True):
                        check_sorted(r, q, rt, DATA[(i + j) % 4], keys, bool(desc), limit, job)
        if job["lo"] == 0:
            for sep in (",", " ,", ", ", "  ,  "):
                for rt in (False, True):
                    check_sorted(r, f'index="table" | sort -a{sep}s{sep}"my field"', rt, DATA[0], [("-", "a"), ("", "s"), ("", "my field")], False, None, job)
    elif kind == "perm":
        rows = [(1, "b", 0.5, 7), (2, "a", 0.5, 3), (1, "a", -1.5, 7), (10, "b", 2.5, 1), (2, "c", 9.5, 3), (10, "a", 0.0, 2)][:job["n"]]
        for p in itertools.permutations(range(len(rows))):
            ev = [rows[i] + (i,) for i in p]
            for body, keys in (("a, s", [("", "a"), ("", "s")]), ("-d", [("-", "d")]), ("-a, d", [("-", "a"), ("", "d")]), ("2 s, -'my field'", [("", "s"), ("-", "my field")])):
                for rt in (False, True):
                    check_sorted(r, f'index="table" | sort {body}', rt, ev, keys, False, 2 if body[0] == "2" else None, job)
    elif kind == "first":
        for size in range(job["n"] + 1):
            rows = data(size, size)
            f = R.Frame.of(SCHEMA, rows)
            s = X.Session({"table": (SCHEMA, rows)})
            for rt in (False, True):
                for n in range(job["n"] + 2):
                    for q in (f"head {n}", f"head limit={n}", f"head count<{n}", f"head (count<{n})", f"head count < {n}", f"head {n} > count", f"head {n} keeplast=f", f"head {n} null=f", f"HEAD {n}"):
                        e = f.head(n)
                        sem.check(r, f'index="table" | {q}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                    e = f.head(n + 1)
                    for q in (f"head count<={n}", f"head {n}>=count", f"head (count <= {n})", f"head {n}>count keeplast=true", f"head {n} > count keeplast=t null=f"):
                        sem.check(r, f'index="table" | {q}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                    sem.check(r, f'index="table" | head count<{n} keeplast=true', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                    e = f.head(n + 2)
                    for q in (f"head count<={n} keeplast=true", f"head {n}>=count keeplast=t"):
                        sem.check(r, f'index="table" | {q}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                    e = f.tail(n)
                    if e.rows:
                        sem.check(r, f'index="table" | tail {n}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="tail")
                    for m in range(3):
                        e = f.head(n).head(m)
                        sem.check(r, f'index="table" | head {n} | head {m}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                        e = f.head(n).tail(m)
                        if e.rows:
                            sem.check(r, f'index="table" | head {n} | tail {m}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="tail")
                    for m in range(size + 1):
                        # ids are a key, so the order is known
                        for sign in ("", "-"):
                            e = f.sort([("id", sign == "-")]).head(n)
                            sem.check(r, f'index="table" | sort {sign}id | head {n}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="head")
                            e = f.sort([("id", sign == "-")], m or None).tail(n)
                            if e.rows:
                                sem.check(r, f'index="table" | sort {m} {sign}id | tail {n}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="tail")
        for size in (9, 10, 11, 15):
            rows = data(size, size)
            f = R.Frame.of(SCHEMA, rows)
            s = X.Session({"table": (SCHEMA, rows)})
            for rt in (False, True):
                for q, e in (("head", f.head(10)), ("tail", f.tail(10)), ("head | head 3", f.head(3)), ("sort -id | tail", f.sort([("id", True)]).tail(10))):
                    sem.check(r, f'index="table" | {q}', s, X.Out(e.cols, e.tuples()), job, rt, ordered=True, tag="default")
    elif kind == "top":
        opt, limit, o = OPTS[job["opt"]]
        cf = o.get("count", "count")
        for fields in (["x"], ["y"], ["x", "y"], ["my field"], ["y", "x"]):
            for sep in ((", ", " ") if len(fields) > 1 else ("",)):
                q = f'index="table" | {job["cmd"]} {opt}showperc=f {sep.join(field(f) for f in fields)}'
                for rt in (False, True):
                    mode = "runtime" if rt else "standalone"
                    r.states += 1
                    kd, code = impl.convert(q, rt)
                    if kd == "err":
                        r.bad(f"{mode}:{q}", f"[{mode}] {q!r} was refused: {code[:300]}", job)
                        continue
                    for rows in ttables():
                        s0 = X.steps()
                        r.traces += 1
                        try:
                            got = X.out_of(X.evaluate(count_fixed(code), X.Session({"table": (TSCHEMA, rows)}), rt))
                        except Exception as e:
                            r.bad(f"{mode}:{q}", f"[{mode}] {q!r} became code that fails: {type(e).__name__}: {e}\n      {code}", job)
                            break
                        r.transitions += X.steps() - s0
                        names = [n for n, _ in TSCHEMA]
                        idx = [names.index(f) for f in fields]
                        counts = collections.Counter(tuple(t[i] for i in idx) for t in rows)
                        order = sorted(counts.values(), reverse=job["cmd"] == "top")
                        want = order if limit is None else order[:limit]
                        why = None
                        cols = fields + ([cf] if cf else [])
                        if sorted(got.cols) != sorted(cols):
                            why = f"columns {got.cols} instead of {cols}"
                        else:
                            perm = [got.cols.index(c) for c in cols]
                            out = [tuple(t[i] for i in perm) for t in got.rows]
                            vals = [t[:len(fields)] for t in out]
                            if len(set(vals)) != len(vals) or [counts.get(v) for v in vals] != want or (cf and any(counts[v] != t[-1] for v, t in zip(vals, out))):
                                why = f"{out} is not the {job['cmd']} {limit} of {dict(counts)}"
                        if why:
                            r.bad(f"{mode}:{q}", f"[{mode}] {q!r} on {rows}: {why}\n      {code}", job)
                            break
                        r.outcomes[job["cmd"]] += 1
    elif kind == "known":
        s = X.Session({"table": (TSCHEMA, [("p", 1, "p!"), ("q", 2, "q!"), ("p", 2, "p!")])})
        for cmd in ("top", "rare"):
            r.states += 1
            q = f'index="table" | {cmd} 5 showperc=false x'
            k, v, code = X.run(q, s)
            if k != "ok" and "F.count()" in (code or ""):
                r.bad(f"{cmd}: F.count()", f"{q!r} becomes code that calls F.count() without its argument: {v[:200]}", job)
            r.states += 1
            q = f'index="table" | {cmd} 5 x'
            k, code = impl.convert(q)
            try:
                X.out_of(X.evaluate(count_fixed(code), s))
            except Exception as e:
                r.bad(f"{cmd}: percent", f"{q!r} computes its percentages with an aggregate outside an aggregation: {e}", job)
            r.states += 1
            q = f'index="table" | {cmd} 5 showperc=f x by y'
            k, code = impl.convert(q)
            try:
                got = X.out_of(X.evaluate(count_fixed(code), s))
                bad = "x" not in got.cols
            except Exception:
                bad = True
            if bad:
                r.bad(f"{cmd}: by", f"{q!r} counts only the by field: {code}", job)
        r.states += 1
        q = 'index="table" | tail 2 | where y=2'
        k, v, code = X.run(q, s)
        if k != "ok":
            r.bad("tail: followed by a command", f"{q!r} becomes code that applies a data frame method to the list df.tail returns: {v[:200]}", job)
        r.traces = r.transitions = r.states
    elif kind == "refused":
        s = X.Session({"table": (SCHEMA, DATA[0])})
        for q in REFUSED:
            for tail in ("", " | eval z=1", " | head 3"):
                for rt in (False, True):
                    if q.startswith("tail") and tail and q == "tail":
                        continue
                    sem.check(r, f'index="table" | {q}{tail}', s, "reject", job, rt)
    return r
