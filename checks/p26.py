"""P26: conversions, macro expansions and runs in several threads give what each gives alone."""
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import types
from pathlib import Path

from vf import impl, threads
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "threads of Python switch between lines of Python code and where a module is imported (Python's global lock); the extension itself gives the lock away only there",
    "the model of Spark in lib/fakespark stands for Spark in the runs (its own code is not interrupted)",
]
DEF = ("index=a | eval x=if(a > 1, b, c) | stats count by x", True, True)
OTHER = ("search index=b k=x* OR s=\"y z\" | table k, s | head 3", False, True)
PLAIN = ("index=c | where a=1", True, False)
BAD = ("index=c | wherre a=1", False, True)
LATE = ("index=c | eval a=nosuch(b)", True, True)
MENU = [DEF, OTHER, PLAIN, BAD, LATE, ("index=a | eval x=1", False, True), ("index=a | eval x=1", True, True), ("index=a | join k [search index=b | stats count by k]", True, True), ("index=a | bin span=5m _time | eval y=x + 1 | fillnull value=0 y", True, True),
        ("index=a | eval x=1", False, False), ("multisearch [search index=a] [search index=b | eval q=2]", True, True), ("index=a |", False, True)]


def conv(item):
    try:
        return list(impl.convert(*item))
    except impl.Panic as e:
        return ["panic", str(e)]


# ---------------------------------------------------------------- the first conversions of a process, while they import the formatter
SERVER = """
import sys, os, json, signal
sys.path[:0] = json.loads(sys.argv[1])
import p26
if "black" in sys.modules:
    sys.exit("black is imported already")
out = []
for case in json.load(sys.stdin):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        signal.alarm(60)
        with os.fdopen(w, "w") as f:
            json.dump(getattr(p26, case[0])(*case[1:]), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    out.append(json.loads(t) if t else {"died": True})
json.dump(out, sys.stdout)
"""


def forked(cases):
    """Each case in a process of its own, which has not imported the formatter."""
    p = subprocess.run([sys.executable, "-B", "-c", SERVER, json.dumps(sys.path)], input=json.dumps(cases), capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout)


class Finder:
    """Every import of a module that is not loaded yet is a switch point."""
    fail = None
    seen = 0

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if threading.get_ident() in threads._current or cls.fail is not None:
            cls.seen += 1
            if cls.fail == cls.seen:
                raise ImportError(f"no {name}")
        threads.point()
        return None


def alone(item):
    return {"values": [conv(item)]}


def count_points(item):
    sys.meta_path.insert(0, Finder)
    s = threads.Scheduler([lambda: conv(item)])
    s.free(0)
    return {"points": s.tasks[0].points}


def imports(items, stops):
    """The first thread is interrupted at each of the stops by the next one."""
    sys.meta_path.insert(0, Finder)
    s = threads.Scheduler([lambda x=x: conv(x) for x in items])
    try:
        for i, k in enumerate(stops):
            while s.tasks[0].points < k and s.step(0, k):
                pass
            s.free(i + 1)
        values = s.finish()
    except threads.Stuck as e:
        return {"stuck": str(e)}
    sys.meta_path.remove(Finder)
    return {"values": [v[1] for v in values], "after": [conv(x) for x in items], "switches": s.switches, "blocks": s.blocks}


def import_fails(item, k):
    """The k-th import fails; then all are possible again."""
    sys.meta_path.insert(0, Finder)
    Finder.fail = k
    first = conv(item)
    sys.meta_path.remove(Finder)
    Finder.fail = None
    return {"values": [first, conv(item), conv(item)]}


def job_imports(r, job):
    sets = [[tuple(x) for x in s] for s in job["sets"]]
    expected = {x: forked([["alone", list(x)]])[0]["values"][0] for x in sorted({x for s in sets for x in s})}
    n = forked([["count_points", list(sets[0][0])]])[0]["points"]
    if n < 2:
        r.bad("no points", "the conversion imports nothing: the check sees no schedule", job)
    cases = []
    for s in sets:
        for k in range(job["at"], n + 1, job["of"]):
            stops = [[k]] if len(s) == 2 else [[k, j] for j in range(k, n + 1, job["step"])]
            cases += [["imports", [list(x) for x in s], st] for st in stops]
    for case, got in zip(cases, forked(cases)):
        items = [tuple(x) for x in case[1]]
        what = f"{[x[0] for x in items]} in {len(items)} threads, the first interrupted at import {case[2]} of {n}"
        key = f"imports: {json.dumps(case[1:])}"
        r.states += 1
        r.traces += 1
        if "values" not in got:
            r.bad(key, f"{what}: {'the threads never end' if 'stuck' not in got else got['stuck']}", {"kind": "one", "case": case})
            continue
        r.transitions += got["switches"]
        r.outcomes["waited for the import" if got["blocks"] else "ran on"] += 1
        for x, v, a in zip(items, got["values"], got["after"]):
            for y, when in ((v, ""), (a, " (again, afterwards)")):
                if y != expected[x]:
                    r.bad(key, f"{what}: {x[0]!r}{when} gives {y[1]!r} instead of {expected[x][1]!r}", {"kind": "one", "case": case})


def job_one(r, job):
    case = job["case"]
    expected = [forked([["alone", x]])[0]["values"][0] for x in case[1]]
    got = forked([case])[0]
    r.states += 1
    if got.get("values") != expected or got.get("after") != expected:
        r.bad(f"imports: {json.dumps(case[1:])}", f"{case} gives {got} instead of {expected}", job)


def job_fails(r, job):
    item = list(DEF)
    n = forked([["count_points", item]])[0]["points"]
    nice = forked([["alone", item]])[0]["values"][0]
    plain = forked([["alone", [DEF[0], DEF[1], False]]])[0]["values"][0]
    ks = list(range(1, n + 1))[job["at"]::job["of"]]
    for k, got in zip(ks, forked([["import_fails", item, k] for k in ks])):
        r.states += 1
        r.transitions += 3
        r.traces += 1
        v = got.get("values", [["died", ""]] * 3)
        if any(x not in (plain, nice) for x in v) or k == 1 and v[1:] != [nice, nice]:
            r.bad(f"import fails: {k}", f"when import {k} of the formatter fails, {DEF[0]!r} gives {v}", job)
        else:
            r.outcomes["import failed, " + ("formatted later" if v[1] == nice else "plain later")] += 1


# ---------------------------------------------------------------- while the formatter works
def stand_in(point):
    def FileMode():
        point()
        return 1

    def format_str(code, mode):
        point()
        if "nosuch" in code:
            raise ValueError("x")
        out = f"# formatted\n{code}"
        point()
        return out
    return types.SimpleNamespace(FileMode=FileMode, format_str=format_str)


def judge(r, job, key, what, got, exp):
    r.traces += 1
    if got != exp:
        r.bad(key, f"{what} give {str(got)[:700]}\n   instead of {str(exp)[:700]}", job)
        return False
    r.outcomes["as alone"] += 1
    return True


def job_format(r, job):
    import black
    items = [tuple(x) for x in job["items"]]
    try:
        sys.modules["black"] = stand_in(lambda: None)
        exp = [("value", conv(x)) for x in items]
        sys.modules["black"] = stand_in(threads.point)
        ends = []
        for x in items:
            s = threads.Scheduler([lambda: conv(x)])
            while s.step(0):
                pass
            ends.append(s.tasks[0].points + 1)
        for sched in itertools.islice(threads.interleavings(tuple(ends)), job.get("at", 0), None, job.get("of", 1)):
            s = threads.Scheduler([lambda x=x: conv(x) for x in items])
            r.states += 1
            try:
                for i in sched:
                    s.step(i)
                got = s.finish()
            except threads.Stuck as e:
                got = str(e)
            r.transitions += s.switches
            judge(r, job, f"format: {items}", f"{[x[0] for x in items]} in threads, in the order {sched}", got, exp)
    finally:
        sys.modules["black"] = black


# ---------------------------------------------------------------- the Python parts, interrupted between any two lines
PART = re.compile(r"spl_transpiler/(runtime/|macros|utils)")


def traced(f):
    def line(frame, event, arg):
        if event == "line":
            threads.point()
        return line

    def call(frame, event, arg):
        return line if PART.search(frame.f_code.co_filename) else None

    def run():
        sys.settrace(call)
        try:
            return f()
        finally:
            sys.settrace(None)
    return run


TABLES = {"a": ([("x", "bigint"), ("k", "string"), ("_time", "bigint")], [(1, "p", 100), (2, "q", 200), (3, None, 300), (None, "p", 400)]), "b": ([("k", "string"), ("v", "bigint")], [("p", 10), ("q", 20)])}
RUNS = ["index=a k=p | head 2", "index=b host=nosuch", "index=a | eval y=replace(k, \"p\", \"r\"), z=substr(k, 1, 1)", "index=a | stats count, sum(x) as s, values(k) as v by k", "index=b | stats max(v) as m", "index=a | fillnull value=0 x", "index=a | eval y=strftime(_time, \"%H:%M\") | search y=\"00:01\"", "index=a | eval y=case(x > 1, \"big\", x = 1, \"one\") | where like(y, \"b%\")",
        "index=b | fillnull value=none k | eval w=mvindex(split(k, \"\"), 0)", "tstats sum(v) as s from datamodel=b by k", "index=a | eval y=nosuch(x)", "index=a | stats rate(x) as r"]
MACROS = {"one": (["x"], "<$x$ `two`>"), "two": ([], "`three(7, b)` |"), "three": (["x", "y"], "$y$:$x$"), "loop": ([], "`loop`"), "bad": (["p"], "`")}
TEXTS = ["a `one(1)` | `two`", "`three(x=1, y=\"$x$\")`", "`loop`", "`nosuch`", "`one(b)` `one(c)`", "`bad(1)`"]


def run_tasks():
    from vf import execute as X
    session = X.Session(TABLES)
    X.runtime_ns()

    def task(q):
        def f():
            k, v, _ = X.run(q, session, True)
            return k, repr(v)
        return f
    return {q: task(q) for q in RUNS}


def macro_tasks(folder):
    from spl_transpiler.macros import CombinedMacroLoader, FolderMacroLoader, MacroDefinition, RegistryMacroLoader, substitute_macros
    defs = {n: dict(arguments=a, definition=d) for n, (a, d) in MACROS.items()}
    for n in ("two", "three"):
        Path(folder, n + ".json").write_text(json.dumps(defs[n]))

    def registry():
        return RegistryMacroLoader({n: MacroDefinition(**d) for n, d in defs.items()})
    loaders = {"dict": lambda: defs, "registry": registry, "combined": lambda: CombinedMacroLoader(FolderMacroLoader(Path(folder)), RegistryMacroLoader({n: defs[n] for n in ("one", "loop", "bad")}))}
    return loaders, substitute_macros


def lines_of(f):
    s = threads.Scheduler([f])
    s.free(0)
    return s.tasks[0].points


def interrupted(r, job, what, make, k, js):
    """The first is interrupted after k lines by the second, which (if js) is itself interrupted after j lines while the first ends."""
    for j in js:
        fs = make()
        s = threads.Scheduler([traced(f) for f in fs])
        r.states += 1
        try:
            while s.tasks[0].points < k and s.step(0, k):
                pass
            if j is not None:
                while s.tasks[1].points < j and s.step(1, j):
                    pass
                s.free(0)
            got = s.finish() if j is not None else (s.free(1), s.finish())[1]
        except threads.Stuck as e:
            got = str(e)
        r.transitions += s.switches
        judge(r, job, f"{what[0]}: {what[1:]}", f"{what}, the first interrupted after {k} lines" + (f", the second after {j}" if j is not None else ""), got, job_expected(r, what, make))


_EXPECTED = {}


def job_expected(r, what, make):
    if what not in _EXPECTED:
        out = []
        for f in make():
            t = threads.Task(f)
            t.free = True
            t.thread.start()
            t.go.release()
            t.thread.join()
            out.append(t.value)
        _EXPECTED[what] = out
    return _EXPECTED[what]


def job_lines(r, job):
    tasks = run_tasks()
    for a, b in job["pairs"]:
        make = lambda: [tasks[a], tasks[b]]
        what = ("runs", a, b)
        job_expected(r, what, make)
        n = lines_of(traced(tasks[a]))
        m = lines_of(traced(tasks[b]))
        if not n and "nosuch" not in a:
            r.bad(f"no lines: {a}", f"{a!r} runs no line of the runtime: the check sees no schedule", job)
        for k in range(1, n + 1):
            interrupted(r, job, what, make, k, [None] + (list(range(1 + k % job["step"], m + 1, job["step"])) if job["step"] else []))


def job_macros(r, job):
    with tempfile.TemporaryDirectory() as folder:
        loaders, substitute = macro_tasks(folder)
        for (a, b), name in itertools.product(job["pairs"], loaders):
            def make():
                shared = loaders[name]()
                return [lambda: substitute(a, shared), lambda: substitute(b, shared)]
            what = ("macros", a, b, name)
            job_expected(r, what, make)
            n, m = lines_of(traced(make()[0])), lines_of(traced(make()[1]))
            for k in range(1, n + 1):
                interrupted(r, job, what, make, k, [None] + (list(range(1 + k % job["step"], m + 1, job["step"])) if job["step"] else []))


def jobs(tier):
    deep = tier == "thorough"
    out = []
    two = [[DEF, OTHER], [DEF, DEF], [OTHER, PLAIN], [DEF, BAD], [OTHER, LATE]]
    three = [[DEF, OTHER, DEF], [OTHER, DEF, PLAIN]]
    for i in range(8):
        out.append({"kind": "imports", "sets": two if deep else two[:1], "at": i + 1, "of": 8, "step": 1})
        if not deep:
            out.append({"kind": "imports", "sets": two[1:], "at": 3 * i + 1, "of": 24, "step": 1})
        out.append({"kind": "imports", "sets": three if deep else three[:1], "at": i + 1, "of": 8, "step": 2 if deep else 48})
        out.append({"kind": "fails", "at": i, "of": 8 if deep else 24})
    out += [{"kind": "format", "items": [list(a), list(b)]} for a, b in itertools.product(MENU, repeat=2)]
    out += [{"kind": "format", "items": [list(x) for x in s], "at": i, "of": 8 if deep else 320} for s in ([DEF, OTHER, LATE], [OTHER, MENU[5], MENU[6]]) for i in range(8)]
    pairs = list(itertools.product(RUNS, repeat=2))
    out += [{"kind": "lines", "pairs": [p], "step": 0} for p in (pairs if deep else [(a, RUNS[(i + d) % len(RUNS)]) for i, a in enumerate(RUNS) for d in (0, 1, 5)])]
    if deep:
        out += [{"kind": "lines", "pairs": [p], "step": 12} for p in pairs[::3]]
    out += [{"kind": "macros", "pairs": [p], "step": 16 if deep else 0} for p in itertools.product(TEXTS, repeat=2)]
    return out


def bounds(tier):
    deep = tier == "thorough"
    return (f"the first two conversions of a process, one interrupted by the other at every import of the formatter, in {'5 pairs' if deep else 'one pair, at every third in 4 more'}; three, with every {'second' if deep else '48th'} further interruption; {'every' if deep else 'every third'} import failing once; "
            f"every interleaving of 2 conversions of {len(MENU)}{' and of 3' if deep else ' and a part of those of 3'} at the calls of the formatter; {'every pair' if deep else '36 pairs'} of {len(RUNS)} runs and every pair of {len(TEXTS)} macro expansions with 3 loaders they share, one interrupted by the other after every line of the runtime library and macros.py{', and the other after every 12th or 16th' if deep else ''}")


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    r.sample(str(job)[:200])
    return r
