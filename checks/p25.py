"""P25: %%spl runs exactly the query of its cell, and exec_with_return exactly its code."""
import ast
import contextlib
import io
import itertools
import os
import sys
import tempfile

from vf import corpus, impl
from vf import execute as X
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "cells are run by the real IPython, in the namespace of its user",
]

# ---------------------------------------------------------------- exec_with_return
STATEMENTS = ["x = f(1)", "x = x + 1", "x += 5", "y: int = f(2)", "x = y = f(3)", "x, y = f(4), x", "f(5)", "x", "x, y", "'text'", "pass", "if x:\n    y = f(6)", "for i in [1, 2]:\n    f(i)", "def g(a=1):\n    return a + 10", "g(2)", "del x", "f(0) / 0", "x = 1 / f(0)",
              "import math", "math.pi", "# nothing", "x = '''a\nb'''", "f'{x}!'", "(lambda v: v * 2)(f(7))", "x = [\n    1,\n    2,\n]", "o['k'] = f(8)", "o['k'] += 1", "o", "None", "while x > 3:\n    x -= f(1)", "with c:\n    y = f(9)", "assert x", "x = None", "x == y", "def h():\n    global z\n    z = f(12)\nh()", "z", "df_1 = f(10)", "df_1", "print", "try:\n    x = f(0) // 0\nexcept ZeroDivisionError:\n    x = f(11)"]


HIDDEN = {"__builtins__", "__doc__", "__annotations__"}


def world():
    log = []

    def f(v):
        log.append(v)
        return v
    return log, {"f": f, "x": 2, "y": 7, "o": {"k": 1}, "c": contextlib.nullcontext()}


def expected(code, globals, locals):
    """Run statement by statement."""
    body = ast.parse(code).body
    value = None
    for i, s in enumerate(body):
        last = i == len(body) - 1
        if last and isinstance(s, ast.Expr):
            value = eval(compile(ast.Expression(s.value), "<e>", "eval"), globals, locals)
            continue
        exec(compile(ast.Module([s], []), "<e>", "exec"), globals, locals)
        if last and isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            target = s.targets[0] if isinstance(s, ast.Assign) else s.target
            value = eval(ast.unparse(target), globals, locals)
    return value


def plain(v):
    return repr(v).split(" at 0x")[0]


def outcome(run, code, split):
    log, names = world()
    globals, locals = (dict(names), {}) if split == "globals" else ({}, dict(names)) if split == "locals" else ({k: names[k] for k in "foc"}, {k: names[k] for k in "xy"})
    globals["__builtins__"] = __builtins__
    try:
        got = ("value", plain(run(code, globals, locals)))
    except Exception as e:
        got = ("raises", f"{type(e).__name__}: {e}")
    return got, list(log), sorted((k, plain(v)) for k, v in globals.items() if k not in HIDDEN), sorted((k, plain(v)) for k, v in locals.items() if k not in HIDDEN)


def job_exec(r, job):
    from spl_transpiler.runtime.utils import exec_with_return
    for seq in itertools.product(job["first"], *[STATEMENTS] * (job["length"] - 1)):
        code = "\n".join(seq)
        r.sample(code)
        for split in ("globals", "locals", "both"):
            r.states += 1
            r.transitions += len(seq)
            r.traces += 1
            a, b = outcome(exec_with_return, code, split), outcome(expected, code, split)
            if a != b:
                r.bad(f"exec: {code}", f"exec_with_return of\n{code}\n(names in {split}) gives {a}\n   instead of {b}", job)
            else:
                r.outcomes["code: " + a[0][0]] += 1


def job_exec_errors(r, job):
    from spl_transpiler.runtime.utils import exec_with_return
    for code in ["", "\n", "# x", "x =", "(", "  x", "x\n  y"]:
        r.states += 1
        r.traces += 1
        a, b = outcome(exec_with_return, code, "globals"), outcome(expected, code, "globals")
        if a[0][0] != b[0][0] or a[1:] != b[1:]:
            r.bad(f"exec: {code!r}", f"exec_with_return of {code!r} gives {a} instead of {b}", job)
        else:
            r.outcomes["code: " + a[0][0]] += 1


# ---------------------------------------------------------------- %%spl
TABLES = {"a": ([("x", "bigint"), ("k", "string"), ("_time", "bigint")], [(1, "p", 100), (2, "q", 200), (3, None, 300), (None, "p", 400)]), "b": ([("k", "string"), ("v", "bigint")], [("p", 10), ("q", 20)])}
CELLS = r'''
index=a
index=a | where x > 1
index=a | eval y=x * 2, z="it's {y}" | table y, z
index=a | stats count, sum(x) as s by k
index=a | fillnull value=0 x | sort - x | head 2
index=a | join k [search index=b | eval w=v + 1]
index=a | eval df=1, F=2, spark=3, commands=4, functions=5, df_1=6
index=a x=1 OR x=2 | rename k as "my k"
multisearch [search index=a] [search index=b]
makeresults count=2
index=a | addtotals x | fields - k
index=a | stats count as F by k | rename F as functions
index=a\n| where x > 1\n| eval y="a\nb"\n
index=a | tail 2
index=a | eval y=x + 1 | where y > 2 | eval z=y * y | stats max(z) as m | eval n=m + 1
  index=a | head 1  
index=a | eval y=nosuchfunction(x)
index=none | head 3
index=a | where nosuchfield=1
index=a | table nosuchfield
index=a | nosuchcommand
index=a | where
index=a | dedup k
index=a | eval y=if(cidrmatch("10.0.0.0/8", k), 1, 0)
'''.strip("\n").split("\n")
CELLS = [c.replace("\\n| ", "\n| ").replace('\\n"', '\n"') for c in CELLS]
FLAGS = {"dry": [None, "--dry-run", "--no-dry-run"], "rt": [None, "--use-runtime", "--no-use-runtime"], "fmt": [None, "--format-code", "--no-format-code"], "print": [None, "--print-code", "--no-print-code"], "var": [None, "--var-name res", "--var-name df_1", "--var-name=spark", "--var-name MyDf"]}
NAMESPACES = {
    "empty": lambda: {},
    "df is there": lambda: {"df": "old", "other": 5},
    "names the code uses": lambda: {"df_1": "mine", "df_2": "mine", "F": "mine", "spark": "mine", "commands": "mine", "functions": "mine"},
    "builtins hidden": lambda: {"print": "mine", "display": "mine", "spl_code": "mine", "args": "mine", "result": [1, 2]},
}
_SHELL = []


def shell():
    if not _SHELL:
        _SHELL.append(tempfile.TemporaryDirectory())
        os.environ["COLUMNS"] = "2500"  # lines are cut at the width of the terminal
        os.environ["IPYTHONDIR"] = _SHELL[0].name
        from IPython.core.interactiveshell import InteractiveShell
        from traitlets.config import Config
        c = Config()
        c.HistoryManager.enabled = False
        main = sys.modules["__main__"]
        sh = InteractiveShell.instance(config=c)
        sys.modules["__main__"] = main
        sh.extension_manager.load_extension("spl_transpiler.runtime.magic")
        _SHELL.append(sh)
        _SHELL.append(dict(sh.user_ns))
    return _SHELL[1], _SHELL[2]


def given(flags, name, default):
    return default if flags[name] is None else not flags[name].startswith("--no-")


def words(text):
    return "".join(text.split())


def job_magic(r, job):
    sh, start = shell()
    session = X.Session(TABLES)
    for cell in job["cells"]:
        r.sample(cell)
        codes = {(rt, fmt): impl.convert(cell, rt, fmt) for rt in (False, True) for fmt in (False, True)}
        results = {}
        for rt in (False, True):
            got = X.run(cell, session, rt)
            results[rt] = repr(got[1]) if got[0] == "ok" else got[0]
        for values in itertools.product(*FLAGS.values()):
            flags = dict(zip(FLAGS, values))
            for ns_name in job["namespaces"]:
                case = (flags, ns_name)
                r.states += 1
                r.transitions += 1
                r.traces += 1
                mine = NAMESPACES[ns_name]()
                sh.user_ns.clear()
                sh.user_ns.update(start)
                sh.user_ns.update(mine)
                session.use()
                line = " ".join(v for v in values if v)
                out = io.StringIO()
                error = None
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        sh.run_cell_magic("spl", line, cell)
                    except Exception as e:
                        error = e
                rt, fmt = given(flags, "rt", True), given(flags, "fmt", True)
                var = "df" if flags["var"] is None else flags["var"][11:].strip()
                what = f"%%spl {line} with {cell!r} ({ns_name})"
                key = f"{cell}: {line}: {ns_name}"
                code = codes[rt, fmt]
                ran = not given(flags, "dry", False) and code[0] == "ok"
                # errors
                fails = code[0] != "ok" or ran and results[rt] == "broken"
                if (error is not None) != fails:
                    r.bad(key, f"{what} {'raised ' + repr(error) if error else 'raised nothing'} but {'should' if fails else 'should not'} fail ({code[0]}, {results[rt]})", job)
                    continue
                # the code is shown
                shown = words(out.getvalue())
                exp = words(code[1]) if code[0] == "ok" and given(flags, "print", True) else ""
                if shown != exp:
                    r.bad(key, f"{what} shows {out.getvalue()[:300]!r} instead of {exp[:300]!r}", job)
                    continue
                # the namespace
                after = {k: v for k, v in sh.user_ns.items() if k not in start or v is not start[k]}
                want = dict(mine)
                result = after.pop(var, None) if ran and not fails else None
                if ran and not fails:
                    want.pop(var, None)
                    try:
                        got = repr(X.out_of(result))
                    except TypeError as e:
                        got = str(e)
                    if got != results[rt]:
                        r.bad(key, f"{what} leaves {var} = {got[:300]} instead of {results[rt][:300]}", job)
                        continue
                after.pop("__builtins__", None)
                if after != want:
                    r.bad(key, f"{what} changes the user's names: {sorted(set(after) ^ set(want)) or [k for k in want if after[k] != want[k]]}", job)
                    continue
                r.outcomes["failed as it must, nothing changed" if fails else "ran" if ran else "dry run"] += 1


def job_sequences(r, job):
    """Several cells in one session; each result is as in a session of its own and earlier ones stay."""
    sh, start = shell()
    session = X.Session(TABLES)
    cells = CELLS[:8] + CELLS[16:18] + CELLS[20:21]
    alone = {(c, rt): X.run(c, session, rt) for c in cells for rt in (False, True)}
    steps = [(c, rt, v) for c in cells for rt, v in ((True, "df"), (False, "res"))]
    for seq in itertools.product(steps[job["at"]::job["of"]], *[steps] * (job["length"] - 1)):
        r.states += 1
        r.traces += 1
        sh.user_ns.clear()
        sh.user_ns.update(start)
        session.use()
        want = {}
        for c, rt, v in seq:
            r.transitions += 1
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    sh.run_cell_magic("spl", f"--no-print-code --no-format-code --var-name {v}" + ("" if rt else " --no-use-runtime"), c)
                except Exception:
                    pass
            if alone[c, rt][0] == "ok":
                want[v] = repr(alone[c, rt][1])
            got = {}
            for name in ("df", "res"):
                if name in sh.user_ns:
                    try:
                        got[name] = repr(X.out_of(sh.user_ns[name]))
                    except TypeError as e:
                        got[name] = str(e)
            if got != want:
                r.bad(f"sequence: {seq}", f"after the cells {seq} up to {c!r} the results are {got}, not {want}", job)
                break
        else:
            r.outcomes["sequence of cells"] += 1


def jobs(tier):
    deep = tier == "thorough"
    out = [{"kind": "exec", "first": [s], "length": k} for k in range(1, 4) for s in (STATEMENTS if deep or k < 3 else STATEMENTS[1::3])] + [{"kind": "exec_errors"}]
    if deep:
        out += [{"kind": "exec", "first": [s], "length": 4} for s in STATEMENTS[::2]]
    names = list(NAMESPACES)
    out += [{"kind": "magic", "cells": [c], "namespaces": names if deep else [names[i % 4]]} for i, c in enumerate(CELLS)]
    out += [{"kind": "sequences", "at": i, "of": 22, "length": 3 if deep else 2} for i in range(22)]
    return out


def bounds(tier):
    deep = tier == "thorough"
    return f"every program of up to {'3 statements and half of those of 4' if deep else '2 statements and a third of those of 3'} of {len(STATEMENTS)} kinds with names in globals, locals or both; {len(CELLS)} cells x every combination of the options ({' x '.join(str(len(v)) for v in FLAGS.values())}) x {len(NAMESPACES) if deep else '1 of 4'} namespaces; every sequence of {3 if deep else 2} cells of 22"


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
