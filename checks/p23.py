"""P23: formatting changes the layout of generated code only, and never fails."""
import ast
import itertools
import sys
import types

from spl_transpiler import convert_spl_to_pyspark, parse, render_pyspark

import p22
from vf import corpus, impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["two programs are the same if Python's parser builds the same tree for both, constants with their types and signs included"]
MODES = (False, True)


def dump(code):
    return ast.dump(ast.parse(code))


def conv(q, rt, fmt):
    try:
        return impl.convert(q, rt, fmt)
    except impl.Panic as e:
        return ("panic", str(e))


def same(r, job, q, rt):
    r.states += 1
    plain, nice = conv(q, rt, False), conv(q, rt, True)
    mode = "runtime" if rt else "standalone"
    if plain[0] != "ok":
        if plain != nice:
            r.bad(f"{q}", f"[{mode}] {q!r} is refused without formatting ({plain[1][:200]}) but not in the same way with it: {nice[1][:300]}", job)
        else:
            r.outcomes["refused either way"] += 1
        return
    r.traces += 1
    if nice[0] != "ok":
        r.bad(f"{q}", f"[{mode}] {q!r} converts without formatting but with it fails: {nice[1][:300]}", job)
        return
    try:
        a, b = dump(plain[1]), dump(nice[1])
    except (SyntaxError, ValueError) as e:
        r.bad(f"{q}", f"[{mode}] the code of {q!r} is no Python: {e}\n   {plain[1][:300]}\n   {nice[1][:300]}", job)
        return
    if a != b:
        r.bad(f"{q}", f"[{mode}] formatting changes the code of {q!r}:\n   {plain[1][:600]}\n   {nice[1][:600]}", job)
    elif nice[1] != nice[1].strip():
        r.bad(f"{q} margin", f"[{mode}] the formatted code of {q!r} has blanks at its ends", job)
    else:
        r.outcomes["same program"] += 1
    r.transitions += 1
    # formatting is the default, and the same through either function
    if job.get("ways"):
        p = parse(q)
        ways = {"convert_spl_to_pyspark(q, rt)": convert_spl_to_pyspark(q, rt), "keyword": convert_spl_to_pyspark(spl_code=q, format_code=True, allow_runtime=rt), "render_pyspark": render_pyspark(p, allow_runtime=rt), "render_pyspark, format_code": render_pyspark(p, allow_runtime=rt, format_code=True)}
        if not rt:
            ways["convert_spl_to_pyspark(q)"] = convert_spl_to_pyspark(q)
            ways["render_pyspark(p)"] = render_pyspark(p)
        for n, c in ways.items():
            r.transitions += 1
            if c != nice[1]:
                r.bad(f"{n}: {q}", f"[{mode}] {n} gives other code for {q!r} than format_code=True", job)
        if render_pyspark(p, allow_runtime=rt, format_code=False) != plain[1]:
            r.bad(f"format_code=False: {q}", f"[{mode}] render_pyspark and convert_spl_to_pyspark give different plain code for {q!r}", job)


def job_queries(r, job):
    for q in job["queries"]:
        r.sample(q)
        for rt in MODES:
            same(r, job, q, rt)


CHARS = ['\\"', "'", "\\\\", "{", "}", "#", "\n", "\t", "é", "%", "b", "r", " ", "\x0c", "\x85", "\u2028", "\U0001f600", "0", ";", "\\n"]
PLACES = ['index=a | eval x="{}"', 'index=a | where x="{}"', 'index=a | eval x=replace("{}", "a", "b")', 'search "{}"', 'search index=a x="{}" y="z"', 'index=a | fillnull value="{}" k', 'index=a | eval x=if(a="{}", 1, 2), y="{}" . "{}"', 'index=a | stats count as "{}"', 'index=a | rename a as "{}"', 'index=a | join k [search index=b "{}"]']


def job_texts(r, job):
    for text in job["texts"]:
        for p in PLACES:
            for rt in MODES:
                same(r, job, p.replace("{}", text), rt)


def job_widths(r, job):
    """Code of every length, so that lines are broken in every place."""
    for form, n in itertools.product(["index=a | eval x=if({}=1, \"b\", c)", "index=a | where {} > 1 AND b < 2 OR c=3", "index=a | table {}", "index=a | stats count(eval({} > 1)) as n by k", "index=a | sort - {}", "{}=1 b=2 OR NOT c=\"x*\"", "index=a | eval {}=-1 - -b", "index=a | rex field={} \"(?<x>a)(?<y>b)\""], range(job["lo"], job["hi"])):
        for rt in MODES:
            same(r, job, form.replace("{}", "a" * n), rt)
    r.sample(f"names of {job['lo']} to {job['hi']} letters")


class Fails(Exception):
    pass


def formatters():
    """Every way in which the formatter may be missing or fail."""
    yield "not installed", None
    for e in (ImportError("no"), Fails("x"), ValueError("Cannot parse: 1:3: x"), RuntimeError("x"), MemoryError(), RecursionError(), UnicodeDecodeError("utf8", b"x", 0, 1, "y"), AssertionError()):
        def fail(*a, e=e, **k):
            raise e
        yield f"format_str raises {e!r}", types.SimpleNamespace(FileMode=lambda: 1, format_str=fail)
        yield f"FileMode raises {e!r}", types.SimpleNamespace(FileMode=fail, format_str=lambda *a, **k: "x")
    yield "has no FileMode", types.SimpleNamespace(format_str=lambda *a, **k: "x")
    yield "has no format_str", types.SimpleNamespace(FileMode=lambda: 1)


def job_faults(r, job):
    """Without a formatter, or with one that fails, the code is returned as it is."""
    import black
    try:
        for q, rt in itertools.product(job["queries"], MODES):
            sys.modules["black"] = black
            plain, nice = conv(q, rt, False), conv(q, rt, True)
            for what, f in formatters():
                sys.modules["black"] = f
                r.states += 1
                r.traces += 1
                r.transitions += 2
                got = conv(q, rt, True)
                if got != plain:
                    r.bad(f"{what}: {q}", f"when black {what}, {q!r} gives {got[1]!r} instead of the plain code {plain[1]!r}", job)
                else:
                    r.outcomes["plain code without formatter"] += 1
                sys.modules["black"] = black
                if conv(q, rt, True) != nice:
                    r.bad(f"after {what}: {q}", f"after black failed ({what}), {q!r} is not formatted as before", job)
    finally:
        sys.modules["black"] = black


def queries():
    return list(dict.fromkeys(q if q.startswith(p22.GENERATING) else "index=zz | " + q for q in corpus.ALL + p22.EXTRA + p22.UNIMPLEMENTED[::3]))


def jobs(tier):
    deep = tier == "thorough"
    qs = queries()
    out = [{"kind": "queries", "queries": c, "ways": True} for c in chunks(qs, 10)]
    heads = [q.split("|", 1)[1].strip() for q in qs if q.startswith("index=zz | ")]
    pairs = [f"index=zz | {a} | {b}" for a, b in (itertools.product(heads, repeat=2) if deep else zip(heads, heads[7:] + heads[:7]))]
    out += [{"kind": "queries", "queries": c} for c in chunks(pairs, 40)]
    n = 2
    texts = ["".join(t) for k in range(n + 1) for t in itertools.product(CHARS if deep or k < 2 else CHARS[:10], repeat=k)]
    if deep:
        texts += ["".join(t) for t in itertools.product(CHARS[:9], repeat=3)]
    out += [{"kind": "texts", "texts": c} for c in chunks(texts, 6)]
    out += [{"kind": "widths", "lo": a, "hi": a + 6} for a in range(1, 121 if deep else 97, 6)]
    out += [{"kind": "faults", "queries": c} for c in chunks(qs[::1 if deep else 6], 5)]
    return out


def bounds(tier):
    deep = tier == "thorough"
    return (f"{len(queries())} queries and {'every pair' if deep else 'a ring of pairs'} of their commands; texts of up to 2 of {len(CHARS) if deep else '20 (10)'} characters{', 3 of 9' if deep else ''} in {len(PLACES)} places; names of every length up to {120 if deep else 96} in 8 queries; "
            f"{sum(1 for _ in formatters())} ways the formatter may be missing or fail; both modes")


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
