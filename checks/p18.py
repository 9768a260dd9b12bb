"""P18: a conversion depends on the query and the options alone, not on what was converted before."""
import itertools
import json
import os
import re
import subprocess
import sys

from spl_transpiler import parse

import p22
from vf import corpus, impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "conversions hold Python's global lock from start to end (no part of the extension releases it), so that the histories of a process are sequences of whole conversions",
    "the order of Rust's hash tables is drawn anew for every conversion; it is exercised by the several hundred conversions of each query",
]
MODES = (False, True)
MENU = r'''
index=a
x=1 y=2
index=a sourcetype=b | head 3
search k=x* OR (s="y z" u=5)
index=a | eval x=a + 1
index=a | eval x=a+1, y=x * 2
index=a | eval x=b + 1 | where x > 2
index=a | stats count by k
index=a | stats count, sum(x) as t by k
index=a | stats count as count by k, l
index=b | stats count by k | sort - count | head 5
index=a | table a b c
index=a | fields - a
index=a | rename a as b
index=a | join k [search index=b | table k, v]
index=a | join type=left k [search index=b | join k [search index=c]]
multisearch [search index=a] [search index=b | eval x=1]
index=a | bin span=5m _time | stats count by _time
index=a | rex "(?<u>a+)(?<v>b)"
index=a | fillnull value=0 a
index=a | lookup users k OUTPUT n
makeresults count=3
tstats count from datamodel=M.N by f
index=a | addtotals a b
index=a | spath input=j output=o path=a.b
index=a | eval x=if(cidrmatch("10.0.0.0/8", ip), 1, 0)
index=a | eval x=printf("%d", a)
index=a | top limit=2 k
index=a | dedup k
index=a | wherre x=1
index=a | where
index=a | eval x=foo(a)
'''.strip().split("\n")


def conv(q, rt, fmt=False):
    try:
        return list(impl.convert(q, rt, fmt))
    except impl.Panic as e:
        return ["panic", str(e)]


SERVER = """
import sys, os, json
sys.path[:0] = json.loads(sys.argv[1])
import p18
out = []
for q, rt, fmt in json.load(sys.stdin):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        with os.fdopen(w, "w") as f:
            json.dump(p18.conv(q, rt, fmt), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    out.append(json.loads(t) if t else ["died", ""])
json.dump(out, sys.stdout)
"""
ORDER = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
import p18
json.dump([p18.conv(q, rt, fmt) for q, rt, fmt in json.load(sys.stdin)], sys.stdout)
"""


def other_process(code, items, env=None):
    p = subprocess.run([sys.executable, "-B", "-c", code, json.dumps(sys.path)], input=json.dumps(items), capture_output=True, text=True, env={**os.environ, **(env or {})}, cwd=(env or {}).get("HOME"))
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout)


def fresh(items):
    """Each conversion as the first one of a process."""
    return other_process(SERVER, items)


def agree(r, job, what, item, got, exp, history):
    r.traces += 1
    if got != exp:
        q, rt = item[:2]
        r.bad(f"{what}: {q}", f"{'runtime' if rt else 'standalone'} conversion of {q!r} gives {got[1]!r} {history}, but {exp[1]!r} in a new process", job)
    else:
        r.outcomes[what] += 1


def job_pairs(r, job):
    """Every query of the menu directly after every other, in every pair of modes."""
    qs, mine = job["queries"], job["mine"]
    nodes = [(q, rt, False) for q in qs for rt in MODES]
    base = dict(zip(nodes, map(list, fresh(nodes))))
    for a in [(q, rt, False) for q in mine for rt in MODES]:
        r.sample(a[0])
        for b in nodes[nodes.index(a):]:
            r.states += 1
            r.transitions += 2
            agree(r, job, "pair", a, conv(*a), base[a], f"after {b[0]!r}")
            agree(r, job, "pair", b, conv(*b), base[b], f"after {a[0]!r}")


def job_triples(r, job):
    nodes = [(q, rt, False) for q in MENU for rt in MODES]
    base = dict(zip(nodes, fresh(nodes)))
    first = [tuple(x) for x in job["first"]]
    for seq in itertools.product(first, *[nodes[::job.get("step", 1)]] * (job["length"] - 1)):
        r.states += 1
        r.transitions += 3
        for i, x in enumerate(seq):
            agree(r, job, "triple", x, conv(*x), base[x], f"after {[y[0] for y in seq[:i]]!r}")


def variants(q):
    """Queries that nearly are q: one token changed, left out, doubled, or in another case."""
    ts = p22.TOKEN.findall(q)
    out = [q, q.upper(), q.lower(), q + " ", q + "\n", q.replace(" ", "  "), q + " | head 3", "| " + q]
    for i, t in enumerate(ts):
        if t.isspace():
            continue
        new = [""]
        if t[0] in "\"'" and len(t) > 1:
            new += [t[:-1] + "z" + t[-1], t.swapcase()]
        elif t[0].isalpha():
            new += [t + "z", t.swapcase(), "t" + t[1:]]
        elif t[0].isdigit():
            new += [t + "1", "2" + t[1:]]
        out += ["".join(ts[:i] + [v] + ts[i + 1:]) for v in new]
    return list(dict.fromkeys(out))


def job_variants(r, job):
    """A query and all that nearly are it, forwards and backwards in two processes and here."""
    items = [(v, rt, False) for q in job["queries"] for v in variants(q) for rt in MODES]
    one = other_process(ORDER, items)
    two = other_process(ORDER, items[::-1])[::-1]
    here = [conv(*x) for x in items]
    for x, a, b, c in zip(items, one, two, here):
        r.states += 1
        r.transitions += 3
        agree(r, job, "near variants, backwards", x, b, a, "when its near variants are converted backwards")
        agree(r, job, "near variants, again", x, c, a, "after its near variants")


def job_tree(r, job):
    """One syntax tree rendered again and again; two trees rendered in turn."""
    for q in job["queries"]:
        base = {rt: tuple(conv(q, rt)) for rt in MODES}
        fresh_tree = lambda: parse(q)
        try:
            p = fresh_tree()
        except ValueError:
            r.outcomes["query refused"] += 1
            continue
        for seq in itertools.product(MODES, repeat=job["length"]):
            p = fresh_tree()
            text, h = repr(p), hash(p)
            r.states += 1
            for i, rt in enumerate(seq):
                got = impl.render(p, rt, False)
                r.transitions += 1
                agree(r, job, "same tree", (q, rt), got, base[rt], f"as rendering {i + 1} of one tree (runtime: {seq[:i + 1]})")
            if repr(p) != text or hash(p) != h or p != fresh_tree():
                r.bad(f"tree changed: {q}", f"the tree of {q!r} is not the same after rendering it ({seq})", job)
    for a, b in itertools.combinations(job["queries"], 2):
        try:
            ps = [parse(a), parse(b)]
        except ValueError:
            continue
        base = {(i, rt): impl.render(parse((a, b)[i]), rt, False) for i in (0, 1) for rt in MODES}
        for seq in itertools.product(base, repeat=2):
            r.states += 1
            for i, rt in seq:
                r.transitions += 1
                agree(r, job, "two trees", ((a, b)[i], rt), impl.render(ps[i], rt, False), base[i, rt], f"in turn with {(b, a)[i]!r}")


ENVS = [{"TZ": "Pacific/Kiritimati"}, {"TZ": "America/St_Johns", "LANG": "C", "LC_ALL": "C"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "4294967295", "LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"HOME": "/", "RUST_LOG": "trace", "RUST_BACKTRACE": "1"}, {"PYTHONUTF8": "0", "PYTHONDONTWRITEBYTECODE": "1", "TERM": "dumb", "NO_COLOR": "1"}]


def job_environment(r, job):
    items = [(q, rt, False) for q in job["queries"] for rt in MODES]
    base = other_process(ORDER, items)
    for env in ENVS:
        got = other_process(ORDER, items, env)
        for x, a, b in zip(items, base, got):
            r.states += 1
            agree(r, job, "environment", x, b, a, f"with {env}")


def queries():
    return list(dict.fromkeys(q if q.startswith(p22.GENERATING) else "index=zz | " + q for q in corpus.ALL + p22.EXTRA + p22.UNIMPLEMENTED[::3])) + MENU


def jobs(tier):
    deep = tier == "thorough"
    qs = queries()
    out = [{"kind": "pairs", "queries": qs, "mine": c} for c in (qs[i::8] for i in range(8))]
    nodes = [(q, rt, False) for q in MENU for rt in MODES]
    out += [{"kind": "triples", "first": c, "length": 3} for c in chunks(nodes if deep else nodes[::8], 2)]
    if deep:
        out += [{"kind": "triples", "first": [n], "length": 4, "step": 2} for n in nodes[::2]]
    out += [{"kind": "variants", "queries": c} for c in chunks(qs, 15)]
    out += [{"kind": "tree", "queries": c, "length": 6 if deep else 4} for c in (chunks(qs, 60) if deep else chunks(qs, 15))]
    out += [{"kind": "environment", "queries": c} for c in chunks(qs, 150)]
    return out


def bounds(tier):
    n = len(queries())
    return f"every ordered pair of {n} queries in every pair of modes; every sequence of 3 of {len(MENU)} queries x 2 modes{', and of 4 of half of them' if tier == 'thorough' else ' that begins with every eighth'}; every query with all its single-token variants in two orders; every sequence of {6 if tier == 'thorough' else 4} renderings of one tree and 2 of two trees; {len(ENVS)} environments"


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
