"""P19: the syntax tree is an immutable value that holds exactly what the query says."""
import itertools

from spl_transpiler import ast, parse

import p22
from vf import corpus, impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["repr shows the whole structure of a node (checked against the attributes where there are any)"]
MODES = (False, True)


def attributes(x):
    """What a node tells about itself."""
    return [a for a in dir(x) if not a.startswith("__") and not a[0].isupper() and not callable(getattr(x, a))]


def is_node(x):
    return x is not None and not isinstance(x, (str, int, float, bool, list, tuple, dict))


def nodes(x):
    """All nodes of a tree, from the top."""
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from nodes(y)
    elif is_node(x):
        yield x
        for a in attributes(x):
            yield from nodes(getattr(x, a))


def shape(x):
    """The structure of a node as nested tuples, read from its attributes; the text of a node without any."""
    if isinstance(x, (list, tuple)):
        return tuple(shape(y) for y in x)
    if not is_node(x):
        return (type(x).__name__, x)
    at = attributes(x)
    if not at:
        return (type(x).__name__, repr(x))
    return (type(x).__name__, *((a, shape(getattr(x, a))) for a in at))


def rebuild(x):
    """The same tree, made anew from its parts."""
    if isinstance(x, list):
        return [rebuild(y) for y in x]
    if isinstance(x, tuple):
        return tuple(rebuild(y) for y in x)
    if not is_node(x):
        return x
    at = attributes(x)
    if not at:
        return x
    kids = {a: rebuild(getattr(x, a)) for a in at}
    if at == ["_0"]:
        return type(x)(kids["_0"])
    return type(x)(**kids)


def read(q):
    try:
        return parse(q)
    except ValueError:
        return None


def render(p):
    out = []
    for rt in MODES:
        try:
            out.append(impl.render(p, rt, False))
        except impl.Panic as e:
            out.append(("panic", str(e)))
    return out


def job_nodes(r, job):
    for q in job["queries"]:
        p = read(q)
        r.states += 1
        if p is None:
            r.outcomes["query refused"] += 1
            continue
        r.sample(q)
        r.traces += 1
        again = read(q)
        if not (p == again and hash(p) == hash(again) and repr(p) == repr(again)) or p != again:
            r.bad(f"read twice: {q}", f"reading {q!r} twice gives different trees", job)
        for x in nodes(p):
            r.states += 1
            name = type(x).__name__
            if "_" not in name and getattr(ast, name, None) is not type(x):
                r.bad(f"{name} is not in ast", f"{name} (in the tree of {q!r}) is not available as spl_transpiler.ast.{name}", job)
            text, h, s = repr(x), hash(x), shape(x)
            # immutable
            for a in [*attributes(x), "other"]:
                for change in ((lambda: setattr(x, a, None)), (lambda: delattr(x, a))):
                    r.transitions += 1
                    try:
                        change()
                    except (AttributeError, TypeError):
                        r.outcomes["refuses to be changed"] += 1
                    else:
                        r.bad(f"{name}.{a} can be changed", f"{name}.{a} of the tree of {q!r} can be set or deleted", job)
            # what an attribute returns is no way into the node either
            for a in attributes(x):
                v = getattr(x, a)
                if isinstance(v, list):
                    v.append(None)
                    v[:] = v[::-1]
            if repr(x) != text and "object at" not in text or hash(x) != h or shape(x) != s or not x == x or x != x:
                r.bad(f"{name} changed", f"{name} of {q!r} is not the same after its lists were changed: {text} {x!r}", job)
            # made of its parts
            r.transitions += 1
            try:
                y = rebuild(x)
            except Exception as e:
                r.bad(f"{name} cannot be made", f"{name} of {q!r} cannot be made from its attributes {attributes(x)}: {e!r}", job)
                continue
            if not (x == y and y == x and hash(x) == hash(y) and shape(y) == s):
                r.bad(f"{name} differs when made anew", f"{name} of {q!r} made from its attributes is another: {shape(y)} instead of {s}", job)
            else:
                r.outcomes["made of its parts"] += 1
        if render(rebuild(p)) != render(p):
            r.bad(f"render: {q}", f"the tree of {q!r} made anew gives other code", job)


def job_equality(r, job):
    """Trees are equal if and only if they have the same structure, over every pair."""
    import p18
    compare_all(r, job, [v for q in job["queries"] for v in p18.variants(q)])


# literals and expressions that mean the same or nearly the same, but are written differently
KIN = [["60s", "1m", "60sec", "1min", "3600s", "60m", "1h", "24h", "1d", "7d", "1w", "168h", "12mon", "1y"], ["x", "X", '"x"', "'x'", '"x "', "x1", '"X"'], ["x*", "x**", "X*", '"x*"', "*x", "*"],
       ["1", "1.0", "01", "+1", "1.00", '"1"', "-1", "-1.0", "0", "-0", "0.0", "9223372036854775807", "9223372036854775807.0", "9223372036854775808"],
       ["10.0.0.0/8", "10.0.0.0/08", "10.1.2.3/8", "10.0.0.0/16", "10.0.0.0", '"10.0.0.0/8"', "010.0.0.0/8"], ["a.b", '"a.b"', "'a.b'", '"a"."b"', "a. b"], ["-1d@d", "-24h@d", "-1d@h", "@d", "+0d@d", "-1d@d+0h", "@d-1d", "-1d"],
       ["true", "t", "TRUE", "false", "f", '"true"', "null", '"null"'], ["é", "e\u0301", '"é"', '"e\u0301"'], ['""', '" "', "'", "''"],
       ["a + b", "b + a", "a - b", "b - a", "a * b", "b * a"], ["a + b + c", "a + (b + c)", "(a + b) + c", "c + b + a"], ["a=b", "b=a", "a==b", "a::b", "a!=b", "NOT a=b", "NOT a!=b"], ["a AND b", "b AND a", "a b", "a AND b AND a", "a", "(a)"],
       ["a OR b", "b OR a", "a OR b OR a", "(a OR b)"], ["NOT a", "NOT NOT a", "NOT NOT NOT a", "not a"], ["a IN (x)", "a IN (x, x)", "a IN (x, y)", "a IN (y, x)", "a=x"], ["a < b", "b > a", "a <= b", "NOT a > b"],
       ["max(a, b)", "max(b, a)", "max(a, b, a)", "MAX(a, b)", "max(max(a, b))"], ["a, b", "b, a", "a b", "a, b, a", "a", "a, a"], ["count", "count()", "count as count", "c", "count(a)", "count as c"]]
KIN_PLACES = ["eval z={}", "where {}", "search {}", "search z={}", "search z IN ({})", "where z={}", "bin span={} z", "stats {}", "stats max({})", "stats count by {}", "table {}", "fields {}", "fields - {}", "head {}", "sort {}", "sort -{}", "sort {} z",
              "fillnull value={} z", "fillnull {}", "eval z=f({})", "eval z=relative_time(z, {})", "eval {}=1", "rename {} as z", "rename z as {}", "join {} [search index=b]", "lookup l {}", "addtotals {}", "makeresults count={}", "streamstats window={} count",
              "top {}", "rex {}", "return {}", "mvexpand {}", "convert ctime({})", "dedup {}", "join z [search index={}]", "map search=\"search x={}\""]


def job_kin(r, job):
    compare_all(r, job, [f"index=a | {place.format(t)}" for place in job["places"] for t in KIN[job["i"]]])


def compare_all(r, job, texts):
    found = {}
    for t in texts:
        p = read(t)
        if p is not None:
            for x in nodes(p):
                found.setdefault(type(x).__name__, {}).setdefault(shape(x), []).append(x)
    for name, group in found.items():
        items = [(s, x) for s, xs in group.items() for x in xs[:2]]
        if len(items) > 1500:
            items = items[:1500]
        r.sample(f"{name}: {len(items)} nodes")
        for (s, x), (u, y) in itertools.combinations(items, 2):
            r.states += 1
            r.transitions += 1
            if (x == y) != (s == u) or (x != y) == (s == u) or (y == x) != (s == u):
                r.bad(f"{name}: {str(s)[:80]} {str(u)[:80]}", f"{name} nodes compare as {'equal' if x == y else 'different'}:\n   {s}\n   {u}", job)
            elif s == u and hash(x) != hash(y):
                r.bad(f"{name}: hash", f"equal {name} nodes with different hashes: {s}", job)
            else:
                r.outcomes["equal" if s == u else "different"] += 1
            r.traces += 1
        # nodes as members of sets and keys of dictionaries
        if len({x for _, x in items}) != len({s for s, _ in items}):
            r.bad(f"{name}: set", f"a set of {name} nodes has {len({x for _, x in items})} members, there are {len({s for s, _ in items})} different ones", job)
    # nodes of different kinds, and anything else
    one = [next(iter(g.values()))[0] for g in found.values()]
    for x, y in itertools.permutations([*one, None, 0, "", [], ()], 2):
        r.states += 1
        if is_node(x) and x == y:
            r.bad(f"{type(x).__name__} {type(y).__name__}", f"{type(x).__name__} equals {type(y).__name__}", job)


def job_compose(r, job):
    """The tree of a pipeline has the trees of its commands; a pipeline put together from commands is the one that is written so."""
    for a, b in itertools.product(job["queries"], job["others"]):
        r.states += 1
        r.transitions += 1
        p, q, both = read(a), read("| " + b), read(f"{a} | {b}")
        if p is None or q is None:
            if both is not None:
                r.bad(f"{a} | {b}", f"{a} | {b} is read although {'the first' if p is None else 'the second'} part is not", job)
            r.outcomes["a part is refused"] += 1
            continue
        if both is None:
            r.bad(f"{a} | {b}", f"{a} | {b} is not read although its parts are", job)
            continue
        r.traces += 1
        made = ast.Pipeline(p.commands + q.commands)
        if made != both or shape(made) != shape(both) or render(made) != render(both):
            r.bad(f"{a} | {b}", f"the tree of {a} | {b} is not made of the trees of its commands", job)
            continue
        r.outcomes["composed"] += 1
        # parts of it
        for i in range(len(both.commands)):
            part = ast.Pipeline(both.commands[i:])
            if [shape(c) for c in part.commands] != [shape(c) for c in both.commands[i:]]:
                r.bad(f"{a} | {b} from {i}", f"a part of the commands of {a} | {b} becomes other commands", job)


VALUES = {
    "Field": (["a", "a b", "", "é", "a\"b", "\\", "a.b", "1"], lambda v: f"where '{v}'=1" if v and "'" not in v and "\\" not in v and '"' not in v else None, lambda e: e.left),
    "StrValue": (["x", "", "a b", "é\n", "'", "{", "5"], lambda v: f'where "{v}"=1', lambda e: e.left),
    "IntValue": ([0, 1, 7, 2**31, 2**63 - 1], lambda v: f"where {v}=a", lambda e: e.left),
    "DoubleValue": ([0.5, 1.25, 1e10, 123456.75], lambda v: f"where {v!r}=a" if "e" not in repr(v) else None, lambda e: e.left),
    "BoolValue": ([True, False], lambda v: f"where {str(v).lower()}=a", lambda e: e.left),
}


def job_values(r, job):
    """A literal made in Python equals the literal read from a query with that value and no other."""
    for kind, (values, query, get) in VALUES.items():
        cls = getattr(ast, kind)
        for v, w in itertools.product(values, repeat=2):
            r.states += 1
            r.transitions += 1
            x, y = cls(v), cls(w)
            same = v == w
            if (x == y) != same or (x != y) == same or same and hash(x) != hash(y):
                r.bad(f"{kind} {v!r} {w!r}", f"{kind}({v!r}) and {kind}({w!r}) compare as {'equal' if x == y else 'different'}", job)
            q = query(w)
            if q is None:
                continue
            p = read("index=a | " + q)
            if p is None:
                continue
            leaf = impl.unwrap(get(impl.unwrap(impl.unwrap(p.commands[1]).expr)))
            if type(leaf).__name__ != kind:
                r.outcomes["read as something else"] += 1
                continue
            r.traces += 1
            if (leaf == x) != same:
                r.bad(f"{kind} {v!r} in {q}", f"{kind}({v!r}) and the literal {leaf!r} of {q!r} compare as {'equal' if leaf == x else 'different'}", job)
            else:
                r.outcomes["literal equal" if same else "literal different"] += 1


def queries():
    qs = dict.fromkeys(q if q.startswith(p22.GENERATING) else "index=zz | " + q for q in corpus.ALL + p22.EXTRA + p22.UNIMPLEMENTED)
    return list(qs)


def jobs(tier):
    deep = tier == "thorough"
    qs = queries()
    out = [{"kind": "nodes", "queries": c} for c in chunks(qs, 20)]
    out += [{"kind": "equality", "queries": c} for c in chunks(qs, 25 if deep else 8)]
    heads = [q.split("|", 1)[1].strip() for q in qs if q.startswith("index=zz | ")]
    out += [{"kind": "compose", "queries": c, "others": heads if deep else heads[::3]} for c in chunks(qs, 8)]
    out += [{"kind": "kin", "i": i, "places": c} for i in range(len(KIN)) for c in ([KIN_PLACES] if deep else chunks(KIN_PLACES, 13))]
    return out + [{"kind": "values"}]


def bounds(tier):
    n = len(queries())
    return f"every node of the trees of {n} queries; every pair of nodes of a kind among the trees of every {25 if tier == 'thorough' else 8} queries and their single-token variants; every pair of nodes among {len(KIN)} families of literals and expressions that mean nearly the same, in {len(KIN_PLACES)} places; every pair of {n} queries and {'all' if tier == 'thorough' else 'a third of the'} commands"


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
