"""P06: eval computes, and where filters by, the value of its expression."""
import itertools

from vf import execute as X
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "an operation on an absent value is absent; AND, OR and NOT are three-valued; where keeps events whose condition is true",
    "no division by zero and no implicit casts between strings and numbers except in concatenation",
]

SCHEMA = [("a", "bigint"), ("c", "bigint"), ("d", "double"), ("s", "string"), ("u", "string"), ("my field", "bigint")]
SU = list(itertools.product((None, "x", "aB"), (None, "x", " y")))
ROWS = [(a, c, d) + SU[(5 * i + i // 9) % 9] + ((i * 7) % 5,) for i, (a, c, d) in enumerate(itertools.product((None, 0, 1, 3), (None, 2, 4), (None, 0.5, 2.5)))]
BASE = R.Frame.of(SCHEMA, ROWS)

f = lambda n: ("f", n)  # noqa: E731
k = lambda v: ("c", v)  # noqa: E731
b = lambda op, x, y: ("bin", op, x, y)  # noqa: E731
NUM = [f("a"), f("c"), f("d"), k(2), k(10)]
DIV = [f("c"), k(2), k(4)]          # never zero
STRS = [f("s"), f("u"), k("x"), k("a b")]


def num(depth, leaves, divs):
    """Arithmetic trees with exactly `depth` operators."""
    if depth == 0:
        yield from leaves
        return
    for i in range(depth):
        for x in num(i, leaves, divs):
            for op in "+-*":
                for y in num(depth - 1 - i, leaves, divs):
                    yield b(op, x, y)
            if depth - 1 - i == 0:
                for y in divs:
                    yield b("/", x, y)


CMPS = ("=", "==", "!=", "<", "<=", ">", ">=")
ATOMS = [b("=", f("a"), k(1)), b(">", f("d"), f("c")), b("!=", f("s"), k("x")), ("call", "isnull", f("u")), ("in", "a", (0, 3)),
         ("call", "like", f("s"), k("a%")), ("call", "true"), b("<", b("+", f("a"), f("c")), b("*", f("d"), k(2)))]


def boolean(n, nots, atoms):
    if n == 1:
        for t in atoms:
            yield t
            for _ in range(nots):
                t = ("not", t)
                yield t
        return
    for i in range(1, n):
        for x in boolean(i, nots, atoms):
            for y in boolean(n - i, nots, atoms):
                for op in ("AND", "OR"):
                    yield b(op, x, y)
                    if nots:
                        yield ("not", b(op, x, y))


def booleans(tier):
    for op in CMPS:
        for x, y in itertools.product(NUM, NUM[:4]):
            yield b(op, x, y)
            yield ("not", b(op, x, y))
            yield ("not", ("not", b(op, y, x)))
        for x, y in itertools.product(STRS, STRS):
            yield b(op, x, y)
            yield ("not", b(op, x, y))
        for x in num(1, NUM[:3], DIV[1:]):
            yield b(op, x, f("d"))
            yield b(op, f("c"), x)
        yield b(op, b(".", f("s"), f("u")), b(".", f("u"), f("s")))
    for n in (1, 2, 3, 4):
        for cs in itertools.combinations((0, 1, 2, 3), n):
            yield ("in", "a", cs)
    yield ("in", "s", ("x", "y"))
    yield ("in", "u", (" y",))
    yield from boolean(1, 3, ATOMS)
    yield from boolean(2, 1, ATOMS)
    yield from boolean(3, 1 if tier == "thorough" else 0, ATOMS if tier == "thorough" else ATOMS[:6])
    if tier == "thorough":
        yield from boolean(4, 0, ATOMS[:5])


def concats():
    ops = STRS + [f("a"), k(7), ("call", "upper", f("s"))]
    for x, y in itertools.product(ops, ops):
        yield b(".", x, y)
    for x, y, z in itertools.product(STRS + [f("a")], repeat=3):
        yield b(".", b(".", x, y), z)
        yield b(".", x, b(".", y, z))
    for x in num(1, NUM[:2], ()):
        yield b(".", f("s"), x)
        yield b(".", x, f("s"))


def conditionals():
    c2 = ATOMS[:4] + [b("AND", ATOMS[0], ATOMS[1]), b("OR", ATOMS[2], ("not", ATOMS[3]))]
    for c in c2:
        for x, y in itertools.product(NUM[:4], repeat=2):
            yield ("call", "if", c, x, y)
        for x, y in itertools.product(STRS, repeat=2):
            yield ("call", "if", c, x, y)
    for c, e in itertools.product(c2, repeat=2):
        yield ("call", "case", c, k("one"), e, f("s"))
        yield ("call", "case", c, f("a"), e, f("c"), ("call", "true"), k(9))
        yield ("call", "validate", c, k("one"), e, k("two"))
        yield ("call", "validate", c, f("a"), e, f("c"), ATOMS[0], k(9))
        yield ("call", "if", c, ("call", "if", e, f("a"), k(5)), b("+", f("c"), k(1)))
        yield b("+", ("call", "if", c, f("a"), k(5)), ("call", "if", e, k(1), f("c")))
    for x, y, z in itertools.product([f("a"), f("c"), f("d"), k(7)], repeat=3):
        yield ("call", "coalesce", x, y, z)


MENU = [("x", b("+", f("a"), k(1))), ("a", b("*", f("a"), k(2))), ("x", f("c")), ("y", b("-", f("a"), f("c"))), ("s", b(".", f("s"), k("!"))),
        ("my field", b("+", f("my field"), f("c"))), ("c", ("call", "coalesce", f("c"), k(0))), ("flag", b(">", f("a"), f("c")))]
# these need x, which an earlier assignment must have created
USES = [("a", b("+", f("x"), f("a"))), ("x", b("*", f("x"), k(3))), ("z", ("call", "if", b("=", f("x"), f("a")), k("eq"), f("s")))]


def assignments(n):
    allm = MENU + USES
    for seq in itertools.product(range(len(allm)), repeat=n):
        have = False
        ok = True
        for i in seq:
            if i >= len(MENU) and not have:
                ok = False
            if allm[i][0] == "x":
                have = True
        if ok:
            yield [allm[i] for i in seq]


FAM = {
    "arith0": lambda t: num(0, NUM, DIV), "arith1": lambda t: num(1, NUM, DIV), "arith2": lambda t: num(2, NUM[:4], DIV[:2]),
    "arith3": lambda t: num(3, NUM[:3], DIV[:1]), "arith4": lambda t: num(4, NUM[:2], DIV[:1]),
    "bool": booleans, "concat": lambda t: concats(), "cond": lambda t: conditionals(), "strs": lambda t: iter(STRS),
}
CHUNK = 250


def jobs(tier):
    out = []
    for fam in FAM:
        if fam == "arith4" and tier != "thorough":
            continue
        n = sum(1 for _ in FAM[fam](tier))
        out += [{"kind": "expr", "fam": fam, "tier": tier, "at": i} for i in range(0, n, CHUNK)]
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        m = sum(1 for _ in assignments(n))
        out += [{"kind": "assign", "n": n, "at": i} for i in range(0, m, CHUNK)]
    return out


def bounds(tier):
    th = tier == "thorough"
    return (f"arithmetic trees of up to {4 if th else 3} operators, comparisons, boolean trees of up to {4 if th else 3} conditions with NOT, concatenations of up to 3, conditionals nested twice, "
            f"with minimal and full parentheses, in both modes; every sequence of up to {4 if th else 3} assignments from {len(MENU) + len(USES)}, in one eval and in several; {len(ROWS)} events combining absent and present values")


def run(job):
    r = Res()
    session = X.Session({"main": (SCHEMA, ROWS)})
    if job["kind"] == "one":
        probe(r, session, job["q"], _tup(job["what"]), job["rt"])
    elif job["kind"] == "expr":
        for e in itertools.islice(FAM[job["fam"]](job["tier"]), job["at"], job["at"] + CHUNK):
            forms = [(False, False), (False, True)]
            if e[0] != "f" and e[0] != "c":
                forms.append((True, False))
            for full, rt in forms:
                t = R.show(e, full)
                if job["fam"] == "bool":
                    probe(r, session, f"index=main | where {t}", ("where", e), rt)
                probe(r, session, f"index=main | eval r={t}", ("eval", (("r", e),)), rt)
    else:
        for seq in itertools.islice(assignments(job["n"]), job["at"], job["at"] + CHUNK):
            parts = [f"{R.name(n)}={R.show(e)}" for n, e in seq]
            for rt in (False, True):
                probe(r, session, "index=main | eval " + ", ".join(parts), ("eval", tuple(seq)), rt)
                if len(seq) > 1:
                    probe(r, session, "index=main | " + " | ".join("eval " + p for p in parts), ("eval", tuple(seq)), rt)
    return r


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def probe(r, session, q, what, rt):
    out = BASE.where(what[1]) if what[0] == "where" else BASE.eval(*what[1])
    sem.check(r, q, session, X.Out(out.cols, out.tuples()), {"kind": "one", "q": q, "what": what, "rt": rt}, rt)
    r.sample(q, 1)
