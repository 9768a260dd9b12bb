"""P14: each eval function computes its documented value."""
import itertools
import math

from vf import execute as X
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "arguments are of the documented type; a function of an absent value is absent unless it is about absence",
    "arguments stay inside the mathematical domain of the function",
]

INT = [0, 1, -1, 2, 7, -8, 10]
NAT = [0, 1, 2, 3, 5, 12, 255]
DBL = [0.0, 0.5, -1.5, 2.5, 3.14159, -0.25, 100.0, 2.675]
POS = [0.25, 0.5, 1.0, 2.0, 10.0, 1000.0]
SMALL = [0.0, 0.5, -1.0, 1.0, 2.0, -3.0]
UNIT = [0.0, 0.5, -0.5, 1.0, -1.0]
OPEN = [0.0, 0.5, -0.5, 0.9]
ONEUP = [1.0, 1.5, 2.0, 10.0]
STR = ["", "x", "abc", "aBcAb", "  a b ", "a,b,,c", "xx.yy", "a+b", "né", "xyx", "10.1.2.3", "[k]"]
URL = ["", "abc", "a%20b", "a+b", "%2Fx%3D%26", "100%25"]
NUMSTR = ["0", "1", "-2", "3.5", "1e3", "007", "-0.25"]
IPS = ["10.0.0.1", "10.255.255.255", "11.0.0.0", "9.255.255.255", "192.168.1.77", "192.168.2.1", "0.0.0.0"]
JSON = ['{"a": 1, "b": {"c": 2}}', "{}", '{"x y": []}', '{"b": 1, "a": 2}']
JSONANY = JSON + ["[1,2]", '"s"', "12", "{", "nope", '{"a":}', "[1,"]
MV = [["a"], ["a", "b"], ["x", "a", "c"], ["b", "", "d", "e"]]
MV2 = [["1"], ["2", "3"], ["4", "5", "6"]]
SAFE = ["", "x", "abc", "aBcAb", "a,b,,c", "né"]

# function -> list of argument lists; a domain is ("type", values), or a tuple of constants when the argument must be written in the query
N = lambda v: ("bigint", v)  # noqa: E731
D = lambda v: ("double", v)  # noqa: E731
S = lambda v: ("string", v)  # noqa: E731
M = lambda v: ("array<string>", v)  # noqa: E731
B = ("boolean", [True, False])
K = lambda *v: ("const", v)  # noqa: E731

REPLACE = [("a", "Z"), ("b+", "_"), ("[a-c]", ""), ("^x", "start"), ("(a)(.)", "\\2\\1"), ("\\s", "."), ("\\.", "dot"), ("x$", "$1"), ("(?i)A", "<\\0>"), ("", "-"), ("b", "c\\d"), ("(x)(.)", "\\2\\\\\\1"), ("a", "\\\\"), ("\\.", "$")]
SPECS = {
    "abs": [[N(INT)], [D(DBL)]], "ceiling": [[D(DBL)]], "floor": [[D(DBL)]], "round": [[D(DBL), K(0, 1, 2, 3, 4, 6)], [N(INT), K(0, 1)]],
    "pow": [[D(POS), D(SMALL)], [N(NAT[:6]), K(0, 1, 2, 3, 4)]], "sqrt": [[D(POS)], [N(NAT)]], "exp": [[D(SMALL)]], "ln": [[D(POS)]], "log": [[D(POS), K(2, 10)], [N([1, 2, 8, 100]), K(2, 10)]],
    "exact": [[N(INT)], [D(DBL)]], "pi": [[]],
    "sum": [[N(INT)], [D(DBL)], [N(INT)] * 2, [N(INT[:4])] * 3, [D(DBL[:5]), N(INT[:4])], [N(INT[:3])] * 4], "avg": [[N(INT)], [D(DBL)], [N(INT)] * 2, [N(INT[:4])] * 3, [D(DBL[:5]), D(DBL[:4])]],
    "max": [[N(INT)], [S(STR)], [N(INT)] * 2, [N(INT[:4])] * 3, [D(DBL)] * 2, [S(STR[:5])] * 2, [S(STR[1:5])] * 3], "min": [[N(INT)], [S(STR)], [N(INT)] * 2, [N(INT[:4])] * 3, [D(DBL)] * 2, [S(STR[:5])] * 2, [N(INT[:3])] * 4],
    "len": [[S(STR)]], "lower": [[S(STR)]], "upper": [[S(STR)]],
    "substr": [[S(STR), K(1, 2, 3, 4, 9, 100, -1, -2, -3), K(0, 1, 2, 3, 20, 1000)]],
    "split": [[S(STR), K(",", ".", "+", "x", "ab", " ", "|", "[", "a,b")]],
    "ltrim": [[S(STR), K(" ", "ax", "x.", "]["), ]], "rtrim": [[S(STR), K(" ", "ax", "x.", "][")]], "trim": [[S(STR), K(" ", "ax", "x.", "][")]],
    "urldecode": [[S(URL)]], "md5": [[S(STR)]], "sha1": [[S(STR)]], "sha256": [[S(STR)]], "sha512": [[S(STR)]],
    "tostring": [[N(INT)], [S(STR)], [D([0.5, -1.5, 100.25, 0.125, 2.0])], [("boolean", [True, False])]], "tonumber": [[S(NUMSTR)], [N(INT)]],
    "like": [[S(STR), K("%", "a%", "%b", "_", "a_c", "%a%b%", "x", "", "%.%", "[k]", "A%", "__")]],
    "match": [[S(STR), K("a", "^a", "b$", "[a-c]+", "^$", "a.b", "\\\\.", "x|y", "(?i)ABC", "^[^x]+$")]],
    "cidrmatch": [[K("10.0.0.0/8", "192.168.1.0/24", "192.168.0.0/16", "0.0.0.0/0", "10.0.0.1/32", "192.168.1.64/26"), S(IPS)]],
    "in": [[N(INT), K(1), K(2, 7)], [N(INT), K(0), K(-1), K(10)], [S(STR), K("x"), K("abc", "né")], [D(DBL), K(0.5), K(2.5)]],
    "nullif": [[N(INT)] * 2, [S(STR[:5])] * 2, [N(INT), K(1, 2)]], "isnull": [[N(INT)], [S(STR)], [M(MV)]], "isnotnull": [[D(DBL)], [S(STR)]],
    "coalesce": [[N(INT)], [S(STR)], [N(INT[:4])] * 2, [S(STR[:4])] * 3, [N(INT[:3])] * 4, [D(DBL[:4]), K(7.5)], [S(STR), K("none")]],
    "if": [[B, N(INT[:3]), N(INT[3:5])], [B, S(STR[:2]), S(STR[2:4])]],
    "case": [[B, N(INT[:3])], [B, N(INT[:2]), B, N(INT[2:4])], [B, S(STR[:2]), B, K("else")], [B, N(INT[:1]), B, N(INT[1:2]), B, N(INT[2:3])]],
    "validate": [[B, N(INT[:3])], [B, N(INT[:2]), B, N(INT[2:4])], [B, S(STR[:2]), B, K("else")], [B, N(INT[:1]), B, N(INT[1:2]), B, N(INT[2:3])]],
    "true": [[]], "false": [[]],
    "bit_and": [[N(NAT)] * 2], "bit_or": [[N(NAT)] * 2], "bit_xor": [[N(NAT)] * 2], "bit_not": [[N(NAT)]], "bit_shift_left": [[N(NAT[:6]), K(0, 1, 2, 3, 8, 31, 32, 33, 40)]], "bit_shift_right": [[N(NAT + [1 << 31, (1 << 40) + 5, 1 << 62]), K(0, 1, 2, 3, 8, 31, 32, 33, 40, 62)]],
    "mvcount": [[M(MV)]], "mvindex": [[M(MV), K(0, 1, 2, 5)], [M(MV), K(0, 1, 2), K(0, 1, 2, 5)], [M(MV[3:]), K(-4, -3, -2, -1), K(-4, -3, -2, -1)]],
    "mvappend": [[M(MV), M(MV2)], [M(MV)] * 2, [M(MV), M(MV2), M(MV[:2])]], "mvzip": [[M(MV[:3]), M(MV2)], [M(MV[:3]), M(MV2), K(",", "|", ";", "\\\\", "::", "")]],
    "json_keys": [[S(JSON)]], "json_valid": [[S(JSONANY)]],
    "sin": [[D(SMALL)]], "cos": [[D(SMALL)]], "tan": [[D(SMALL)]], "asin": [[D(UNIT)]], "acos": [[D(UNIT)]], "atan": [[D(SMALL)]], "sinh": [[D(SMALL)]], "cosh": [[D(SMALL)]], "tanh": [[D(SMALL)]],
    "asinh": [[D(SMALL)]], "acosh": [[D(ONEUP)]], "atanh": [[D(OPEN)]], "atan2": [[D(SMALL), D(UNIT)]], "hypot": [[D(SMALL), D(UNIT)]],
    "replace": [[S(STR), K(*[p for p, _ in REPLACE]), K(*[q for _, q in REPLACE])]],
}
# constants that read as something else than a value in their place
UNSUPPORTED = ["isbool(a)", "isint(a)", "isnum(a)", "isstr(s)", "typeof(a)", "json_append(s, \"a\", 1)", "json_array(a, c)", "json_array_to_mv(s)", "json_extend(s, \"a\", 1)", "json_extract(s, \"a\")",
               "json_extract_exact(s, \"a\")", "json_object(\"a\", a)", "json_set(s, \"a\", 1)", "json_set_exact(s, \"a\", 1)", "searchmatch(\"x\")", "lookup(\"t\", s, s)", "ipmask(\"255.0.0.0\", s)",
               "printf(\"%d\", a)", "commands(s)", "mvdedup(m)", "mvfilter(a > 1)", "mvfind(m, \"x\")", "mvjoin(m, \",\")", "mvmap(m, a)", "mvrange(1, 3, 1)", "mvsort(m)", "mv_to_json_array(m)",
               "spath(s, \"a\")", "sigfig(a)", "tonumber(s, 16)", "tostring(a, \"hex\")", "mvindex(m, -2, 1)", "mvindex(m, 0, -1)"]


def fits(fn, args):
    """Known restrictions, recorded in DESIGN.md."""
    if fn == "mvindex" and len(args) == 3:
        i, j = args[1][1], args[2][1]
        return i <= j
    if fn == "replace":
        return (args[1][1], args[2][1]) in REPLACE
    return True


def value(fn, kinds, spec, args, row):
    return R.call(fn, args, row)


def shape(spec):
    """Every choice of writing an argument as a field or as each constant of its domain."""
    per = []
    for i, (t, vals) in enumerate(spec):
        if t == "const":
            per.append([("c", v) for v in vals])
        elif t.startswith("array") or t == "boolean":
            per.append([("f", f"v{i}")])
        else:
            per.append([("f", f"v{i}")] + [("c", v) for v in vals[:4] if not (isinstance(v, str) and ("*" in v or v == ""))])
    return itertools.product(*per)


def jobs(tier):
    out = [{"kind": "fn", "fn": fn, "i": i} for fn, specs in SPECS.items() for i in range(len(specs))]
    out.append({"kind": "refused"})
    out.append({"kind": "empty"})
    names = sorted(NEST)
    out += [{"kind": "nest", "outer": o, "tier": tier} for o in names]
    return out


def bounds(tier):
    n = len(SPECS)
    return (f"{n} functions, every combination of the listed boundary values of their arguments (and of absence), each argument as a field and as a constant, inside eval, where and if(), in both modes; "
            f"compositions f(g(...)) of {'3' if tier == 'thorough' else '2'} levels over {len(NEST)} functions; {len(UNSUPPORTED)} unimplemented calls that must be refused")


# compositions: name -> (result type, argument types, constants for the rest)
NEST = {
    "abs": ("n", "n"), "floor": ("n", "n"), "ceiling": ("n", "n"), "max": ("n", "nn"), "min": ("n", "nn"), "sum": ("n", "nn"), "len": ("n", "s"), "coalesce": ("s", "ss"), "if": ("n", "bnn"),
    "lower": ("s", "s"), "upper": ("s", "s"), "trim": ("s", "s "), "md5": ("s", "s"), "tostring": ("s", "i"), "isnull": ("b", "s"), "like": ("b", "s%"), "nullif": ("n", "nn"), "case": ("s", "bsbs"), "validate": ("s", "bsbs"),
    "mvcount": ("n", "m"), "split": ("m", "s,"), "mvindex": ("s", "m1"), "substr": ("s", "s12"), "replace": ("s", "sxy"), "mvappend": ("m", "mm"), "isnotnull": ("b", "n"),
}
LEAF = {"n": [("f", "n"), ("c", 2)], "i": [("f", "n")], "s": [("f", "s"), ("c", "ab")], "b": [("bin", "=", ("f", "n"), ("c", 1))], "m": [("f", "m")],
        " ": [("c", " b")], "%": [("c", "%b%")], ",": [("c", ",")], "1": [("c", 1)], "2": [("c", 2)], "x": [("c", "a")], "y": [("c", "Q")]}
NROWS = [(n, s, m) for n in (None, 0, 1, -3) for s in (None, "ab", "a,b", "B b ") for m in (None, ["q"], ["ab", "b,c"])]
NSCHEMA = [("n", "bigint"), ("s", "string"), ("m", "array<string>")]


def nested(typ, depth):
    """Expressions of a type: leaves, and calls whose arguments are nested in at most one place."""
    yield from LEAF[typ]
    if depth and typ in "nsbmi":
        for fn, (res, args) in NEST.items():
            if res == typ:
                yield from calls(fn, depth)


def calls(fn, depth):
    args = NEST[fn][1]
    base = [LEAF[a][0] for a in args]
    for i, a in enumerate(args):
        for e in nested(a, depth - 1):
            if e != base[i] or i == 0:
                yield ("call", fn, *base[:i], e, *base[i + 1:])


def run(job):
    r = Res()
    k = job["kind"]
    if k == "fn":
        fn, spec = job["fn"], SPECS[job["fn"]][job["i"]]
        for args in shape(spec):
            if fits(fn, args):
                probe(r, fn, job["i"], args)
    elif k == "one":
        probe(r, job["fn"], job["i"], _tup(job["args"]), only=(job["form"], job["rt"]))
    elif k in ("nest", "nest1"):
        s = X.Session({"main": (NSCHEMA, NROWS)})
        d = R.Frame.of(NSCHEMA, NROWS)
        for e in calls(job["outer"], 3 if job["tier"] == "thorough" else 2) if k == "nest" else [_tup(job["e"])]:
            out = d.eval(("r", e))
            exp = X.Out(out.cols, out.tuples())
            for rt in (False, True):
                sem.check(r, f"index=main | eval r={R.show(e)}", s, exp, {"kind": "nest1", "outer": None, "tier": 0, "e": e}, rt)
    elif k == "empty":
        # no values lie between two positions in the wrong order
        rows = [(v, i) for i, v in enumerate([None, *MV, *MV2])]
        s = X.Session({"main": ([("m", "array<string>"), ("keep", "bigint")], rows)})
        for i, j in [(i, j) for i in range(6) for j in range(i)] + [(i, j) for i in range(-4, 0) for j in range(-6, i)]:
            for rt in (False, True):
                sem.check(r, f"index=main | where mvcount(mvindex(m, {i}, {j})) > 0 | table keep", s, X.Out(["keep"], []), job, rt)
    else:
        s = X.Session({"main": (NSCHEMA, NROWS)})
        for c in UNSUPPORTED:
            for q in (f"index=main | eval r={c}", f"index=main | eval x=1, r=1+{c}", f"index=main | where {c}"):
                for rt in (False, True):
                    sem.check(r, q, s, "reject", {"kind": "refused"}, rt)
    return r


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


_SESS = {}
TOTAL = {"cidrmatch", "json_valid"}  # what these make of an absent value is not specified here


def fixture(fn, i):
    if (fn, i) not in _SESS:
        _SESS.clear()
        spec = SPECS[fn][i]
        fields = [(f"v{j}", t) for j, (t, _) in enumerate(spec) if t != "const"]
        schema = fields + [("keep", "bigint")]
        rows = [c + (n,) for n, c in enumerate(itertools.product(*[([] if fn in TOTAL else [None]) + list(v) for t, v in spec if t != "const"]))]
        _SESS[fn, i] = (schema, rows, X.Session({"main": (schema, rows)}), R.Frame.of(schema, rows))
    return _SESS[fn, i]


BOOL = {"like", "match", "cidrmatch", "in", "isnull", "isnotnull", "true", "false", "json_valid"}


def probe(r, fn, i, args, only=None):
    schema, rows, s, d = fixture(fn, i)
    e = ("call", fn, *args)
    t = R.show(e)
    forms = {"eval": (f"index=main | eval r={t}", lambda: d.eval(("r", e)))}
    if fn in BOOL:
        forms["where"] = (f"index=main | where {t}", lambda: d.where(e))
        forms["not"] = (f"index=main | where NOT {t}", lambda: d.where(("not", e)))
        forms["if"] = (f'index=main | eval r=if({t}, "y", "n")', lambda: d.eval(("r", ("call", "if", e, ("c", "y"), ("c", "n")))))
    elif fn not in ("mvappend", "split", "mvzip") and not (fn == "mvindex" and len(args) == 3) and fn != "json_keys":
        forms["isnull"] = (f"index=main | where isnull({t})", lambda: d.where(("call", "isnull", e)))
    for f, (q, ref) in forms.items():
        for rt in (False, True):
            if only and only != (f, rt):
                continue
            out = ref()
            sem.check(r, q, s, X.Out(out.cols, out.tuples()), {"kind": "one", "fn": fn, "i": i, "args": args, "form": f, "rt": rt}, rt)
    r.sample(t, 1)
