"""P17: rex, regex, spath and convert extract and convert what SPL says."""
import ast
import datetime as dt
import itertools
import json
import re

from vf import execute as X
from vf import impl, sem
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates regular expressions, JSON paths and casts as Spark does on the patterns enumerated here (validated against recorded runs of the real Spark, tools/golden.py)",
    "regex is judged on the generated code with its pattern read as a literal (as it stands Spark takes the pattern for the name of a column, a known finding)",
    "a group that takes no part in the match gives an empty string, as the repository's own tests say; the columns of unnamed groups are not judged",
]

# ------------------------------------------------------------------ regular expressions
# a pattern is a list of items: ('t', text) | ('g', kind, body items, quantifier); kind: name | None | '?:'
ATOMS = ["a", "b", ".", r"\d", "[ab]", "[^;]", "a*", "b?", r"\w+", "a|b", "", r";", "[(]", r"\("]
QUANT = ["", "+", "?", "*", "{1,2}", "+?"]


def items(small):
    atoms = ["a", r"\d", "[^;]", "b?"] if small else ATOMS
    quant = ["", "?"] if small else QUANT
    for a in atoms:
        if a and "|" not in a:
            yield ("t", a)
    for a in atoms:
        for k in ("N", None, "?:"):
            for q in quant:
                if not small or q == "" or k == "N":
                    yield ("g", k, [("t", a)], q)
    for k1, k2 in itertools.product(("N", None, "?:"), repeat=2):
        if "N" in (k1, k2):
            yield ("g", k1, [("t", "a"), ("g", k2, [("t", "b")], "?")], "")
            if not small:
                yield ("g", k1, [("g", k2, [("t", "a|b")], ""), ("t", r"\d*")], "+")


def patterns(tier):
    one = list(items(False))
    two = list(items(tier != "thorough"))
    for i in one:
        yield [i]
        yield [("t", "^"), i, ("t", "$")]
    for p in itertools.product(two, repeat=2):
        yield list(p)
    for p in itertools.product(list(items(True)), repeat=2):
        yield [p[0], ("t", "|"), p[1]]
    if tier == "thorough":
        yield from (list(p) for p in itertools.product(list(items(True)), repeat=3))


NAMES = [["u", "v", "w", "y", "z", "k"], ["user_name", "v2", "_x", "a_", "b_1", "c_c"], ["src", "dst", "f", "g", "h", "i"], ["dst", "src", "f", "g", "h", "i"]]
STYLES = ["?<", "?P<"]


def render(p, name, style, cap):
    """The pattern as text; cap lists the name of every capturing group in order (None: unnamed)."""
    out = ""
    for it in p:
        if it[0] == "t":
            out += it[1]
            continue
        _, kind, body, q = it
        if kind == "N":
            n = name(cap)
            cap.append(n)
            head = f"({style}{n}>"
        elif kind is None:
            cap.append(None)
            head = "("
        else:
            head = "(?:"
        out += head + render(body, name, style, cap) + ")" + q
    return out


def pattern_text(p, names, style):
    cap = []
    s = render(p, lambda c: names[sum(1 for x in c if x is not None)], style, cap)
    return s, cap


def plain(p):
    """The same pattern with plain groups only."""
    out = ""
    for it in p:
        out += it[1] if it[0] == "t" else ("(" if it[1] != "?:" else "(?:") + plain(it[2]) + ")" + it[3]
    return out


def texts(n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product("ab1;", repeat=k)] + ["xa", "(a", "a\nb", "é", "ab;ab;12", "A"]


REX_SCHEMA = [("_raw", "string"), ("src", "string"), ("n", "bigint")]


def rex_table(n):
    ts = texts(n)
    return [(t, ts[(i * 7 + 3) % len(ts)], i) for i, t in enumerate(ts)] + [(None, None, -1)]


def rex_expect(rows, field, p, cap):
    rx = re.compile(plain(p), re.ASCII)
    cols = [c for c, _ in REX_SCHEMA]
    fi = cols.index(field)
    named = [(i + 1, n) for i, n in enumerate(cap) if n is not None]
    out_cols = cols + [n for _, n in named if n not in cols]
    out = []
    for r in rows:
        d = dict(zip(cols, r))
        m = rx.search(r[fi]) if r[fi] is not None else None
        for i, n in named:
            d[n] = None if r[fi] is None else "" if m is None else m.group(i) or ""
        out.append(tuple(d[c] for c in out_cols))
    return X.Out(out_cols, out)


class Literal(ast.NodeTransformer):
    """The generated code with the pattern of regexp_like as a literal."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "regexp_like" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
            n.args[1] = ast.Call(ast.Attribute(ast.Name("F", ast.Load()), "lit", ast.Load()), [n.args[1]], [])
        return n


def run_literal(r, spl, ses, rt, expect, case, tag):
    mode = "runtime" if rt else "standalone"
    r.states += 1
    k = impl.convert(spl, rt)
    if k[0] == "err":
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} was refused: {k[1][:200]}", case)
        return
    code = ast.unparse(ast.fix_missing_locations(Literal().visit(ast.parse(k[1]))))
    s0 = X.steps()
    try:
        v = X.out_of(X.evaluate(code, ses, rt))
    except Exception as e:
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} became code that fails: {type(e).__name__}: {e}\n      {k[1]}", case)
        return
    r.traces += 1
    r.transitions += X.steps() - s0
    d = X.same(v, expect)
    if d:
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r}: {d}\n      {k[1]}", case)
    else:
        r.outcomes[f"{tag}, {'some' if v.rows else 'no'} rows"] += 1


def quote(s):
    return '"' + s.replace('"', '\\"') + '"'


# ------------------------------------------------------------------ spath
LEAVES = [1, -2, "x", "", True, False, None, 1.5, 'é"q', "a b", 12345678901, "7"]
KEYS = ["a", "b", "x-y", "h i", "é", "K"]


def documents(tier):
    small = [1, "x", None, True]
    yield from ({k: v} for k in KEYS for v in LEAVES)
    lists = [list(t) for n in range(0, 4) for t in itertools.product((1, "x", None), repeat=n) if n < 3 or t[0] == 1]
    objs = [{"a": v} for v in small] + [{"b": v, "a": w} for v, w in itertools.product(small, repeat=2)] + [{}]
    yield from ({"a": x} for x in lists + objs)
    yield from ({"b": "z", "a": x} for x in lists + objs)
    yield from ({"a": [x, y]} for x, y in itertools.product(objs[:6], objs[3:9]))
    yield from ({"a": {"b": x}, "b": {"a": y}} for x, y in itertools.product(lists[:8] + objs[:4], (2, "q", {"a": "deep", "b": [0, {"a": "in"}]})))
    yield from ({"a": {"a": [[1, 2], {"b": x}]}, "h i": {"é": [x]}} for x in (5, "s", None))
    if tier == "thorough":
        yield from ({"a": {"b": {"a": x, "b": y}}, "b": [{"a": y}, [x]]} for x, y in itertools.product(LEAVES[:7] + [[1], {"a": 1}], repeat=2))


BAD_DOCS = ["", "nope", "{", '{"a": 1', "[1, 2]", '"a"', "7", "null", "true"]
STEP = re.compile(r"([^{}]*)(?:\{(\d+)\})?$")


def step_names(tier):
    idx = ["", "{0}", "{1}", "{2}", "{10}"]
    return [k + i for k in ("a", "b") for i in idx] + ["x-y", "h i", "é", "K", "k", "zz", "h i{0}", "é{0}"]


def paths(tier):
    st = step_names(tier)
    core = ["a", "b", "a{0}", "a{1}", "b{1}", "é{0}", "zz"]
    yield from ([x] for x in st)
    yield from (list(p) for p in (itertools.product(st, repeat=2) if tier == "thorough" else itertools.product(core + ["h i"], st)))
    yield from (list(p) for p in itertools.product(core[:4] if tier != "thorough" else core, repeat=3))
    if tier == "thorough":
        yield from (list(p) for p in itertools.product(core[:4], repeat=4))


def walk(v, path):
    for s in path:
        name, i = STEP.match(s).groups()
        if not isinstance(v, dict) or name not in v:
            return None
        v = v[name]
        if i is not None:
            if not isinstance(v, list) or int(i) >= len(v):
                return None
            v = v[int(i)]
    if v is None or isinstance(v, str):
        return v
    return json.dumps(v, separators=(",", ":"), ensure_ascii=False)


SP_SCHEMA = [("_raw", "string"), ("x", "string"), ("n", "bigint")]


def sp_table(tier):
    docs = list(documents(tier))
    rows = []
    for i, d in enumerate(docs):
        e = docs[(i * 5 + 1) % len(docs)]
        rows.append(((d, e), (json.dumps(d, ensure_ascii=i % 2 == 0), json.dumps(e, separators=(",", ":")), i)))
    rows += [((None, None), (b, b, -1 - i)) for i, b in enumerate(BAD_DOCS)] + [((None, None), (None, None, -99))]
    return rows


BAD_PATHS = ["a{}", "a{}.b", "{0}", "a{x}", "a{@id}", "a..b", ".a", "a.", "a.*", "*", "a[0]", "a{0", "a{-1}", "a{0}{1}", "a{ 0}", "a[*].b", "a{*}"]


# ------------------------------------------------------------------ convert
NUMS = ["0", "7", "10", "2.5", ".5", "123456", "0.125", "007"]
CV_SCHEMA = [("m", "string"), ("u", "string"), ("c", "string"), ("ts", "timestamp"), ("my field", "string"), ("n", "bigint")]
UNITS = ["k", "m", "g", "K", "M", "G"]
SUFFIX = ["", "MB", "kb", "s", "x1", "_"]
COMMAS = [("1,234", 1234), ("1,234,567.5", 1234567.5), ("42", 42), ("-1,000", -1000), ("0.5", 0.5), (",1,", 1), ("1e3", 1000)]
TIMES = [dt.datetime(2024, 2, 29, 13, 5, 9, tzinfo=dt.timezone.utc), dt.datetime(1999, 12, 31, tzinfo=dt.timezone.utc)]
FORMATS = [(None, "%m/%d/%Y %H:%M:%S"), ("%Y", "%Y"), ("%d at %H", "%d at %H"), ("%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S"), ("%b %d", "%b %d")]
SCALE = {"k": 1, "m": 1024, "g": 1048576}
NEW = ["out", "m", "u", "c", "n2", "my field"]


def cv_rows():
    rows, i = [], 0
    for n, u in itertools.product(NUMS, UNITS):
        c = COMMAS[i % len(COMMAS)][0]
        rows.append((n + u, n + SUFFIX[i % len(SUFFIX)], c, TIMES[i % 2], NUMS[(i * 3) % len(NUMS)] + UNITS[(i * 5) % 6], i))
        i += 1
    return rows


def cv_num(s):
    return float(s)


def cv_apply(fn, v, fmt):
    if v is None:
        return None
    if fn == "ctime":
        return v.strftime(fmt)
    if fn == "memk":
        return cv_num(v[:-1]) * SCALE[v[-1].lower()]
    if fn == "rmunit":
        return cv_num(re.match(r"[0-9.]*", v).group())
    return float(v.replace(",", ""))


CV = [("memk", "m"), ("memk", "my field"), ("rmunit", "u"), ("rmunit", "m"), ("rmcomma", "c"), ("ctime", "ts")]


def conversions(tier):
    for fn, f in CV:
        for o in [None] + NEW:
            yield [(fn, f, o)]
    pair = [(fn, f, o) for fn, f in CV for o in ((None, "out", "m", "n2") if tier == "thorough" else (None, "out"))]
    yield from (list(p) for p in itertools.product(pair, repeat=2))
    if tier == "thorough":
        yield from (list(p) for p in itertools.product([(fn, f, o) for fn, f in CV for o in (None, "out")], repeat=3))


def cv_expect(convs, fmt):
    """None when a conversion reads what an earlier one has already made a number."""
    cols = [c for c, _ in CV_SCHEMA]
    rows = [dict(zip(cols, r)) for r in cv_rows()]
    done = set()
    for fn, f, o in convs:
        if f in done:
            return None
        o = o or f
        for d in rows:
            d[o] = cv_apply(fn, d[f], fmt)
        done.add(o)
        if o not in cols:
            cols.append(o)
    return X.Out(cols, [tuple(d[c] for c in cols) for d in rows])


def cv_spl(convs, fmt, sep=" ", kw="AS", upper=False):
    def nm(f):
        return f'"{f}"' if " " in f else f
    body = sep.join(f"{fn}({nm(f)})" + (f" {kw} {nm(o)}" if o else "") for fn, f, o in convs)
    return "convert " + (f'timeformat="{fmt}" ' if fmt is not None else "") + body


REFUSED = [f"convert {f}(m)" for f in ("auto", "num", "mktime", "dur2sec", "mstime", "none", "foo", "lower", "expr")] + ["convert memk(m) num(u) AS x", "convert num(u) memk(m)",
    'rex mode=sed "s/a/b/"', 'rex max_match=2 "(?<u>a)"', 'rex max_match=0 "(?<u>a)"', 'rex offset_field=o "(?<u>a)"', 'rex mode=other "(?<u>a)"', 'rex "(?<u>a"', 'rex "(?<u>a)(?<u>b)"', 'rex "(?<1u>a)"',
    'rex "(?<u-v>a)"', "rex", "regex", "spath", "spath input=x", "spath output=y"]


def jobs(tier):
    n = sum(1 for _ in patterns(tier))
    out = [{"kind": "rex", "lo": lo, "step": 220, "tier": tier} for lo in range(0, n, 220)]
    out += [{"kind": "spath", "lo": lo, "step": 30, "tier": tier} for lo in range(0, sum(1 for _ in paths(tier)), 30)]
    out += [{"kind": "convert", "lo": lo, "step": 60, "tier": tier} for lo in range(0, sum(1 for _ in conversions(tier)), 60)]
    out += [{"kind": "regex", "lo": lo, "step": 300, "tier": tier} for lo in range(0, n, 300)]
    return out + [{"kind": "refused"}, {"kind": "known"}, {"kind": "eval"}]


def bounds(tier):
    return (f"{sum(1 for _ in patterns(tier))} regular expressions (one or two, thorough: up to three, items out of literals, classes, named, unnamed and non-capturing groups, nested and quantified, sequences and alternatives) for rex and regex "
            f"on every text over 'ab1;' of up to {3 if tier == 'thorough' else 2} characters and some others, with 4 lists of group names (ordinary names, names with underscores, the names of the fields that are read and of others) and both notations of named groups; "
            f"{sum(1 for _ in paths(tier))} location paths x {len(list(documents(tier)))} JSON documents and {len(BAD_DOCS)} texts that are no document; "
            f"{sum(1 for _ in conversions(tier))} lists of conversions (memk, rmunit, rmcomma, ctime; in place or AS); {len(REFUSED) + len(BAD_PATHS)} refused forms")


def part(gen, job):
    return itertools.islice(gen, job["lo"], job["lo"] + job["step"])


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r


def job_rex(r, job):
    rows = rex_table(3 if job["tier"] == "thorough" else 2)
    ses = X.Session({"main": (REX_SCHEMA, rows)})
    for i, p in enumerate(part(patterns(job["tier"]), job), job["lo"]):
        names, style = NAMES[i % 4], STYLES[(i // 4) % 2]
        text, cap = pattern_text(p, names, style)
        if not any(cap):
            continue
        r.sample(f"rex {text}")
        field = ["_raw", "src"][(i // 8) % 2] if "src" not in cap else "src"
        if i % 16 == 5:
            field = "src"
        opts = "" if field == "_raw" and i % 3 else f"field={field} "
        if i % 5 == 4:
            opts += "max_match=1 "
        expect = rex_expect(rows, field, p, cap)
        for rt in (False, True):
            q = ("index=main | " if rt or i % 2 else "") + f"rex {opts}{quote(text)}"
            r.states += 1
            s0 = X.steps()
            k, v, code = X.run(q, ses, rt)
            mode = "runtime" if rt else "standalone"
            if k != "ok":
                r.bad(f"{mode}:{q}", f"[{mode}] {q!r} {'was refused' if k == 'unsupported' else 'became code that fails'}: {v[:300]}\n      {code}", job)
                continue
            r.traces += 1
            r.transitions += X.steps() - s0
            keep = [c for c in v.cols if not c.isdigit()]
            ix = [v.cols.index(c) for c in keep]
            d = X.same(X.Out(keep, [tuple(t[j] for j in ix) for t in v.rows]), expect, True)
            if d:
                r.bad(f"{mode}:{q}", f"[{mode}] {q!r}: {d}\n      {code}", job)
            else:
                r.outcomes[f"{sum(1 for c in cap if c)} fields extracted"] += 1


def job_regex(r, job):
    rows = [t for t in rex_table(3 if job["tier"] == "thorough" else 2) if t[0] is not None]
    ses = X.Session({"main": (REX_SCHEMA, rows)})
    cols = [c for c, _ in REX_SCHEMA]
    for i, p in enumerate(part(patterns(job["tier"]), job), job["lo"]):
        text, cap = pattern_text(p, NAMES[i % 2], STYLES[(i // 2) % 2])
        rx = re.compile(plain(p), re.ASCII)
        field, op = [(None, "="), ("_raw", "="), ("src", "="), ("_raw", "!="), ("src", "!=")][i % 5]
        fi = cols.index(field or "_raw")
        rt = i % 2 == 1
        sp = " " if i % 7 == 0 else ""
        q = ("index=main | " if rt else "") + "regex " + (f"{field}{sp}{op}{sp}" if field else "") + quote(text)
        expect = X.Out(cols, [t for t in rows if (rx.search(t[fi]) is not None) == (op == "=")])
        run_literal(r, q, ses, rt, expect, job, "regex " + op)


def job_spath(r, job):
    table = sp_table(job["tier"])
    ses = X.Session({"main": (SP_SCHEMA, [t for _, t in table])})
    cols = [c for c, _ in SP_SCHEMA]
    for i, p in enumerate(part(paths(job["tier"]), job), job["lo"]):
        path = ".".join(p)
        r.sample(path)
        out = [None, "y", "my out", "_raw", "x", "n"][i % 6]
        inp = [None, "x", "_raw"][i % 3 if i % 2 else (i // 3) % 3]
        spelled = f'"{path}"' if i % 4 == 0 or not re.fullmatch(r"[\w.-]+", path, re.ASCII) else path
        q = "spath " + (f"input={inp} " if inp else "") + (f'output="{out}" ' if out and " " in out else f"output={out} " if out else "") + ("path=" if i % 5 < 2 else "") + spelled
        oc = out or path
        which = 1 if inp == "x" else 0
        ocols = cols + ([oc] if oc not in cols else [])
        rows = []
        for docs, t in table:
            d = dict(zip(cols, t))
            d[oc] = walk(docs[which], p)
            rows.append(tuple(d[c] for c in ocols))
        for rt in (False, True):
            sem.check(r, ("index=main | " if rt else "") + q, ses, X.Out(ocols, rows), job, rt, True, tag="spath")


def job_convert(r, job):
    ses = X.Session({"main": (CV_SCHEMA, cv_rows())})
    for i, c in enumerate(part(conversions(job["tier"]), job), job["lo"]):
        fmt, real = FORMATS[i % len(FORMATS)]
        e = cv_expect(c, real)
        if e is None:
            continue
        q = cv_spl(c, fmt, kw=["AS", "as", "As"][i % 3])
        for rt in (False, True):
            sem.check(r, ("index=main | " if rt else "") + q, ses, e, job, rt, True, tag="convert")


def job_eval(r, job):
    rows = cv_rows()
    ses = X.Session({"main": (CV_SCHEMA, rows)})
    cols = [c for c, _ in CV_SCHEMA]
    for fn, f in [c for c in CV if c[0] != "ctime"]:
        nm = f"'{f}'" if " " in f else f
        vals = [cv_apply(fn, t[cols.index(f)], "") for t in rows]
        for rt in (False, True):
            pre = "index=main | " if rt else ""
            sem.check(r, f"{pre}eval y={fn}({nm})", ses, X.Out(cols + ["y"], [t + (v,) for t, v in zip(rows, vals)]), job, rt, True)
            sem.check(r, f"{pre}eval y={fn}({nm}) + 1", ses, X.Out(cols + ["y"], [t + (v + 1,) for t, v in zip(rows, vals)]), job, rt, True)
            sem.check(r, f"{pre}where {fn}({nm}) > 10", ses, X.Out(cols, [t for t, v in zip(rows, vals) if v > 10]), job, rt, True)


def job_refused(r, job):
    ses = X.Session({"main": (REX_SCHEMA, [])})
    for q in REFUSED + [f'spath "{p}"' for p in BAD_PATHS] + [f'spath input=x output=y path="{p}"' for p in BAD_PATHS]:
        for rt in (False, True):
            sem.check(r, "index=main | " + q, ses, "reject", job, rt)


def job_known(r, job):
    """Defects that the repository's own tests pin."""
    ses = X.Session({"main": ([("_raw", "string"), ("m", "string")], [("ab", "7")])})
    k, v, code = X.run('regex "a"', ses)
    r.states += 1
    if not (k == "ok" and v.rows):
        r.bad("regex: the pattern is read as a column", f"""'regex "a"' becomes {code!r}, where Spark takes the pattern for the name of a column: {v[:150]}""", job)
    k, v, code = X.run("convert memk(m)", ses)
    r.states += 1
    if not (k == "ok" and v.rows and v.rows[0][v.cols.index("m")] == 7):
        r.bad("memk: no unit", f"memk of '7', which SPL takes for kilobytes, is {v.rows if k == 'ok' else v[:150]} by {code!r}", job)
