"""P28: a function of the runtime library, called from Python, computes what the SPL function of its name is."""
import datetime as dt
import inspect
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
import p14  # noqa: E402  the functions, the values of their arguments and which combinations are defined
from pyspark.sql import functions as F  # noqa: E402
from spl_transpiler.runtime import commands, functions  # noqa: E402
from vf import execute as X  # noqa: E402
from vf import ref as R  # noqa: E402
from vf.harness import Res  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates the columns the library returns as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "the functions of times and aggregation are expected to agree with the code converted for the same call, which P16 and P10 judge",
    "arguments are of the documented type, and inside the mathematical domain of the function",
]
UTC = dt.timezone.utc
T = lambda *a: dt.datetime(*a, tzinfo=UTC)  # noqa: E731
TIMES = [T(2024, 2, 29, 13, 5, 9, 123456), T(1999, 12, 31, 23, 59, 59, 999000), T(2000, 1, 1), T(2023, 7, 4, 9, 8, 7), T(2024, 12, 29), T(2024, 3, 3), T(2024, 3, 2, 23, 59, 59), T(2023, 3, 31, 12, 30), T(2021, 1, 31, 1, 1, 1), None]
FORMATS = ["%Y-%m-%d", "%F %T", "%d %b %Y", "%B %d %Y at %I:%M:%S %p", "%A", "%a %j", "%H:%M:%S.%3N", "%y/%m/%d %k:%M", "%e.%m.", "%F %T.%6N", "%F %T.%9N %z", "%T%:z", "%F %T %%", "%Q", "%f", "yyyy-MM", "[%H]", "%Z o'clock", "T%TZ", "%p%I", "%N", "%6Q%p", "%9Q %::z", "%H %:::z", "%3Q"]
BADFORMATS = ["%c", "%+", "%Ez", "%s", "%X", "%x", "%w", "%q", "%", "%V", "%Y%y", "%U"]
TEXTS = ["2024-02-29", "2024-02-29 13:05:09", "29/02/2024 01:02:03", "Feb 03 1999", "07:08:09 2001-01-01"]
PARSE = {"2024-02-29": "%Y-%m-%d", "2024-02-29 13:05:09": "%F %T", "29/02/2024 01:02:03": "%d/%m/%Y %H:%M:%S", "Feb 03 1999": "%b %d %Y", "07:08:09 2001-01-01": "%T %F"}
SCALES = {"seconds": "s", "minutes": "m", "hours": "h", "days": "d", "weeks": "w", "months": "mon"}
LIB = {"if": "if_", "in": "in_", "len": "len_", "max": "max_", "min": "min_", "sum": "sum_"}
NOTIMPL = ["isbool(F.col('v0'))", "isint('v0')", "isnum('v0')", "isstr('v0')", "typeof('v0')", "json_object('v0')", "json_append('v0', a='v0')", "json_array('v0')", "json_array_to_mv('v0', True)", "json_extend('v0')", "json_extract('v0', 'a')", "json_extract_exact('v0', 'a')",
           "json_set('v0')", "json_set_exact('v0')", "commands('v0')", "mvdedup('v0')", "mvfilter('v0')", "mvfind('v0', 'v0')", "mvjoin('v0', ',')", "mvmap('v0', 'v0')", "mvrange(1, 2, 3)", "mvsort('v0')", "mv_to_json_array('v0')", "spath('v0', 'a')", "searchmatch('v0')", "lookup('v0', 'v0', 'v0')"]
STATS = {"count": 0, "earliest_time": 0, "latest_time": 0, **{f: 1 for f in "avg distinct_count dc estdc max mean median min mode range stdev sum sumsq var varp first last values list earliest latest".split()}, "exactperc": 2, "percentile": 2, "upperperc": 2}
STATLIB = {"sum": "sum_", "list": "list_"}
SSCHEMA = [("_time", "timestamp"), ("g", "string"), ("v", "bigint"), ("w", "double"), ("s", "string")]
SVALS = [None, 0, 3, -2, 7]


def parameters(f):
    """The kinds of the parameters of a function of the library: 'column', 'plain'; a rest parameter counts for all that follow."""
    out = []
    for p in inspect.signature(f).parameters.values():
        plain = any(w in str(p.annotation).replace("spl_transpiler", "") for w in ("int", "str", "float", "bool", "list")) and "Expr" not in str(p.annotation)
        out.append((p.name, "plain" if plain else "column", p.kind is p.VAR_POSITIONAL, p.default is not p.empty))
    return out


def spell(args, kinds, style):
    """The Python text of the arguments, or None where one cannot be given like this."""
    out = []
    for a, kind in zip(args, kinds):
        what, v = a
        if kind == "plain":
            if what != "c":
                return None
            out.append(repr(v))
        elif what == "f":
            out.append({"name": repr(v), "col": f"F.col({v!r})", "expr": f"Expr(kind='column', value={v!r})"}[style])
        else:
            number = isinstance(v, (int, float)) and not isinstance(v, bool)
            out.append({"name": repr(v) if number else f"F.lit({v!r})", "col": f"F.lit({v!r})", "expr": f"Expr(kind='literal', value={v!r})"}[style])
    return out


def evaluate(session, text):
    """The rows of the table with the column r that the expression of Python computes."""
    from spl_transpiler.runtime.base import Expr, TimeScale, TimeSpan
    spark = session.use()
    ns = {"F": F, "functions": functions, "commands": commands, "Expr": Expr, "TimeScale": TimeScale, "TimeSpan": TimeSpan, "df": spark.table("main")}
    try:
        return ("ok", X.out_of(eval(compile(text, "<call>", "eval"), ns)))
    except NotImplementedError as e:
        return ("notimpl", str(e))
    except Exception as e:
        return ("broken", f"{type(e).__name__}: {str(e)[:300]}")


def compare(r, key, session, text, expect, job):
    r.states += 1
    s0 = X.steps()
    k, v = evaluate(session, text)
    r.traces += 1
    r.transitions += X.steps() - s0
    if k != "ok":
        r.bad(key, f"{text} fails: {v}", job)
        return
    d = X.same(v, expect)
    if d:
        r.bad(key, f"{text}: {d}", job)
    else:
        r.outcomes["equal"] += 1


def function(r, job):
    fn, i = job["fn"], job["i"]
    schema, rows, s, d = p14.fixture(fn, i)
    f = getattr(functions.eval, LIB.get(fn, fn), None)
    if f is None:
        r.bad(f"{fn}: missing", f"the library has no function {fn}", job)
        return
    ps = parameters(f)
    for args in p14.shape(p14.SPECS[fn][i]):
        if not p14.fits(fn, args):
            continue
        out = d.eval(("r", ("call", fn, *args)))
        exp = X.Out(out.cols, out.tuples())
        for style in ("name", "col", "expr"):
            if fn == "in":
                got = spell(args[:1], ["column"], style)
                got = got and got + [repr([v for _, v in args[1:]])]
            else:
                kinds = [ps[min(n, len(ps) - 1)][1] for n in range(len(args))] if ps else []
                got = spell(args, kinds, style)
            if got is None:
                r.outcomes["not a plain value"] += 1
                continue
            call = f"functions.eval.{LIB.get(fn, fn)}({', '.join(got)})"
            for form in ("commands.eval(df, r={})", "df.withColumn('r', {})"):
                compare(r, f"{fn}: {call}", s, form.format(call), exp, job)
            if fn in p14.BOOL:
                kept = d.where(("call", fn, *args))
                for form in ("df.where({})",):
                    compare(r, f"{fn}: where {call}", s, form.format(call), X.Out(kept.cols, kept.tuples()), job)
            if job["deep"] and fn not in p14.BOOL and not fn.startswith("mv") and fn != "split":
                # the result is a column that may be an argument again
                out2 = d.eval(("r", ("call", "isnull", ("call", fn, *args))))
                compare(r, f"{fn}: isnull({call})", s, f"commands.eval(df, r=functions.eval.isnull({call}))", X.Out(out2.cols, out2.tuples()), job)
    r.sample(call if got else fn)


WHOLE = [None, 0, 1, 9, 15, 255, 999, 1000, 3599, 3600, 3661, 86399, 1234567]
TOSTRING = {"binary": lambda v: f"{v:b}", "hex": lambda v: f"0x{v:X}", "commas": lambda v: f"{v:,}", "duration": lambda v: f"{v // 3600:02d}:{v // 60 % 60:02d}:{v % 60:02d}"}
PARTS = [None, 0.5, 1234.5, 12345.6789, 100.0, -9876.543]
DIGITS = [None, "0", "1", "101", "0A4", "ff", "777", "zz", "12", "-10", "", "x y", "ffffffff", "1" * 40]


PRINTF = [("%d", "n"), ("%s", "x"), ("<%5.2f>", "d"), ("%s=%d", "xn"), ("%d%%", "n"), ("plain", ""), ("%05d|%s|%.1f", "nxd"), ("%-6s|", "x"), ("%+d", "n"), ("%s and %s", "xx")]
MASKS = ["255.255.255.0", "255.0.0.0", "0.255.0.244", "255.255.255.255", "0.0.0.0", "255.255.255.192"]


def whole(text, base):
    try:
        return int(text, base)
    except (ValueError, TypeError):
        return None


def formats(r, job):
    """The formats of tostring and the bases of tonumber, which are not converted."""
    s = X.Session({"main": ([("n", "bigint")], [(v,) for v in WHOLE])})
    for f, way in TOSTRING.items():
        for arg in ("'n'", "F.col('n')"):
            for more in (repr(f), f"format={f!r}"):
                compare(r, f"tostring: {f}", s, f"commands.eval(df, r=functions.eval.tostring({arg}, {more}))", X.Out(["n", "r"], [(v, None if v is None else way(v)) for v in WHOLE]), job)
    s = X.Session({"main": ([("d", "double")], [(v,) for v in PARTS])})
    compare(r, "tostring: commas", s, "commands.eval(df, r=functions.eval.tostring('d', 'commas'))", X.Out(["d", "r"], [(v, None if v is None else f"{v:,.2f}") for v in PARTS]), job)
    for base in (2, 3, 8, 16, 36):
        exp = [whole(v, base) for v in DIGITS]
        keep = [e is None or abs(e) < 1 << 63 for e in exp]
        t = X.Session({"main": ([("x", "string")], [(v,) for v, k in zip(DIGITS, keep) if k])})
        for more in (f"{base}", f"base={base}"):
            compare(r, f"tonumber: {base}", t, f"commands.eval(df, r=functions.eval.tonumber('x', {more}))", X.Out(["x", "r"], [(v, e) for v, e, k in zip(DIGITS, exp, keep) if k]), job)
    rows = [(n, d, x) for n in (None, 0, -7, 1234) for d in (None, 0.5, -12.25) for x in (None, "", "a b")]
    s = X.Session({"main": ([("n", "bigint"), ("d", "double"), ("x", "string")], rows)})
    for f, args in PRINTF:
        exp = [row + (None if any(row["ndx".index(a)] is None for a in args) else f % tuple(row["ndx".index(a)] for a in args),) for row in rows]
        for way in ("{!r}", "F.col({!r})"):
            compare(r, f"printf: {f}", s, f"commands.eval(df, r=functions.eval.printf(F.lit({f!r}){''.join(', ' + way.format(a) for a in args)}))", X.Out(["n", "d", "x", "r"], exp), job)
    ips = ["10.20.30.120", "255.255.255.255", "0.0.0.0", "192.168.1.77"]
    s = X.Session({"main": ([("ip", "string")], [(v,) for v in ips])})
    for mask in MASKS:
        exp = [(v, ".".join(str(int(a) & int(b)) for a, b in zip(v.split("."), mask.split(".")))) for v in ips]
        for way in ("'ip'", "F.col('ip')"):
            compare(r, f"ipmask: {mask}", s, f"commands.eval(df, r=functions.eval.ipmask(F.lit({mask!r}), {way}))", X.Out(["ip", "r"], exp), job)
    r.sample("tostring(n, 'hex')")


def converted(r, key, session, spl, text, job, refuse=False):
    """The call agrees with the code converted for the same call of SPL."""
    k, v, code = X.run(spl, session, False)
    if refuse:
        r.states += 1
        r.traces += 1
        if k != "unsupported":
            raise AssertionError(f"{spl!r} is not refused")
        k2, v2 = evaluate(session, text)
        if k2 == "ok":
            r.bad(key, f"{text} is accepted, although {spl!r} cannot be converted", job)
        else:
            r.outcomes["refused"] += 1
        return
    if k != "ok":
        r.bad(key, f"{spl!r} cannot be run: {v}", job)
        return
    compare(r, key, session, text, v, job)


def times(r, job):
    s = X.Session({"main": ([("i", "bigint"), ("tt", "timestamp"), ("x", "string")], [(i, t, (TEXTS + [None] * 9)[i]) for i, t in enumerate(TIMES)])})
    for form in ("commands.eval(df, r={})", "df.withColumn('r', {})"):
        for t in ("'tt'", "F.col('tt')"):
            for f in FORMATS:
                converted(r, f"strftime: {f}", s, f'index=main | eval r=strftime(tt, "{f}")', form.format(f"functions.eval.strftime({t}, {f!r})"), job)
                for g in FORMATS[:8] if job["deep"] else FORMATS[:2]:
                    both = f"{f} | {g}"
                    if "%" in both and "%" in f:
                        converted(r, f"strftime: {both}", s, f'index=main | eval r=strftime(tt, "{both}")', form.format(f"functions.eval.strftime({t}, {both!r})"), job)
            for f in BADFORMATS:
                converted(r, f"strftime: {f}", s, f'index=main | eval r=strftime(tt, "{f}")', form.format(f"functions.eval.strftime({t}, {f!r})"), job, refuse=True)
            compare(r, "strftime: Spark format", s, form.format(f"functions.eval.strftime({t}, 'yyyy/MM/dd HH', is_spl_format=False)"), X.Out(["i", "tt", "x", "r"], [(i, x, (TEXTS + [None] * 9)[i], x and f"{x.year:04d}/{x.month:02d}/{x.day:02d} {x.hour:02d}") for i, x in enumerate(TIMES)]), job)
        for x, f in PARSE.items():
            for t in ("'x'", "F.col('x')"):
                converted(r, f"strptime: {f}", s, f'index=main | where x="{x}" | eval r=strptime(x, "{f}")', form.replace("df", f"df.where(F.col('x') == {x!r})").format(f"functions.eval.strptime({t}, {f!r})"), job)
        spans = [(n, u) for u in SCALES for n in ((-25, -1, 0, 1, 7, 90) if job["deep"] else (-1, 1, 7))]
        first = [None] + spans
        for span in first:
            for snap in [None, *(u for u in SCALES)]:
                for off in [None] + (spans if job["deep"] and span in (None, (-1, "days")) else spans[::5]) if snap else [None]:
                    if span is None and snap is None:
                        continue
                    spl = "".join(f"{n:+d}{SCALES[u]}" for n, u in [span] if span) if span else ""
                    spl += f"@{SCALES[snap]}" if snap else ""
                    spl += f"{off[0]:+d}{SCALES[off[1]]}" if off else ""
                    sp = lambda x: None if x is None else f"TimeSpan(value={x[0]}, scale={x[1]!r})"  # noqa: E731
                    sd = lambda x: None if x is None else {"value": x[0], "scale": x[1]}  # noqa: E731
                    calls = [f"'tt', {sp(span)}, {snap and 'TimeScale.' + snap.upper()}, {sp(off)}", f"F.col('tt'), span={sd(span)!r}, snap={snap!r}, snap_offset={sd(off)!r}"]
                    if not off:
                        calls.append(f"'tt', span={sp(span)}, snap={snap!r}" if snap else f"'tt', {sp(span)}")
                    for c in calls:
                        converted(r, f"relative_time: {spl}", s, f'index=main | eval r=relative_time(tt, "{spl}")', form.format(f"functions.eval.relative_time({c})"), job)


def stats(r, job):
    fn = job["fn"]
    n = 4 if job["deep"] else 3
    for values in itertools.product(SVALS, repeat=n):
        rows = [(T(2024, 1, 1, 0, 0, [5, 1, 3, 2][i]), "ab"[i % 2], v, None if v is None else v / 4, None if v is None else f"s{v}") for i, v in enumerate(values)]
        s = X.Session({"main": (SSCHEMA, rows)})
        cols = [""] if not STATS[fn] else ["v"] + (["s"] if fn in ("max", "min", "mode", "first", "last", "values", "list", "earliest", "latest", "dc", "distinct_count", "estdc", "median") and fn != "median" else ["w"])
        for c in cols:
            for by in ((), ("g",)):
                for extra in ([25, 50, 90] if STATS[fn] == 2 else [None]):
                    spl = f"{fn}{'' if extra is None else extra}({c})"
                    args = (f"{c!r}" if c else "") + ("" if extra is None else f", {extra}")
                    args2 = (f"F.col({c!r})" if c else "") + ("" if extra is None else f", {extra}")
                    for a in (args, args2):
                        converted(r, f"stats {fn}", s, f"index=main | stats {spl} as r" + (" by g" if by else ""), f"commands.stats(df, by={list(by)!r}, r=functions.stats.{STATLIB.get(fn, fn)}({a}))", job)
    r.sample(f"stats {fn}")


def run(job):
    r = Res()
    k = job["kind"]
    if k == "function":
        function(r, job)
    elif k == "times":
        times(r, job)
    elif k == "formats":
        formats(r, job)
    elif k == "stats":
        stats(r, job)
    else:
        s = X.Session({"main": ([("v0", "string")], [("a",), (None,)])})
        for c in NOTIMPL:
            r.states += 1
            r.traces += 1
            got = evaluate(s, f"commands.eval(df, r=functions.eval.{c})")
            if got[0] != "notimpl":
                r.bad(f"not implemented: {c}", f"functions.eval.{c} gives {got} instead of NotImplementedError", job)
            else:
                r.outcomes["NotImplementedError"] += 1
    return r


def jobs(tier):
    deep = tier == "thorough"
    for fn, specs in p14.SPECS.items():
        for i in range(len(specs)):
            yield {"kind": "function", "fn": fn, "i": i, "deep": deep}
    yield {"kind": "times", "deep": deep}
    for fn in STATS:
        yield {"kind": "stats", "fn": fn, "deep": deep}
    yield {"kind": "formats"}
    yield {"kind": "not implemented"}


def bounds(tier):
    deep = tier == "thorough"
    return (f"{len(p14.SPECS)} functions of columns, every combination of the listed boundary values of their arguments (and of absence), each argument as a name, a column, a plain value or an Expr, in eval and withColumn (and where); strftime with {len(FORMATS)} formats and pairs of them on {len(TIMES)} times, strptime, "
            f"relative_time with every combination of {6 if deep else 3} shifts x 6 units, 6 units to snap to and shifts after it; {len(TOSTRING)} formats of tostring, 5 bases of tonumber, {len(PRINTF)} formats of printf, {len(MASKS)} masks of ipmask; {len(STATS)} aggregations of every table of {4 if deep else 3} rows over {len(SVALS)} values, with and without groups; {len(NOTIMPL)} functions that are not implemented")
