"""P16: times are formatted, parsed, shifted and snapped as SPL defines."""
import datetime as dt
import itertools

from vf import execute as X
from vf import impl, sem
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark formats, parses and truncates times as Spark does with the session time zone UTC (validated against recorded runs of the real Spark, tools/golden.py)",
    "strptime is given texts that match the format, with zero-padded numbers and a complete date",
]
UTC = dt.timezone.utc
T = lambda *a: dt.datetime(*a, tzinfo=UTC)  # noqa: E731
INSTANTS = [T(2024, 2, 29, 13, 5, 9, 123456), T(1999, 12, 31, 23, 59, 59, 999000), T(2000, 1, 1), T(2023, 7, 4, 9, 8, 7, 40), T(1970, 1, 1, 12, 0, 1), T(2038, 1, 19, 3, 14, 8, 500000),
            T(2024, 12, 29), T(2024, 3, 3, 0, 0, 0), T(2024, 3, 2, 23, 59, 59, 999999), T(2023, 3, 31, 12, 30), T(2021, 1, 31, 1, 1, 1), T(2024, 12, 30, 6, 0, 30)]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
NANO = lambda t: f"{t.microsecond:06d}000"  # noqa: E731
# directive -> (its text for an instant, the fields at its start and at its end)
DIR = {
    "%Y": (lambda t: f"{t.year:04d}", "year", "year"), "%y": (lambda t: f"{t.year % 100:02d}", "year", "year"),
    "%m": (lambda t: f"{t.month:02d}", "month", "month"), "%b": (lambda t: MONTHS[t.month - 1][:3], "month", "month"), "%B": (lambda t: MONTHS[t.month - 1], "month", "month"),
    "%d": (lambda t: f"{t.day:02d}", "day", "day"), "%e": (lambda t: str(t.day), "day", "day"), "%j": (lambda t: f"{(t.date() - dt.date(t.year, 1, 1)).days + 1:03d}", "doy", "doy"),
    "%A": (lambda t: DAYS[t.weekday()], "dow", "dow"), "%a": (lambda t: DAYS[t.weekday()][:3], "dow", "dow"),
    "%F": (lambda t: f"{t.year:04d}-{t.month:02d}-{t.day:02d}", "year", "day"), "%T": (lambda t: f"{t.hour:02d}:{t.minute:02d}:{t.second:02d}", "hour", "sec"),
    "%H": (lambda t: f"{t.hour:02d}", "hour", "hour"), "%k": (lambda t: str(t.hour), "hour", "hour"), "%I": (lambda t: f"{t.hour % 12 or 12:02d}", "h12", "h12"), "%p": (lambda t: "AM" if t.hour < 12 else "PM", "ampm", "ampm"),
    "%M": (lambda t: f"{t.minute:02d}", "min", "min"), "%S": (lambda t: f"{t.second:02d}", "sec", "sec"),
    "%f": (lambda t: f"{t.microsecond:06d}", "frac", "frac"), "%N": (NANO, "frac", "frac"), "%3N": (lambda t: NANO(t)[:3], "frac", "frac"), "%6N": (lambda t: NANO(t)[:6], "frac", "frac"), "%9N": (NANO, "frac", "frac"),
    "%Q": (lambda t: NANO(t)[:3], "frac", "frac"), "%3Q": (lambda t: NANO(t)[:3], "frac", "frac"), "%6Q": (lambda t: NANO(t)[:6], "frac", "frac"), "%9Q": (NANO, "frac", "frac"),
    "%z": (lambda t: "+0000", "zone", "zone"), "%:z": (lambda t: "+00:00", "zone", "zone"), "%::z": (lambda t: "+00:00", "zone", "zone"), "%:::z": (lambda t: "+00", "zone", "zone"),
    "%Z": (lambda t: "UTC", "zname", "zname"),
}
LIT = ["T", " ", "-", ":", "at ", "o'c", "[x]", "{#}", "Z", "%%", "7", "é", "%%Y", "'", "yyyy"]
BADDIR = ["%c", "%+", "%Ez", "%s", "%X", "%x", "%w", "%V", "%U", "%q", "%", "% Y", "%1N", "%4Q", "%-d", "%:", "%::H"]
SCHEMA = [("i", "bigint"), ("t1", "timestamp"), ("e", "bigint")]
ROWS = [(i, t, int(t.timestamp())) for i, t in enumerate(INSTANTS)] + [(99, None, None)]


def check(r, spl, ses, expect, case, rt, *a):
    return sem.check(r, ("index=main | " if rt and expect != "reject" else "") + spl, ses, expect, case, rt, *a)


SES = X.Session({"main": (SCHEMA, ROWS)})


def lit_text(x):
    return x.replace("%%", "%")


def clash(items):
    """Two directives of the same field side by side: refusing those is allowed."""
    return any(a in DIR and b in DIR and DIR[a][2] == DIR[b][1] for a, b in zip(items, items[1:]))


def text(items, t):
    return "".join(DIR[i][0](t) if i in DIR else lit_text(i) for i in items)


# ------------------------------------------------------------------ formatting
def formats(tier):
    ds = list(DIR)
    everything = ds + LIT
    yield from ((a,) for a in ds)
    yield from (p for p in itertools.product(everything, repeat=2) if set(p) & set(DIR))
    yield from ((a, m, b) for a in (ds if tier == "thorough" else ds[:20:2] + ["%T", "%:z"]) for m in LIT for b in (ds if tier == "thorough" else ds[1::3]))
    yield from ((a, b, c) for a in LIT for b in (ds if tier == "thorough" else ds[::4]) for c in LIT)
    if tier == "thorough":
        yield from (p for p in itertools.product(ds, repeat=3))


COMMON = ["%Y-%m-%dT%H:%M:%SZ", "%Y-%m-%d %H:%M:%S.%3N", "%m/%d/%Y %I:%M:%S %p", "%d/%b/%Y:%H:%M:%S %z", "%A, %B %e at %k o'clock", "%FT%T.%6Q%:z", "Week day %a, day %j of %Y", "%H%M%S%f", "100%% of %y", "%Y年%m月"]


def parts_of(fmt):
    out, rest, ds = [], fmt, sorted(DIR, key=len, reverse=True)
    while rest:
        d = "%%" if rest.startswith("%%") else next((d for d in ds if rest.startswith(d)), rest[0])
        out.append(d)
        rest = rest[len(d):]
    return tuple(out)


def quoted(fmt):
    return '"' + fmt.replace("\\", "\\\\").replace('"', '\\"') + '"'


def run_format(r, items, rt):
    fmt = "".join(items)
    for spl, col in ((f"eval x=strftime(t1, {quoted(fmt)})", "x"), (f"convert timeformat={quoted(fmt)} ctime(t1) as x", "x")):
        if clash(items):
            r.states += 1
            k, v, code = X.run(spl, SES, rt)
            r.traces += 1
            if k == "unsupported":
                r.outcomes["adjacent fields refused"] += 1
                continue
        exp = X.Out(["i", "t1", "e", col], [(*row, None if row[1] is None else text(items, row[1])) for row in ROWS])
        check(r, spl, SES, exp, ["one", "format", list(items), rt], rt, True, True, "strftime")


# ------------------------------------------------------------------ parsing
DATES = [("%Y", "-", "%m", "-", "%d"), ("%d", "/", "%b", "/", "%Y"), ("%B", " ", "%d", ", ", "%Y"), ("%F",), ("%m", "/", "%d", "/", "%y"), ("%Y", "%m", "%d"), ("%e", ".", "%m", ".", "%Y"), ("%Y", "-", "%j")]
TIMES = [(), ("%H", ":", "%M", ":", "%S"), ("%T",), ("%I", ":", "%M", " ", "%p"), ("%H", ":", "%M", ":", "%S", ".", "%3N"), ("%T", ".", "%6Q"), ("%H", "%M", "%S"), ("%k", "h ", "%M", "m"), ("%T", ".", "%f"), ("%T", ",", "%9N")]
ZONES = [(), (" ", "%z"), ("%:z",), ("Z",), (" ", "%:::z"), (" ", "%::z")]
OFFS = {"%z": [("+0000", 0), ("+0530", 19800), ("-0800", -28800)], "%:z": [("+00:00", 0), ("+05:30", 19800), ("-08:00", -28800)], "%::z": [("+05:30", 19800), ("-08:00", -28800)], "%:::z": [("+00", 0), ("-08", -28800), ("+02", 7200)]}


def known(items, t):
    """What the text keeps of the instant."""
    f = set()
    for i in items:
        f |= {"%T": {"h", "m", "s"}, "%H": {"h"}, "%k": {"h"}, "%I": {"h"}, "%M": {"m"}, "%S": {"s"}}.get(i, set())
    us = 0
    for i in items:
        if i in DIR and DIR[i][1] == "frac":
            n = len(DIR[i][0](t))
            us = int(NANO(t)[:n].ljust(9, "0")) // 1000
    return t.replace(hour=t.hour if "h" in f else 0, minute=t.minute if "m" in f else 0, second=t.second if "s" in f else 0, microsecond=us)


def run_parse(r, di, ti, zi, sep, rt):
    items = DATES[di] + ((sep,) + TIMES[ti] if TIMES[ti] else ()) + ZONES[zi]
    zone = next((z for z in ZONES[zi] if z in OFFS), None)
    rows, exp = [], []
    for t in INSTANTS:
        if "%y" in items and t.year < 2000:
            continue
        for z, off in OFFS.get(zone, [("", 0)]):
            s = "".join(z if i == zone else DIR[i][0](t) if i in DIR else i for i in items)
            rows.append((s,))
            exp.append((s, known(items, t) - dt.timedelta(seconds=off)))
    rows.append((None,))
    exp.append((None, None))
    fmt = "".join(items)
    ses = X.Session({"main": ([("s", "string")], rows)})
    check(r, f"eval x=strptime(s, {quoted(fmt)})", ses, X.Out(["s", "x"], exp), ["one", "parse", [di, ti, zi, sep], rt], rt, True, True, "strptime")


# ------------------------------------------------------------------ shifting and snapping
UNITS = {"seconds": ["s", "sec", "secs", "second", "seconds"], "minutes": ["m", "min", "mins", "minute", "minutes"], "hours": ["h", "hr", "hrs", "hour", "hours"], "days": ["d", "day", "days"], "weeks": ["w", "week", "weeks"], "months": ["mon", "month", "months"]}
SECS = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}
AMOUNTS = ["-", "-1", "-2", "+1", "+3", "-7", "-24", "-90", "+40", "-0", "1", "15"]


def amount(a):
    return -1 if a == "-" else int(a)


def shift(t, n, unit):
    if unit == "months":
        k = t.year * 12 + t.month - 1 + n
        y, m = divmod(k, 12)
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
        return t.replace(year=y, month=m + 1, day=min(t.day, last))
    return t + dt.timedelta(seconds=n * SECS[unit])


def snap(t, unit):
    if unit == "seconds":
        return t.replace(microsecond=0)
    if unit == "minutes":
        return t.replace(microsecond=0, second=0)
    if unit == "hours":
        return t.replace(microsecond=0, second=0, minute=0)
    day = t.replace(microsecond=0, second=0, minute=0, hour=0)
    if unit == "days":
        return day
    if unit == "weeks":
        return day - dt.timedelta(days=(day.weekday() + 1) % 7)
    return day.replace(day=1)


def specs(tier):
    """(text, span, snap, offset)"""
    units = [(u, names) for u, names in UNITS.items()]
    full = [(u, n) for u, names in units for n in names]
    short = [(u, names[0]) for u, names in units]
    for a in AMOUNTS:
        for u, n in full:
            yield f"{a}{n}", (amount(a), u), None, None
    for u, n in full + [("weeks", "w0"), ("weeks", "w7")]:
        yield f"@{n}", None, u, None
    for a in AMOUNTS[:9]:
        for u, n in (full if tier == "thorough" else short):
            for v, m in (full if tier == "thorough" else short + [("weeks", "w0")]):
                yield f"{a}{n}@{m}", (amount(a), u), v, None
    for sp in [None] + [(a, u, n) for a in ("-1", "+2", "-") for u, n in short]:
        for v, m in short:
            for b in ("+3", "-1", "+15", "-25"):
                for w, k in short:
                    yield f"{'' if sp is None else sp[0] + sp[2]}@{m}{b}{k}", None if sp is None else (amount(sp[0]), sp[1]), v, (int(b), w)


def adjust(t, span, sn, off):
    if t is None:
        return None
    if span:
        t = shift(t, *span)
    if sn:
        t = snap(t, sn)
    return shift(t, *off) if off else t


NOW = T(2024, 2, 29, 13, 5, 9)


def run_spec(r, spec, rt):
    s, span, sn, off = spec
    span, off = span and tuple(span), off and tuple(off)
    case = ["one", "spec", spec, rt]
    val = [adjust(row[1], span, sn, off) for row in ROWS]
    base = ["i", "t1", "e"]
    check(r, f'eval x=relative_time(t1, "{s}")', SES, X.Out(base + ["x"], [(*row, v) for row, v in zip(ROWS, val)]), case, rt, True, True, "relative_time")
    secs = [row[1] and row[1].replace(microsecond=0) for row in ROWS]
    check(r, f'eval x=relative_time(e, "{s}")', SES, X.Out(base + ["x"], [(*row, adjust(v, span, sn, off)) for row, v in zip(ROWS, secs)]), case, rt, True, True, "relative_time of seconds")
    lim = adjust(NOW, span, sn, off)
    check(r, f'where t1 >= relative_time(now(), "{s}")', SES, X.Out(base, [row for row in ROWS if row[1] is not None and row[1] >= lim]), case, rt, True, True, "relative_time of now")


def run_nested(r, spec, rt):
    s, span, sn, off = spec
    span, off = span and tuple(span), off and tuple(off)
    case = ["one", "nested", spec, rt]
    exp = [(*row, None if row[1] is None else text(parts_of(COMMON[0]), adjust(row[1], span, sn, off))) for row in ROWS]
    check(r, f'eval x=strftime(relative_time(t1, "{s}"), {quoted(COMMON[0])})', SES, X.Out(["i", "t1", "e", "x"], exp), case, rt, True, True, "strftime of relative_time")
    check(r, f'eval x=strftime(relative_time(time(), "{s}"), "%F %T")', SES, X.Out(["i", "t1", "e", "x"], [(*row, text(("%F", " ", "%T"), adjust(NOW, span, sn, off))) for row in ROWS]), case, rt, True, True, "strftime of time")
    exp = [(*row, None if row[1] is None else adjust(snap(row[1], "seconds"), span, sn, off)) for row in ROWS]
    check(r, f'eval y=strftime(t1, "%F %T"), x=relative_time(strptime(y, "%F %T"), "{s}") | fields - y', SES, X.Out(["i", "t1", "e", "x"], exp), case, rt, True, True, "relative_time of strptime")


REJECT = [f'eval x=relative_time({a})' for a in ('t1, "-1y@y"', 't1, "@q"', 't1, "1x"', 't1, ""', 't1, "foo"', 't1, "@"', 't1, "-1d@"', 't1', 't1, t1', 't1, 5', 't1, "-1d@d+"', 't1, "@w8"', 't1, "d@"', 't1, "1.5h"')]
REJECT += ["eval x=strftime(t1)", "eval x=strptime(t1)", "eval x=strftime()", 'eval x=strftime(t1, "%Y", "%m")', "bin span=1mon t1", "bin span=2months t1", "stats count by t1 span=1mon", "bin span=1y t1"]
REJECT += [f"eval x=strftime(t1, {quoted(p + b + q)})" for b in BADDIR for p, q in (("", ""), ("%Y", ""), ("", "%Y"), ("x ", " y"), ("%%", "%%")) if b + q not in ("%%Y", "%%%")]
REJECT += [f"eval x=strptime(s, {quoted(b)})" for b in BADDIR] + [f"convert timeformat={quoted(b)} ctime(t1)" for b in BADDIR]


def run(job):
    r = Res()
    kind = job[0]
    if kind == "format":
        for items, rt in job[1]:
            run_format(r, tuple(items), rt)
    elif kind == "parse":
        for a, rt in job[1]:
            run_parse(r, *a, rt)
    elif kind == "spec":
        for s, rt in job[1]:
            run_spec(r, s, rt)
    elif kind == "nested":
        for s, rt in job[1]:
            run_nested(r, s, rt)
    elif kind == "reject":
        for spl, rt in job[1]:
            check(r, spl, SES, "reject", ["one", "reject", spl, rt], rt)
    elif kind == "one":
        _, k, a, rt = job
        if k == "format":
            run_format(r, tuple(a), rt)
        elif k == "parse":
            run_parse(r, *a, rt)
        elif k in ("spec", "nested"):
            (run_spec if k == "spec" else run_nested)(r, a, rt)
        else:
            check(r, a, SES, "reject", job, rt)
    r.sample(str(job)[:200])
    return r


def jobs(tier):
    modes = (False, True)
    fs = list(dict.fromkeys(list(formats(tier)) + [parts_of(c) for c in COMMON]))
    # the runtime converts formats with the same code: it runs every 5th in the quick tier
    for c in chunks(((f, rt) for n, f in enumerate(fs) for rt in modes if not rt or tier == "thorough" or n % 5 == 0), 250):
        yield ["format", c]
    ps = [(d, t, z, s) for d in range(len(DATES)) for t in range(len(TIMES)) for z in range(len(ZONES)) for s in ((" ", "T", " at ") if tier == "thorough" else (" ", "T"))]
    for c in chunks(((p, rt) for p in ps for rt in modes), 120):
        yield ["parse", c]
    ss = list(specs(tier))
    for c in chunks(((s, rt) for n, s in enumerate(ss) for rt in modes if not rt or tier == "thorough" or n % 4 == 0), 150):
        yield ["spec", c]
    for c in chunks(((s, rt) for s in (ss if tier == "thorough" else ss[::7]) for rt in modes), 150):
        yield ["nested", c]
    for c in chunks(((s, rt) for s in REJECT for rt in modes), 80):
        yield ["reject", c]


def bounds(tier):
    return {"formats": "all sequences of 2 of 32 directives and 15 literal texts, and of 3 with a literal between two directives or a directive between two literals" + (", and of 3 directives" if tier == "thorough" else " (a third of the directives)"),
            "parsing": f"{len(DATES)} dates x {len(TIMES)} times x {len(ZONES)} zones x separators", "relative times": "12 amounts x 27 unit names, 29 snaps, amount-snap and amount-snap-offset combinations", "instants": len(INSTANTS) + 1, "modes": 2}
