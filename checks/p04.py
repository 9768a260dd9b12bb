"""P04: texts, names and numbers of a query reach the data unchanged."""
import itertools

from vf import execute as X
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "texts hold no * (a wildcard); the texts that are searched or LIKE patterns are made of hold no %, _ or backslash; names hold no dot, backtick or *, which Spark itself reads specially",
    "names and texts compare exactly",
]
UNITS = ["a", " ", "'", '"', "\\", "{", "}", "#", "$", "\n", "\t", "|", "[", "]", "(", ")", ",", "=", "é", "𝔘", "?", ";", "%", "_", "n", "0", "-", "/", ":", "<", "+", "&", "^", "~", "@", "!", "\r", "日"]
CORE = ["a", " ", "'", '"', "\\", "{", "#", "\n", "|", "]", ",", "=", "é", "n", "0"]
LOOKALIKE = ["5", "-3", "1.5", "1e5", "007", "0x1F", "true", "false", "t", "f", "null", "None", "1h", "5m", "10.0.0.0/8", "10.0.0.1", "::1", "fe80::/10", "NOT", "and", "OR", "as", "by", "in", "now()", "count", "a=b", "index=main", "_raw", "F.col('a')", "F.lit(1)", "df_1", "spark", "lambda", "class", "$x$", "{x}", "%s",
             "%(a)s", "{0}", "\\d+", "\\\\", "\\n", "\\x41", "\\u0041", "\\'", "'''", '""', '"a"', "''", "'a'", "(a)", "[search x]", "| head 1", "#comment", "``", "r'x'", "b", "a b c", " a", "a ", "  ", "tab\there", "a\\", "\\a", "\u200b", "\u2028", "\x7f", "\x00"[:0] + "end", "desc", "search", "eval", "sum(a)", "x AS y", "@", "-", "--", "+1", "1-2",
             "2024-01-01", "12:30", "a,b", ",", "=", "==", "!=", "<", ">=", "C:\\Temp\\new", "\\\\host\\share", "he said \"hi\"", "it's", "100%", "a_b", "_", "%"]


def dq(s, bare=False):
    """The SPL spelling of a text. bare: a backslash stands alone where that is unambiguous."""
    out = ""
    for i, c in enumerate(s):
        n = s[i + 1:i + 2]
        if c == '"' or (c == "\\" and not (bare and n.isalnum())):
            out += "\\"
        out += c
    return '"' + out + '"'


def sq(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def texts(tier):
    yield ""
    yield from LOOKALIKE
    yield from UNITS
    yield from ("".join(t) for t in itertools.product(UNITS, repeat=2))
    yield from ("".join(t) for t in itertools.product(UNITS if tier == "thorough" else CORE[:9], repeat=3))
    if tier == "thorough":
        yield from ("".join(t) for t in itertools.product(CORE, repeat=4))


def plain(s):
    """Free of what LIKE reads specially."""
    return not set(s) & set("%_\\")


COLS = ["i", "a", "b", "_raw"]
SCHEMA = [("i", "bigint"), ("a", "string"), ("b", "string"), ("_raw", "string")]


def rows_for(s):
    alike = [s, s + "x", s[:-1], s[1:], s.replace("\\", "\\\\"), s.replace('"', '\\"'), s.strip(), "x" + s, "other", s.replace("'", '"'), s + " ", None]
    seen, rows = set(), []
    for v in alike:
        if v not in seen:
            seen.add(v)
            rows.append((len(rows), v, "b", None if v is None else f"<{v}>"))
    return rows


def cat(*v):
    return None if None in v else "".join(v)


def in_values(r, s, i, job):
    rows = rows_for(s)
    ses = X.Session({"main": (SCHEMA, rows)})
    q = dq(s, bare=i % 2 == 1)
    both = [
        (f"eval x={q}", COLS + ["x"], [t + (s,) for t in rows]),
        (f"eval x={q} . b, y=b . {q} . {q}", COLS + ["x", "y"], [t + (s + "b", "b" + s + s) for t in rows]),
        (f"eval x=if(a={q}, {q}, b)", COLS + ["x"], [t + (s if t[1] == s else "b",) for t in rows]),
        (f'eval x=case(a!={q}, 1, a={q}, 2)', COLS + ["x"], [t + (None if t[1] is None else 2 if t[1] == s else 1,) for t in rows]),
        (f"eval x=coalesce(a, {q}), y=len({q})", COLS + ["x", "y"], [t + (s if t[1] is None else t[1], len(s)) for t in rows]),
        (f"where a={q}", COLS, [t for t in rows if t[1] == s]),
        (f'where {q}!=a', COLS, [t for t in rows if t[1] not in (s, None)]),
        (f'where a IN ("zz", {q})', COLS, [t for t in rows if t[1] == s]),
        (f"search a={q}", COLS, [t for t in rows if t[1] == s]),
        (f"search NOT a={q} i<99", COLS, [t for t in rows if t[1] not in (s, None)]),
        (f'search a IN ({q}, "zz")', COLS, [t for t in rows if t[1] == s]),
        (f"stats count(eval(a={q})) AS n", ["n"], [(sum(t[1] == s for t in rows),)]),
    ]
    if plain(s):
        both.append((f"search {q}", COLS, [t for t in rows if t[3] is not None and s.lower() in t[3].lower()]))
    if s not in NUMERIC:
        both.append((f"fillnull value={q} a", COLS, [(t[0], s if t[1] is None else t[1]) + t[2:] for t in rows]))
    for rt in (False, True):
        for spl, cols, exp in both:
            sem.check(r, "index=main | " + spl, ses, X.Out(cols, exp), job, rt, True, True, tag="texts")
        if i % 4 == 0:
            for spl, cols, exp in both[5:]:
                if spl.startswith("search "):
                    sem.check(r, "index=main " + spl[7:], ses, X.Out(cols, exp), job, rt, True, True, tag="texts")


NUMERIC = {"5", "-3", "1.5", "1e5", "007", "+1", "0", "00", "000"}


def name_ok(s):
    return s.strip() and not set(s) & set(".`*")


BARE = "_:/-%@{}"


def bare_names(tier):
    """Names that need no quotes: letters with the signs of BARE between them, before and after."""
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        for c in itertools.product(BARE, repeat=n):
            s = "".join(c)
            yield f"kq{s}zq"
            if n == 2:
                yield f"kq{s[0]}7x{s[1]}zq"
    for c in BARE:
        yield f"kq{c}"
    yield from ("_kq", "__kq", "_kq_zq", "kq7", "kq007", "KqZq", "kqzq")


def in_names(r, s, i, job, bare=False):
    if not name_ok(s) or s in COLS:
        return
    rows = [(1, "p", None), (2, None, "r"), (3, "p", "q")]
    ses = X.Session({"main": ([("k", "bigint"), ("z", "string"), (s, "string")], rows), "other": ([("w", "string"), (s, "string")], [("W", "r"), ("V", "q")])})
    d, q = (s, s) if bare else (dq(s, bare=i % 2 == 1), sq(s))
    cols = ["k", "z", s]
    new = s + "x"
    dn, qn = (new, new) if bare else (dq(new), sq(new))
    both = [
        (f"eval {d}=k", cols, [(k, z, k) for k, z, v in rows]),
        (f"eval {q}=k + 1, {dn}='{{}}' . z".replace("'{}'", q), None, None),
        (f"eval {qn}={q}", cols + [new], [t + (t[2],) for t in rows]),
        (f"where {q}=\"q\"", cols, [rows[2]]),
        (f"where isnull({q})", cols, [rows[0]]),
        (f"table k, {d}", ["k", s], [(k, v) for k, z, v in rows]),
        (f"fields {d}, z", [s, "z"], [(v, z) for k, z, v in rows]),
        (f"fields - {d}", ["k", "z"], [(k, z) for k, z, v in rows]),
        (f"rename z AS {dn}", ["k", new, s], rows),
        (f"rename {d} AS y", ["k", "z", "y"], rows),
        (f"rename {d} AS {dn}", ["k", "z", new], rows),
        (f"stats sum(k) AS {d}", [s], [(6,)]),
        (f"stats count({q}) AS n", ["n"], [(2,)]),
        (f"stats max(k) AS m by {d}", [s, "m"], [(None, 1), ("r", 2), ("q", 3)]),
        (f"stats max(k) AS {dn} by z", ["z", new], [("p", 3), (None, 2)]),
        (f"sort - k, {q}", cols, rows[::-1]),
        (f"fillnull value=\"F\" {q}", cols, [(k, z, "F" if v is None else v) for k, z, v in rows]),
        (f"addtotals fieldname={d} k", None, None),
        (f"addtotals fieldname={dn} k", cols + [new], [t + (t[0],) for t in rows]),
        (f"lookup other {q} OUTPUT w", cols + ["w"], [t + ({None: None, "r": "W", "q": "V"}[t[2]],) for t in rows]),
    ]
    if bare:
        both += [
            (f"search {s}=q", cols, [rows[2]]), (f"search {s}!=r k>0", cols, [rows[2]]), (f"search {s} IN (q, zz)", cols, [rows[2]]), (f"where {s} IN (\"q\", \"r\")", cols, rows[1:]), (f"where len({s}) = 1 AND k < 3", cols, [rows[1]]),
            (f"stats count({s}) AS {new}, max(k) AS m", [new, "m"], [(2, 3)]), (f"join {s} [search index=other {s}=q | fields {s}]", None, None), (f"addtotals fieldname={new} k", cols + [new], [t + (t[0],) for t in rows]),
        ]
    for rt in (False, True):
        for spl, c, exp in both:
            if c:
                # rows of groups come in no particular order
                sem.check(r, "index=main | " + spl, ses, X.Out(c, exp), job, rt, not spl.startswith("stats"), not spl.startswith("fields s"), tag="names")


NUMBERS = ["0", "1", "-1", "7", "42", "007", "0.5", "-0.5", "1.0", "1.50", "-2.250", "0.1", "0.001", "123456789", "2147483647", "2147483648", "-2147483648", "-2147483649", "9007199254740993", "9223372036854775807", "-9223372036854775807", "9223372036854775808", "-9223372036854775808",
           "18446744073709551616", "123456789012345678901234567890", "100000000000000000000.0", "0.1234567890123456789", "3.141592653589793", "1234567.891", "0.0000001", "00.5", "0.0", "-0", "1000000", "65536", "99999999999999999999.5", "2.5", "4.0"]


def value(t):
    if "." in t:
        v = float(t)
        return v
    v = int(t)
    return v if -2 ** 63 < v < 2 ** 63 else float(t)


def eq(a, b):
    return a is not None and a == b


def in_numbers(r, t, u, job):
    v, w = value(t), value(u)
    rows = [(1, float(v)), (2, float(v) + 1), (3, float(v) - 1), (4, 0.0), (5, None), (6, float(w))]
    ses = X.Session({"main": ([("i", "bigint"), ("a", "double")], rows)})
    cols = ["i", "a"]
    v0, w0, v, w = v, w, float(v), float(w)
    small = abs(v) < 2 ** 31 and abs(w) < 2 ** 31
    both = [
        (f"eval x={t}, y={u}", cols + ["x", "y"], [z + (v0, w0) for z in rows]),
        (f"where a={t}", cols, [z for z in rows if eq(z[1], v)]),
        (f"where a<{t} OR a>{u}", cols, [z for z in rows if z[1] is not None and (z[1] < v or z[1] > w)]),
        (f"where a IN ({t}, {u})", cols, [z for z in rows if z[1] is not None and z[1] in (float(v), float(w))]),
        (f"search a={t}", cols, [z for z in rows if eq(z[1], v)]),
        (f"search a>={t} a<={u}", cols, [z for z in rows if z[1] is not None and v <= z[1] <= w]),
        (f"search a!={t}", cols, [z for z in rows if z[1] is not None and z[1] != v]),
        (f"search a IN ({t}, {u})", cols, [z for z in rows if z[1] is not None and z[1] in (float(v), float(w))]),
        (f"eval x=if(a>={t}, {u}, {t})", cols + ["x"], [z + (w if z[1] is not None and z[1] >= v else v,) for z in rows]),
        (f"eval x=max({t}, {u}), y=coalesce(a, {t})", cols + ["x", "y"], [z + (max(v, w), v if z[1] is None else z[1]) for z in rows]),
    ]
    if small:
        both += [(f"eval x={t} + {u}, y={t} * {u}", cols + ["x", "y"], [z + (v + w, v * w) for z in rows]),
                 (f"eval x=a * {t} - {u}", cols + ["x"], [z + (None if z[1] is None else z[1] * v - w,) for z in rows])]
    for rt in (False, True):
        for spl, c, exp in both:
            sem.check(r, "index=main | " + spl, ses, X.Out(c, exp), job, rt, True, True, tag="numbers")


def decimals(tier):
    """Numbers whose digits matter: every short decimal, and integers around the powers of two and ten."""
    for w in range(200 if tier == "thorough" else 12):
        for k in (1, 2, 3):
            for d in range(10 ** k):
                yield f"{w}.{d:0{k}d}"
    for w in (37, 64, 129, 1023, 4099, 65537, 1000003, 123456789, 4294967297):
        for k in (1, 2, 3, 5, 8, 13, 17):
            for d in (1, 3, 7, 9, 14, 41, 641, 999):
                if d < 10 ** k:
                    yield f"{w}.{d:0{k}d}"
    for k in range(64):
        for x in (2 ** k - 1, 2 ** k, 2 ** k + 1):
            yield str(x)
    for k in range(25):
        for x in (10 ** k - 1, 10 ** k, 10 ** k + 1, 7 * 10 ** k):
            yield str(x)


def exact(r, numbers, job):
    """Numbers arrive bit for bit, with either sign."""
    ses = X.Session({"main": ([("i", "bigint")], [(1,)])})
    for sign, rt in itertools.product(("", "-"), (False, True)):
        want = [value(sign + t) for t in numbers]
        spl = "index=main | eval " + ", ".join(f"x{i}={sign}{t}" for i, t in enumerate(numbers))
        r.states += len(numbers)
        r.transitions += len(numbers)
        k, got, code = X.run(spl, ses, rt)
        if k != "ok":
            r.bad(f"decimals {numbers[0]}", f"{spl!r} was {k}: {got}", job)
            continue
        r.traces += len(numbers)
        got = dict(zip(got.cols, got.rows[0]))
        for i, (t, w) in enumerate(zip(numbers, want)):
            v = got.get(f"x{i}")
            if isinstance(v, bool) or v != w:  # compared exactly, also an int with a float
                r.bad(f"decimals {sign}{t}", f"the number {sign}{t} arrives as {v!r} instead of {w!r}", job)
            else:
                r.outcomes["exact"] += 1


def jobs(tier):
    n, step = sum(1 for _ in texts(tier)), 60 if tier == "quick" else 400
    return [{"kind": "bare", "lo": lo, "tier": tier} for lo in range(0, sum(1 for _ in bare_names(tier)), 40)] + [{"kind": "texts", "lo": lo, "hi": lo + step, "tier": tier} for lo in range(0, n, step)] + [{"kind": "numbers", "i": i} for i in range(len(NUMBERS))] + \
        [{"kind": "decimals", "lo": lo, "tier": tier} for lo in range(0, sum(1 for _ in decimals(tier)), 1500)]


def bounds(tier):
    return (f"{sum(1 for _ in texts(tier))} texts: every sequence of up to 2 of {len(UNITS)} characters, of 3 of {len(UNITS) if tier == 'thorough' else 9}{', of 4 of ' + str(len(CORE)) if tier == 'thorough' else ''} and {len(LOOKALIKE)} texts that look like something else, in 14 places for a text (and after an index) and, as a name, in 18 places for a name; {sum(1 for _ in bare_names(tier))} names without quotes, with every sequence of up to {3 if tier == 'thorough' else 2} of the signs {BARE} in them, in 25 places; "
            f"every pair of {len(NUMBERS)} numbers in 12 places; {sum(1 for _ in decimals(tier))} further numbers (every decimal below {200 if tier == 'thorough' else 12} of up to 3 places, integers around the powers of 2 and 10) with either sign; both modes")


def run(job):
    r = Res()
    if job["kind"] == "decimals":
        ts = list(itertools.islice(decimals(job["tier"]), job["lo"], job["lo"] + 1500))
        for i in range(0, len(ts), 50):
            exact(r, ts[i:i + 50], job)
        return r
    if job["kind"] == "bare":
        for s in itertools.islice(bare_names(job["tier"]), job["lo"], job["lo"] + 40):
            in_names(r, s, 0, job, True)
        return r
    if job["kind"] == "numbers":
        for u in NUMBERS:
            in_numbers(r, NUMBERS[job["i"]], u, job)
        return r
    for i, s in enumerate(itertools.islice(texts(job["tier"]), job["lo"], job["hi"]), job["lo"]):
        r.sample(repr(s))
        in_values(r, s, i, job)
        in_names(r, s, i, job)
    return r
