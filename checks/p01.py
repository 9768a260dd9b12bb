"""P01: every text is answered, with a value or an ordinary exception, and promptly."""
import itertools
import sys
import time

from vf import corpus, impl
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "nesting of parentheses, calls, NOT and subsearches up to 200 (deeper input overflows the native stack, see DESIGN.md)",
    "a call that takes more than 10 s of CPU on at most 2 kB of input counts as not answered",
]

TOKENS = ['a', 'b', 'x1', '"s"', "'q f'", '1', '0', '-1', '2.5', '99999999999999999999', '=', '!=', '<', '>=', '+', '-', '*', '/', '.', ',',
          '(', ')', '()', '[', ']', '|', 'by', 'AS', 'AND', 'OR', 'NOT', 'IN', 'count', 'count(a)', 'sum(', 'eval(a=1)', 'a=1', 'a=', '=1',
          'limit=3', 'span=5m', 'span=1mon', 'span=', 'field=a', 'OUTPUT', 'from', 'where', 'datamodel=M', '10.0.0.0/8', 'a*', '*', '"', "'",
          '\\', '$a$', '`m`', 'é', '%', '_time', 'true', '-1d@d', 'desc', 'if(a=1,1,2)', 'mode=sed', '"(?<x>\\d+)"', '"("', 'null()', 'bins=0',
          '{', '}', ':', ';', '@', '&', '!', '#', '::', 'search', 'type=left', 'max=0', 'value=']
CORE = ['a', '"s"', '1', '-1', '=', ',', '(', ')', '|', '[', ']', 'by', 'AS', 'OR', 'NOT', 'count', 'sum(a)', 'a=1', 'limit=3', 'span=5m', '*', '-', "'q f'",
        'IN', 'from', '+']
CHARS = ['a', '1', ' ', '"', "'", '\\', '(', ')', '[', ']', '|', '*', '$', '%', '`', ',', '=', '-', '.', '/', '@', ':', 'é', '😀', '\n', '\t', '\0', '\u00a0', '!', '<', '{', '?', '+']
CHARS4 = ['a', '1', ' ', '"', '\\', '(', ')', '|', '*', '=', '-', ',', 'é', '`']
PREFIXES = ['', 'search ', 'search a=', 'eval x=', 'eval ', 'where ', 'stats ', 'stats count by ', 'head ', 'sort ', 'rex "', 'rex field=a "',
            'regex a="', 'fields ', 'rename a AS ', 'bin span=', 'bin ', 'spath ', 'tstats ', 'table ', '`', 'join a [', 'eval x="', "eval '", 'search "',
            'convert ', 'lookup ', 'fillnull value=', 'eval x=strftime(a,"', 'eval x=relative_time(a,"', 'top ', 'dedup ', 'search earliest=', 'makeresults ',
            'eval x=cidrmatch("', 'search a IN (', 'map search="', 'return ', 'format ', 'inputlookup ', 'multisearch [']
FUNCS = ['abs', 'acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh', 'avg', 'bit_and', 'bit_not', 'bit_or', 'bit_shift_left', 'bit_shift_right',
         'bit_xor', 'case', 'ceil', 'ceiling', 'cidrmatch', 'coalesce', 'commands', 'cos', 'cosh', 'exact', 'exp', 'false', 'floor', 'hypot', 'if', 'ifnull', 'in',
         'ipmask', 'isarray', 'isbool', 'isdouble', 'isint', 'ismv', 'isnotnull', 'isnull', 'isnum', 'isobject', 'isstr', 'json', 'json_append', 'json_array', 'json_array_to_mv',
         'json_delete', 'json_entries', 'json_extend', 'json_extract', 'json_extract_exact', 'json_has_key_exact', 'json_keys', 'json_object', 'json_set', 'json_set_exact',
         'json_valid', 'len', 'like', 'ln', 'log', 'lookup', 'lower', 'ltrim', 'match', 'max', 'md5', 'memk', 'min', 'mv_to_json_array', 'mvappend', 'mvcount',
         'mvdedup', 'mvfilter', 'mvfind', 'mvindex', 'mvjoin', 'mvmap', 'mvrange', 'mvsort', 'mvzip', 'none', 'now', 'null', 'nullif', 'pi', 'pow', 'printf', 'random',
         'relative_time', 'replace', 'rmcomma', 'rmunit', 'round', 'rtrim', 'searchmatch', 'sha1', 'sha256', 'sha512', 'sigfig', 'sin', 'sinh', 'split', 'spath', 'sqrt',
         'strftime', 'strptime', 'substr', 'sum', 'tan', 'tanh', 'time', 'tojson', 'tonumber', 'tostring', 'trim', 'true', 'typeof', 'upper', 'urldecode',
         'validate', 'auto', 'ctime', 'dur2sec', 'mktime', 'mstime', 'num', 'count', 'dc', 'nosuch']
ARGS = ['a', '"s"', '1', '-1', '"*"', 'a=1', 'f(a)', '2.5', 'NOT a', "'q f'", 'null()', '"-1d@d"', '"10.0.0.0/8"', '99999999999999999999', '1 + a']
STATS = ['count', 'c', 'sum', 'avg', 'mean', 'min', 'max', 'dc', 'distinct_count', 'estdc', 'estdc_error', 'exactperc95', 'perc95', 'p95', 'p0', 'p100', 'p101', 'p99999999999', 'perc',
         'upperperc50', 'median', 'mode', 'range', 'stdev', 'stdevp', 'var', 'varp', 'sumsq', 'first', 'last', 'earliest', 'earliest_time', 'latest', 'latest_time',
         'rate', 'list', 'values', 'per_day', 'per_hour', 'per_minute', 'per_second', 'sparkline', 'nosuch']


# ------------------------------------------------------------------ nesting families (depth d)
def _nest(o, c):
    return lambda d: o * d + "a=1" + c * d


FAMILIES = {
    "where(": lambda d: "where " + "(" * d + "a=1" + ")" * d,
    "search(": lambda d: "search " + "(" * d + "a=1" + ")" * d,
    "eval(": lambda d: "eval x=" + "(" * d + "a" + ")" * d,
    "eval f(": lambda d: "eval x=" + "abs(" * d + "a" + ")" * d,
    "eval if(": lambda d: "eval x=" + "if(a=1,b," * d + "c" + ")" * d,
    "eval if(if": lambda d: "eval x=" + "if(" * d + "a" + ",1,2)" * d,
    "eval case(": lambda d: "eval x=" + "case(a=1,1,true()," * d + "c" + ")" * d,
    "eval coalesce(": lambda d: "eval x=" + "coalesce(a," * d + "c" + ")" * d,
    "eval -": lambda d: "eval x=" + "- " * d + "a",
    "where NOT": lambda d: "where " + "NOT " * d + "a=1",
    "where NOT (": lambda d: "where " + "NOT (" * d + "a=1" + ")" * d,
    "search NOT": lambda d: "search " + "NOT " * d + "a=1",
    "search NOT (": lambda d: "search " + "NOT (" * d + "a=1" + ")" * d,
    "(a OR": lambda d: "search " + "(b=2 OR " * d + "a=1" + ")" * d,
    "(a ": lambda d: "search " + "(b=2 " * d + "a=1" + ")" * d,
    "where (a AND": lambda d: "where " + "(b=2 AND " * d + "a=1" + ")" * d,
    "eval (a +": lambda d: "eval x=" + "(b + " * d + "a" + ")" * d,
    "eval a*(": lambda d: "eval x=" + "b * (" * d + "a" + ")" * d,
    "eval (((a) + b) + ": lambda d: "eval x=" + "(" * d + "a" + " + b)" * d,
    "where ((a=1) OR": lambda d: "where " + "(" * d + "a=1" + " OR b=2)" * d,
    "chain +": lambda d: "eval x=a" + " + b" * d,
    "chain -*": lambda d: "eval x=a" + " - b * c" * d,
    "chain .": lambda d: "eval x=a" + " . b" * d,
    "chain AND": lambda d: "where a=1" + " AND b=2" * d,
    "chain OR": lambda d: "where a=1" + " OR b=2" * d,
    "chain AND OR": lambda d: "where a=1" + " AND b=2 OR c=3" * d,
    "search chain": lambda d: "search a=1" + " b=2" * d,
    "search chain OR": lambda d: "search a=1" + " OR b=2" * d,
    "search AND NOT": lambda d: "search a=1" + " AND NOT b=2" * d,
    "IN list": lambda d: "search a IN (1" + ",2" * d + ")",
    "eval many": lambda d: "eval x0=1" + "".join(f", x{i}=a" for i in range(1, d + 1)),
    "case args": lambda d: "eval x=case(a=1,1" + ",a=2,2" * d + ")",
    "pipe eval": lambda d: "search a=1" + " | eval x=a + 1" * d,
    "pipe where": lambda d: "search a=1" + " | where a=1" * d,
    "pipe stats": lambda d: "search a=1" + " | stats count by a" * d,
    "pipe spath": lambda d: "search a=1" + " | spath path=a" * d,
    "join [": lambda d: "search a=1" + " | join a [search b=1" * (d // 4) + "]" * (d // 4),
    "search [": lambda d: "search " + "[search " * (d // 4) + "a=1" + "]" * (d // 4),
    "multisearch [": lambda d: "multisearch " + "[search a=1] " * (d + 1),
    "multisearch [[": lambda d: "multisearch [search b=1] [multisearch [search a=1] " * (d // 8) + "[search c=1]" + "]" * (d // 8),
    "fields": lambda d: "fields a" + " b" * d,
    "fields,": lambda d: "fields a" + ", b" * d,
    "table": lambda d: "table a" + " b" * d,
    "sort": lambda d: "sort a" + ", -b" * d,
    "rename": lambda d: "rename a AS b" + ", c AS d" * d,
    "stats": lambda d: "stats count" + ", sum(a) AS b" * d + " by c" + ", d" * d,
    "tstats where": lambda d: "tstats count from datamodel=M where a=1" + " b=2" * d + " by c" + " d" * d,
    "tstats (": lambda d: "tstats count from datamodel=M where " + "(" * d + "a=1" + ")" * d,
    "fillnull": lambda d: "fillnull a" + " b" * d,
    "lookup": lambda d: "lookup t a" + ", b" * d + " OUTPUT c" + ", d" * d,
    "convert": lambda d: "convert ctime(a)" + " ctime(b)" * d,
    "regex nest": lambda d: 'rex "' + "(" * d + "?<x>a" + ")" * d + '"',
    "backslashes": lambda d: 'eval x="' + "\\\\" * d + '"',
    "quotes": lambda d: 'eval x="' + '\\"' * d + '"',
    "blanks": lambda d: "search" + " " * (d * 5) + "a=1" + " " * (d * 5) + "|" + " " * (d * 5) + "head 1",
    "open (": lambda d: "eval x=" + "(" * d,
    "open f(": lambda d: "eval x=" + "f(" * d,
    "open [": lambda d: "search a=1 " + "| join a [search b=1 " * d,
    "open if(a=1,": lambda d: "eval x=" + "if(a=1,b," * d,
    "open NOT (": lambda d: "where " + "NOT (" * d,
    "open search (": lambda d: "search " + "(a=1 OR " * d,
    "dots": lambda d: "search " + "a." * d + "b=1",
    "long name": lambda d: "search " + "a" * (10 * d) + "=1",
    "long number": lambda d: "eval x=" + "9" * d,
    "long decimal": lambda d: "eval x=0." + "9" * d,
    "stars": lambda d: "search a=" + "*" * d,
    "pipes": lambda d: "|" * d,
    "pipes ws": lambda d: "| " * d + "search a=1",
    "time": lambda d: "search earliest=" + "-1d" * d,
    "backticks": lambda d: "`" * d,
    "macros": lambda d: "search " + "`m(a,b)` " * d,
    "strftime": lambda d: 'eval x=strftime(a,"' + "%Y-%m " * d + '")',
}


NUMBERS = ["0", "00", "1", "-1", "-0", "+1", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
           "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
           "18446744073709551616", "1e400", "9" * 40, "9" * 400, "0." + "0" * 400 + "1", "1.7976931348623157e308", "12345678901234567890.5"]
MORE_NUMBERS = ["head count<5", "head count<=5", "head 5>count", "head 5>=count", "head count<=5 keeplast=true null=false", "head limit=5", "head 5", "tail 5", "sort 5 a", "sort - 5 a", "top 5 a", "rare 5 a",
                "top limit=5 a", "rare limit=5 a", "makeresults count=5", "bin span=5m a", "bin bins=5 a", "bin minspan=5 a", "bin start=5 end=5 a", "dedup 5 a", "return 5 a", "join max=5 a [search b=5]",
                "map maxsearches=5 search=\"search a=5\"", "rex max_match=5 \"(?<x>a)\"", "mvexpand a limit=5", "streamstats window=5 count", "eval x=relative_time(a,\"5d@d\")",
                "eval x=relative_time(a,\"-5d@d-5h\")", "eval x=relative_time(a,\"5w@w5\")", "search earliest=-5d@d", "where a > -5d@d", "where a=5d", "search a=5 b=5.5", "search a=1.2.3.5/5", "search a=5.2.3.5",
                "eval x=cidrmatch(\"1.2.3.5/5\",a)", "eval x=a{5}.b", "spath path=a{5}", "spath input=j output=o path=a{5}.b{5}", "eval x=json_extract(a,\"b{5}\")", "rex \"a{5,5}(?<x>b)\"", "regex a=\"b{5}\"",
                "eval x=strftime(a,\"%5N\")", "eval x=strftime(a,\"%5Q\")", "eval x=strptime(a,\"%5N\")", "stats perc5(a)", "stats percentile5(a)", "stats upperperc5(a)", "stats exactperc5(a)", "stats p5(a)",
                "eval x=mvindex(a,5,5)", "eval x=substr(a,5,5)", "eval x=round(a,5)", "eval x=log(5,5)", "eval x=bit_shift_left(a,5)", "eval x=bit_shift_right(5,5)", "eval x=mvrange(5,5,5)", "eval x=pow(5,5)",
                "eval x=tonumber(a,5)", "eval x=5 - 5 * 5 / 5", "eval x=-5", "where a IN (5,5)", "search a IN (5,5)", "fillnull value=5 a", "stats sum(eval(5))", "stats partitions=5 count", "tstats count where a=5 by b",
                "tstats count from datamodel=M where a=5 by b span=5m", "tstats prestats=f chunk_size=5 count from datamodel=M", "lookup max_matches=5 t a", "inputlookup start=5 max=5 t", "collect index=a spool=5 file=\"5\"",
                "format maxresults=5", "addtotals row=5 a", "search a=\"5\" | head 5 | tail 5", "convert timeformat=\"%5N\" ctime(a)", "`m(5,5)`", "multisearch [search a=5] [search b=5 | head 5]"]


def numbered():
    import re
    return sorted({q for q in corpus.ALL + MORE_NUMBERS if re.search(r"[0-9]", q)})


def product_jobs(kind, base, toks, n, split):
    """Split an n-fold product on its first token."""
    for i in range(0, len(toks), split):
        yield {"kind": kind, "base": base, "n": n, "lo": i, "hi": min(len(toks), i + split)}


def jobs(tier):
    out = []
    th = tier == "thorough"
    for c in corpus.COMMANDS:
        out.append({"kind": "tok", "base": c, "n": 2, "lo": 0, "hi": len(TOKENS)})
        if th:
            out += list(product_jobs("tok", c, TOKENS, 3, 8))
            out += list(product_jobs("core", c, CORE, 4, 6))
        else:
            out += list(product_jobs("core", c, CORE, 3, len(CORE)))
    for p in PREFIXES:
        if th:
            out += list(product_jobs("chr", p, CHARS, 3, 11))
            out += list(product_jobs("chr4", p, CHARS4, 4, 7))
        else:
            out.append({"kind": "chr", "base": p, "n": 2, "lo": 0, "hi": len(CHARS)})
            out.append({"kind": "chr4", "base": p, "n": 3, "lo": 0, "hi": len(CHARS4)})
    for i in range(len(corpus.ALL)):
        out.append({"kind": "edit", "i": i, "th": th})
    for lo in range(0, len(numbered()), 8):
        out.append({"kind": "num", "lo": lo, "hi": lo + 8, "th": th})
    for f in FUNCS:
        out.append({"kind": "fun", "f": f, "n": 4 if th else 3})
    out.append({"kind": "stat", "th": th})
    for f in FAMILIES:
        out.append({"kind": "nest", "f": f, "depths": [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 200] if not th else list(range(1, 61)) + list(range(65, 201, 5))})
    return out


def bounds(tier):
    t = tier == "thorough"
    return (f"after each of {len(corpus.COMMANDS)} commands: every sequence of <= {3 if t else 2} of {len(TOKENS)} tokens and of <= {4 if t else 3} of {len(CORE)} core tokens; "
            f"after each of {len(PREFIXES)} prefixes: every string of <= {3 if t else 2} of {len(CHARS)} characters and <= {4 if t else 3} of {len(CHARS4)}; every truncation, one-character deletion, "
            f"insertion and replacement{' and pair of deletions' if t else ''} of {len(corpus.ALL)} queries; every number of {len(numbered())} queries{", and every two," if t else " (and every two, in those with up to three)"} replaced by each of {len(NUMBERS)} extreme numbers; {len(FUNCS)} functions with every list of <= {4 if t else 3} arguments; "
            f"{len(FAMILIES)} nesting families up to depth 200. Each text is parsed, rendered in both modes and scanned for macros")


TIME_LIMIT = 10.0


def probe(r, q, case):
    """The property itself, on one text."""
    import spl_transpiler as st
    r.states += 1
    t0 = time.process_time()
    step = "parse"
    try:
        p = impl.parse(q)
        r.transitions += 1
        if p[0] == "ok":
            for rt in (False, True):
                step = f"render (runtime={rt})"
                r.transitions += 1
                c = impl.render(p[1], rt)
                r.outcomes[f"parsed, render {c[0]}"] += 1
                if c[0] == "ok" and not isinstance(c[1], str):
                    r.bad(f"type:{q}", f"{q!r}: rendering returned {type(c[1])}", case)
            if len(q) < 400:
                step = "repr"
                repr(p[1])
        else:
            r.outcomes["rejected"] += 1
            if not p[1].startswith("ValueError"):
                r.bad(f"kind:{q}", f"{q!r}: parse error is not a ValueError: {p[1][:200]}", case)
        step = "convert"
        r.transitions += 1
        c = impl.convert(q)
        if c[0] == "ok" and p[0] != "ok":
            r.bad(f"convert:{q}", f"{q!r} converts but does not parse", case)
        step = "detect_macros"
        r.transitions += 1
        impl._guard(lambda: st.detect_macros(q))
    except impl.Panic as e:
        r.bad(f"panic:{q}", f"{q!r}: {step} panicked: {e}", case)
    dt = time.process_time() - t0
    if dt > TIME_LIMIT and len(q) <= 4000:
        r.bad(f"slow:{q[:80]}", f"{q[:200]!r} ({len(q)} characters) took {dt:.1f} s", case)
    r.traces += 1


def edits(q, th):
    n = len(q)
    for i in range(n + 1):
        yield q[:i]
        yield q[i:]
    for i in range(n):
        yield q[:i] + q[i + 1:]
        for c in ('"', "'", "(", ")", "|", "\\", "é", "=", " ", "*", "-", ",", "["):
            yield q[:i] + c + q[i + 1:]
            yield q[:i] + c + q[i:]
    words = q.split(" ")
    for i in range(len(words)):
        for j in range(i + 1, len(words) + 1):
            yield " ".join(words[:i] + words[j:])
        for j in range(len(words)):
            w = list(words)
            w[i], w[j] = w[j], w[i]
            yield " ".join(w)
    if th:
        for i in range(n):
            for j in range(i + 1, n):
                yield q[:i] + q[i + 1:j] + q[j + 1:]


def run(job):
    devnull = open("/dev/null", "w")
    import os
    saved = os.dup(2)
    os.dup2(devnull.fileno(), 2)   # panic messages
    try:
        return _run(job)
    finally:
        os.dup2(saved, 2)
        os.close(saved)


def _run(job):
    r = Res()
    k = job["kind"]
    if k == "one":
        probe(r, job["q"], job)
    elif k in ("tok", "core"):
        toks = TOKENS if k == "tok" else CORE
        for n in range(1 if job["lo"] == 0 else job["n"], job["n"] + 1):
            firsts = toks[job["lo"]:job["hi"]] if n == job["n"] else toks
            for first in firsts:
                for rest in itertools.product(toks, repeat=n - 1):
                    q = " ".join((job["base"], first) + rest).strip()
                    probe(r, q, {"kind": "one", "q": q})
    elif k in ("chr", "chr4"):
        cs = CHARS if k == "chr" else CHARS4
        for n in range(0 if job["lo"] == 0 else job["n"], job["n"] + 1):
            firsts = cs[job["lo"]:job["hi"]] if n == job["n"] else cs
            for first in firsts if n else [""]:
                for rest in itertools.product(cs, repeat=max(0, n - 1)):
                    q = job["base"] + first + "".join(rest)
                    probe(r, q, {"kind": "one", "q": q})
                    if '"' in job["base"] and '"' not in rest:
                        probe(r, q + '"', {"kind": "one", "q": q + '"'})
                        probe(r, q + '")', {"kind": "one", "q": q + '")'})
    elif k == "edit":
        seen = set()
        for q in edits(corpus.ALL[job["i"]], job["th"]):
            if q not in seen:
                seen.add(q)
                probe(r, q, {"kind": "one", "q": q})
        r.sample(corpus.ALL[job["i"]])
    elif k == "num":
        import re
        seen = set()
        for q in numbered()[job["lo"]:job["hi"]]:
            parts = re.split(r"(-?[0-9]+(?:\.[0-9]+)?)", q)
            sites = range(1, len(parts), 2)
            for i in sites:
                for j in [i] if not job["th"] and len(sites) > 3 else sites:
                    for a in NUMBERS:
                        for b in NUMBERS if j > i else [None]:
                            w = list(parts)
                            w[i] = a
                            if b is not None:
                                w[j] = b
                            t = "".join(w)
                            if j >= i and t not in seen:
                                seen.add(t)
                                probe(r, t, {"kind": "one", "q": t})
            r.sample(q)
    elif k == "fun":
        for n in range(job["n"] + 1):
            for a in itertools.product(ARGS if n < 3 else ARGS[:7], repeat=n):
                q = f"eval x={job['f']}({','.join(a)})"
                probe(r, q, {"kind": "one", "q": q})
                if n < 2:
                    for pre in ("where ", "search ", "stats ", "convert ", "stats sum(eval(", "tstats "):
                        q = f"{pre}{job['f']}({','.join(a)})" + ("))" if "eval(" in pre else "")
                        probe(r, q, {"kind": "one", "q": q})
    elif k == "stat":
        for cmd in ("stats", "eventstats", "streamstats", "tstats", "chart", "timechart"):
            for f in STATS:
                for a in ("", "()", "(a)", "(a,b)", "(*)", "(a*)", "('q f')", '("s")', "(1)", "(eval(a=1))", "(eval(a))", "(eval())", "(M.a)", "(sum(a))"):
                    for tail in ("", " AS n", ' AS "n m"', " by b", " as n by b, c", " as *"):
                        q = f"{cmd} {f}{a}{tail}"
                        probe(r, q, {"kind": "one", "q": q})
    elif k == "nest":
        for d in job["depths"]:
            q = FAMILIES[job["f"]](d)
            probe(r, q, {"kind": "one", "q": q})
        r.sample(f"{job['f']} to {job['depths'][-1]}")
    return r
