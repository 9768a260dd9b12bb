"""P22: no part of a query is dropped: what the transpiler cannot express, it refuses."""
import itertools
import re

from vf import corpus, impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "a query that begins without a pipe and is not a command the transpiler reads is a search for its words, as in SPL; commands are therefore judged after a pipe",
    "options that only tune how or how fast the result is computed, and options of a feature that is switched off, have no effect on the code (listed as EFFECTLESS)",
]
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'[^\']*\'|[A-Za-z_][A-Za-z_0-9]*|\d+(?:\.\d+)?|\s+|.', re.S)
MODES = (False, True)

EXTRA = r'''
where a in (1, 2) AND (b > 3 OR c < 4) AND NOT d != "x"
where (a + b) * (c - d) / 2 % 5 >= 1.5
where if(a > 1, b, c) = coalesce(d, "none")
where case(a = 1, "x", b = 2, "y", true(), "z") != k
where 'a b' = "c d" AND like(k, "%x_")
search a=1 b!=2 c>3 d<4 e>=5 f<=6
search k=x* OR (s="y z" u=5) NOT (v=1 w=2)
search "free words" other NOT "more words"
search a IN (1, 2, x) OR b IN ("q", "r s")
eval a=b, c=d + 1, e=f . "g" . h
eval x=substr(a, 2, 3), y=round(b, 4), z=replace(c, "d", "e")
eval x=mvindex(a, 1, 2), y=mvappend(b, c, d), z=split(e, ";")
eval x=relative_time(a, "-3d@h+2m"), y=strftime(b, "%d.%m.%Y"), z=strptime(c, "%H:%M:%S")
eval x=tonumber(a), y=tostring(b), z=log(c, 10), w=pow(d, 3)
eval x=bit_and(a, 3), y=bit_shift_left(b, 4), z=max(c, d, 5), w=min(e, 6, f)
eval x=in(a, 1, 2, 3), y=nullif(b, 4), z=cidrmatch("10.1.0.0/16", ip)
stats count(a) as b, sum(c) as d, dc(e) as f by g, h
stats max(a) min(b) avg(c) by d e f
stats percentile75(a) as p, values(b) as q, list(c) as r by k
stats count(eval(a > 1 AND b = "x")) as n, sum(eval(c * 2)) as m by k
stats earliest(a) as b, latest(c) as d, range(e) as f
stats sum(x) by _time span=2h
table a b, c "d e" f*
fields - a, b "c d"
rename a as b, c as "d e", "f g" as h
sort 7 - a, + b, c
sort limit=9 -num
sort a desc
head 6
head limit=8
head count<9
tail 4
fillnull value=7 a b "c d"
addtotals fieldname=total a b c
bin span=7m _time as t
bin _time span=2d
join a, b [search index=q c=1 | fields a, b, d]
join type=left max=1 a [search index=q | stats count by a]
join usetime=t earlier=f a [search index=q]
lookup users a AS b, c OUTPUT d AS e, f
multisearch [search index=a b=1] [search index=c | eval d=2] [search index=e | where f > 3]
makeresults count=4 annotate=t splunk_server=alpha splunk_server_group=beta
rex field=a "x(?<b>[0-9]+)y(?<c>.)"
regex a="b+c"
regex a!="b+c"
regex "free"
spath input=a output=b path=c.d{1}.e
convert timeformat="%Y/%m/%d" ctime(a) as b
convert memk(a) as b rmunit(c) rmcomma(d) as e none(f)
tstats sum(a) as b count from datamodel=M.N where nodename=N.O c=1 (d=2 OR e=x*) by f, g
datamodel M N search
'''.strip().split("\n")

# (pattern of the query, texts whose change or removal need not matter)
EFFECTLESS = [
    (r"\bstats\b", {"partitions", "allnum", "delim", "dedup_splitvals"}),
    (r"\btstats\b", {"prestats", "summariesonly", "allow_old_summaries", "chunk_size", "include_reduced_buckets", "local", "append", "fillnull_value"}),
    (r"\bdatamodel\b", {"summariesonly", "strict_fields", "allow_old_summaries"}),
    (r"\bjoin\b", {"overwrite", "earlier", "max"}),
    (r"\b(top|rare)\b", {"percentfield", "countfield", "otherstr", "useother"}),
    (r"\bmakeresults\b", {"splunk_server", "splunk_server_group"}),
    (r"\baddtotals\b", {"label", "labelfield"}),
    (r"\bbin\b", {"minspan", "bins", "start", "end"}),
]
# words and signs that may be left out without a change of meaning
NOISE = {"search": r"(^|[|\[] ?)search ", "AND": r"AND", "+": r"(fields|sort)", ",": r",", "eval": r"stats", "=": r"==", "where": r"^\|? ?where", "|": r"^\|", "asc": "sort", "as": None, "(": None}
CONTEXTS = ["{}", "index=zz | {}", "index=zz | {} | table q9", "index=zz | eval q9=1 | {} | where q8=2 | head 3", "index=zz | join q9 [search index=yy | {}]", "multisearch [search index=zz | {}] [search index=yy]"]
GENERATING = ("index=", "|", "multisearch", "makeresults", "tstats", "datamodel", "inputlookup", "search index=", "search (index")


def conv(q, rt):
    try:
        return impl.convert(q, rt)
    except impl.Panic as e:
        return ("panic", str(e))


def effectless(q, ts, i):
    """The token belongs to an option that has no effect by itself."""
    names = set().union(*(n for p, n in EFFECTLESS if re.search(p, q)))
    # name = value
    back = [j for j in range(i, -1, -1) if not ts[j].isspace()]
    return any(ts[j] in names for j in back[:3])


def known_top(q):
    """top and rare with by forget the counted fields: a known finding of P11."""
    return re.search(r"\b(top|rare)\b[^|]*\bby\b", q)


def job_matters(r, job):
    for q in job["queries"]:
        first = q.startswith(GENERATING)
        ts = TOKEN.findall(q)
        contexts = CONTEXTS[:1] if first else CONTEXTS if job["deep"] else CONTEXTS[1:4]
        for ctx, rt in itertools.product(contexts, MODES):
            base = conv(ctx.replace("{}", q), rt)
            r.states += 1
            if base[0] != "ok":
                r.outcomes["query not supported here"] += 1
                continue
            r.sample(ctx.replace("{}", q))
            for i, t in enumerate(ts):
                if t.isspace():
                    continue
                new = []
                if t[0] in "\"'" and len(t) > 2:
                    new = [t[:-1] + "zz" + t[-1], t[0] + "zz" + t[1:]]
                elif t.isidentifier():
                    new = [t + "zz", "zz" + t]
                elif t[0].isdigit():
                    new = [t + "7", "8" + t]
                new.append("")
                for v in new:
                    if not v and t in NOISE:
                        continue
                    m = ctx.replace("{}", "".join(ts[:i] + [v] + ts[i + 1:]))
                    got = conv(m, rt)
                    r.states += 1
                    r.transitions += 1
                    r.traces += 1
                    if got == base and not (t == "where" and not v):
                        if effectless(q, ts, i) or known_top(q):
                            r.outcomes["no effect, as known"] += 1
                            continue
                        r.bad(f"{q}: {t}", f"[{'runtime' if rt else 'standalone'}] {ctx.replace('{}', q)!r} and {m!r} become the same code, so {t!r} is dropped:\n      {base[1]}", job)
                    else:
                        r.outcomes["matters" if got[0] == "ok" else "matters (refused without it)"] += 1


# ---------------------------------------------------------------- what must be refused
UNKNOWN = """abstract accum addcoltotals addinfo analyzefields anomalies anomalousvalue anomalydetection append appendcols appendpipe arules associate autoregress bucketdir chart cluster cofilter concurrency contingency correlate
dbinspect delete delta diff erex eventcount extract kv fieldformat fieldsummary filldown findtypes folderize foreach from gauge gentimes geom geomfilter geostats highlight history iconify inputcsv iplocation kmeans kvform loadjob localize
localop makecontinuous makemv metadata metasearch meventcollect mpreview msearch mstats multikv mcollect outlier outputcsv outputlookup outputtext overlap pivot predict rangemap redistribute reltime require rest reverse rtorder run savedsearch
script scrub searchtxn selfjoin sendalert sendemail set setfields sichart sirare sistats sitimechart sitop strcat tags timechart timewrap transaction transpose trendline tscollect typeahead typelearner typer union uniq untable walklex x11
xmlkv xmlunescape xpath xyseries statss evals tables filters foo a index""".split()
AFTER = ["", " x", " x=1 by y", " a, b", " \"t\"", " 5", " limit=3 a", " (a=1)", " [search index=b]", " count by a", " a as b", " x | table x", " | stats count", "=1", " -a"]
PLACES = ["index=a | {}", "| {}", "index=a | stats count by k | {}", "index=a | join k [search index=b | {}]", "multisearch [search index=a] [search index=b | {}]", "index=a | {} | head 3", "search index=a x=1 | eval y=2 | {} | table a"]

UNIMPLEMENTED = ["fields - *", "fields a*", "fields + a*, b", "fields - a*", "table a*", "table a, *b", "rename a* as b*", "dedup a", "dedup 2 a, b sortby - c", "dedup a keepevents=true", "eventstats count by a", "eventstats avg(b) as m", "streamstats count", "streamstats window=3 sum(a) as s by b", "mvcombine a", "mvcombine delim=\",\" a", "mvexpand a", "mvexpand a limit=3", "map search=\"search index=b x=$x$\" maxsearches=2",
                 "return a", "return 3 a", "return $a", "format", "format maxresults=3", "collect index=b", "collect index=b addtime=true a b", "sort num(a)", "sort - ip(a), b", "sort str(a) desc", "rex mode=sed field=a \"s/x/y/g\"", "rex field=a max_match=3 \"(?<x>.)\"", "rex field=a offset_field=o \"(?<x>.)\"", "join max=2 a [search index=b]",
                 "join max=0 a [search index=b]", "top useother=t a", "rare useother=t a", "addtotals", "addtotals col=t a b", "lookup users a OUTPUTNEW b", "bin bins=10 _time", "bin minspan=5m _time", "bin span=1mon _time", "bin span=5m aligntime=earliest _time", "convert num(a)", "convert auto(a)", "convert dur2sec(a)", "convert mktime(a)", "convert mstime(a)",
                 "inputlookup users", "inputlookup append=t users where a=1", "head a>1", "head a=1 OR b=2", "eval x=isnum(a)", "eval x=mvjoin(a, \",\")", "eval x=1, y=printf(\"%d\", a)", "where searchmatch(\"a=1\")", "stats count by a span=1mon", "stats per_day(a)", "stats sum(a, b)"]

# form with a place for options -> option: values it accepts here
TRUE = ["t", "true", "T", "TRUE", "True", "1"]
FALSE = ["f", "false", "F", "FALSE", "False", "0"]
BOOLS = TRUE + FALSE
INTS = ["1", "0", "12"]
TEXTS = ["x", "\"q r\"", "some_name"]
OPTIONS = {
    "stats {} count by k": {"partitions": INTS, "allnum": BOOLS, "delim": TEXTS},
    "top {} k": {"limit": INTS, "countfield": TEXTS, "percentfield": TEXTS, "showcount": BOOLS, "showperc": BOOLS, "useother": FALSE, "otherstr": TEXTS},
    "rare {} k": {"limit": INTS, "countfield": TEXTS, "percentfield": TEXTS, "showcount": BOOLS, "showperc": BOOLS, "useother": FALSE, "otherstr": TEXTS},
    "join {} k [search index=b]": {"type": ["inner", "left", "outer"], "usetime": BOOLS, "earlier": BOOLS, "overwrite": BOOLS, "max": ["1"]},
    "addtotals {} a b": {"row": BOOLS, "col": FALSE, "fieldname": TEXTS, "labelfield": TEXTS, "label": TEXTS},
    "bin {} span=5m _time": {"minspan": ["1m", "3s"], "bins": INTS, "start": INTS, "end": INTS},
    "bin _time span=5m {}": {"minspan": ["1m", "3s"], "bins": INTS, "start": INTS, "end": INTS},
    "convert {} ctime(a)": {"timeformat": ["\"%Y\"", "\"%d.%m.%y\""]},
    "rex {} \"(?<x>a)\"": {"field": TEXTS[:1], "max_match": ["1"]},
    "makeresults {}": {"count": INTS, "annotate": BOOLS, "splunk_server": TEXTS, "splunk_server_group": TEXTS},
    "tstats {} count from datamodel=M": {"prestats": FALSE, "local": FALSE, "append": FALSE, "include_reduced_buckets": FALSE, "summariesonly": BOOLS, "allow_old_summaries": BOOLS, "chunk_size": INTS, "fillnull_value": TEXTS},
    "datamodel {} M R search": {"summariesonly": BOOLS, "allow_old_summaries": BOOLS, "strict_fields": BOOLS},
    "table {} a": {}, "fields {} a": {}, "rename {} a as b": {}, "regex {} a=\"x\"": {}, "tail {} 3": {}, "head {} 3": {}, "lookup {} users uid": {}, "multisearch {} [search index=a] [search index=b]": {},
}
NAMES = sorted(set().union(*OPTIONS.values()) | {"zq", "consecutive", "window", "mode", "sep", "spann"})
WRONG = {id(BOOLS): ["maybe", "\"t\"", "2", "-1", "yes", "1.5", "5m", "*", "truee", "tf"], id(INTS): ["x", "\"1\"", "1.5", "t", "5m", "*", "1x"], id(TEXTS): ["1", "1.5", "5m"], id(FALSE): TRUE + ["maybe", "2"]}
GEN = ("makeresults", "tstats", "datamodel", "multisearch")
JUNK = [" zq", " 5", " =", " )", " ]", " (", " zq=1", " \"zq\"", ", zq", ",", " by zq", " as zq", " [search index=zq]", " |", " | |", "| | head 3", " zq()", "zq(x)", " %", " where zq=1", " | zq", " | zq x", "\\", " \"", " '", " ;", "\x00", " # c", " // c", " `m`"]


def refuse(r, job, q, what):
    for rt in MODES:
        r.states += 1
        r.traces += 1
        k, v = conv(q, rt)
        if k != "err":
            r.bad(f"{what}: {q}", f"[{'runtime' if rt else 'standalone'}] {q!r} ({what}) must be refused but became {v!r}", job)
        else:
            r.outcomes[f"refused: {what}"] += 1


OPERATORS = ["XOR", "xor", "BETWEEN", "IS", "IS NOT", "EXISTS", "THRU", "UNION"]
OPERANDS = ["a=1", "foo", "(a=1)", "b>2 c<3", "\"foo bar\"", "NOT a=1", "a"]


def job_operators(r, job):
    """Operators of SPL and SQL that the transpiler does not read are not words to look for."""
    for op, x, y in itertools.product(OPERATORS, OPERANDS, OPERANDS):
        for f in ("index=zz {}", "search index=zz {}", "index=zz | search {}", "index=zz | where {}", "index=zz | eval x={}", "index=zz | join k [search {}]"):
            if " " in x + y and ("where" in f or "eval" in f) and not x.startswith(("(", "NOT", '"')):
                continue
            refuse(r, job, f.replace("{}", f"{x} {op} {y}"), "operator")


def job_unknown(r, job):
    places = PLACES if job["deep"] else PLACES[::2]
    for c, a, p in itertools.product(job["names"], AFTER, places):
        for n in ((c, c.upper()) if a == " x" else (c,)):
            q = p.replace("{}", n + a)
            if p == "index=a | {}":
                r.sample(q)
            refuse(r, job, q, "unknown command")


def job_unimplemented(r, job):
    for c, p in itertools.product(UNIMPLEMENTED, PLACES):
        refuse(r, job, p.replace("{}", c), "not implemented")


def job_options(r, job):
    for form, opts in itertools.islice(OPTIONS.items(), job["lo"], job["lo"] + 1):
        pre = "| " if form.startswith(GEN) else "index=a | "
        for n in NAMES:
            for v in (opts[n] + WRONG.get(id(opts[n]), []) if n in opts else ["1", "x", "t", "5m", "\"q\"", "2h"]):
                q = pre + form.replace("{}", f"{n}={v}")
                if n not in opts or v not in opts[n]:
                    if n == "limit" and form.startswith("head") or n == "type" and v in ("x",):
                        continue
                    refuse(r, job, q, "unknown option" if n not in opts else "value of an option")
                    continue
                # a good option, alone and after each other good option
                for m in [None, *opts]:
                    if m == n:
                        continue
                    text = f"{n}={v}" if m is None else f"{m}={opts[m][-1]} {n}={v}"
                    for rt in MODES:
                        r.states += 1
                        r.traces += 1
                        k, c = conv(pre + form.replace("{}", text), rt)
                        if k != "ok":
                            r.bad(f"{form}: {n}={v}", f"{pre + form.replace('{}', text)!r} is refused: {c[:200]}", job)
                        else:
                            r.outcomes["option accepted"] += 1
                # spellings of the same value mean the same
                for same in (TRUE, FALSE):
                    if opts[n] in (BOOLS, same) and v in same:
                        for rt in MODES:
                            a, b = conv(q, rt), conv(pre + form.replace("{}", f"{n}={same[0]}"), rt)
                            r.states += 1
                            if a != b:
                                r.bad(f"{form}: {n}={v} spelling", f"{q!r} differs from {n}={same[0]}: {a[1][:200]!r} and {b[1][:200]!r}", job)
                            else:
                                r.outcomes["spellings agree"] += 1


def job_junk(r, job):
    for q in job["queries"]:
        p = q if q.startswith(GENERATING) else "index=a | " + q
        for rt in MODES:
            b = conv(p, rt)
            r.states += 1
            if b[0] != "ok":
                r.outcomes["query not supported here"] += 1
                continue
            for j in JUNK:
                got = conv(p + j, rt)
                r.states += 1
                r.traces += 1
                if got == b or got[0] == "panic":
                    r.bad(f"{q}{j}", f"[{'runtime' if rt else 'standalone'}] the end of {p + j!r} is dropped: {got[1]!r}", job)
                else:
                    r.outcomes["trailing text refused" if got[0] == "err" else "trailing text has an effect"] += 1


def jobs(tier):
    qs = [q for q in corpus.ALL + EXTRA]
    deep = tier == "thorough"
    out = [{"kind": "matters", "queries": c, "deep": deep} for c in chunks(qs, 5)]
    if deep:
        heads = [q for q in EXTRA if not q.startswith(GENERATING)]
        pairs = [f"{a} | {b}" for a, b in itertools.product(heads, repeat=2)]
        out += [{"kind": "matters", "queries": c, "deep": False} for c in chunks(pairs, 40)]
    out += [{"kind": "unknown", "names": c, "deep": deep} for c in chunks(UNKNOWN, 12)]
    out += [{"kind": "options", "lo": i} for i in range(len(OPTIONS))] + [{"kind": "unimplemented"}, {"kind": "operators"}]
    out += [{"kind": "junk", "queries": c} for c in chunks(qs, 20)]
    return out


def bounds(tier):
    return (f"every name, number, text, option and subsearch of {len(corpus.ALL) + len(EXTRA)} queries{' and of every pair of ' + str(len(EXTRA)) + ' commands' if tier == 'thorough' else ''} changed and left out, in {len(CONTEXTS) if tier == 'thorough' else 3} contexts; {len(UNKNOWN)} unknown commands x {len(AFTER)} arguments x {len(PLACES if tier == 'thorough' else PLACES[::2])} places; "
            f"{len(OPERATORS)} operators that are not read between {len(OPERANDS)} operands on either side in 6 places; {len(UNIMPLEMENTED)} unimplemented commands x {len(PLACES)} places; {len(OPTIONS)} commands x {len(NAMES)} option names x right and wrong values and pairs of options; {len(JUNK)} endings after every query; both modes")


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
