"""P20: macro calls are found exactly and expand to exactly their definitions."""
import itertools

from spl_transpiler import parse
from spl_transpiler.macros import MacroDefinition, parse_with_macros, substitute_macros
from spl_transpiler.spl_transpiler import detect_macros

from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["arguments are single SPL expressions and names are words; trailing blanks and pipes of the whole expanded query are dropped"]

# ------------------------------------------------------------------ finding calls in a text
NAMES = ["f", "foo_1", "cim-x", "1f", "index", "eval"]
VALUES = ["1", "-2", "x", "a.b", '"s"', '"a, b"', '"a\\"b"', "'c d'", "w*", "10.0.0.0/8", "a + b", "g(1, 2)", "(a)", "2h", '""', '"a=b"', '"`g`"', '")"', "1.50", "a OR b"]
GLUE = ["", " ", "index=main | ", "\"text\"", "\n| eval x=", "é", "(", ")", "|", "$x$"]
SPACES = [("", "", ""), (" ", "", " "), ("", " ", "")]


def call_text(name, args, sp=("", "", "")):
    a, b, c = sp
    if args is None:
        return f"`{a}{name}{c}`"
    return f"`{a}{name}({b}" + f"{b},{a}".join(v if n is None else f"{n}={v}" for n, v in args) + f"{b}){c}`"


def arg_lists():
    yield None
    yield []
    for v in VALUES:
        yield [(None, v)]
        yield [("x", v)]
    for v, w in itertools.product(VALUES[:12], repeat=2):
        yield [(None, v), (None, w)]
        yield [("y", v), ("x", w)]
        yield [("x", v), (None, w)]
    for t in itertools.product(VALUES[3:9], repeat=3):
        yield [(None, v) for v in t]


def found(r, parts, suffix, case):
    """parts: [(prefix, name, args, spacing)]"""
    text = "".join(p + call_text(n, a, s) for p, n, a, s in parts) + suffix
    r.states += 1
    r.traces += 1
    exp = [(p, n, list(a or [])) for p, n, a, _ in parts]
    try:
        chunks_, tail = detect_macros(text)
        got = [(p, c.macro_name, list(c.args)) for p, c in chunks_]
    except Exception as e:
        r.bad(text, f"calls in {text!r} not found: {str(e)[:200]}", case)
        return
    if got != exp or tail != suffix:
        r.bad(text, f"calls in {text!r}: {got} {tail!r} instead of {exp} {suffix!r}", case)
    else:
        r.outcomes[f"found {len(parts)} calls"] += 1


BROKEN = ["`", "``", "`f", "f`", "`f(`", "`f(1`", "`f)`", "`f(1,)`", "`f(,1)`", "`f(1)b`", "`f.g(1)`", "`f(a b)`", "`f` `", "`f`g`", "`(1)`", "`f(1)(2)`", "`f(\"a)`", "`f(1 2)`", "`f g`"]

# ------------------------------------------------------------------ expanding
PIECES = ["$x$", "$y$", "$xy$", " lit ", "$x", "$$", "\\d", "'$x$'", "`sub($x$)`", "`two`", "[.]", "$z$"]
CALLVALS = ["1", '"q"', '"$y$"', '"\\d\\1"', '"$x$"', "b.c", '"g<1>"', "a + b"]
INNER = {"sub": (["p"], "<$p$>"), "two": ([], "`sub(7)`|"), "deep": ([], "`two` `two`")}


def subst(definition, args):
    """All arguments at once, scanning from the left."""
    out, i = "", 0
    while i < len(definition):
        hit = next((n for n in args if definition.startswith(f"${n}$", i)), None)
        if hit is None:
            out += definition[i]
            i += 1
        else:
            out += args[hit]
            i += len(hit) + 2
    return out


def expand_ref(text):
    """Expansion of the inner macros that pieces use, textually."""
    import re
    while True:
        m = re.search(r"`sub\(([^`]*)\)`|`(two|deep)`", text)
        if not m:
            return text
        new = subst(INNER["sub"][1], {"p": m[1].strip()}) if m[2] is None else INNER[m[2]][1]
        text = text[:m.start()] + new + text[m.end():]


def trim(s):
    return s.rstrip().rstrip("|").strip()


def as_registry(defs, form):
    if form == "dict":
        return {k: dict(arguments=a, definition=d) for k, (a, d) in defs.items()}
    return {k: MacroDefinition(arguments=a, definition=d) for k, (a, d) in defs.items()}


def expands(r, text, defs, exp, case, form="dict"):
    r.states += 1
    r.traces += 1
    try:
        got = substitute_macros(text, as_registry(defs, form))
    except RecursionError as e:
        got = ("err", "RecursionError")
    except Exception as e:
        got = ("err", f"{type(e).__name__}: {e}")
    if exp == "refuse":
        if not isinstance(got, tuple) or got[1] == "RecursionError":
            r.bad(f"{text} {defs}", f"{text!r} with {defs} should be refused, became {got!r}", case)
        else:
            r.outcomes["refused as it must be"] += 1
        return
    if got != exp:
        r.bad(f"{text} {defs}", f"{text!r} with {defs} became {got!r} instead of {exp!r}", case)
    else:
        r.outcomes["expanded"] += 1


def run_expand(r, pieces, params, vals, named, glue, case):
    definition = "".join(pieces)
    defs = dict(INNER, m=(list(params), definition))
    args = dict(zip(params, vals))
    body = subst(definition, args)
    if "`sub($x$)`" in body:          # unbound $x$ in a call: not an expression
        return
    exp = trim(expand_ref(glue[0] + body + glue[1]))
    if not params:
        call = "`m`"
    else:
        items = list(args.items())
        if named == 2:
            items.reverse()
        call = "`m(" + ", ".join(v if not named else f"{n}={v}" for n, v in items) + ")`"
    expands(r, glue[0] + call + glue[1], defs, exp, case, "model" if named else "dict")


GLUES = [("", ""), ("search index=main | eval z=", ""), ("", " | head 5"), ("a ", " b |"), ("`sub(0)` ", " `two`")]
PARAMS = [(), ("x",), ("x", "y"), ("xy", "x"), ("y", "x", "xy")]

REFUSED = [
    ("`m`", {"m": (["x"], "$x$")}), ("`m(1)`", {"m": ([], "a")}), ("`m(1)`", {"m": (["x", "y"], "a")}), ("`m(1, 2, 3)`", {"m": (["x", "y"], "a")}), ("`m(1, y=2)`", {"m": (["x", "y"], "a")}), ("`m(x=1, 2)`", {"m": (["x", "y"], "a")}),
    ("`m(x=1, z=2)`", {"m": (["x", "y"], "a")}), ("`m(x=1, x=2)`", {"m": (["x", "y"], "a")}), ("`m(z=1)`", {"m": (["x"], "a")}), ("`m()`", {"m": (["x"], "a")}), ("`n`", {"m": ([], "a")}), ("a `m` `n` b", {"m": ([], "a")}),
    ("`m`", {"m": ([], "`n`")}), ("`m`", {"m": ([], "`m`")}), ("x `m` y", {"m": ([], "a `m` b")}), ("`m`", {"m": ([], "`n`"), "n": ([], "`m`")}), ("`m`", {"m": ([], "`n` `n`"), "n": ([], "`o` `o`"), "o": ([], "`m` `n`")}),
    ("`m(1)`", {"m": (["x"], "`m($x$)`")}), ("`m(1)`", {"m": (["x"], "`n($x$)`"), "n": (["x"], "a `m(x=$x$)`")}), ("`m`", {"m": ([], "a ` b")}), ("`m", {"m": ([], "a")}), ("`m` `", {"m": ([], "a")}),
]
CHAINS = 12

QUERIES = [("`src` | `flt(a, 3)` | `agg(f=count)`", {"src": ([], "search index=main"), "flt": (["n", "v"], "where $n$ > $v$"), "agg": (["f"], "stats $f$ as n by c")}, "search index=main | where a > 3 | stats count as n by c"),
           ("search index=main `cond(\"x y\")` | `sorted` | head 3", {"cond": (["t"], "c=$t$ OR `alt`"), "alt": ([], "d=1"), "sorted": ([], "sort - a")}, "search index=main c=\"x y\" OR d=1 | sort - a | head 3"),
           ("`idx` `nothing`", {"idx": ([], "index=main a=1 |"), "nothing": ([], "")}, "index=main a=1"),
           ("eval x=`f(y)`, z=`f(n=\"a\\\"b\")`", {"f": (["n"], "upper($n$)")}, "eval x=upper(y), z=upper(\"a\\\"b\")")]


ODD_NAMES = ["a.b", "a+", "a*", "x", "a[b]", "(a", "^a", "a$", "a|b", "1", "é", "a b", "\\d", "X"]
ODD_TEXTS = ["| tstats count", "|a", "| a | b", " |a|", "a |", "||a", "| a |", "[a]", "a\n| b\n", "\n|a"]


def odd(r, job):
    """Argument names are plain texts; what a text begins with is kept."""
    for n, m in itertools.permutations(ODD_NAMES, 2):
        d = "".join(f"<${x}$>" for x in (n, m, "axb", "aab", "zz", n + m, n.upper() + "_"))
        expands(r, "q `m(1, 2)`", {"m": ([n, m], d)}, trim("q " + subst(d, {n: "1", m: "2"})), job)
        for v in ("\\1", "\\g<0>", "$" + m + "$", "$" + n + "$"):
            expands(r, f'`m("{v}", 2)`', {"m": ([n, m], d)}, trim(subst(d, {n: f'"{v}"', m: "2"})), job)
    for t in ODD_TEXTS:
        expands(r, t, {}, trim(t), job)
        expands(r, "`m`", {"m": ([], t)}, trim(t), job)
        for u in ODD_TEXTS:
            expands(r, t + " `m`", {"m": ([], u)}, trim(t + " " + u), job)
            expands(r, "`m` " + t, {"m": ([], u)}, trim(u + " " + t), job)
            expands(r, "`m`" + t + "`m`", {"m": ([], u)}, trim(u + t + u), job)


def run(job):
    r = Res()
    kind = job[0]
    if kind == "odd":
        odd(r, job)
    if kind == "found1":
        for args in job[1]:
            args = args if args is None else [tuple(a) for a in args]
            for name in NAMES:
                for p, s in itertools.product(GLUE, GLUE[:4]):
                    for sp in SPACES:
                        found(r, [(p, name, args, sp)], s, ["found", [(p, name, args, sp)], s])
    elif kind == "found":
        found(r, [(p, n, a if a is None else [tuple(x) for x in a], tuple(s)) for p, n, a, s in job[1]], job[2], job)
    elif kind == "foundn":
        for first in job[1]:
            sel = [None, [], [(None, "1")], [("x", '"a, b"')], [(None, "x"), (None, '"s"')]]
            for n in (2, 3):
                for args in itertools.product(sel, repeat=n - 1):
                    for gl in itertools.product(GLUE[:6], repeat=n):
                        parts = [(gl[0], "f", first, SPACES[0])] + [(g, "g", a, SPACES[1]) for g, a in zip(gl[1:], args)]
                        found(r, parts, GLUE[2], ["found", parts, GLUE[2]])
    elif kind == "broken":
        for b in BROKEN:
            for p, s in itertools.product(GLUE + ["`f` "], repeat=2):
                r.states += 1
                r.traces += 1
                try:
                    got = detect_macros(p + b + s)
                    # a lone backtick may pair up with one of the surroundings, but never cover up an unbalanced text
                    if (p + b + s).count("`") % 2 or "`f`" not in p + s:
                        r.bad(p + b + s, f"{p + b + s!r} should be refused, gave {[(x, c.macro_name, c.args) for x, c in got[0]]} {got[1]!r}", job)
                except Exception as e:
                    r.outcomes["refused as it must be"] += 1
    elif kind == "expand":
        for pieces in job[1]:
            for params in PARAMS:
                for vals in itertools.product(CALLVALS if len(params) < 3 else CALLVALS[1:4], repeat=len(params)):
                    for named in (0, 1, 2)[:1 if not params else 2 if len(params) == 1 else 3]:
                        for g in GLUES if named == 0 else GLUES[:1]:
                            run_expand(r, pieces, params, vals, named, g, ["one", list(pieces), list(params), list(vals), named, list(g)])
    elif kind == "one":
        run_expand(r, job[1], tuple(job[2]), job[3], job[4], tuple(job[5]), job)
    elif kind == "refused":
        for text, defs in REFUSED:
            for p, s in GLUES[:4]:
                expands(r, p + text + s, defs, "refuse", job)
    elif kind == "chains":
        # chains and trees of macros calling macros
        for n in range(1, CHAINS):
            defs = {f"m{i}": (["x"], f"({i} `m{i + 1}($x$)`)") for i in range(n)} | {f"m{n}": (["y"], "[$y$]")}
            exp = "".join(f"({i} " for i in range(n)) + "[a.b]" + ")" * n
            expands(r, "`m0(a.b)`", defs, exp, job)
            expands(r, "q `m0(x=a.b)` | r", defs, f"q {exp} | r", job)
        for n in range(1, 9):
            defs = {f"m{i}": ([], f"`m{i + 1}`,`m{i + 1}`") for i in range(n)} | {f"m{n}": ([], "v")}
            expands(r, "`m0`", defs, ",".join(["v"] * 2 ** n), job)
        for spl, defs, exp in QUERIES:
            expands(r, spl, defs, exp, job)
            r.states += 1
            r.traces += 1
            try:
                same = parse_with_macros(spl, as_registry(defs, "dict")) == parse(exp)
            except Exception as e:
                same = e
            if same is not True:
                r.bad("parse " + spl, f"parse_with_macros({spl!r}) is not parse({exp!r}): {same}", job)
        for text in ["", " ", "index=main", "a | b", "x\n| y", "search \"a|b\"", "é"]:
            expands(r, text, {}, trim(text), job)
    r.transitions = r.states
    r.sample(str(job)[:160])
    return r


def jobs(tier):
    al = list(arg_lists())
    if tier != "thorough":
        al = al[:42] + al[42::9]
    for c in chunks(al, 12):
        yield ["found1", c]
    for f in [None, [], [(None, "1")], [("x", '"a, b"')], [(None, "x"), (None, '"s"')]]:
        yield ["foundn", [f]]
    yield ["broken"]
    ds = [p for n in (1, 2, 3) for p in itertools.product(PIECES, repeat=n)]
    if tier != "thorough":
        ds = [d for d in ds if len(d) < 3] + [d for i, d in enumerate(x for x in ds if len(x) == 3) if i % 8 == 0]
    for c in chunks(ds, 12):
        yield ["expand", c]
    yield ["odd"]
    yield ["refused"]
    yield ["chains"]


def bounds(tier):
    return {"calls": f"{len(NAMES)} names x argument lists of up to 3 of {len(VALUES)} values, positional, named and mixed, x {len(GLUE)} surroundings x 3 spacings; up to 3 calls in a text",
            "definitions": "all sequences of " + ("up to 3" if tier == "thorough" else "up to 2 (an eighth of those of 3)") + f" of {len(PIECES)} pieces x {len(PARAMS)} parameter lists x {len(CALLVALS)} values", "chains": f"macros calling macros {CHAINS - 1} deep, trees of 2^8"}
