"""P02: the meaning of a query does not depend on its layout or on the case of its keywords."""
import itertools
import re

from spl_transpiler import parse

from vf import corpus, impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "layout is what stands between tokens: blanks, tabs and line breaks where there are some, and blanks around | , ( ) [ ] and comparison signs; not before the parenthesis of a call, not inside quotes, words, wildcards, TERM() and two-character signs",
]
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'[^\']*\'|`[^`]*`|(?i:TERM)\([^)]*\)|\$[^$\s]+\$|[^\s"\'()\[\]|,=<>!]+|\s+|!=|<=|>=|==|.', re.S)
SPACES = ["  ", "\n", "\t", "\r\n", " \n ", "\n\n    ", "\t \t"]
MARGINS = ["", " ", "  ", "\n", "\t", "\r\n\r\n"]
SIGNS = {"|", ",", "(", ")", "[", "]", "=", "!=", "<", ">", "<=", ">=", "=="}
WORDS = {"and", "or", "not", "in", "as", "by", "output", "outputnew", "desc", "asc", "from", "where", "sortby", "groupby"}
MODES = (False, True)


def form(q):
    try:
        return parse(q)
    except Exception as e:
        return str(type(e))


def code(q):
    out = []
    for rt in MODES:
        try:
            out.append(impl.convert(q, rt))
        except impl.Panic as e:
            out.append(("panic", str(e)))
    return out


def cases(w):
    """All ways to write a short word, the usual ones of a long word."""
    if len(w) <= 3:
        return {"".join(c) for c in itertools.product(*((x.lower(), x.upper()) for x in w))} - {w}
    return {w.upper(), w.lower(), w.capitalize(), w.swapcase(), w[:-1].lower() + w[-1].upper()} - {w}


def sites(q):
    """The places where a query may be written otherwise: (token number, [alternatives], kind)."""
    ts = TOKEN.findall(q)
    assert "".join(ts) == q
    out = []
    first = True  # a command name comes next
    command = None
    depth = []
    for i, t in enumerate(ts):
        prev, next = ts[i - 1] if i else " ", ts[i + 1] if i + 1 < len(ts) else " "
        if t.isspace():
            out.append((i, SPACES, "space"))
            continue
        if t in SIGNS:
            alts = []
            free_before = prev not in SIGNS or prev in "()[],|"
            free_after = next not in SIGNS or next in "()[],|"
            call = t == "(" and not prev.isspace() and prev not in SIGNS
            if not call and not prev.isspace() and free_before:
                alts.append(" " + t)
            if not next.isspace() and free_after:
                alts.append(t + " ")
            if len(alts) == 2:
                alts.append(" " + t + " ")
            if alts:
                out.append((i, alts, "sign"))
        if t in "|[":
            if t == "[":
                depth.append(command)
            first = True
            continue
        if t == "]" and depth:
            command = depth.pop()
        if first and re.fullmatch(r"[A-Za-z]+", t):
            if t.lower() in corpus.COMMANDS and next not in ("=", "!="):
                out.append((i, sorted(cases(t)), "command"))
                command = t.lower()
            else:
                command = "search"
        elif t.lower() in WORDS and prev.isspace() and (next.isspace() or next in "(") or t.lower() == "not" and prev == "(":
            if not (t.lower() in ("as", "by", "output", "outputnew", "desc", "asc", "from", "where") and command == "search"):
                out.append((i, sorted(cases(t)), "keyword"))
        first = False
    return ts, out


def compare(r, job, q, base, basecode, new, what):
    r.states += 1
    r.transitions += 1
    got = form(new)
    # the tree of lookup holds the word OUTPUT as it is written
    tree = not re.search(r"\b(?i:output|outputnew)\b", q) or what in ("space", "sign", "margin")
    if (tree and got != base) or (type(base) is str) != (type(got) is str):
        r.bad(f"{what}: {new}", f"{q!r} and {new!r} are read differently" + (f" (the second is refused)" if type(got) is str else ""), job)
        return
    if type(base) is str:
        r.outcomes["both refused"] += 1
        return
    r.outcomes[what] += 1
    if basecode:
        r.traces += 1
        c = code(new)
        if c != basecode:
            r.bad(f"code, {what}: {new}", f"{q!r} and {new!r} become different codes: {basecode} and {c}", job)


def job_layout(r, job):
    for q in job["queries"]:
        base = form(q)
        basecode = code(q) if type(base) is not str else None
        r.states += 1
        if type(base) is str:
            r.outcomes["query refused"] += 1
            continue
        r.sample(q)
        ts, places = sites(q)
        for i, alts, kind in places:
            for a in alts:
                compare(r, job, q, base, basecode, "".join(ts[:i] + [a] + ts[i + 1:]), kind)
        # the same change everywhere
        for sp in SPACES:
            new = list(ts)
            for i, alts, kind in places:
                if kind == "space":
                    new[i] = sp
            compare(r, job, q, base, basecode, "".join(new), "spaces everywhere")
            for i, alts, kind in places:
                if kind == "sign":
                    new[i] = alts[-1].replace(" ", sp)
            compare(r, job, q, base, basecode, "".join(new), "signs everywhere")
        for f in (str.upper, str.lower, str.capitalize):
            new = list(ts)
            for i, alts, kind in places:
                if kind in ("command", "keyword"):
                    new[i] = f(ts[i])
            compare(r, job, q, base, basecode, "".join(new), "case everywhere")
        # no blanks around signs that need none
        new = list(ts)
        for i, t in enumerate(ts):
            if t.isspace() and (i and ts[i - 1] in ("|", ",", "[") or i + 1 < len(ts) and ts[i + 1] in ("|", ",", "]")):
                new[i] = ""
        compare(r, job, q, base, basecode, "".join(new), "without blanks")
        for a, b in itertools.product(MARGINS, repeat=2):
            if a or b:
                compare(r, job, q, base, basecode, a + q + b, "margin")
        # two changes at a time
        for (i, x, k), (j, y, l) in itertools.combinations(places, 2):
            for a, b in itertools.product(x, y) if job["deep"] else [(x[(i + j) % len(x)], y[(i * j) % len(y)])]:
                compare(r, job, q, base, basecode, "".join(ts[:i] + [a] + ts[i + 1:j] + [b] + ts[j + 1:]), f"{k} and {l}")
        if job["deep"]:
            for three in itertools.combinations(places, 3):
                new = list(ts)
                for i, x, k in three:
                    new[i] = x[(i + sum(j for j, _, _ in three)) % len(x)]
                compare(r, job, q, base, None, "".join(new), "three changes")


def queries(deep):
    import p22
    more = ["dedup 3 a b sortby -c", "dedup a keepempty=t sortby + num(b), - c", "tstats count from datamodel=M.N where a=1 groupby b c", "dedup 2 a by b"]
    qs = [q if q.startswith(p22.GENERATING) else "index=zz | " + q for q in corpus.ALL + p22.EXTRA + p22.UNIMPLEMENTED + more]
    return list(dict.fromkeys(qs))


def jobs(tier):
    qs = queries(False)
    deep = tier == "thorough"
    return [{"kind": "layout", "queries": c, "deep": deep} for c in chunks(qs, 3)]


def bounds(tier):
    return f"{len(queries(False))} queries, {len(SPACES)} forms of white space, {len(MARGINS)}^2 margins, every site alone and everywhere, every two sites together{' in all forms, every three' if tier == 'thorough' else ' in one form'}"


def run(job):
    r = Res()
    globals()["job_" + job["kind"]](r, job)
    return r
