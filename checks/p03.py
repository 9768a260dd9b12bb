"""P03: operators group as SPL defines, with minimal or redundant parentheses."""
import itertools

from vf import impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = [
    "operators are separated by blanks (SPL tokens may contain * / - . : %)",
    "chains of one associative operator (+ * AND OR .) may be grouped either way",
]

# every leaf position gets its own spelling; many begin with a keyword
NAMES = ["a", "orders", "android", "notes", "inx", "asx", "_t1", "x9", "nota", "ORx", "andy", "b"]
TEXT_NUM = ["2", "3.5", '"q"', "-4"]
ARITH = ["+", "-", "*", "/", "."]
CMP = ["=", "!=", "<", "<=", ">", ">=", "=="]
PREC = {"*": 3, "/": 3, "+": 4, "-": 4, ".": 5}
ASSOC = {"+", "*", ".", "AND", "OR"}


# ---------------------------------------------------------------- model: shapes (leaves are None)
def arith(n, memo={}):
    if n in memo:
        return memo[n]
    out = [None] if n == 0 else []
    for i in range(n):
        for l in arith(i):
            for r in arith(n - 1 - i):
                out += [("b", op, l, r) for op in ARITH]
    if n >= 1:
        out += [("f", x) for x in arith(n - 1) if x is not None] if n <= 3 else []
    memo[n] = out
    return out


def boole(n, memo={}):
    """n counts AND/OR/NOT and arithmetic operators; comparisons are free."""
    if n in memo:
        return memo[n]
    out = []
    if n == 0:
        out.append(("c", "=", None, None))
        out.append(("in",))
    if n in (1, 2):
        for i in range(n + 1):
            for l in arith(i):
                for r in arith(n - i):
                    out.append(("c", "<", l, r))
    for i in range(n):
        for l in boole(i):
            for r in boole(n - 1 - i):
                out.append(("b", "AND", l, r))
                out.append(("b", "OR", l, r))
    if n:
        out += [("n", x) for x in boole(n - 1)]
    memo[n] = out
    return out


def sbool(n, memo={}):
    """search: comparisons, bare terms, implicit and explicit AND"""
    if n in memo:
        return memo[n]
    out = [("c", "=", None, None), ("t",)] if n == 0 else []
    if n == 0:
        out.append(("in",))
    for i in range(n):
        for l in sbool(i):
            for r in sbool(n - 1 - i):
                out += [("b", "AND", l, r), ("b", " ", l, r), ("b", "OR", l, r)]
    if n:
        out += [("n", x) for x in sbool(n - 1)]
    memo[n] = out
    return out


def fill(shape, it, cm):
    """Put concrete leaves in: returns the model tree."""
    if shape is None:
        return ("leaf", next(it))
    k = shape[0]
    if k == "b":
        l = fill(shape[2], it, cm)
        return ("b", shape[1], l, fill(shape[3], it, cm))
    if k == "c":
        op = next(cm)
        l = fill(shape[2], it, cm)
        return ("c", op, l, fill(shape[3], it, cm))
    if k == "n":
        return ("n", fill(shape[1], it, cm))
    if k == "f":
        return ("f", fill(shape[1], it, cm))
    if k == "in":
        return ("in", next(it))
    return ("leaf", next(it))


# ---------------------------------------------------------------- model: printing
def prec(t, ctx):
    k = t[0]
    if k == "b":
        if t[1] in PREC:
            return PREC[t[1]]
        is_and = t[1] in ("AND", " ")
        return (9 if is_and else 8) if ctx == "search" else (8 if is_and else 9)
    return {"c": 7, "in": 7, "n": 7.5}.get(k, 0)


def show(t, ctx, full, case=0):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "in":
        return f"{t[1]} {KW['IN'][case]} (1,2)"
    if k == "f":
        return "abs(" + show(t[1], ctx, full, case) + ")"

    def sub(x, limit, strict):
        s = show(x, ctx, full, case)
        p = prec(x, ctx)
        need = p > limit or (strict and p == limit)
        if x[0] in ("leaf", "f", "in") and not (full == 2 and x[0] != "leaf"):
            return s
        return f"({s})" if full or need else s
    p = prec(t, ctx)
    if k == "n":
        # the operand of NOT: another NOT or anything that binds tighter
        return f"{KW['NOT'][case]} " + sub(t[1], 7.5, False)
    if k == "c":
        l, r = sub(t[2], 7, True), sub(t[3], 7, True)
        return f"{l}{t[1]}{r}" if case == 0 else f"{l} {t[1]} {r}"
    op = t[1]
    strict_left = op not in ASSOC and op != " " and False
    l = sub(t[2], p, strict_left)
    r = sub(t[3], p, True)
    o = "" if op == " " else KW.get(op, (op, op))[case]
    return f"{l} {o} {r}" if o else f"{l} {r}"


KW = {"AND": ("AND", "and"), "OR": ("OR", "Or"), "NOT": ("NOT", "not"), "IN": ("IN", "in")}


# ---------------------------------------------------------------- normal forms
def norm_model(t):
    k = t[0]
    if k == "leaf":
        return ("leaf", t[1])
    if k == "in":
        return ("in", t[1].strip('"'), ("leaf", "1"), ("leaf", "2"))
    if k == "f":
        return ("call", "abs", norm_model(t[1]))
    if k == "n":
        return ("un", "NOT", norm_model(t[1]))
    op = "AND" if t[1] == " " else t[1]
    return flat(op, norm_model(t[2]), norm_model(t[3]))


def flat(op, l, r):
    if op in ASSOC:
        items = []
        for x in (l, r):
            items += list(x[2]) if x[0] == "chain" and x[1] == op else [x]
        return ("chain", op, tuple(items))
    return ("bin", op, l, r)


def norm_impl(t):
    k = t[0]
    if k == "leaf":
        return ("leaf", LEAF.get(t[1], t[1]))
    if k == "bin":
        return flat(t[1].upper(), norm_impl(t[2]), norm_impl(t[3]))
    if k == "un":
        return ("un", t[1].upper(), norm_impl(t[2]))
    if k == "call":
        return ("call", t[1]) + tuple(norm_impl(x) for x in t[2:])
    if k == "in":
        return ("in", t[1]) + tuple(norm_impl(x) for x in t[2:])
    return t


LEAF = {}


def _leaf_table():
    """Ask the parser itself how each leaf is represented on its own (leaves are P04's business)."""
    for x in NAMES + TEXT_NUM + ["1"]:
        r = impl.parse(f"eval zz={x}")
        if r[0] == "ok":
            LEAF[impl.tree(r[1].commands[0]._0.fields[0][1])[1]] = x


def leaves(k):
    """leaf k: rotations of the name list; every third leaf position uses a literal in the second half of the rotations"""
    n = len(NAMES)
    i = 0
    while True:
        if k >= n and i % 3 == 2:
            yield TEXT_NUM[(i + k) % len(TEXT_NUM)]
        else:
            yield NAMES[(i + k) % n]
        i += 1


def plan(tier):
    d = {"quick": (4, 3, 3), "thorough": (5, 4, 4)}[tier]
    return d


def jobs(tier):
    na, nb, ns = plan(tier)
    _leaf_table()
    idx = []
    for ctx, gen, n in (("eval", arith, na), ("evalb", boole, nb), ("where", boole, nb), ("search", sbool, ns)):
        for k in range(n + 1):
            m = len(gen(k))
            for lo in range(0, m, 3000):
                idx.append({"ctx": ctx, "n": k, "lo": lo, "hi": min(m, lo + 3000)})
    return idx


def bounds(tier):
    na, nb, ns = plan(tier)
    return (f"all operator trees: arithmetic (+ - * / . and a call) with <= {na} operators; boolean (AND OR NOT, comparisons, IN) over "
            f"arithmetic operands with <= {nb} operators in eval and where; search (AND OR NOT, implicit AND, terms, IN) with <= {ns} operators; "
            "each printed with minimal, full and redundant parentheses, two keyword cases, two leaf spellings")


def get(ctx, r):
    c = r[1].commands[0]._0
    return c.fields[0][1] if ctx.startswith("eval") else c.expr


def run(job):
    r = Res()
    if not LEAF:
        _leaf_table()
    ctx = job["ctx"]
    gen = {"eval": arith, "evalb": boole, "where": boole, "search": sbool}[ctx]
    shapes = [job["shape"]] if "shape" in job else gen(job["n"])[job["lo"]:job["hi"]]
    pre = {"eval": "eval zz=", "evalb": "eval zz=", "where": "where ", "search": "search "}[ctx]
    pc = "search" if ctx == "search" else "eval"
    for si, s in enumerate(shapes):
        s = _tup(s)
        for rot in (si % len(NAMES), len(NAMES) + si % len(NAMES)):
            if ctx == "search":
                t = fill_search(s, rot)
            else:
                t = fill(s, leaves(rot), itertools.cycle(CMP[(si + rot) % 7:] + CMP[:(si + rot) % 7]))
            want = norm_model(t)
            codes = {}
            r.states += 1
            for full, case in ((0, 0), (0, 1), (1, 0), (2, 1)):
                q = pre + show(t, pc, full, case)
                r.transitions += 1
                got = impl.parse(q)
                if got[0] != "ok":
                    r.outcomes["reject"] += 1
                    r.bad(f"{ctx}:{q}", f"{q!r} does not parse: {got[1]}", {"ctx": ctx, "shape": s})
                    continue
                n = norm_impl(impl.tree(get(ctx, got)))
                r.traces += 1
                if n != want:
                    r.bad(f"{ctx}:{q}", f"{q!r} groups as {n}, SPL says {want}", {"ctx": ctx, "shape": s})
                    continue
                r.outcomes["same tree"] += 1
                if full in (0, 2):
                    codes[(full, case)] = q
            # the generated code must not depend on redundant parentheses or keyword case
            if si % 4 == 0 or job.get("shape"):
                for rt in (False, True):
                    cs = {q: impl.convert(q, rt) for q in codes.values()}
                    if len({c[1] for c in cs.values()}) > 1 and not _assoc_only(t):
                        r.bad(f"{ctx}:code:{list(cs)[0]}", f"different code for {cs}", {"ctx": ctx, "shape": s})
                    r.outcomes["same code"] += 1
            r.sample(pre + show(t, pc, 0))
    return r


def _assoc_only(t):
    """Right operand repeats an associative operator: regrouping may legitimately show in the code."""
    if t[0] == "b":
        op = "AND" if t[1] == " " else t[1]
        for x in t[2:]:
            if x[0] == "b" and ("AND" if x[1] == " " else x[1]) == op and op in ASSOC:
                return True
    return any(_assoc_only(x) for x in t[1:] if isinstance(x, tuple))


def fill_search(s, rot):
    i = [rot]

    def go(s):
        k = s[0]
        if k == "c":
            i[0] += 1
            return ("c", CMP[i[0] % 6], ("leaf", NAMES[i[0] % len(NAMES)]), ("leaf", ["1", '"q"', "2"][i[0] % 3]))
        if k == "t":
            i[0] += 1
            return ("leaf", [NAMES[i[0] % len(NAMES)], '"q"'][(i[0] // 2) % 2])
        if k == "in":
            i[0] += 1
            return ("in", NAMES[i[0] % len(NAMES)])
        if k == "n":
            return ("n", go(s[1]))
        l = go(s[2])
        return ("b", s[1], l, go(s[3]))
    return go(s)


def _tup(s):
    return tuple(_tup(x) for x in s) if isinstance(s, (list, tuple)) else s
