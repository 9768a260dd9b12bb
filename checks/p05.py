"""P05: generated code is closed, well-formed PySpark code."""
import ast
import functools
import inspect
import itertools
import json
import os
import re

from vf import corpus, impl
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the names and parameters of PySpark's functions and methods are those recorded from PySpark 4 in lib/vf/pyspark_names.json",
    "functions the transpiler does not know become functions of the same name, so a function or operator name that stands in the query is allowed",
]
API = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib/vf/pyspark_names.json")))
# what the methods used here give: D data frame, G grouped data, C column, L list of rows, ? anything
DF = {"where": "D", "filter": "D", "select": "D", "withColumn": "D", "withColumnRenamed": "D", "orderBy": "D", "sort": "D", "limit": "D", "groupBy": "G", "agg": "D", "unionByName": "D", "union": "D", "join": "D", "drop": "D",
      "fillna": "D", "alias": "D", "distinct": "D", "dropDuplicates": "D", "tail": "L", "withColumns": "D", "head": "L", "crossJoin": "D"}
GROUPED = {"agg": "D", "count": "D", "pivot": "G"}


class Bad(Exception):
    pass


def bind(params, skip_self, nargs, kw, what):
    """Whether a call with nargs positional and the given keyword arguments fits the recorded parameters."""
    ps = params[1:] if skip_self else params
    names = [p[0] for p in ps if p[1] in ("POSITIONAL_OR_KEYWORD", "POSITIONAL_ONLY")]
    if nargs > len(names) and not any(p[1] == "VAR_POSITIONAL" for p in ps):
        raise Bad(f"{what} takes {len(names)} arguments, not {nargs}")
    given = set(names[:nargs])
    for k in kw:
        p = next((p for p in ps if p[0] == k), None)
        if p is None or p[1] == "POSITIONAL_ONLY":
            if not any(q[1] == "VAR_KEYWORD" for q in ps):
                raise Bad(f"{what} has no parameter {k!r}")
        elif k in given:
            raise Bad(f"{what} is given {k!r} twice")
        given.add(k)
    for p in ps:
        if p[1] in ("POSITIONAL_OR_KEYWORD", "POSITIONAL_ONLY", "KEYWORD_ONLY") and not p[2] and p[0] not in given:
            raise Bad(f"{what} lacks its argument {p[0]!r}")


@functools.lru_cache(maxsize=None)
def runtime_member(path):
    """(parameters, None) of commands.x, functions.eval.x or functions.stats.x, or (None, why not)."""
    from spl_transpiler.runtime import commands, functions
    o = {"commands": commands, "functions": functions}[path[0]]
    for n in path[1:]:
        if not hasattr(o, n):
            return None, f"{'.'.join(path)} does not exist in the runtime library"
        o = getattr(o, n)
    if not callable(o):
        return None, f"{'.'.join(path)} is not a function"
    return [[p.name, p.kind.name, p.default is not inspect._empty] for p in inspect.signature(o).parameters.values()], None


class Checker:
    def __init__(self, spl, rt):
        self.spl, self.rt, self.dfs = spl, rt, {}

    def words(self):
        return set(re.findall(r"\w+", self.spl))

    def program(self, code):
        try:
            t = ast.parse(code)
        except (SyntaxError, ValueError) as e:
            raise Bad(f"not Python: {e}")
        if not t.body or not isinstance(t.body[-1], ast.Expr):
            raise Bad("the code does not end with an expression")
        for s in t.body[:-1]:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                raise Bad(f"unexpected statement {ast.unparse(s)}")
            n = s.targets[0].id
            if not re.fullmatch(r"df_[1-9]\d*", n):
                raise Bad(f"assignment to {n}")
            if n in self.dfs:
                raise Bad(f"{n} is assigned twice")
            k = self.kind(s.value)
            if k not in "DL":
                raise Bad(f"{n} is not a data frame")
            self.dfs[n] = k
        if not self.rt and len(t.body) != 1:
            raise Bad("standalone code is more than one expression")
        k = self.kind(t.body[-1].value)
        if k not in "DL":
            raise Bad("the result is not a data frame")
        used = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if set(self.dfs) - used:
            raise Bad(f"{sorted(set(self.dfs) - used)} never used")
        return len(t.body)

    def args(self, n, deep=True):
        kw = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                raise Bad("starred argument")
            self.kind(a)
        for k in n.keywords:
            if k.arg is None:
                if not isinstance(k.value, ast.Dict):
                    raise Bad("** of something else than a literal")
                for key in k.value.keys:
                    if not (isinstance(key, ast.Constant) and isinstance(key.value, str)):
                        raise Bad("** with a key that is no text")
                    kw.append(key.value)
                for v in k.value.values:
                    self.kind(v)
            else:
                kw.append(k.arg)
                self.kind(k.value)
        if len(set(kw)) != len(kw):
            raise Bad(f"keyword given twice among {kw}")
        return kw

    def kind(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, (bytes, complex)) or n.value is Ellipsis:
                raise Bad(f"constant {n.value!r}")
            return "V"
        if isinstance(n, (ast.List, ast.Tuple)):
            for e in n.elts:
                self.kind(e)
            return "V"
        if isinstance(n, ast.Dict):
            for e in n.keys + n.values:
                if e is None:
                    raise Bad("** in a literal")
                self.kind(e)
            return "V"
        if isinstance(n, ast.Name):
            if n.id in self.dfs:
                return self.dfs[n.id]
            raise Bad(f"{n.id} is not defined")
        if isinstance(n, ast.UnaryOp):
            k = self.kind(n.operand)
            if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float)):
                return "V"
            if k != "C" or not isinstance(n.op, (ast.Invert, ast.USub)):
                raise Bad(f"operator on something that is no column: {ast.unparse(n)}")
            return "C"
        if isinstance(n, ast.BinOp):
            if "C" not in (self.kind(n.left), self.kind(n.right)):
                raise Bad(f"operator without a column: {ast.unparse(n)}")
            return "C"
        if isinstance(n, ast.Compare):
            if len(n.ops) != 1:
                raise Bad(f"chained comparison: {ast.unparse(n)}")
            if "C" not in (self.kind(n.left), self.kind(n.comparators[0])):
                raise Bad(f"comparison without a column: {ast.unparse(n)}")
            if not isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                raise Bad(f"comparison columns do not have: {ast.unparse(n)}")
            return "C"
        if isinstance(n, ast.Call):
            return self.call(n)
        raise Bad(f"unexpected construct {type(n).__name__}: {ast.unparse(n)[:80]}")

    def call(self, n):
        f = n.func
        if not isinstance(f, ast.Attribute):
            raise Bad(f"call of {ast.unparse(f)}")
        path = ast.unparse(f).split(".") if all(isinstance(x, (ast.Attribute, ast.Name)) for x in attr_chain(f)) else [""]
        kw = self.args(n)
        if path[0] == "F" and len(path) == 2:
            sig = API["F"].get(f.attr)
            if f.attr not in API["F"]:
                if f.attr not in self.words() and f.attr.lower() not in {w.lower() for w in self.words()}:
                    raise Bad(f"F.{f.attr} does not exist")
            elif sig and f.attr not in self.words() or f.attr in ("col", "lit", "when", "expr", "window", "count") and sig:
                if f.attr == "count" and not n.args:
                    return "C"  # known finding of P11
                bind(sig, False, len(n.args), kw, "F." + f.attr)
            return "C"
        if path[0] == "spark" and len(path) == 2:
            if f.attr not in ("table", "range"):
                raise Bad(f"spark.{f.attr}")
            bind(API["SparkSession"][f.attr] or [["self", "POSITIONAL_OR_KEYWORD", False], ["start", "POSITIONAL_OR_KEYWORD", False], ["end", "POSITIONAL_OR_KEYWORD", True]], True, len(n.args), kw, "spark." + f.attr)
            return "D"
        if path[0] in ("commands", "functions"):
            if not self.rt:
                raise Bad(f"standalone code uses {path[0]}")
            sig, why = runtime_member(tuple(path))
            if why:
                raise Bad(why)
            bind(sig, False, len(n.args), kw, ".".join(path))
            return "D" if path[0] == "commands" else "C"
        k = self.kind(f.value)
        if k == "D":
            if f.attr not in DF:
                raise Bad(f"a data frame has no method {f.attr} that is used here")
            bind(API["DataFrame"][f.attr], True, len(n.args), kw, "." + f.attr)
            return DF[f.attr]
        if k == "G":
            if f.attr not in GROUPED:
                raise Bad(f"grouped data has no method {f.attr}")
            bind(API["GroupedData"][f.attr], True, len(n.args), kw, "." + f.attr)
            return GROUPED[f.attr]
        if k == "C":
            if f.attr not in API["Column"]:
                raise Bad(f"a column has no method {f.attr}")
            if API["Column"][f.attr]:
                bind(API["Column"][f.attr], True, len(n.args), kw, "." + f.attr)
            return "C"
        if k == "L":
            raise Bad("a method of the list that .tail gives")
        raise Bad(f"method {f.attr} of {ast.unparse(f.value)[:60]}")


def attr_chain(f):
    while isinstance(f, ast.Attribute):
        yield f
        f = f.value
    yield f


def check(r, spl, rt, case):
    mode = "runtime" if rt else "standalone"
    r.states += 1
    try:
        k, code = impl.convert(spl, rt)
    except impl.Panic as e:
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} panicked: {e}", case)
        return
    r.traces += 1
    if k == "err":
        r.outcomes["refused"] += 1
        return
    try:
        r.transitions += Checker(spl, rt).program(code)
    except Bad as e:
        if str(e) == "a method of the list that .tail gives":  # known finding of P11
            r.outcomes["tail before another command"] += 1
            return
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r}: {e}\n      {code}", case)
        return
    r.outcomes["well-formed"] += 1


# ------------------------------------------------------------------ what is enumerated
HOSTILE = ["a", "df", "df_1", "df_2", "F", "spark", "commands", "functions", "class", "None", "lambda", "self", "value", "fields", "where_", "from_", "by_", "index", "source", "host", "a b", "a.b", "a'b", 'a\\"b', "a\\\\", "a\\\\\\\\", "\\n", "a\nb", "a\tb", "é", "日本", "{a}", "%s", "$x$",
           "#c", "a)", "(a", "1", "1a", "-a", "'", "''", '\\"\\"\\"', "\\'", "*", "a*", "r'x'", "\\x41", "\\u0041", "\\N", "𝔘", "\u200b", "\u2028", "\x7f", "__class__", "fill_null_value", "data_model_name", "name", "cond", "df_1.x", "args", "kwargs", ""]
SLOTS = ['eval "{0}"=1', "eval x='{0}' + 1", 'eval x="{0}"', 'eval "{0}"=1, "{1}"=2', "where '{0}'=1", 'where a="{0}"', 'where like(a, "{0}")', 'where a IN ("{0}", "{1}")', 'search a="{0}"', 'search "{0}"', 'search a IN ("{0}", "{1}")', 'search index="{0}"', 'search index=m source="{0}" "{1}"',
         'index="{0}" host="{1}"', 'table "{0}", "{1}"', 'fields "{0}", "{1}"', 'fields - "{0}"', 'rename a AS "{0}"', 'rename "{0}" AS "{1}"', 'stats count AS "{0}"', 'stats count AS "{0}", sum(a) AS "{1}"', "stats sum('{0}') AS x", 'stats count by "{0}", "{1}"', "stats count by '{0}'",
         "sort '{0}', -'{1}'", 'sort 5 "{0}"', 'fillnull value="{0}" a', 'fillnull value="{0}" "{1}"', "fillnull '{0}'", 'join "{0}" [search index=b | eval "{1}"=1]', 'lookup "{0}" a AS "{1}"', 'lookup t a OUTPUT b AS "{0}"', 'addtotals fieldname="{0}" a', 'addtotals "{0}", b', 'bin span=1h "{0}" AS "{1}"',
         'top 3 "{0}"', 'rare countfield="{0}" a', 'regex "{0}"', 'regex "{0}"="x"', 'rex "{0}"', 'rex field="{0}" "(?<a>x)"', "rex \"(?<{0}>x)\"", 'spath input="{0}" output="{1}" a', 'spath "{0}"', 'convert memk("{0}") AS "{1}"', 'convert timeformat="{0}" ctime(a)', 'eval x=strftime(a, "{0}")',
         'eval x=replace(a, "{0}", "{1}")', 'eval x=split(a, "{0}")', 'eval x=mvjoin(a, "{0}")', 'eval x=if(a="{0}", "{1}", \'{0}\')', 'eval x=case(a="{0}", 1, true(), "{1}")', 'eval x=a . "{0}" . \'{1}\'', 'tstats count AS "{0}" from datamodel=M', 'tstats count as {0} from datamodel=M', 'tstats fillnull_value="{0}" count from datamodel=M where a="{1}" by "{0}"',
         "stats count as {0}", "eval {0}=1", "eval {0}=1, {1}=2", "rename a as {0}", "table {0} {1}", "stats sum({0}) as {1} by {0}", "search {0}={1}", "search {0}", "index={0} {1}", "datamodel {0} {1} search", "stats count(eval('{0}'=1)) as \"{1}\"", "makeresults count={0}", "head {0}", 'rename "{0}" as a, b as "{1}"', "multisearch [index={0}] [index={1} | eval {0}=1]",
         "lookup {0} {1}", "join {0} [search index={1}]", "eval x={0}({1})" if False else "eval x=len({0}), y=max({0}, {1})", "tstats sum({0}) as {1} from datamodel=M.R where {0}=1 by {1}"]
PREFIX = ["", "index=main | "]


def pairs(tier):
    for s in SLOTS:
        if "{1}" not in s:
            yield from ((s, h, None) for h in HOSTILE)
        elif tier == "thorough":
            yield from ((s, h, g) for h in HOSTILE for g in HOSTILE)
        else:
            yield from ((s, h, g) for h in HOSTILE for g in (h, "df", "z", "a b", "from_"))


def pool():
    return [q for q in corpus.ALL]


SHORT = ["where a=1", "eval a=1, b=a + 2", 'eval "a b"="c"', "stats count, sum(a) AS s by b", "stats count as df by c", "table a b", "fields - a", "rename a AS b", "sort 5 -a", "head 3", "top 2 a", "fillnull value=0 a", "join a [search index=b | stats count by a]", "lookup t a OUTPUT b", "search a=b c*", "rex \"(?<u>a)(?<v_w>b)\"",
         "addtotals a b", "bin span=1h _time", "multisearch [index=a] [index=b | eval x=1 | stats count by x]", "tstats count from datamodel=M", "makeresults", "spath a.b", "convert memk(a)", "regex a=\"b\"", "eval x=mvfilter(a=\"b\"), y=if(a=1,b,c)"]


def jobs(tier):
    n = len(pool())
    out = [{"kind": "pairs", "i": i, "tier": tier} for i in range(0, n, 6)]
    m = sum(1 for _ in pairs(tier))
    out += [{"kind": "slots", "lo": lo, "tier": tier} for lo in range(0, m, 1500)]
    out += [{"kind": "triples", "i": i, "tier": tier} for i in range(len(SHORT))]
    return out


def bounds(tier):
    n = len(pool())
    return (f"every ordered pair of {n} queries (all commands, options and functions), piped, in both modes; every sequence of 3{' and 4' if tier == 'thorough' else ''} of {len(SHORT)} commands; {len(SLOTS)} query forms x {len(HOSTILE)} names and texts in every place for a name or text"
            f"{' (all pairs of them where there are two places)' if tier == 'thorough' else ' (5 partners where there are two places)'}, each at the start and after a search, in both modes")


def run(job):
    r = Res()
    if job["kind"] == "pairs":
        qs = pool()
        for q in qs[job["i"]:job["i"] + 6]:
            r.sample(q)
            for rt in (False, True):
                check(r, q, rt, job)
                check(r, "index=main | " + q, rt, job)
                for p in qs:
                    check(r, f"{q} | {p}", rt, job)
    elif job["kind"] == "slots":
        for s, h, g in itertools.islice(pairs(job["tier"]), job["lo"], job["lo"] + 1500):
            q = s.replace("{0}", h).replace("{1}", g if g is not None else "")
            r.sample(q)
            for rt in (False, True):
                for p in PREFIX:
                    check(r, p + q, rt, job)
    else:
        a = SHORT[job["i"]]
        for b, c in itertools.product(SHORT, repeat=2):
            for rt in (False, True):
                check(r, f"index=main | {a} | {b} | {c}", rt, job)
                if job["tier"] == "thorough":
                    for d in SHORT:
                        check(r, f"index=main | {a} | {b} | {c} | {d}", rt, job)
    return r
