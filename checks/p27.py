"""P27: the syntax tree of every command records its options and arguments as they are written."""
import itertools

from spl_transpiler import ast as A
from spl_transpiler import parse

from vf import impl
from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["option values are the literals the option takes; the value of an option given twice, and the defaults of options that never have an effect (of datamodel), are not judged"]

T = [("t", True), ("true", True), ("True", True), ("1", True)]
N = [("f", False), ("false", False), ("FALSE", False), ("0", False)]
BOOL = T + N
INT = [("0", 0), ("1", 1), ("42", 42), ("1000000000", 10 ** 9), ("5000000000", 5 * 10 ** 9)]
POS = [("1", 1), ("42", 42), ("10", 10)]
TEXT = [("x", "x"), ('"q r"', "q r"), ("a_b", "a_b"), ("left", "left"), ('"5"', "5"), ('"t=1"', "t=1"), ("T2", "T2")]
WORD = [("x", "x"), ("a_b", "a_b"), ("X9", "X9")]
SPAN = [("5m", "TimeSpan { value: 5, scale: \"minutes\" }"), ("1h", "TimeSpan { value: 1, scale: \"hours\" }"), ("30s", "TimeSpan { value: 30, scale: \"seconds\" }"), ("2d", "TimeSpan { value: 2, scale: \"days\" }")]
UNJUDGED = object()


def field(n):
    return f'Field("{n}")'


def fields(*ns):
    return [field(n) for n in ns]


SUB = "[search index=b k=1 | head 2]"
SUBTREE = "search index=b k=1 | head 2"


class Tree:
    """Stands for the tree of a text."""

    def __init__(self, text, form="pipeline"):
        self.text, self.form = text, form

    def norm(self):
        if self.form == "pipeline":
            return norm(parse(self.text))
        if self.form == "expr":
            return norm(parse("index=a | where " + self.text).commands[-1]._0.expr)
        if self.form == "value":
            return norm(parse("index=a | eval x=" + self.text).commands[-1]._0.fields[0][1])
        return norm(parse("index=a | stats " + self.text).commands[-1]._0.funcs[0])


def E(t):
    return Tree(t, "expr")


def V(t):
    return Tree(t, "value")


def S(t):
    return Tree(t, "stat")


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, Tree):
        return v.norm()
    if type(v).__name__.startswith("Expr_Alias"):
        return ["alias", norm(v._0.expr), v._0.name]
    if type(v).__name__.startswith("Expr_"):
        t = impl.tree(v)
        return ["expr", repr(t)]
    if hasattr(v, "_0"):
        return norm(v._0)
    return repr(v)


def opt(name, attr, default, values):
    return (name, attr, default, values)


# class, how it is written ({} is the place of the options), options, [(arguments, attributes)]
COMMANDS = [
    ("CollectCommand", "collect index=b {}", [opt("addtime", "add_time", True, BOOL), opt("file", "file", None, TEXT), opt("host", "host", None, TEXT), opt("marker", "marker", None, TEXT), opt("output_format", "output_format", "raw", TEXT), opt("run_in_preview", "run_in_preview", False, BOOL),
                                              opt("spool", "spool", True, BOOL), opt("source", "source", None, TEXT), opt("sourcetype", "source_type", None, TEXT), opt("testmode", "test_mode", False, BOOL)], [("", {"index": "b", "fields": []}), ("a", {"index": "b", "fields": fields("a")}), ("a b, c", {"index": "b", "fields": fields("a", "b", "c")})]),
    ("DedupCommand", "dedup {}", [opt("keepevents", "keep_events", False, BOOL), opt("keepempty", "keep_empty", False, BOOL), opt("consecutive", "consecutive", False, BOOL)],
     [("a", {"num_results": 1, "fields": fields("a"), "sort_by": UNJUDGED}), ("a b c", {"num_results": 1, "fields": fields("a", "b", "c"), "sort_by": UNJUDGED})]),
    ("DedupCommand", "dedup 7 {}", [opt("keepevents", "keep_events", False, BOOL), opt("keepempty", "keep_empty", False, BOOL), opt("consecutive", "consecutive", False, BOOL)],
     [("a b", {"num_results": 7, "fields": fields("a", "b"), "sort_by": UNJUDGED}), ("a sortby -b", {"num_results": 7, "fields": fields("a"), "sort_by": 'SortCommand { fields_to_sort: [(Some("-"), Leaf(Constant(Field(Field("b")))))], count: 0, descending: false }'}),
      ("a sortby +b -c", {"num_results": 7, "fields": fields("a"), "sort_by": 'SortCommand { fields_to_sort: [(Some("+"), Leaf(Constant(Field(Field("b"))))), (Some("-"), Leaf(Constant(Field(Field("c")))))], count: 0, descending: false }'})]),
    ("EventStatsCommand", "eventstats {}", [opt("allnum", "all_num", False, BOOL)], [("count", {"funcs": [S("count")], "by": []}), ("sum(a) as b, max(c) by d, e", {"funcs": [S("sum(a) as b"), S("max(c)")], "by": fields("d", "e")})]),
    ("StreamStatsCommand", "streamstats {}", [opt("current", "current", True, BOOL), opt("window", "window", 0, INT)], [("count", {"funcs": [S("count")], "by": []}), ("avg(a) as b, count by c d span=5m", {"funcs": [S("avg(a) as b"), S("count")], "by": ['MaybeSpannedField { field: Field("c"), span: None }', 'MaybeSpannedField { field: Field("d"), span: Some(TimeSpan { value: 5, scale: "minutes" }) }']})]),
    ("MapCommand", f'map search="{SUBTREE}" {{}}', [opt("maxsearches", "max_searches", 10, INT)], [("", {"search": Tree(SUBTREE)})]),
    ("MvCombineCommand", "mvcombine {}", [opt("delim", "delim", None, [('","', ","), ('" "', " "), ('"ab"', "ab")])], [("a", {"field": field("a")}), ('"x y"', {"field": field("x y")})]),
    ("MvExpandCommand", "mvexpand a {}", [opt("limit", "limit", None, INT)], [("", {"field": field("a")})]),
    ("FormatCommand", "format {}", [opt("mvsep", "mv_sep", "OR", TEXT), opt("maxresults", "max_results", 0, INT)],
     [("", dict(row_prefix="(", col_prefix="(", col_sep="AND", col_end=")", row_sep="OR", row_end=")")), ('"1" "2" "3" "4" "5" "6"', dict(row_prefix="1", col_prefix="2", col_sep="3", col_end="4", row_sep="5", row_end="6")), ('"[" "<" "&&" ">" "||" "]"', dict(row_prefix="[", col_prefix="<", col_sep="&&", col_end=">", row_sep="||", row_end="]"))]),
    ("InputLookupCommand", "inputlookup {}", [opt("append", "append", False, BOOL), opt("strict", "strict", False, BOOL), opt("start", "start", 0, INT), opt("max", "max", 10 ** 9, INT)],
     [("users", {"table_name": "users", "where_expr": None}), ("my_users where a=1 AND b>2", {"table_name": "my_users", "where_expr": E("a=1 AND b>2")})]),
    ("JoinCommand", "join {}", [opt("type", "join_type", "inner", [("left", "left"), ("outer", "outer"), ("inner", "inner")]), opt("usetime", "use_time", False, BOOL), opt("earlier", "earlier", True, BOOL), opt("overwrite", "overwrite", True, BOOL), opt("max", "max", 1, INT)],
     [(f"a {SUB}", {"fields": fields("a"), "sub_search": Tree(SUBTREE)}), (f"a, b {SUB}", {"fields": fields("a", "b"), "sub_search": Tree(SUBTREE)})]),
    ("MakeResultsCommand", "makeresults {}", [opt("count", "count", 1, INT), opt("annotate", "annotate", False, BOOL), opt("splunk_server", "server", "local", TEXT), opt("splunk_server_group", "server_group", None, TEXT)], [("", {})]),
    ("AddTotalsCommand", "addtotals {}", [opt("row", "row", True, BOOL), opt("col", "col", False, BOOL), opt("fieldname", "field_name", "Total", TEXT), opt("labelfield", "label_field", None, TEXT), opt("label", "label", "Total", TEXT)], [("", {"fields": []}), ("a", {"fields": fields("a")}), ("a b c", {"fields": fields("a", "b", "c")})]),
    ("BinCommand", "bin {}", [opt("span", "span", None, SPAN), opt("minspan", "min_span", None, SPAN), opt("bins", "bins", None, INT), opt("start", "start", None, INT), opt("end", "end", None, INT), opt("aligntime", "align_time", None, TEXT)],
     [("_time", {"field": field("_time")}), ("a AS b", {"field": 'Alias { expr: Leaf(Constant(Field(Field("a")))), name: "b" }'})]),
    ("BinCommand", "bin a as b {}", [opt("span", "span", None, SPAN), opt("minspan", "min_span", None, SPAN), opt("bins", "bins", None, INT), opt("start", "start", None, INT), opt("end", "end", None, INT), opt("aligntime", "align_time", None, TEXT)], [("", {"field": 'Alias { expr: Leaf(Constant(Field(Field("a")))), name: "b" }'})]),
    ("RexCommand", "rex {}", [opt("field", "field", "_raw", TEXT), opt("max_match", "max_match", 1, INT), opt("offset_field", "offset_field", None, TEXT), opt("mode", "mode", None, [("sed", "sed"), ("SED", "sed")])], [('"(?<a>b)"', {"regex": "(?<a>b)"}), ('"s/a b/c/g"', {"regex": "s/a b/c/g"})]),
    ("StatsCommand", "stats {}", [opt("partitions", "partitions", 1, INT), opt("allnum", "all_num", False, BOOL), opt("delim", "delim", " ", TEXT)],
     [("count", {"funcs": [S("count")], "by": None, "dedup_split_vals": False}), ("count as n, sum(a) by b c", {"funcs": [S("count as n"), S("sum(a)")], "by": UNJUDGED, "dedup_split_vals": False}),
      ("max(a) by b dedup_splitvals=t", {"funcs": [S("max(a)")], "by": UNJUDGED, "dedup_split_vals": True}), ("max(a) by b dedup_splitvals=false", {"funcs": [S("max(a)")], "by": UNJUDGED, "dedup_split_vals": False})]),
    ("TStatsCommand", "tstats {}", [opt("prestats", "prestats", False, BOOL), opt("local", "local", False, BOOL), opt("append", "append", False, BOOL), opt("summariesonly", "summaries_only", False, BOOL), opt("include_reduced_buckets", "include_reduced_buckets", False, BOOL),
                                    opt("allow_old_summaries", "allow_old_summaries", False, BOOL), opt("chunk_size", "chunk_size", 10000000, INT), opt("fillnull_value", "fillnull_value", None, TEXT)],
     [("count from datamodel=M", {"exprs": [S("count")], "datamodel": "M", "nodename": None, "where_condition": None, "by_fields": None, "by_prefix": None}), ("sum(a) as b count from datamodel=M.N where c=1 by d, e", {"exprs": [S("sum(a) as b"), S("count")], "datamodel": "M.N", "nodename": None, "where_condition": E("c=1"), "by_fields": UNJUDGED, "by_prefix": None}),
      ("max(a) where b=2 by c", {"exprs": [S("max(a)")], "datamodel": None, "nodename": None, "where_condition": E("b=2"), "by_fields": UNJUDGED, "by_prefix": None})]),
    ("TopCommand", "top {}", [opt("limit", "n", 10, INT), opt("countfield", "count_field", "count", TEXT), opt("otherstr", "other_str", "OTHER", TEXT), opt("percentfield", "percent_field", "percent", TEXT), opt("showcount", "show_count", True, BOOL), opt("showperc", "show_percent", True, BOOL), opt("useother", "use_other", False, BOOL)],
     [("a", {"fields": fields("a"), "by": None}), ("a, b by c d", {"fields": fields("a", "b"), "by": fields("c", "d")})]),
    ("TopCommand", "top 7 {}", [opt("countfield", "count_field", "count", TEXT), opt("otherstr", "other_str", "OTHER", TEXT), opt("percentfield", "percent_field", "percent", TEXT), opt("showcount", "show_count", True, BOOL), opt("showperc", "show_percent", True, BOOL), opt("useother", "use_other", False, BOOL)], [("a b", {"n": 7, "fields": fields("a", "b"), "by": None})]),
    ("RareCommand", "rare {}", [opt("limit", "n", 10, INT), opt("countfield", "count_field", "count", TEXT), opt("otherstr", "other_str", "OTHER", TEXT), opt("percentfield", "percent_field", "percent", TEXT), opt("showcount", "show_count", True, BOOL), opt("showperc", "show_percent", True, BOOL), opt("useother", "use_other", False, BOOL)],
     [("a", {"fields": fields("a"), "by": None}), ("a, b by c d", {"fields": fields("a", "b"), "by": fields("c", "d")})]),
    ("DataModelCommand", "datamodel {}", [opt("strict_fields", "strict_fields", UNJUDGED, BOOL), opt("allow_old_summaries", "allow_old_summaries", False, BOOL), opt("summariesonly", "summaries_only", UNJUDGED, BOOL)], [("", dict(data_model_name=None, dataset_name=None, search_mode=None)), ("M N search", dict(data_model_name="M", dataset_name="N", search_mode="search"))]),
    ("ConvertCommand", "convert {}", [opt("timeformat", "timeformat", "%m/%d/%Y %H:%M:%S", [('"%Y"', "%Y"), ('"%H:%M"', "%H:%M"), ("x", "x")])],
     [("ctime(a)", {"convs": ['FieldConversion { func: "ctime", field: Field("a"), alias: None }']}), ("num(a) as b dur2sec(c)", {"convs": ['FieldConversion { func: "num", field: Field("a"), alias: Some(Field("b")) }', 'FieldConversion { func: "dur2sec", field: Field("c"), alias: None }']})]),
    ("HeadCommand", "head 5 {}", [opt("keeplast", "keep_last", "BoolValue(false)", [("t", "BoolValue(true)"), ("false", "BoolValue(false)"), ("true", "BoolValue(true)")])], [("", {"eval_expr": V("5"), "null_option": "BoolValue(false)"}), ("null=t", {"eval_expr": V("5"), "null_option": "BoolValue(true)"}), ("null=f", {"eval_expr": V("5"), "null_option": "BoolValue(false)"})]),
    ("HeadCommand", "head {}", [], [("", {"eval_expr": V("10"), "keep_last": "BoolValue(false)", "null_option": "BoolValue(false)"}), ("0", {"eval_expr": V("0"), "keep_last": "BoolValue(false)", "null_option": "BoolValue(false)"}), ("5000000000", {"eval_expr": V("5000000000"), "keep_last": "BoolValue(false)", "null_option": "BoolValue(false)"}), ("limit=42", {"eval_expr": V("42"), "keep_last": "BoolValue(false)", "null_option": "BoolValue(false)"}), ("a > 1 AND b = 2", {"eval_expr": V("a > 1 AND b = 2"), "keep_last": "BoolValue(false)", "null_option": "BoolValue(false)"})]),
    ("FillNullCommand", "fillnull {}", [opt("value", "value", "0", TEXT + [("0", "0"), ("17", "17"), ("1000000000", "1000000000")])], [("", {"fields": None}), ("a b", {"fields": fields("a", "b")}), ('a "x y"', {"fields": fields("a", "x y")})]),
    ("ReturnCommand", "return {}", [], [("a", {"count": "IntValue(1)", "fields": UNJUDGED}), ("5 a", {"count": "IntValue(5)", "fields": UNJUDGED}), ("12 $a $b", {"count": "IntValue(12)", "fields": UNJUDGED}), ("0 a", {"count": "IntValue(0)", "fields": UNJUDGED}), ("5000000000 a", {"count": "IntValue(5000000000)", "fields": UNJUDGED})]),
    ("TableCommand", "table {}", [], [("a", {"fields": fields("a")}), ("a, b c", {"fields": fields("a", "b", "c")}), ('"x y" \'z\'', {"fields": UNJUDGED})]),
    ("FieldsCommand", "fields {}", [], [("a", {"fields": fields("a"), "remove_fields": False}), ("+ a b", {"fields": fields("a", "b"), "remove_fields": False}), ("- a, b", {"fields": fields("a", "b"), "remove_fields": True}), ("-a", {"fields": fields("a"), "remove_fields": True})]),
    ("TailCommand", "tail {}", [], [("", {"n": 10}), ("1", {"n": 1}), ("42", {"n": 42}), ("0", {"n": 0}), ("5000000000", {"n": 5000000000})]),
    ("SortCommand", "sort {}", [], [("a", {"count": 10000, "descending": False, "fields_to_sort": [[None, V("a")]]}), ("5 -a, +b", {"count": 5, "descending": False, "fields_to_sort": [["-", V("a")], ["+", V("b")]]}), ("0 a", {"count": 0, "descending": False, "fields_to_sort": [[None, V("a")]]}), ("limit=3 a desc", {"count": 3, "descending": True, "fields_to_sort": [[None, V("a")]]}), ("0 num(a), - str(b)", {"count": 0, "descending": False, "fields_to_sort": [[None, V("num(a)")], ["-", V("str(b)")]]})]),
    ("RenameCommand", "rename {}", [], [("a as b", {"alias": ['Alias { expr: Leaf(Constant(Field(Field("a")))), name: "b" }']}), ('a AS b, c as "d e"', {"alias": ['Alias { expr: Leaf(Constant(Field(Field("a")))), name: "b" }', 'Alias { expr: Leaf(Constant(Field(Field("c")))), name: "d e" }']})]),
    ("LookupCommand", "lookup {}", [], [("users a", {"dataset": "users", "fields": [field("a")], "output": None}), ("users a as b, c", {"dataset": "users", "fields": ['AliasedField { field: Field("a"), alias: "b" }', field("c")], "output": None}),
                                        ("users a OUTPUT b as c, d", {"dataset": "users", "fields": [field("a")], "output": 'LookupOutput { kv: "OUTPUT", fields: [AliasedField(AliasedField { field: Field("b"), alias: "c" }), Field(Field("d"))] }'}), ("users a OUTPUTNEW b", {"dataset": "users", "fields": [field("a")], "output": 'LookupOutput { kv: "OUTPUTNEW", fields: [Field(Field("b"))] }'})]),
    ("RegexCommand", "regex {}", [], [('a="b+"', {"item": [field("a"), "="], "regex": "b+"}), ('a!="b c"', {"item": [field("a"), "!="], "regex": "b c"}), ('"x"', {"item": None, "regex": "x"})]),
    ("SPathCommand", "spath {}", [], [("a.b", {"path": "a.b", "input": "_raw", "output": None}), ("path=a", {"path": "a", "input": "_raw", "output": None}), ("input=i a", {"path": "a", "input": "i", "output": None}), ("output=o path=a{}.b", {"path": "a{}.b", "input": "_raw", "output": "o"}), ("input=i output=o path=a{2}", {"path": "a{2}", "input": "i", "output": "o"})]),
    ("MultiSearchCommand", "multisearch {}", [], [(f"{SUB} [search index=c]", {"pipelines": [Tree(SUBTREE), Tree("search index=c")]}), (f"[search x=1] {SUB} [search index=c | table a]", {"pipelines": [Tree("search x=1"), Tree(SUBTREE), Tree("search index=c | table a")]})]),
    ("EvalCommand", "eval {}", [], [("a=b + 1", {"fields": [[field("a"), V("b + 1")]]}), ('a=1, "x y"=upper(b), c=a . "z"', {"fields": [[field("a"), V("1")], [field("x y"), V("upper(b)")], [field("c"), V('a . "z"')]]})]),
    ("WhereCommand", "where {}", [], [("a > 1", {"expr": E("a > 1")}), ("NOT (a = 1 OR b = 2)", {"expr": E("NOT (a = 1 OR b = 2)")})]),
    ("SearchCommand", "search {}", [], [("index=a", {"expr": UNJUDGED})]),
]
PLACES = ["index=zz | {}", "| {}", "index=zz | head 3 | {}", "index=zz | {} | table q9", "index=zz x=1 | {} | {}"]


def attributes(c):
    return {a: getattr(c, a) for a in dir(c) if not a.startswith("_") and not callable(getattr(c, a))}


def differs(c, exp):
    a = attributes(c)
    if set(a) != set(exp):
        return {"attributes": (sorted(a), sorted(exp))}
    return {k: (norm(a[k]), norm(v)) for k, v in exp.items() if v is not UNJUDGED and not same(norm(a[k]), norm(v))}


def judge(r, job, place, cls, text, exp):
    q = place.replace("{}", text)
    r.states += 1
    r.traces += 1
    r.transitions += 1
    try:
        p = parse(q)
    except ValueError as e:
        r.bad(f"{cls}: {q}", f"{q!r} is refused: {str(e)[:200]}", job)
        return
    got = [x._0 for x in p.commands]
    mine = [c for c in got if type(c).__name__ == cls and not (cls == "HeadCommand" and "| head 3 |" in q and c is got[1]) and not (cls == "TableCommand" and q.endswith("| table q9") and c is got[-1]) and not (cls == "SearchCommand" and c is got[0] and not q.startswith("| "))]
    if len(mine) != place.count("{}"):
        r.bad(f"{cls}: {q}", f"the tree of {q!r} has {len(mine)} nodes {cls}", job)
        return
    for c in mine:
        bad = differs(c, exp)
        if bad:
            r.bad(f"{cls}: {text}: {sorted(bad)}", f"in the tree of {q!r} " + "; ".join(f"{k} is {g!r} instead of {e!r}" for k, (g, e) in bad.items()), job)
            return
    r.outcomes[cls] += 1


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def written(form, some, texts, args, style=0):
    name, eq = [(lambda n: n, "="), (lambda n: n, " = "), (lambda n: n, "= ")][style]
    return " ".join(x for x in (form.replace("{}", " ".join(f"{name(o[0])}{eq}{t}" for o, t in zip(some, texts))).strip(), args) if x)


def wanted(opts, attrs, some, values):
    exp = dict({attr: d for _, attr, d, _ in opts}, **attrs)
    exp.update({attr: v for (_, attr, _, _), v in zip(some, values)})
    return exp


def out_of_order(cls, text):
    return cls == "HeadCommand" and "null" in text and "keeplast" in text and text.index("null") < text.index("keeplast")


def refused(r, job, q, why):
    r.states += 1
    r.traces += 1
    r.transitions += 1
    try:
        p = parse(q)
    except ValueError:
        r.outcomes["refused"] += 1
        return
    r.bad(f"refuse: {q}", f"{q!r} ({why}) is accepted: {' | '.join(repr(x._0) for x in p.commands)[:300]}", job)


def simple():
    """One or two texts of every command, with what the tree holds."""
    for cls, form, opts, args in COMMANDS:
        if cls == "SearchCommand":
            continue
        text, attrs = args[-1]
        yield cls, written(form, [], [], text), wanted(opts, attrs, [], [])
        if opts:
            some = opts[:2] if cls != "HeadCommand" else opts[:1]
            vals = [o[3][-1] for o in some]
            t = written(form, some, [v[0] for v in vals], text)
            if not out_of_order(cls, t):
                yield cls, t, wanted(opts, attrs, some, [v[1] for v in vals])


def run(job):
    r = Res()
    if job.get("kind") == "sequence":
        menu = list(simple())
        for rest in itertools.product(range(len(menu)), repeat=job["size"] - 1):
            some = [menu[job["first"]]] + [menu[i] for i in rest]
            q = "index=zz | " + " | ".join(x[1] for x in some)
            r.states += 1
            r.traces += 1
            r.transitions += len(some)
            try:
                got = [x._0 for x in parse(q).commands]
            except ValueError as e:
                r.bad(f"sequence refused: {some[0][0]}, {some[1][0]}", f"{q!r} is refused: {str(e)[:200]}", job)
                continue
            if [type(c).__name__ for c in got[1:]] != [x[0] for x in some]:
                r.bad(f"sequence: {some[0][0]}, {some[1][0]}", f"the tree of {q!r} has the commands {[type(c).__name__ for c in got]}", job)
                continue
            for c, (cls, _, exp) in zip(got[1:], some):
                if job["size"] > 2 and repr(c) == MEMO.get((cls, _)):
                    continue
                bad = differs(c, exp)
                if bad:
                    r.bad(f"sequence: {cls}: {sorted(bad)}", f"in the tree of {q!r} the {cls} has " + "; ".join(f"{k} {g!r} instead of {e!r}" for k, (g, e) in bad.items()), job)
                    break
                MEMO[cls, _] = repr(c)
            else:
                r.outcomes["sequence"] += 1
        r.sample(q)
        return r
    cls, form, opts, args = COMMANDS[job["command"]]
    deep = job["deep"]
    if job.get("kind") == "refused":
        text = args[-1][0]
        for o in opts:
            kind = "bool" if o[3] is BOOL or cls == "HeadCommand" else "int" if o[3] is INT else "span" if o[3] is SPAN else ""
            for v in {"bool": ["maybe", "yes", "2", '"t t"', "tr", "17"], "int": ["abc", "t", '"x y"', "1x", "x1"], "span": ["abc", "5parsecs"]}.get(kind, []):
                for place in PLACES[:2]:
                    refused(r, job, place.replace("{}", written(form, [o], [v], text)), f"{v!r} is no value of {o[0]}")
        if opts and cls not in NO_UNKNOWN:
            for n in ["nosuch", "xlimit", opts[0][0] + "x", "x" + opts[0][0]]:
                for v in ["t", "5", '"x"', "abc"]:
                    refused(r, job, PLACES[0].replace("{}", written(form, [(n, None, None, None)], [v], text)), f"{cls} has no option {n}")
        r.sample(f"refused: {cls}: {form}")
        return r
    for text, attrs in args:
        for size in range(job["sizes"][0], job["sizes"][1] + 1):
            for some in itertools.permutations(opts, size):
                width = [v if size < 2 or deep and size < 3 else v[:1] + v[-1:] if size < 4 else v[-1:] for *_, v in some]
                for values in itertools.product(*width):
                    exp = wanted(opts, attrs, some, [v[1] for v in values])
                    for style in range(3) if 0 < size < 3 else (0,):
                        text_ = written(form, some, [v[0] for v in values], text, style)
                        if out_of_order(cls, text_):
                            continue
                        for place in PLACES if size < 2 and not style else PLACES[:1]:
                            judge(r, job, place, cls, text_, exp)
    r.sample(f"{cls}: {form}")
    return r


MEMO = {}
NO_UNKNOWN = set()


def jobs(tier):
    deep = tier == "thorough"
    for i, (cls, form, opts, args) in enumerate(COMMANDS):
        for k in range(0, min(len(opts), 5 if deep else 4) + 1):
            yield {"command": i, "sizes": [k, k], "deep": deep or k < 3}
        yield {"kind": "refused", "command": i, "deep": deep}
    n = len(list(simple()))
    for size in (2, 3) if deep else (2,):
        for i in range(n):
            yield {"kind": "sequence", "size": size, "first": i}


def bounds(tier):
    deep = tier == "thorough"
    return (f"{len(COMMANDS)} forms of {len({c[0] for c in COMMANDS})} commands, {sum(len(c[2]) for c in COMMANDS)} options: every sequence of up to {5 if deep else 4} different options with all (one or two together), two (three) or one (more) of their values, blanks around the equals sign or not, with every form of the arguments, in {len(PLACES)} places; "
            f"every option with values it does not take; every sequence of {'2 and 3' if deep else '2'} of {len(list(simple()))} commands")
