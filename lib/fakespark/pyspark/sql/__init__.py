import json as _json
from ..core import (Column, Attr, Env, bind, AnalysisException, SparkError, cast_value, check_castable, coerce, common,
                    default_name, cmp_key, split_name, type_name, parse_type, cname, wrap, type_of_value, NULL, STR,
                    LONG, DOUBLE, BOOL, TS, is_struct, bool_or_fail)
from . import functions, types  # noqa: F401

STEPS = [0]  # evaluated data-frame operations (reported as transitions)


class Row(dict):
    """Row of the model: a dict from column name to value."""


class Window:
    unboundedPreceding, currentRow, unboundedFollowing = -(2**63), 0, 2**63 - 1

    @staticmethod
    def orderBy(*c): return Window()

    @staticmethod
    def partitionBy(*c): return Window()

    def rowsBetween(self, a, b): return self


class DataFrame:
    def __init__(self, attrs, rows, ordered=()):
        self.attrs, self.rows = attrs, rows
        STEPS[0] += 1

    # -------------------------------------------------- info
    @property
    def columns(self): return [a.name for a in self.attrs]

    @property
    def dtypes(self): return [(a.name, type_name(a.type)) for a in self.attrs]

    @property
    def schema(self): return self.dtypes

    def collect(self): return [Row(zip(self.columns, r)) for r in self.rows]
    def count(self): return len(self.rows)
    def cache(self): return self
    persist = cache

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.columns:
            return Column("col", n)
        raise AttributeError(f"[ATTRIBUTE_NOT_SUPPORTED] DataFrame.{n}")

    def __getitem__(self, n):
        return Column("col", n)

    # -------------------------------------------------- projections
    def select(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = tuple(cols[0])
        attrs, fns = [], []
        env = Env(self.attrs)
        for c in cols:
            c = cname(c)
            if c.op == "col" and c.args[0].endswith("*"):
                q = c.args[0]
                hit = False
                for i, a in enumerate(self.attrs):
                    if q == "*" or (q.endswith(".*") and q[:-2].lower() in a.quals):
                        attrs.append(a)
                        fns.append(lambda r, g, i=i: r[i])
                        hit = True
                if not hit and q != "*":
                    raise AnalysisException(f"CANNOT_RESOLVE_STAR_EXPAND {q}")
                continue
            b = bind(c, env)
            quals = self.attrs[env.resolve(c.args[0])[0]].quals if c.op == "col" else frozenset()
            attrs.append(Attr(default_name(c), b.type, quals))
            fns.append(b.fn)
        return DataFrame(attrs, [tuple(f(r, None) for f in fns) for r in self.rows])

    def withColumn(self, name, c):
        if not isinstance(name, str):
            raise TypeError("colName")
        if not isinstance(c, Column):
            raise TypeError("[NOT_COLUMN] withColumn")
        b = bind(c, Env(self.attrs))
        idx = [i for i, a in enumerate(self.attrs) if a.name.lower() == name.lower()]
        new = Attr(name, b.type)
        attrs = [new if i in idx else a for i, a in enumerate(self.attrs)]
        if not idx:
            attrs.append(new)
        rows = []
        for r in self.rows:
            v = b.fn(r, None)
            if v is None and c.op == "fn" and c.args[0] == "window":
                continue  # Spark keeps only the rows a window can be computed for
            rows.append(tuple(v if i in idx else x for i, x in enumerate(r)) + (() if idx else (v,)))
        return DataFrame(attrs, rows)

    def withColumns(self, m):
        df = self
        base = Env(self.attrs)
        vals = {n: bind(c, base) for n, c in m.items()}
        out = self
        cols = {n: [b.fn(r, None) for r in self.rows] for n, b in vals.items()}
        attrs, rows = list(out.attrs), [list(r) for r in out.rows]
        for n, b in vals.items():
            idx = [i for i, a in enumerate(attrs) if a.name.lower() == n.lower()]
            if idx:
                for i in idx:
                    attrs[i] = Attr(n, b.type)
                    for k, r in enumerate(rows):
                        r[i] = cols[n][k]
            else:
                attrs.append(Attr(n, b.type))
                for k, r in enumerate(rows):
                    r.append(cols[n][k])
        return DataFrame(attrs, [tuple(r) for r in rows])

    def withColumnRenamed(self, a, b):
        if not isinstance(a, str) or not isinstance(b, str):
            raise TypeError("withColumnRenamed(str, str)")
        return DataFrame([Attr(b, x.type, x.quals) if x.name.lower() == a.lower() else x for x in self.attrs], self.rows)

    def drop(self, *cols):
        names = [c.lower() for c in cols if isinstance(c, str)]
        gone = set()
        for c in cols:
            if not isinstance(c, (str, Column)):
                raise TypeError("drop")
            if isinstance(c, Column):
                if c.op != "col":
                    raise AnalysisException("outside the model: drop of an expression")
                parts = [x.lower() for x in split_name(c.args[0])]
                for i, a in enumerate(self.attrs):
                    if a.name.lower() == parts[-1] and (len(parts) == 1 or parts[0] in a.quals):
                        gone.add(i)
        keep = [i for i, a in enumerate(self.attrs) if a.name.lower() not in names and i not in gone]
        return DataFrame([self.attrs[i] for i in keep], [tuple(r[i] for i in keep) for r in self.rows])

    def toDF(self, *names):
        return DataFrame([Attr(n, a.type) for n, a in zip(names, self.attrs)], self.rows)

    # -------------------------------------------------- rows
    def where(self, c):
        if not isinstance(c, Column):
            raise TypeError("[NOT_COLUMN_OR_STR] where")
        b = bind(c, Env(self.attrs))
        if b.type not in (BOOL, NULL):
            raise AnalysisException(f"DATATYPE_MISMATCH.FILTER_NOT_BOOLEAN {type_name(b.type)}")
        return DataFrame(self.attrs, [r for r in self.rows if b.fn(r, None) is True])

    filter = where

    def orderBy(self, *cols, ascending=True):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = tuple(cols[0])
        if not cols:
            raise ValueError("[CANNOT_BE_EMPTY] At least one column must be specified.")
        rows = list(self.rows)
        env = Env(self.attrs)
        for c in reversed(cols):
            c = cname(c)
            d = False if ascending else True
            if c.op == "sort":
                d, c = c.args[1], c.args[0]
            b = bind(c, env)

            def key(r):
                v = b.fn(r, None)
                return (v is not None, cmp_key(v) if v is not None else 0)
            # nulls first ascending, nulls last descending; stable
            rows.sort(key=key, reverse=d)
        return DataFrame(self.attrs, rows)

    sort = orderBy

    def limit(self, n):
        if isinstance(n, bool) or not isinstance(n, int):
            raise TypeError("limit")
        if n < 0:
            raise AnalysisException("INVALID_LIMIT_LIKE_EXPRESSION.IS_NEGATIVE")
        if n >= 2**31:
            raise AnalysisException("limit out of int range")
        return DataFrame(self.attrs, self.rows[:n])

    def tail(self, n):
        return [Row(zip(self.columns, r)) for r in (self.rows[-n:] if n > 0 else [])]

    def head(self, n=1):
        return self.limit(n).collect()

    def distinct(self):
        return self.dropDuplicates()

    def dropDuplicates(self, subset=None):
        env = Env(self.attrs)
        idx = [env.resolve(s)[0] for s in subset] if subset else range(len(self.attrs))
        seen, rows = set(), []
        for r in self.rows:
            k = repr([r[i] for i in idx])
            if k not in seen:
                seen.add(k)
                rows.append(r)
        return DataFrame(self.attrs, rows)

    def fillna(self, value, subset=None):
        if isinstance(value, bool) or not isinstance(value, (str, int, float, dict)):
            raise TypeError("fillna value")
        if isinstance(subset, str):
            subset = [subset]
        if subset is not None and not isinstance(subset, (list, tuple)):
            raise TypeError("fillna subset")
        env = Env(self.attrs)
        if isinstance(value, dict):
            m = {env.resolve(k)[0]: v for k, v in value.items()}
        else:
            idx = [env.resolve(s)[0] for s in subset] if subset is not None else range(len(self.attrs))
            m = {i: value for i in idx}
        rows = []
        for r in self.rows:
            r = list(r)
            for i, v in m.items():
                t = self.attrs[i].type
                ok = t == STR if isinstance(v, str) else t in (LONG, DOUBLE)
                if r[i] is None and ok:
                    r[i] = cast_value(v, type_of_value(v), t)
            rows.append(tuple(r))
        return DataFrame(self.attrs, rows)

    @property
    def na(self):
        return _NA(self)

    def alias(self, n):
        if not isinstance(n, str):
            raise TypeError("alias")
        return DataFrame([Attr(a.name, a.type, frozenset([n.lower()])) for a in self.attrs], self.rows)

    # -------------------------------------------------- combination
    def unionByName(self, o, allowMissingColumns=False):
        if not isinstance(o, DataFrame):
            raise TypeError("unionByName")
        for d in (self, o):
            ns = [a.name.lower() for a in d.attrs]
            if len(set(ns)) != len(ns):
                raise AnalysisException("COLUMN_ALREADY_EXISTS")
        left = {a.name.lower(): i for i, a in enumerate(self.attrs)}
        right = {a.name.lower(): i for i, a in enumerate(o.attrs)}
        if set(left) != set(right) and not allowMissingColumns:
            raise AnalysisException("UNRESOLVED_COLUMN in unionByName")
        attrs = [Attr(a.name, a.type) for a in self.attrs] + [Attr(a.name, a.type) for a in o.attrs if a.name.lower() not in left]
        for a in attrs:
            k = right.get(a.name.lower())
            if k is not None:
                t = a.type
                ot = o.attrs[k].type
                # set operations widen string/number to string
                a.type = t if t == ot else STR if STR in (t, ot) and NULL not in (t, ot) else common(t, ot, "union")
        rows = []
        for d, m in ((self, left), (o, right)):
            for r in d.rows:
                rows.append(tuple(None if a.name.lower() not in m else
                                  cast_value(r[m[a.name.lower()]], d.attrs[m[a.name.lower()]].type, a.type) for a in attrs))
        return DataFrame(attrs, rows)

    def union(self, o):
        return DataFrame(self.attrs, self.rows + o.rows)

    def crossJoin(self, o):
        return self.join(o, wrap(True), "inner")

    def join(self, o, on=None, how="inner"):
        if not isinstance(o, DataFrame):
            raise TypeError("join")
        how = {"left": "left", "leftouter": "left", "left_outer": "left", "inner": "inner", "outer": "outer",
               "full": "outer", "fullouter": "outer", "full_outer": "outer", "right": "right", "cross": "inner",
               "left_semi": "semi", "leftsemi": "semi", "semi": "semi", "left_anti": "anti"}.get(how)
        if how is None:
            raise AnalysisException("UNSUPPORTED_JOIN_TYPE")
        if isinstance(on, str):
            on = [on]
        if isinstance(on, (list, tuple)) and on and all(isinstance(x, str) for x in on):
            return self._join_using(o, list(on), how)
        if isinstance(on, (list, tuple)):
            c = None
            for x in on:
                c = x if c is None else c & x
            on = c
        attrs = list(self.attrs) + list(o.attrs)
        b = bool_or_fail(bind(on if on is not None else wrap(True), Env(attrs)), "join condition")
        rows, hit_r = [], set()
        nl, nr = (None,) * len(self.attrs), (None,) * len(o.attrs)
        for l in self.rows:
            hit = False
            for k, r in enumerate(o.rows):
                if b.fn(l + r, None) is True:
                    hit = True
                    hit_r.add(k)
                    if how not in ("semi", "anti"):
                        rows.append(l + r)
            if how == "semi" and hit or how == "anti" and not hit:
                rows.append(l)
            if not hit and how in ("left", "outer"):
                rows.append(l + nr)
        if how in ("outer", "right"):
            rows += [nl + r for k, r in enumerate(o.rows) if k not in hit_r]
        return DataFrame(list(self.attrs) if how in ("semi", "anti") else attrs, rows)

    def _join_using(self, o, on, how):
        le, re_ = Env(self.attrs), Env(o.attrs)
        li, ri = [le.resolve(n)[0] for n in on], [re_.resolve(n)[0] for n in on]
        lk, rk = [i for i in range(len(self.attrs)) if i not in li], [i for i in range(len(o.attrs)) if i not in ri]
        attrs = [self.attrs[i] for i in li] + [self.attrs[i] for i in lk] + [o.attrs[i] for i in rk]
        rows, hit_r = [], set()
        for l in self.rows:
            hit = False
            for k, r in enumerate(o.rows):
                if all(l[i] is not None and l[i] == r[j] for i, j in zip(li, ri)):
                    hit = True
                    hit_r.add(k)
                    rows.append(tuple(l[i] for i in li) + tuple(l[i] for i in lk) + tuple(r[i] for i in rk))
            if not hit and how in ("left", "outer"):
                rows.append(tuple(l[i] for i in li) + tuple(l[i] for i in lk) + (None,) * len(rk))
        if how in ("outer", "right"):
            for k, r in enumerate(o.rows):
                if k not in hit_r:
                    rows.append(tuple(r[i] for i in ri) + (None,) * len(lk) + tuple(r[i] for i in rk))
        if how in ("semi", "anti"):
            raise AnalysisException("outside the model")
        return DataFrame(attrs, rows)

    # -------------------------------------------------- aggregation
    def groupBy(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = tuple(cols[0])
        env = Env(self.attrs)
        keys = []
        for c in cols:
            c = cname(c)
            keys.append((c.args[0] if c.op == "alias" else c, bind(c, env), default_name(c)))
        return GroupedData(self, keys)

    groupby = groupBy

    def agg(self, *cols):
        return self.groupBy().agg(*cols)

    def createOrReplaceTempView(self, name):
        SparkSession.current.tables[name.lower()] = self


class _NA:
    def __init__(self, df): self.df = df
    def fill(self, value, subset=None): return self.df.fillna(value, subset)


class GroupedData:
    def __init__(self, df, keys):
        self.df, self.keys = df, keys

    def count(self):
        return self.agg(functions.count(functions.lit(1)).alias("count"))

    def agg(self, *cols):
        if not cols:
            raise AssertionError("exprs should not be empty")
        for c in cols:
            if not isinstance(c, Column):
                raise TypeError("[NOT_COLUMN] agg")
        df = self.df
        env = Env(df.attrs, "agg", [(c, b) for c, b, _ in self.keys], df.rows)
        bs = [bind(c, env) for c in cols]
        groups = {}
        for r in df.rows:
            vals = [b.fn(r, None) for _, b, _ in self.keys]
            if any(n == "window" and v is None for v, (_, _, n) in zip(vals, self.keys)):
                continue  # the window operator drops null times
            groups.setdefault(repr(vals), (vals, []))[1].append(r)
        if not self.keys and not groups:
            groups[""] = ([], [])
        attrs = [Attr(n, b.type) for _, b, n in self.keys] + [Attr(default_name(c) if c.op == "alias" else default_name(c), b.type) for c, b in zip(cols, bs)]
        rows = [tuple(vals) + tuple(b.fn(None, g) for b in bs) for vals, g in groups.values()]
        return DataFrame(attrs, rows)


class _Builder:
    def __getattr__(self, n):
        return lambda *a, **k: self

    def getOrCreate(self):
        return SparkSession.current


class SparkSession:
    builder = _Builder()
    current = None

    def __init__(self):
        self.tables = {}
        SparkSession.current = self

    def table(self, name):
        if not isinstance(name, str):
            raise TypeError("table name")
        k = ".".join(split_name(name)).lower()
        if k not in self.tables:
            raise AnalysisException(f"TABLE_OR_VIEW_NOT_FOUND {name!r}")
        return self.tables[k]

    def range(self, start, end=None, step=1, numPartitions=None):
        if end is None:
            start, end = 0, start
        return DataFrame([Attr("id", LONG)], [(i,) for i in range(start, end, step)])

    def add(self, name, schema, rows):
        """Register a table: schema is [(name, type string)]."""
        attrs = [Attr(n, parse_type(t)) for n, t in schema]
        self.tables[name.lower()] = DataFrame(attrs, [tuple(r) for r in rows])

    def createDataFrame(self, rows, schema):
        attrs = []
        for i, n in enumerate(schema):
            t = NULL
            for r in rows:
                t = common(t, type_of_value(r[i]), "createDataFrame")
            attrs.append(Attr(n, t))
        return DataFrame(attrs, [tuple(r) for r in rows])
