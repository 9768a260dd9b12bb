"""P13: join, lookup and multisearch combine searches."""
import datetime
import itertools

from vf import execute as X
from vf import impl
from vf import ref as R
from vf import sem
from vf.harness import Res

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the model of Spark in lib/fakespark evaluates generated code as Spark does (validated against recorded runs of the real Spark, tools/golden.py)",
    "at most one event of the subsearch, or row of the lookup table, matches an event (several matches: see known_findings.json)",
    "commands after a join do not name the fields both sides have (see known_findings.json); without OUTPUT, events and lookup table share only the matched fields",
]

UTC = datetime.timezone.utc
ts = lambda x: datetime.datetime.fromtimestamp(x, UTC)  # noqa: E731

LS = [("s", "string"), ("k", "bigint"), ("a", "bigint"), ("_time", "timestamp"), ("u", "string")]
LKINDS = [("x", 1, 10, ts(20), "L1"), ("x", 2, 20, ts(40), None), ("y", 1, None, ts(30), "L2"), (None, 2, 40, ts(30), "L3"), ("z", None, 50, ts(10), "L4")]
RS = [("s", "string"), ("k", "bigint"), ("v", "bigint"), ("_time", "timestamp"), ("my w", "string")]
RKINDS = [("x", 1, 100, ts(20), "r1"), ("x", 2, 200, ts(30), None), ("y", 1, None, ts(30), "r2"), ("y", 2, 400, ts(50), "r3"), (None, 1, 500, ts(10), "r4"), ("z", None, 600, ts(0), "r5")]

# fields of the join: text, names
ONS = [("s", ["s"]), ("k", ["k"]), ("s k", ["s", "k"]), ("k, s", ["k", "s"]), ("s,k", ["s", "k"]), ('"s"', ["s"]), ("'k' , s", ["k", "s"])]
# options: text, keeps left, time
OPTS = [("", False, None), ("type=inner ", False, None), ("type=left ", True, None), ("type=outer ", True, None), ("max=1 ", False, None), ("type=left max=1 ", True, None),
        ("usetime=f ", False, None), ("usetime=t ", False, True), ("usetime=true earlier=true ", False, True), ("usetime=t earlier=f ", False, False), ("earlier=f ", False, None),
        ("earlier=false usetime=t type=left ", True, False), ("type=outer usetime=t ", True, True), ("type = left ", True, None), ('type="left" ', True, None), ("JOIN", False, None)]
# searches the left and right side come from: text, reference
LEFTS = [('index="la"', lambda f: f),
         ('index="la" a>15', lambda f: f.where(lambda r: (r["a"] or 0) > 15)),
         ('index="la" | eval b=a+1', lambda f: R.Frame(f.cols + ["b"], [{**r, "b": None if r["a"] is None else r["a"] + 1} for r in f.rows])),
         ('index="la" | where k=1 | fields s, k, a, _time', lambda f: f.where(lambda r: r["k"] == 1).table(["s", "k", "a", "_time"]))]
RIGHTS = [('search index="rb"', lambda f: f),
          ('index="rb"', lambda f: f),
          ('| search index="rb"', lambda f: f),
          ('search index="rb" v>150', lambda f: f.where(lambda r: (r["v"] or 0) > 150)),
          ('search index="rb" | where v>150 | fields k, s, v, _time', lambda f: f.where(lambda r: (r["v"] or 0) > 150).table(["k", "s", "v", "_time"])),
          ('search index="rb" | eval n=v * 2 | head 3', lambda f: R.Frame(f.cols + ["n"], [{**r, "n": None if r["v"] is None else r["v"] * 2} for r in f.rows[:3]])),
          ('search index="rb" | stats sum(v) as v, max(_time) as _time by s, k', lambda f: R.Frame.of(["s", "k", "v", "_time"], [(r["s"], r["k"], None if r["v"] is None else r["v"], r["_time"]) for r in f.rows])),
          ('search index="rc" | rename s2 as s, k2 as k | where k>0', lambda f: R.Frame.of(["s", "k", "v", "_time", "my w"], [(r["s"], r["k"], r["v"], r["_time"], r["my w"]) for r in f.rows if r["k"] is not None]))]


def joined(lf, rf, on, left, time):
    """Columns and rows of the join, or None when several events match one."""
    rows = []
    for l in lf.rows:
        hits = [r for r in rf.rows if all(l[c] is not None and l[c] == r[c] for c in on)
                and (time is None or (l["_time"] >= r["_time"] if time else l["_time"] <= r["_time"]))]
        if len(hits) > 1:
            return None
        for r in hits:
            rows.append(tuple(l[c] for c in lf.cols) + tuple(r[c] for c in rf.cols))
        if not hits and left:
            rows.append(tuple(l[c] for c in lf.cols) + (None,) * len(rf.cols))
    return lf.cols + rf.cols, rows


def unique(rows, on):
    ks = [tuple(r[{"s": 0, "k": 1}[c]] for c in on) for r in rows]
    return len(set(ks)) == len(ks)


def session(lrows, rrows):
    return X.Session({"la": (LS, lrows), "rb": (RS, rrows), "rc": ([("s2" if n == "s" else "k2" if n == "k" else n, t) for n, t in RS], rrows)})


def bare(r, spl, s, want, case, rt, tag):
    """Compare positionally: both sides' columns one after the other."""
    mode = "runtime" if rt else "standalone"
    r.states += 1
    s0 = X.steps()
    try:
        k, v, code = X.run(spl, s, rt)
    except impl.Panic as e:
        k, v, code = "broken", str(e), ""
    r.traces += 1
    r.transitions += X.steps() - s0
    cols, rows = want
    if k != "ok":
        why = f"{k}: {v[:300]}"
    elif v.cols != cols:
        why = f"columns {v.cols} instead of {cols}"
    elif sorted(map(repr, map(tuple, v.rows))) != sorted(map(repr, rows)):
        why = f"rows {X.show(v.rows)} instead of {X.show(rows)} (columns {cols})"
    else:
        r.outcomes[f"{tag}, {'some' if rows else 'no'} rows"] += 1
        return
    r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r}: {why}\n      {code}", case)


def tables(kinds, n):
    for m in range(n + 1):
        yield from itertools.permutations(kinds, m) if m < 3 else itertools.combinations(kinds, m)


FULL_L = LKINDS
TABS_R = {("s",): [RKINDS[i] for i in (0, 2, 4, 5)], ("k",): [RKINDS[i] for i in (0, 1, 5)]}

# lookup
TABLE = [("s", "string"), ("k", "bigint"), ("v", "bigint"), ("d", "string"), ("my w", "string")]
TROWS = {("s",): [("x", 1, 7, "d1", "w1"), ("y", 2, None, "d2", None), (None, 1, 9, "d3", "w3")], ("k",): [("x", 1, 7, "d1", "w1"), ("y", 2, None, "d2", None), ("q", None, 9, "d3", "w3")],
         ("s", "k"): [("x", 1, 7, "d1", "w1"), ("x", 2, 8, "d2", None), ("y", 1, None, None, "w4"), ("z", None, 9, "d3", "w3")]}
ES = [("s", "string"), ("k", "bigint"), ("host", "string"), ("num", "bigint"), ("v", "bigint"), ("w", "string")]
EROWS = [("x", 1, "y", 2, 70, "e1"), ("y", 1, "x", None, None, None), (None, 2, "z", 1, 71, "e2"), ("q", 2, None, 2, 72, "e3"), ("x", 2, "x", 1, 73, "e4")]
# lookup field -> event field
KEYS = [("s", [("s", "s")]), ("k", [("k", "k")]), ("s k", [("s", "s"), ("k", "k")]), ("s, k", [("s", "s"), ("k", "k")]), ("s AS host", [("s", "host")]), ("s as host, k as num", [("s", "host"), ("k", "num")]),
        ("k AS num", [("k", "num")]), ("k as num s", [("k", "num"), ("s", "s")]), ("s k AS num", [("s", "s"), ("k", "num")])]
OUTS = [("v", [("v", "v")]), ("d", [("d", "d")]), ("v, d", [("v", "v"), ("d", "d")]), ("d v", [("d", "d"), ("v", "v")]), ("v AS n", [("v", "n")]), ("v as num2, d as v", [("v", "num2"), ("d", "v")]), ("d AS w", [("d", "w")]),
        ("v AS n d AS w", [("v", "n"), ("d", "w")]), ('d AS "new d"', [("d", "new d")]), ("k AS kk, s AS ss", [("k", "kk"), ("s", "ss")])]


def looked_up(f, keys, outs, rows):
    t = R.Frame.of(TABLE, rows)
    if outs is None:
        outs = [(c, c) for c in t.cols if c not in {a for a, _ in keys}]
    res = []
    for e in f.rows:
        hits = [r for r in t.rows if all(e[b] is not None and e[b] == r[a] for a, b in keys)]
        if len(hits) > 1:
            return None
        res.append({**e, **{b: hits[0][a] if hits else None for a, b in outs}})
    cols = [c for c in f.cols if c not in {b for _, b in outs}] + [b for _, b in outs]
    return R.Frame(cols, res)


# multisearch
MS = {"ma": ([("a", "bigint"), ("s", "string")], [(1, "x"), (None, "y"), (3, None)]), "mb": ([("s", "string"), ("b", "bigint")], [("x", 5), ("z", None)]), "mc": ([("b", "bigint"), ("a", "bigint")], []),
      "md": ([("a", "bigint"), ("s", "string"), ("b", "bigint")], [(9, "w", 8)])}
SUBS = [("search index=ma", lambda f: f["ma"]), ("index=mb", lambda f: f["mb"]), ("| search index=mc", lambda f: f["mc"]), ("search index=md | fields b, a", lambda f: f["md"].table(["b", "a"])),
        ("search index=ma a>0", lambda f: f["ma"].where(lambda r: (r["a"] or 0) > 0)), ("search index=mb | eval c=b+1", lambda f: R.Frame(["s", "b", "c"], [{**r, "c": None if r["b"] is None else r["b"] + 1} for r in f["mb"].rows])),
        ("search index=ma | stats count by s", lambda f: R.Frame.of(["s", "count"], [("x", 1), ("y", 1), (None, 1)])), ("search index=md | rename a as c", lambda f: f["md"].rename([("a", "c")])),
        ("search index=ma | join s [search index=mb | fields s | rename s as s]", None)]
SUBS = SUBS[:-1]
AFTER = [("", lambda f: f), (" | where isnotnull(s)", lambda f: None if "s" not in f.cols else f.where(lambda r: r["s"] is not None)), (" | head 2", lambda f: R.Frame(f.cols, f.rows[:2])),
         (" | eval z=1", lambda f: R.Frame(f.cols + ["z"], [{**r, "z": 1} for r in f.rows])), (" | fields s", lambda f: None if "s" not in f.cols else f.table(["s"])),
         (" | stats count", lambda f: None if "count" in f.cols else R.Frame.of(["count"], [(len(f.rows),)]))]

REFUSED = ['index="la" | join [search index="rb"]', 'index="la" | join type=cross s [search index="rb"]', 'index="la" | join type=right s [search index="rb"]', 'index="la" | join max=0 s [search index="rb"]', 'index="la" | join max=2 s [search index="rb"]',
           'index="la" | join s', 'index="la" | join s [search index="rb"', 'index="la" | join s search index="rb"]', 'index="la" | join s (search index="rb")', 'index="la" | join type=left [search index="rb"]',
           'index="la" [search index="rb"]', 'index="la" s=[search index="rb" | fields s]', 'index="la" | search [search index="rb"]', 'index="la" | join s [search index="rb" | dedup s]',
           'index="la" | join s [search index="rb" | nosuchcommand]', 'index="la" | multisearch [search index="rb"] [search index="rc"]', 'multisearch [search index="rb"]', '| multisearch', 'multisearch search index="rb"', 'multisearch [search index="rb"] [search index="rc"',
           'multisearch [search index="rb"] [search index="rc" | dedup s]', 'index="la" | lookup tab', 'index="la" | lookup', 'index="la" | lookup tab s OUTPUTNEW v', 'index="la" | lookup tab s OUTPUT', 'index="la" | lookup tab s OUTPUTNEW v AS w', 'index="la" | lookup tab OUTPUT v']

KNOWN = [('index="la" | join s [search index="rb"] | table s, v', "x", ["s", "v"]), ('index="la" | join s [search index="rb"] | where s="x"', None, None), ('index="la" | join s [search index="rb"] | table a, v', "max", ["a", "v"])]


def jobs(tier):
    th = tier == "thorough"
    res = [{"kind": "join", "on": i, "opt": j, "n": 4 if th else 3, "small": not th} for i in range(len(ONS)) for j in range(len(OPTS))]
    res += [{"kind": "pipes", "l": i, "r": j} for i in range(len(LEFTS)) for j in range(len(RIGHTS))]
    res += [{"kind": "lookup", "k": i} for i in range(len(KEYS))]
    res += [{"kind": "multi", "a": i, "n": 4 if th else 3} for i in range(len(SUBS))]
    res += [{"kind": "nested"}, {"kind": "refused"}, {"kind": "known"}]
    return res


def bounds(tier):
    n = 4 if tier == "thorough" else 3
    return (f"{len(ONS)} lists of join fields x {len(OPTS)} options x every pair of tables of up to {n - 1} events on the left ({len(LKINDS)} kinds) and {n} matches on the right ({len(RKINDS)} kinds); "
            f"{len(LEFTS)} x {len(RIGHTS)} searches on the two sides, with {len(ONS)} lists and following commands; {len(KEYS)} lookup keys x {len(OUTS) + 1} outputs over every table of matches; "
            f"multisearches of up to {n} of {len(SUBS)} searches x {len(AFTER)} following commands; joins, lookups and multisearches of one another to depth 3; {len(REFUSED)} refused forms; both modes")


def run(job):
    r = Res()
    kind = job["kind"]
    if kind == "join":
        text, on = ONS[job["on"]]
        opt, left, time = OPTS[job["opt"]]
        word = "JOIN" if opt == "JOIN" else "join"
        opt = "" if opt == "JOIN" else opt
        q = f'index="la" | {word} {opt}{text} [search index="rb"]'
        rt_ = [t for t in tables(RKINDS, job["n"]) if unique(t, on) and list(t) == sorted(t, key=RKINDS.index)]
        codes = {}
        for rt in (False, True):
            k, v = impl.convert(q, rt)
            if k != "ok":
                r.states += 1
                r.bad(f"{'runtime' if rt else 'standalone'}:{q}", f"{q!r} was refused: {v[:300]}", job)
                continue
            codes[rt] = impl.render(v) if not isinstance(v, str) else v
        for lrows in tables(LKINDS, 2):
            if len(lrows) == 2 and job["small"] and job["on"] > 3:
                continue
            for rrows in rt_:
                s = session(list(lrows), list(rrows))
                want = joined(R.Frame.of(LS, lrows), R.Frame.of(RS, rrows), on, left, time)
                if want is None:
                    continue
                for rt in codes:
                    bare(r, q, s, want, job, rt, "joined")
    elif kind == "pipes":
        (lt, lref), (rt_, rref) = LEFTS[job["l"]], RIGHTS[job["r"]]
        for (text, on), (opt, left, time) in itertools.product(ONS, OPTS[:4] + OPTS[7:10]):
            rrows = TABS_R.get(tuple(on), RKINDS)
            s = session(FULL_L, rrows)
            lf, rf = lref(R.Frame.of(LS, FULL_L)), rref(R.Frame.of(RS, rrows))
            want = joined(lf, rf, on, left, time)
            if want is None:
                continue
            cols, rows = want
            own = [c for c in cols if cols.count(c) == 1]
            g = R.Frame(own, [{c: t[cols.index(c)] for c in own} for t in rows])
            q = f"{lt} | join {opt}{text} [{rt_}]"
            for rt in (False, True):
                bare(r, q, s, want, job, rt, "joined")
                sem.check(r, f"{q} | table {', '.join(R.name(c) for c in own)}", s, X.Out(g.cols, g.tuples()), job, rt, False, True, "joined and cut")
                sem.check(r, f"{q} | where v>150 | table a, v", s, out(g.where(lambda e: (e["v"] or 0) > 150).table(["a", "v"])), job, rt, False, True, "joined and cut")
                sem.check(r, f"{q} | eval z=a+v | fields z, v", s, out(R.Frame(["z", "v"], [{"z": None if None in (e["a"], e["v"]) else e["a"] + e["v"], "v": e["v"]} for e in g.rows])), job, rt, False, True, "joined and cut")
                n = {}
                for e in g.rows:
                    n[e["v"]] = n.get(e["v"], 0) + 1
                sem.check(r, f"{q} | stats count by v", s, X.Out(["v", "count"], list(n.items())), job, rt, False, False, "joined and counted")
    elif kind == "lookup":
        text, keys = KEYS[job["k"]]
        f = R.Frame.of(ES, EROWS)
        trows = TROWS[tuple(sorted((a for a, _ in keys), reverse=True))]
        for m in range(len(trows) + 1):
            for rows in itertools.combinations(trows, m):
                for evs in (EROWS, EROWS[:1], EROWS[2:], []):
                    s = X.Session({"ev": (ES, evs), "tab": (TABLE, list(rows)), "plain": ([c for c in ES if c[0] != "v"], [e[:4] + e[5:] for e in evs])})
                    f = R.Frame.of(ES, evs)
                    for otext, outs in OUTS:
                        want = looked_up(f, keys, outs, rows)
                        if want is None:
                            continue
                        for word in ("OUTPUT", "output"):
                            for rt in (False, True):
                                sem.check(r, f'index="ev" | lookup tab {text} {word} {otext}', s, out(want), job, rt, False, False, "looked up")
                                if word == "OUTPUT" and m and "v" in want.cols:
                                    sem.check(r, f'index="ev" | eval h=1 | lookup tab {text} {word} {otext} | where isnotnull(v) | fields v, h', s, out(R.Frame(["v", "h"], [{"v": e["v"], "h": 1} for e in want.rows if e["v"] is not None])), job, rt, False, True, "looked up and cut")
                    # without OUTPUT every field of the table but the matched ones is added
                    pf = f.drop(["v"])
                    if not {c for c, _ in TABLE} - {a for a, _ in keys} & set(pf.cols):
                        pass
                    rest = {c for c, _ in TABLE} - {a for a, _ in keys}
                    if rest & set(pf.cols):
                        pf = pf.drop([c for c in pf.cols if c in rest])
                    want = looked_up(pf, keys, None, rows)
                    if want is not None:
                        for rt in (False, True):
                            sem.check(r, f'index="plain" | fields {", ".join(pf.cols)} | lookup tab {text}', s, out(want), job, rt, False, False, "looked up")
    elif kind == "multi":
        s = X.Session(MS)
        fr = {n: R.Frame.of(sc, rows) for n, (sc, rows) in MS.items()}
        for m in range(2, job["n"] + 1):
            for rest in itertools.product(SUBS, repeat=m - 1):
                subs = (SUBS[job["a"]],) + rest
                fs = [ref(fr) for _, ref in subs]
                u = fs[0].union(*fs[1:])
                for i, (text, ref) in enumerate(AFTER):
                    if m > 2 and i % 3 and (m > 3 or (len(subs[1][0]) + i) % 2):
                        continue
                    w = ref(u)
                    if w is None:
                        continue
                    for rt in (False, True):
                        pre = ("multisearch ", "| multisearch ", "MultiSearch ")[(i + m) % 3]
                        sem.check(r, pre + (" " if i % 2 else "  ").join(f"[{t}]" if i % 2 else f"[ {t} ]" for t, _ in subs) + text, s, out(w), job, rt, False, False, "searches together")
    elif kind == "nested":
        s = X.Session({**MS, "rb": (RS, TABS_R[("s",)]), "la": (LS, LKINDS), "tab": (TABLE, TROWS[("s",)])})
        fr = {n: R.Frame.of(sc, rows) for n, (sc, rows) in s.tables.items()} if hasattr(s, "tables") else {**{n: R.Frame.of(sc, rows) for n, (sc, rows) in MS.items()}, "rb": R.Frame.of(RS, TABS_R[("s",)]), "la": R.Frame.of(LS, LKINDS)}
        # sources whose key is s and which add one field of their own
        def src(n, name):
            return (f'search index="{n}" | table s, {name[0]} | rename {name[0]} as {name[1]}', fr[n].table(["s", name[0]]).rename([(name[0], name[1])]))
        B, C = ("rb", "v"), ("mb", "b")
        for t1, t2 in (("", ""), ("type=left ", ""), ("", "type=left "), ("type=left ", "type=outer ")):
            for x, y in itertools.permutations((B, C)):
                xs, xf = src(x[0], (x[1], "p"))
                ys, yf = src(y[0], (y[1], "q"))
                xs2 = xs + " | rename s as sx"
                # one join after another on fields of the left
                q = f'index="la" | fields s, a | join {t1}s [{xs} | rename s as s] | eval key=a | table a, p, key | rename p as pp | join {t2}a [search index="la" | eval q=k | table a, q]'
                c1, rows1 = joined(fr["la"].table(["s", "a"]), xf, ["s"], "type" in t1, None)
                g = R.Frame.of(["a", "pp", "key"], [(t[1], t[3], t[1]) for t in rows1])
                want = joined(g, R.Frame.of(["a", "q"], [(e["a"], e["k"]) for e in fr["la"].rows]), ["a"], "type" in t2, None)
                for rt in (False, True):
                    bare(r, q, s, want, job, rt, "join of joins")
                # a join inside the subsearch
                q = f'index="la" | fields s, a | join {t1}s [{xs} | rename s as s | rename p as key | rename key as p | join {t2}s [{ys} | rename s as sy | rename sy as s] | table p, q | eval s=if(isnull(p), "y", "x") | head 1]'
                c2, rows2 = joined(xf, yf, ["s"], "type" in t2, None)
                g = R.Frame.of(["p", "q", "s"], [(t[1], t[3], "y" if t[1] is None else "x") for t in rows2[:1]])
                want = joined(fr["la"].table(["s", "a"]), g, ["s"], "type" in t1, None)
                for rt in (False, True):
                    bare(r, q, s, want, job, rt, "join in a join")
                # a multisearch of joins, a join with a multisearch
                c1, rows1 = joined(xf, yf, ["s"], "type" in t1, None)
                j = R.Frame.of(["p", "q"], [(t[1], t[3]) for t in rows1])
                q = f'multisearch [{xs} | join {t1}s [{ys}] | table p, q] [search index="la" | fields a, u] [{ys}]'
                for rt in (False, True):
                    sem.check(r, q, s, out(j.union(fr["la"].table(["a", "u"]), yf)), job, rt, False, False, "searches of joins")
                u = yf.union(R.Frame.of(["s", "h"], [("x2", 1)] * 0))
                q = f'index="la" | fields s, a | join {t1}s [multisearch [{ys}] [search index=ma s="none" | fields s]]'
                want = joined(fr["la"].table(["s", "a"]), yf, ["s"], "type" in t1, None)
                for rt in (False, True):
                    bare(r, q, s, want, job, rt, "join with a multisearch")
                # a lookup on either side
                q = f'index="la" | fields s, a | lookup tab s OUTPUT d | join {t1}s [{xs} | lookup tab s OUTPUT v AS vv]'
                l = looked_up(fr["la"].table(["s", "a"]), [("s", "s")], [("d", "d")], TROWS[("s",)])
                rr = looked_up(xf, [("s", "s")], [("v", "vv")], TROWS[("s",)])
                for rt in (False, True):
                    bare(r, q, s, joined(l, rr, ["s"], "type" in t1, None), job, rt, "join of lookups")
    elif kind == "refused":
        s = session(LKINDS, RKINDS[:1])
        for q in REFUSED:
            for tail in ("", " | head 3"):
                for rt in (False, True):
                    sem.check(r, q + tail, s, "reject", job, rt)
    elif kind == "known":
        for q, what, cols in KNOWN:
            for rt in (False, True):
                if what == "max":
                    s = session(LKINDS[:1], [RKINDS[0], RKINDS[1]])
                    sem.check(r, q, s, X.Out(cols, [(10, 100)]), job, rt)
                elif cols:
                    sem.check(r, q, session(LKINDS[:1], RKINDS[:1]), X.Out(cols, [("x", 100)]), job, rt)
                else:
                    s = session(LKINDS[:1], RKINDS[:1])
                    sem.check(r, q, s, X.Out(["s", "k", "a", "_time", "u", "v", "my w"], [LKINDS[0] + (100, "r1")]), job, rt)
    return r


def out(f):
    return X.Out(f.cols, f.tuples())
