"""Replay recorded answers of real Spark on the model of Spark (corpus/golden.jsonl, written by tools/golden.py)."""
import datetime as dt
import json
from pathlib import Path

from . import execute as X

GOLD = Path(__file__).resolve().parents[2] / "corpus" / "golden.jsonl"


def value(v):
    if isinstance(v, dict):
        if "ts" in v:
            return dt.datetime.fromisoformat(v["ts"])
        if "date" in v:
            return dt.date.fromisoformat(v["date"])
        return {k: value(x) for k, x in v.items()}
    return [value(x) for x in v] if isinstance(v, list) else v


def entries(rt):
    tables = {}
    for line in open(GOLD):
        e = json.loads(line)
        if "code" not in e:
            tables[e["id"]] = {n: ([tuple(c) for c in s], [tuple(value(x) for x in r) for r in rows]) for n, (s, rows) in e["tables"].items()}
        elif rt or not e["rt"]:
            yield e, tables[e["t"]]


def judge(e, tables):
    """None, or how the model differs from Spark on this entry."""
    want = e["spark"]
    try:
        got = X.out_of(X._evaluate(e["code"], X.Session(tables), e["rt"]))
    except Exception as x:
        if "error" not in want and "UNRESOLVED_COLUMN" in str(x) and ("where(" in e["code"] or "commands.search(" in e["code"] or "orderBy(" in e["code"]):
            return OPEN  # Spark looks for a column a filter or sort lacks below the projection that dropped it; the model refuses
        return None if "error" in want else f"the model fails ({type(x).__name__}: {x}), Spark answers {str(want)[:300]}"
    if "error" in want:
        return f"Spark fails ({want['error'][:200]}), the model answers {got}"
    exp = X.Out(want["cols"], [tuple(value(x) for x in r) for r in want["rows"]], kind=got.kind)
    if got.kind == "list" and not got.rows:
        return None if not exp.rows else "no rows"
    if [c.lower() for c in got.cols] != [c.lower() for c in exp.cols]:
        return f"columns {got.cols}, Spark {exp.cols}"
    # a NaN is kept as text in the file; dates and structs compare as text
    bags = "collect_set" in e["code"] or ".values(" in e["code"]  # Spark promises no order for these lists
    g = sorted((tuple(text(x, bags) for x in r) for r in got.rows), key=repr)
    w = sorted((tuple(text(x, bags) for x in r) for r in exp.rows), key=repr)
    if g == w:
        return None
    if "limit(" in e["code"]:  # which of several equal rows is kept is up to Spark
        back = X.out_of(X._evaluate(e["code"], X.Session({n: (c, rows[::-1]) for n, (c, rows) in tables.items()}), e["rt"]))
        if sorted((tuple(text(x, bags) for x in r) for r in back.rows), key=repr) != g:
            return OPEN
    return f"rows {g[:6]}, Spark {w[:6]}"


OPEN = "left open: order of equal rows, columns found below a projection"


def text(v, bag=False):
    if isinstance(v, dict):
        return tuple((k, text(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        v = [text(x) for x in v]
        return tuple(sorted(v, key=repr) if bag else v)
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return str(v)
    if isinstance(v, dt.datetime):
        return v.replace(tzinfo=None).isoformat()  # the session runs in UTC
    if isinstance(v, dt.date):
        return v.isoformat()
    return X.norm(v)


def replay(rt=False, part=None):
    """(answers that agree, answers left open, [differing entries])"""
    ok, left, bad = 0, 0, []
    for i, (e, tables) in enumerate(entries(rt)):
        if part and i % part[1] != part[0]:
            continue
        why = judge(e, tables)
        if why is None:
            ok += 1
        elif why == OPEN:
            left += 1
        else:
            bad.append({**e, "why": why})
    return ok, left, bad
