"""Record what the checks run on the model of Spark, for tools/golden.py (never active inside a registered check)."""
import ast
import hashlib
import json
import os

SEEN = set()
FEATURES = set()
EVERY = int(os.environ.get("VF_TRACE_EVERY", "1"))
DIR = os.environ.get("VF_TRACE")
PID = os.environ.get("VF_TRACE_ID", "")


def value(v):
    import datetime as dt
    if isinstance(v, dt.datetime):
        return {"ts": v.isoformat()}
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    return v


def recorded(f, code, session, rt):
    try:
        v = f(code, session, rt)
    except Exception as e:
        note(code, session, rt, f"{type(e).__name__}: {e}")
        raise
    note(code, session, rt, None)
    return v


def kind(n):
    if isinstance(n, ast.Call):
        return name(n.func) + "()"
    if isinstance(n, ast.Constant):
        return type(n.value).__name__
    if isinstance(n, (ast.BinOp, ast.UnaryOp)):
        return type(n.op).__name__
    if isinstance(n, ast.Compare):
        return type(n.ops[0]).__name__
    return type(n).__name__


def name(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"


def features(code, rt):
    """What the code applies to what: every operation with the kind of each of its operands."""
    out = set()
    for n in ast.walk(ast.parse(code)):
        if isinstance(n, ast.Call):
            k = name(n.func)
            if isinstance(n.func, ast.Attribute):
                out.add((k, "of", kind(n.func.value)))
            out |= {(k, i, kind(a)) for i, a in enumerate(n.args)} | {(k, a.arg if k in ("join", "search", "tstats", "fill_null") else "kw", kind(a.value)) for a in n.keywords}
        elif isinstance(n, ast.BinOp):
            out |= {(kind(n), "l", kind(n.left)), (kind(n), "r", kind(n.right))}
        elif isinstance(n, ast.Compare):
            out |= {(kind(n), "l", kind(n.left)), (kind(n), "r", kind(n.comparators[0]))}
        elif isinstance(n, ast.UnaryOp):
            out.add((kind(n), "of", kind(n.operand)))
    return {(rt, *f) for f in out}


def note(code, session, rt, error):
    tables = json.dumps({n: [list(map(list, s)), [value(r) for r in rows]] for n, (s, rows) in session.tables.items()}, sort_keys=True)
    h = hashlib.sha256(f"{rt}\0{code}\0{tables}".encode()).hexdigest()
    if h in SEEN:
        return
    try:
        new = features(code, rt) - FEATURES
    except SyntaxError:
        return
    if not new and int(h[:8], 16) % EVERY:
        return
    FEATURES.update(new)
    SEEN.add(h)
    with open(f"{DIR}/{PID}-{os.getpid()}.jsonl", "a") as o:
        o.write(json.dumps({"h": h, "check": PID, "rt": rt, "code": code, "tables": tables, "error": error}) + "\n")
