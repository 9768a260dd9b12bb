"""Comparing a query run through the transpiler and the model of Spark with what it should return."""
from . import execute as X
from . import impl

Out = X.Out


def check(r, spl, session, expect, case, rt=False, ordered=False, cols_ordered=False, tag=""):
    """Transpile and run spl; expect is an Out, or 'reject' when the transpiler must refuse the query."""
    mode = "runtime" if rt else "standalone"
    r.states += 1
    s0 = X.steps()
    try:
        k, v, code = X.run(spl, session, rt)
    except impl.Panic as e:
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} panicked: {e}", case)
        return None
    r.traces += 1
    r.transitions += X.steps() - s0
    if expect == "reject":
        if k != "unsupported":
            r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} should be refused but became {code!r}", case)
        else:
            r.outcomes["refused as it must be"] += 1
        return None
    if k == "unsupported":
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} was refused: {v[:300]}", case)
        return None
    if k == "broken":
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r} became code that fails: {v[:300]}\n      {code}", case)
        return None
    d = X.same(v, expect, ordered, cols_ordered)
    if d:
        r.bad(f"{mode}:{spl}", f"[{mode}] {spl!r}: {d}\n      {code}", case)
        return None
    r.outcomes[f"{tag or 'equal'}, {'no' if not v.rows else 'some'} rows"] += 1
    return v
