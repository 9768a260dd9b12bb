"""The real transpiler (the extension module built from /repo), wrapped so that every outcome is classified."""
import functools

import spl_transpiler as st


class Panic(Exception):
    pass


def _guard(f):
    """('ok', value) | ('err', message); a Rust panic raises Panic."""
    try:
        return ("ok", f())
    except Exception as e:
        if type(e).__name__ == "PanicException":
            raise Panic(str(e))
        return ("err", f"{type(e).__name__}: {e}")
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            raise Panic(str(e)) from None
        raise


def parse(spl):
    return _guard(lambda: st.parse(spl))


def convert(spl, rt=False, fmt=False):
    return _guard(lambda: st.convert_spl_to_pyspark(spl, allow_runtime=rt, format_code=fmt))


def render(p, rt=False, fmt=False):
    return _guard(lambda: st.render_pyspark(p, allow_runtime=rt, format_code=fmt))


# ------------------------------------------------------------------ reading syntax trees
def unwrap(x):
    """Strip the enum layers: Expr_Leaf -> LeafExpr_Constant -> Constant_Field -> Field."""
    while hasattr(x, "_0"):
        x = x._0
    return x


def tree(e):
    """Nested tuples for an expression of the public syntax tree."""
    k = type(e).__name__
    if k == "Expr_Binary":
        b = e._0
        return ("bin", b.symbol, tree(b.left), tree(b.right))
    if k == "Expr_Unary":
        return ("un", e._0.symbol, tree(e._0.right))
    if k == "Expr_Call":
        return ("call", e._0.name) + tuple(tree(a) for a in e._0.args)
    if k == "Expr_FieldIn":
        return ("in", e._0.field) + tuple(tree(a) for a in e._0.exprs)
    if k == "Expr_Leaf":
        return ("leaf", repr(unwrap(e)))
    return ("other", repr(unwrap(e)))


@functools.lru_cache(maxsize=None)
def leaf(text):
    return ("leaf", text)


def command_text(c):
    return repr(unwrap(c))


def pipeline_text(p):
    return [command_text(c) for c in p.commands]
