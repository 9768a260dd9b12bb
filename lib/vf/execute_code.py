"""How generated code is evaluated: its statements, then its last expression (no import of any Spark)."""
import ast


def value_of(code, ns):
    if "\n" not in code:
        return eval(compile(code, "<generated>", "eval"), ns)
    t = ast.parse(code)
    last = t.body.pop()
    if not isinstance(last, ast.Expr):
        raise SyntaxError("the last statement is not an expression")
    exec(compile(t, "<generated>", "exec"), ns)
    return eval(compile(ast.Expression(last.value), "<generated>", "eval"), ns)
