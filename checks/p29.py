"""P29: after every history of edits and switches, the live translator shows what its query converts to, or why it does not."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
sys.path.insert(0, str(Path(__file__).parent.parent / "lib" / "faketextual"))
import p27  # noqa: E402  a table of all commands
import pyperclip  # noqa: E402
from spl_transpiler import convert_spl_to_pyspark, parse  # noqa: E402
from textual.widget import QUEUE, settle  # noqa: E402
from textual.widgets import RichLog, Switch, Tree  # noqa: E402
from vf.harness import Res, chunks  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = [
    "lib/faketextual stands for Textual: messages bubble from their sender to the application and are handled one after the other; labels of trees and lines of logs are read as markup by the real rich; an exception in a handler ends the application",
    "what stays in the pane of the code after a failed conversion is the code of the last one that succeeded",
]
MENU = ["index=a | eval x=1", "index=a x=\"[q] [/red]\" | table x, y", "", "index=a | wherre a=1", "index=a | eval b=isnum(a)", "datamodel a.b c search", "index=a | stats count(a) as [/b]", "index=a | join k [search index=b | stats count by k] | nosuch", 'index=a | where a="[/x]" AND isstr(b)', "index=a | eval y=len(x) | fillnull value=0 y"]
KEYS = ["ctrl+r", "ctrl+t", "ctrl+s"]
ODD = ["[/red]", "[red]", "[q]", "[/]", "a[b", "[b", "]", "[search]", "{x}", "[link=x]y", "[bold]z[/bold]", "\\\\[x]", "[[x]]", "[@click=app.bell]w", ": ", "root", "[dim]", "[/strong]", "x: [blue]y"]
PLACES = ['index=a k="{}"', 'index=a | eval x="{}"', 'index=a | rename a as "{}"', 'index=a | rex "(?<a>{}.*)"', 'index=a | fillnull value="{}" x', 'index=a | wherre "{}"', 'index=a | eval x=isnum("{}")', 'index=a | lookup t a | eval y=if(a = "{}", 1, 2)', 'index=a | stats count as "{}" by b',
          'index=a | collect index=b source="{}"', 'index=a | append [search index=b x="{}"', 'index=a | join k [search z="{}"]', 'index=a | where x="{}" | nosuch "{}"']
MORE = ["index=a | eval x={}", "index=a | where {}", "index=a | search {}"]
VALUES = ["1", "2", "1.5", "-3", "a", '"a"', "a + 1", "a - 1", "1 + a", "true()", "len(a)", "len(b)", "upper(a)", "a . b", "(a + b) * 2", "a + b * 2", "a = 1", "a != 1", "a = 1 AND b = 2", "a = 1 OR b = 2", "NOT a = 1", "if(a = 1, 2, 3)", "5m", "10.0.0.0/8", "a*"]


class Model:
    """What the panes hold."""

    def __init__(self):
        self.text, self.rt, self.imports = "", True, True
        self.code, self.log, self.flags, self.tree = "", [], (False, False), None
        self.copied = []

    def event(self, e):
        if e == "ctrl+s":
            self.copied.append(self.code)
            return
        if e == "ctrl+r":
            self.rt = not self.rt
        elif e == "ctrl+t":
            self.imports = not self.imports
        else:
            self.text = e[1]
        self.log = []
        tree, why = parsed(self.text)
        if why:
            self.log, self.flags = ["Failed to parse SPL: " + why], (True, self.flags[1])
            return
        self.tree = tree
        code, why = code_of(self.text, self.rt)
        if why:
            self.log, self.flags = ["Failed to generate Pyspark: " + why], (False, True)
            return
        self.flags = (False, False)
        head = ["from pyspark.sql import functions as F"] + ["from spl_transpiler.runtime import commands, functions"] * self.rt
        self.code = "\n".join(head * self.imports + [code])


_P, _C = {}, {}


def parsed(text):
    if text not in _P:
        try:
            p = parse(text)
            _P[text] = (repr([repr(c._0) for c in p.commands]), None)
        except ValueError as e:
            _P[text] = (None, str(e))
    return _P[text]


def code_of(text, rt):
    if (text, rt) not in _C:
        try:
            _C[text, rt] = (convert_spl_to_pyspark(text, rt, True), None)
        except RuntimeError as e:
            _C[text, rt] = (None, str(e))
    return _C[text, rt]


class Ended(Exception):
    pass


class Translator:
    """The application, as its user sees it."""

    def __init__(self):
        from spl_transpiler.live_translator import SPLApp
        QUEUE.clear()
        pyperclip.COPIED.clear()
        self.app = SPLApp()
        self.app.start()
        self.settle()

    def settle(self):
        try:
            settle()
        except Exception as e:
            raise Ended(f"{type(e).__name__}: {e}")

    def event(self, e):
        if isinstance(e, str):
            try:
                self.app.press(e)
            except Exception as x:
                raise Ended(f"{type(x).__name__}: {x}")
        else:
            self.app.query_exactly_one("#spl_code").text = e[1]
        self.settle()

    def shown(self):
        q = self.app.query_exactly_one
        return {"code": q("#py_code").text, "log": list(self.app.query(RichLog)[0].lines), "flags": (q("#ast").has_class("error"), q("#pyspark").has_class("error")), "runtime": q("#use_runtime").value, "imports": q("#add_imports").value, "copied": list(pyperclip.COPIED)}

    def tree(self):
        def text(n):
            return (n.label.plain, [text(c) for c in n.children])
        return repr(text(self.app.query(Tree)[0].root))


def history(r, job, events, display=None):
    r.states += 1
    r.traces += 1
    m = Model()
    try:
        t = Translator()
    except Exception as x:
        r.bad("start", f"the live translator does not start: {type(x).__name__}: {x}", job)
        return
    name = " ; ".join(e if isinstance(e, str) else repr(e[1]) for e in events)
    for n, e in enumerate(events):
        r.transitions += 1
        m.event(e)
        try:
            t.event(e)
        except Ended as x:
            r.bad(f"ends: {e}", f"the live translator ends after {name}: {x}", job)
            return
        want = {"code": m.code, "log": m.log, "flags": m.flags, "runtime": m.rt, "imports": m.imports, "copied": m.copied}
        got = t.shown()
        bad = [k for k in want if want[k] != got[k]]
        if bad:
            r.bad(f"{bad[0]}: {e}", f"after {name} (event {n + 1}) the live translator shows the {bad[0]} {got[bad[0]]!r} instead of {want[bad[0]]!r}", job)
            return
        if display is not None and m.tree is not None:
            same = display.setdefault(t.tree(), m.tree)
            if same != m.tree:
                r.bad(f"tree: {e}", f"after {name} the tree of the live translator is the one it shows for another query: {same[:300]} and {m.tree[:300]}", job)
                return
            if t.tree() != display.setdefault(("of", m.tree), t.tree()):
                r.bad(f"tree: {e}", f"after {name} the tree of the live translator is not the one it shows for the query at another time", job)
                return
    r.outcomes["code" if not any(m.flags) else "why there is none"] += 1


def texts():
    for p in PLACES:
        for o in ODD:
            yield p.replace("{}", o)
    for p in MORE:
        for v in VALUES:
            yield p.replace("{}", v)
    for _, text, _ in p27.simple():
        yield "index=zz | " + text
    for cls, form, opts, args in p27.COMMANDS:
        for o in opts:
            for v in o[3]:
                yield "index=zz | " + p27.written(form, [o], [v[0]], args[-1][0])
        for a in args:
            yield "index=zz | " + p27.written(form, [], [], a[0])


def run(job):
    r = Res()
    if job["kind"] == "histories":
        menu = [("edit", q) for q in job["menu"]] + KEYS
        display = {}
        for rest in itertools.product(menu, repeat=job["length"] - 2):
            history(r, job, [menu[job["first"]], menu[job["second"]], *rest], display)
        r.sample(" ; ".join(map(str, (menu[job["first"]], menu[job["second"]], *rest))))
    elif job["kind"] == "trees":
        display = {}
        for q in dict.fromkeys(texts()):
            history(r, job, [("edit", q)], display)
    else:
        for q in job["texts"]:
            for keys in ([], ["ctrl+r"], ["ctrl+t"], ["ctrl+r", "ctrl+t"]):
                for first in ([], [("edit", MENU[0])], [("edit", MENU[3])], [("edit", MENU[4])]) if job["deep"] or not keys else ([],):
                    history(r, job, [*keys, *first, ("edit", q), "ctrl+s"])
        r.sample(q)
    return r


def jobs(tier):
    deep = tier == "thorough"
    yield {"kind": "trees"}
    for length, menu in ((5, MENU),) if deep else ((3, MENU), (4, MENU[:6])):
        for i, j in itertools.product(range(len(menu) + len(KEYS)), repeat=2):
            yield {"kind": "histories", "first": i, "second": j, "length": length, "menu": menu}
    for part in chunks(list(dict.fromkeys(texts())), 24):
        yield {"kind": "texts", "texts": part, "deep": deep}


def bounds(tier):
    deep = tier == "thorough"
    return f"every history of {'5 events' if deep else '3 events, and of 4 with the first 6 texts'}, of {len(MENU)} texts to edit and {len(KEYS)} keys (use of the runtime, imports, copying); {len(set(texts()))} more texts - with brackets and backslashes in {len(PLACES)} places, every command with every option - under all settings, after {'4' if deep else 'up to 4'} different others"
