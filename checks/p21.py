"""P21: macro loaders find the one definition a name has."""
import itertools
import json
import shutil
import tempfile
from pathlib import Path

from spl_transpiler.macros import CombinedMacroLoader, FolderMacroLoader, MacroDefinition, RegistryMacroLoader, substitute_macros

from vf.harness import Res, chunks

LEVEL = "model_checking"
ASSUMPTIONS = ["names are words; the folder does not change after a name has been looked up"]
PLACES = ["", "sub", "sub/deep", "b"]
NAMES = ["a", "b", "ab"]


def look(loader, name):
    try:
        v = loader[name]
    except KeyError:
        return "missing"
    except ValueError:
        return "refused"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if isinstance(v, MacroDefinition):
        return (tuple(v.arguments), v.definition)
    if isinstance(v, dict):
        return (tuple(v.get("arguments", ())), v["definition"])
    return f"a {type(v).__name__}"


def want(r, what, got, exp, case):
    r.states += 1
    r.transitions += 1
    r.traces += 1
    if got != exp:
        r.bad(what, f"{what}: {got!r} instead of {exp!r}", case)
    else:
        r.outcomes[exp if exp in ("missing", "refused") else "expanded" if isinstance(exp, str) else "found"] += 1


# ------------------------------------------------------------------ folders
def layouts(tier):
    """name -> kind at every place: no entry, a file with or without arguments, a directory of that name"""
    kinds = [None, "plain", "args", "dir"]
    two = list(itertools.product(kinds, repeat=len(PLACES)))
    for a in two:
        yield {"a": a, "b": ("plain", None, None, None), "ab": (None, "args", None, None)}
    for a, b in itertools.product(two if tier == "thorough" else [t for t in two if sum(k is not None for k in t) <= 2], repeat=2) if tier == "thorough" else ((x, y) for i, x in enumerate(two) for j, y in enumerate(two) if (i + 3 * j) % 23 == 0):
        yield {"a": a, "b": b, "ab": (None,) * len(PLACES)}


def content(name, place, kind):
    return {"definition": f"{name} of [{place}]"} if kind == "plain" else {"arguments": ["x", "y"], "definition": f"{name} $x$ $y$ of [{place}]"}


def build(root, layout, suffix):
    for name, kinds in layout.items():
        for place, kind in zip(PLACES, kinds):
            d = root / place
            if kind is None:
                continue
            d.mkdir(parents=True, exist_ok=True)
            if kind == "dir":
                (d / f"{name}{suffix}").mkdir()
            elif suffix == ".json":
                (d / f"{name}{suffix}").write_text(json.dumps(content(name, place, kind)))
            else:
                c = content(name, place, kind)
                (d / f"{name}{suffix}").write_text(",".join(c.get("arguments", [])) + ";" + c["definition"])
    (root / "a.other").write_text("not a macro")
    (root / "xa.json").write_text("{}")


def load_text(f):
    a, d = f.read().split(";", 1)
    return {"arguments": a.split(",") if a else [], "definition": d}


def folder(root, suffix):
    return FolderMacroLoader(root) if suffix == ".json" else FolderMacroLoader(root, suffix=suffix, loader=load_text)


def folder_expect(layout, name):
    have = [(p, k) for p, k in zip(PLACES, layout.get(name, ())) if k]
    if not have:
        return "missing"
    if len(have) > 1:
        if any(k == "dir" for _, k in have):
            return None
        return "refused"
    p, k = have[0]
    if k == "dir":
        return "missing"
    c = content(name, p, k)
    return (tuple(c.get("arguments", ())), c["definition"])


ODD = ["*b", "[b]", "a{x}", "a-b"]
PATTERNS = ["*", "a*", "?", "[ab]", "**", "/a", "../out", "../in/*b", "**/b", "[!a]", "{a,b}"]


def run_folder(r, layout, suffix, scratch):
    top = Path(tempfile.mkdtemp(dir=scratch))
    root = top / "in"
    root.mkdir()
    build(root, layout, suffix)
    text = lambda n: json.dumps({"definition": f"the one of {n}"}) if suffix == ".json" else f";the one of {n}"  # noqa: E731
    (top / f"out{suffix}").write_text(text("outside"))
    for n in ODD:
        (root / f"{n}{suffix}").write_text(text(n))
    ld = folder(root, suffix)
    case = ["folder1", layout, suffix]
    for name in NAMES + ["c", "A"]:
        exp = folder_expect(layout, name)
        for _ in range(2 if exp else 0):          # also when asked again
            want(r, f"{name} in {layout} {suffix}", look(ld, name), exp, case)
    # characters that stand for others in patterns of file names, or lead out of the folder
    for name in ODD:
        want(r, f"{name} in {layout} {suffix}", look(ld, name), ((), f"the one of {name}"), case)
    for name in (*PATTERNS, str(top / "out"), str(root / "c")):
        want(r, f"{name.replace(str(top), '')} in {layout} {suffix}", look(ld, name), "missing", case)
    for name in ("*b", "a*", "/a", "a{x}"):
        try:
            got = substitute_macros(f"x `{name}`", ld)
        except KeyError:
            got = "missing"
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        want(r, f"expansion of {name} in {layout} {suffix}", got, f"x the one of {name}" if name in ODD else "missing", case)
    # end to end
    for name in NAMES[:2]:
        exp = folder_expect(layout, name)
        if isinstance(exp, tuple):
            got = substitute_macros(f"x `{name}{'(1, 2)' if exp[0] else ''}`", ld)
            want(r, f"expansion of {name} in {layout} {suffix}", got, "x " + exp[1].replace("$x$", "1").replace("$y$", "2"), case)
    shutil.rmtree(top)


# ------------------------------------------------------------------ registries and combinations
REGS = [(), ("a",), ("b",), ("a", "b"), ("ab",)]


def definition(tag, name):
    return f"{name} by {tag}"


def make(spec, tag, scratch):
    """(loader, names -> expected)"""
    kind, names = spec
    exp = {n: ((), definition(tag, n)) for n in names}
    if kind == "registry":
        return RegistryMacroLoader({n: MacroDefinition(definition=definition(tag, n)) for n in names}), exp
    if kind == "register":
        ld = RegistryMacroLoader({n: MacroDefinition(definition="overridden") for n in names[:1]})
        for n in names:
            ld.register(n, MacroDefinition(definition=definition(tag, n)))
        return ld, exp
    if kind == "dict":
        return {n: {"definition": definition(tag, n)} for n in names}, exp
    root = Path(tempfile.mkdtemp(dir=scratch))
    for n in names:
        (root / f"{n}.json").write_text(json.dumps({"definition": definition(tag, n)}))
    if kind == "folder":
        return FolderMacroLoader(root), exp
    # a folder with two definitions of each name
    (root / "twice").mkdir()
    for n in names:
        (root / "twice" / f"{n}.json").write_text(json.dumps({"definition": "again"}))
    return FolderMacroLoader(root), {n: "refused" for n in names}


SPECS = [(k, n) for k in ("registry", "register", "dict", "folder", "ambiguous") for n in REGS if n or k == "registry"]


def run_combined(r, specs, fallback, nest, scratch):
    made = [make(s, i, scratch) for i, s in enumerate(specs)]
    asked = []

    def fb(name):
        asked.append(name)
        if name == "c":
            raise KeyError(name)
        return MacroDefinition(definition=f"{name} made up")
    kw = {"fallback_fn": fb} if fallback else {}
    if nest and len(made) > 1:
        ld = CombinedMacroLoader(made[0][0], CombinedMacroLoader(*[m[0] for m in made[1:]]), **kw)
    else:
        ld = CombinedMacroLoader(*[m[0] for m in made], **kw)
    case = ["combined1", [[k, list(n)] for k, n in specs], fallback, nest]
    for name in NAMES + ["c"]:
        del asked[:]
        exp = next((m[1][name] for m in made if name in m[1]), None)
        known = exp is not None
        if exp is None:
            exp = ((), f"{name} made up") if fallback and name != "c" else "missing"
        want(r, f"{name} in {specs} fallback={fallback}", look(ld, name), exp, case)
        want(r, f"fallback asked for {name} in {specs} fallback={fallback}", list(asked), [] if known or not fallback else [name], case)
        if isinstance(exp, tuple):
            want(r, f"expansion of {name} in {specs} fallback={fallback}", substitute_macros(f"`{name}`", ld), exp[1], case)


def run(job):
    r = Res()
    scratch = tempfile.mkdtemp(prefix="vf-p21-")
    try:
        if job[0] == "folder":
            for layout, suffix in job[1]:
                run_folder(r, layout, suffix, scratch)
        elif job[0] == "folder1":
            run_folder(r, job[1], job[2], scratch)
        elif job[0] == "combined":
            for specs, fallback, nest in job[1]:
                run_combined(r, [(k, tuple(n)) for k, n in specs], fallback, nest, scratch)
        elif job[0] == "combined1":
            run_combined(r, [(k, tuple(n)) for k, n in job[1]], job[2], job[3], scratch)
        else:
            # a registry keeps what it was given
            src = {"a": MacroDefinition(definition="one")}
            ld = RegistryMacroLoader(src)
            src["a"], src["b"] = MacroDefinition(definition="two"), MacroDefinition(definition="three")
            want(r, "registry keeps its own definitions", look(ld, "a"), ((), "one"), job)
            want(r, "registry does not grow by itself", look(ld, "b"), "missing", job)
            ld.register("b", MacroDefinition(arguments=["x"], definition="$x$"))
            want(r, "registered later", look(ld, "b"), (("x",), "$x$"), job)
            ld.register("a", MacroDefinition(definition="new"))
            want(r, "registered again", look(ld, "a"), ((), "new"), job)
            other = RegistryMacroLoader({})
            want(r, "registries are separate", look(other, "a"), "missing", job)
            for bad in ({}, {"definition": 3}, {"arguments": ["x"]}, {"definition": "d", "arguments": "x"}, {"definition": None}):
                try:
                    got = substitute_macros("`m`", {"m": bad})
                except ValueError:
                    got = "refused"
                except RecursionError as e:
                    got = repr(e)
                want(r, f"malformed definition {bad}", got, "refused", job)
    finally:
        shutil.rmtree(scratch)
    r.sample(str(job)[:160])
    return r


def jobs(tier):
    ls = list(layouts(tier))
    for c in chunks(((l, s) for l in ls for s in (".json", ".macro")), 150):
        yield ["folder", c]
    cs = [(list(p), f, n) for k in (0, 1, 2) for p in itertools.product(SPECS, repeat=k) for f in (False, True) for n in (False, True) if not n or k > 1]
    three = [(list(p), f, False) for i, p in enumerate(itertools.product(SPECS, repeat=3)) for f in (False, True) if tier == "thorough" or i % 9 == 0]
    for c in chunks(cs + three, 120):
        yield ["combined", c]
    yield ["registry"]


def bounds(tier):
    return {"folders": f"every placement of a definition at {len(PLACES)} places (absent, plain, with arguments, a directory), two names, 2 file formats", "combinations": f"all sequences of up to 3 of {len(SPECS)} loaders, with and without fallback, nested" + ("" if tier == "thorough" else " (a ninth of the triples)")}
