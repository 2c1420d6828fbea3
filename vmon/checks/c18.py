"""C18: the public API holds every model class, and its generator lists exactly the classes the package defines."""
import ast
import collections
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import adf, env
from .common import minimal, parse

ID = "C18"
QUICK, THOROUGH = 96, 1600
LINES = False
SHRINK = False
RULE = ("the API module of the working tree compared with the classes its modules define and parsing produces; the generator run in "
        "scratch copies of the package, in folders of any name, after each of a random history of edits (modules and classes added, renamed "
        "and removed: public, private, imported, attribute and unrelated ones), the written module read as a syntax tree, imported in a fresh "
        "process and compared with what the edits defined; distinct by history")
ESSENTIAL = ["classes found by parsing", "attribute classes", "generator runs", "imports of the generated module", "modules added",
             "modules removed", "classes added to existing modules", "private classes", "imported classes", "unrelated classes",
             "folders named like the model's", "the working tree regenerated", "attribute classes added", "type aliases"]

DUMP = """
import sys, json, inspect, importlib, os
import atlas_doc_parser.api as api
out = {"file": os.path.abspath(api.__file__), "names": {}}
for n, o in vars(api).items():
    if inspect.isclass(o):
        m = o.__module__
        out["names"][n] = [m, getattr(importlib.import_module(m), n, None) is o]
    elif n.startswith("T_"):
        out["names"][n] = [None, True]
json.dump(out, sys.stdout)
"""


def directed():
    return ([{"what": "tree"}] + [{"what": "type", "cat": c, "type": t} for c, tab in (("node", adf.NODES), ("mark", adf.MARKS)) for t in tab]
            + [{"what": "history", "folder": f, "steps": st} for f, st in (
                ("p", []), ("marks", []), ("nodes", []), ("marks/x/nodes", [["add", 0, 1]]),
                ("p", [["add", 0, 1], ["add", 1, 2], ["remove", 0, 0], ["remove", 1, 0]]),
                ("a b", [["extend", 0, 3], ["extend", 5, 4]]))])


def generate(rng, i):
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        steps.append([rng.choice(["add", "add", "add", "extend", "remove", "edit"]), rng.randrange(1000), rng.randrange(10 ** 6)])
    return {"what": "history", "folder": rng.choice(["p", "marks", "nodes", "my marks", "node_x", "mark_y/nodes", "Marks"]), "steps": steps}


def check(api, case, mon):
    if case["what"] == "tree":
        tree(api, mon)
    elif case["what"] == "type":
        of_type(api, case["cat"], case["type"], mon)
    else:
        history(case, mon)
    mon.seen(json.dumps(case, sort_keys=True))


def of_type(api, cat, t, mon):
    table = adf.NODES if cat == "node" else adf.MARKS
    spec = table[t]
    c = getattr(api, spec.cls, None)
    if c is None:
        mon.fail(f"the public API lacks {spec.cls}")
    el = minimal(spec)
    o = parse(api, el, cat)
    mon.hit("classes found by parsing")
    if type(o) is not c:
        mon.fail(f"parsing a {t} gives {type(o)!r}, the API exports {c!r}")
    if spec.attrs is not None:
        a = getattr(api, adf.ATTR_CLASS[t], None)
        if a is None:
            mon.fail(f"the public API lacks {adf.ATTR_CLASS[t]}")
        o = parse(api, {**el, "attrs": el.get("attrs", {})}, cat)
        mon.hit("attribute classes")
        if type(o.attrs) is not a:
            mon.fail(f"the attributes of a {t} are {type(o.attrs)!r}, the API exports {a!r}")


def defined(root):
    """{class name: module} by reading the source of the model modules: public classes that descend from Base."""
    base = {"Base", "BaseMarkOrNode", "BaseMark", "BaseNode"}
    classes = {}
    for d, pre in (("marks", "mark_"), ("nodes", "node_")):
        folder = os.path.join(root, env.PKG, d)
        for f in sorted(os.listdir(folder)):
            if f.startswith(pre) and f.endswith(".py"):
                for n in ast.walk(ast.parse(open(os.path.join(folder, f), encoding="utf-8").read())):
                    if isinstance(n, ast.ClassDef):
                        classes[n.name] = (f"{d}.{f[:-3]}", [b.id if isinstance(b, ast.Name) else getattr(b, "attr", "") for b in n.bases])
    ok = set(base)
    grown = True
    while grown:
        grown = False
        for n, (m, bases) in classes.items():
            if n not in ok and any(b in ok for b in bases):
                ok.add(n)
                grown = True
    return {n: m for n, (m, bases) in classes.items() if n in ok and not n.startswith("_")}


def listed(src):
    """Counter of (module, name) imported from model modules, and the names bound otherwise."""
    out, names = collections.Counter(), collections.Counter()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                names[a.asname or a.name] += 1
                m = n.module or ""
                if m.startswith(("marks.mark_", "nodes.node_")):
                    out[(m, a.name)] += 1
    return out, names


def compare(src, want, mon, what):
    got, names = listed(src)
    w = collections.Counter({(m, n): 1 for n, m in want.items()})
    if got != w:
        lost = sorted(set(w) - set(got))
        extra = sorted(set(got) - set(w))
        twice = sorted(k for k, c in got.items() if c > 1)
        mon.fail(f"{what}: classes not listed {lost[:6]}, listed but not defined there {extra[:6]}, listed twice {twice[:6]}")
    for n, c in names.items():
        if c > 1:
            mon.fail(f"{what}: the name {n} is bound {c} times")


def scratch_copy(folder):
    top = tempfile.mkdtemp(prefix="vmon-c18-")
    root = os.path.join(top, folder)
    dst = os.path.join(root, env.PKG)
    os.makedirs(root)
    shutil.copytree(os.path.join(env.REPO, env.PKG), dst, ignore=shutil.ignore_patterns("__pycache__", "tests", "docs", "*.pyc"))
    return top, root


def run(root, code, rng):
    e = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": root, "PYTHONDONTWRITEBYTECODE": "1", "HOME": root,
         "PYTHONHASHSEED": str(rng.randrange(1000))}
    return subprocess.run([sys.executable, "-c", code], cwd=rng.choice([root, "/"]), env=e, capture_output=True, text=True, timeout=120)


def regenerate(root, rng, mon, what):
    r = run(root, "import atlas_doc_parser.gen_code as g\nassert g.__file__.startswith(%r), g.__file__\ng.main()" % root, rng)
    mon.hit("generator runs")
    if r.returncode:
        if "AssertionError: " in r.stderr and "gen_code.py" in r.stderr.splitlines()[-1]:
            raise RuntimeError("the scratch copy was not loaded: " + r.stderr[-500:])
        mon.fail(f"{what}: the generator fails: {r.stderr[-600:]}")
    with open(os.path.join(root, env.PKG, "api.py"), encoding="utf-8") as f:
        return f.read()


def imported(root, rng, want, mon, what):
    r = run(root, DUMP, rng)
    mon.hit("imports of the generated module")
    if r.returncode:
        mon.fail(f"{what}: the generated module cannot be imported: {r.stderr[-600:]}")
    d = json.loads(r.stdout)
    if not d["file"].startswith(root):
        raise RuntimeError("the scratch copy was not loaded")
    for n, m in want.items():
        have = d["names"].get(n)
        if have is None or (have[0] is not None and (have[0] != f"{env.PKG}.{m}" or not have[1])):
            mon.fail(f"{what}: after generating, the API has {n} = {have}, defined in {m}")


def tree(api, mon):
    want = defined(env.REPO)
    for n, m in want.items():
        o = getattr(api, n, None)
        if o is None:
            mon.fail(f"the public API lacks {n} of {m}")
        if o.__module__ != f"{env.PKG}.{m}":
            mon.fail(f"the public API has {n} from {o.__module__}, defined in {m}")
    src = open(os.path.join(env.REPO, env.PKG, "api.py"), encoding="utf-8").read()
    compare(src, want, mon, "the committed API module")
    top, root = scratch_copy("p")
    try:
        gen = regenerate(root, random.Random(1), mon, "working tree")
        compare(gen, want, mon, "the generated API module")
        a, b = listed(src)[1], listed(gen)[1]
        if a != b:
            mon.fail(f"the generator does not reproduce the committed module: names only in one of them {sorted((a - b) + (b - a))[:10]}")
        ns = {"__name__": env.PKG + ".regenerated", "__package__": env.PKG}
        exec(compile(gen, "generated", "exec"), ns)
        for n in b:
            if ns.get(n) is not getattr(api, n, ns):
                mon.fail(f"{n} of the generated module is {ns.get(n)!r}, of the committed one {getattr(api, n, None)!r}")
        mon.hit("the working tree regenerated")
        again = regenerate(root, random.Random(2), mon, "working tree, again")
        if again != gen:
            mon.fail("a second run of the generator gives another module")
    finally:
        shutil.rmtree(top, ignore_errors=True)


WORDS = ["Alpha", "Beta", "Zeta", "Gamma", "V2", "Aa", "Item", "X"]


def module_source(kind, stem, r, mon):
    """(source, {public names}) of a new module of the package."""
    Kind = kind.capitalize()
    w = stem.title().replace("_", "")
    base = "BaseNode" if kind == "node" else "BaseMark"
    src = ["# -*- coding: utf-8 -*-", "import typing as T", "import dataclasses", "import enum", "from func_args.api import REQ, OPT",
           "from ..mark_or_node import Base, BaseMark, BaseNode"]
    names = set()
    odd = r.choice(["", "", "", "_", "__", "x", "0", "\u00e9", "\u00c9", "_x", "API", "Attr", "Base"])     # how names end
    if r.random() < 0.6:
        src.append("from ..nodes.node_text import NodeText" if kind == "node" else "from ..marks.mark_em import MarkEm")
        mon.hit("imported classes")
    if r.random() < 0.4:
        src.append("from ..type_enum import TypeEnum")

    def add(name, bases):
        src.extend(["", "", "@dataclasses.dataclass(frozen=True)", f"class {name}({bases}):", "    x: int = OPT"])
        if not name.startswith("_"):
            names.add(name)
        else:
            mon.hit("private classes")
    parts = ["public"] * r.choice([0, 1, 1, 2]) + ["attrs"] * r.choice([0, 1, 1]) + ["nested attrs", "private", "plain", "function", "alias",
                                                                                     "enum", "sub", "private attrs"][:]
    r.shuffle(parts)
    k = 0
    for p in parts[:r.choice([1, 3, 5, 8])]:
        k += 1
        if p == "public":
            add(f"{Kind}{w}{r.choice(WORDS)}{k}{odd}", base)
        elif p == "attrs":
            add(f"{Kind}{w}{k}Attrs", "Base")
            mon.hit("attribute classes added")
        elif p == "nested attrs":
            add(f"{Kind}{w}{k}AttrsDatasource", "Base")
        elif p == "private":
            add(f"_{Kind}{w}{k}", base)
        elif p == "private attrs":
            add(f"_{Kind}{w}{k}Attrs", "Base")
        elif p == "sub" and any(not n.startswith("T_") for n in names):
            add(f"{Kind}{w}Sub{k}", min(n for n in names if not n.startswith("T_")))
        elif p == "plain":
            src.extend(["", "", f"class {Kind}{w}Plain{k}:", "    pass", "", "", f"class {Kind}{w}Plain{k}Attrs(dict):", "    pass"])
            mon.hit("unrelated classes")
        elif p == "enum":
            src.extend(["", "", f"class {w}Kind{k}(str, enum.Enum):", "    a = 'a'"])
        elif p == "function":
            src.extend(["", "", f"def {Kind}{w}Make{k}():", "    return None", "", f"{Kind}{w}CONST{k} = 3"])
        elif p == "alias":
            n = f"T_{kind.upper()}_{r.choice([w.upper(), w])}{k}{odd}"
            src.extend(["", f"{n} = T.Union[str, int]"])
            names.add(n)
            mon.hit("type aliases")
    return "\n".join(src) + "\n", names


def history(case, mon):
    r = random.Random(json.dumps(case))
    top, root = scratch_copy(case["folder"])
    if "marks" in case["folder"].split("/") or "nodes" in case["folder"].split("/"):
        mon.hit("folders named like the model's")
    try:
        want = defined(root)
        original = dict(want)
        added = {}         # stem -> (kind, names)
        pkg = os.path.join(root, env.PKG)
        for k, (op, a, b) in enumerate([["start", 0, 0]] + case["steps"]):
            what = f"after step {k} {op}"
            if op == "remove" and added:
                stem = sorted(added)[a % len(added)]
                kind, names = added.pop(stem)
                os.remove(os.path.join(pkg, kind + "s", f"{stem}.py"))
                want = {n: m for n, m in want.items() if n not in names}
                mon.hit("modules removed")
            elif op == "edit" and added:
                stem = sorted(added)[a % len(added)]
                kind, names = added[stem]
                src, new = module_source(kind, stem.split("_", 1)[1] + "e", r, mon)
                with open(os.path.join(pkg, kind + "s", f"{stem}.py"), "w") as f:
                    f.write(src)
                want = {n: m for n, m in want.items() if n not in names}
                want.update({n: f"{kind}s.{stem}" for n in new})
                added[stem] = (kind, new)
            elif op == "extend":
                stems = sorted({m for m in original.values()})
                m = stems[a % len(stems)]
                path = os.path.join(pkg, *m.split(".")) + ".py"
                n = f"{'Mark' if m.startswith('marks') else 'Node'}Extra{k}{r.choice(['', 'Attrs', 'AttrsInner'])}"
                with open(path, "a", encoding="utf-8") as f:
                    f.write(f"\n\nfrom ..mark_or_node import Base as _Base{k}\n\n\n@dataclasses.dataclass(frozen=True)\nclass {n}(_Base{k}):\n"
                            f"    y: str = 'y'\n\n\nclass _{n}(_Base{k}):\n    pass\n")
                if "import dataclasses" not in open(path, encoding="utf-8").read().split("class ", 1)[0]:
                    s = open(path, encoding="utf-8").read()
                    with open(path, "w", encoding="utf-8") as f:
                        f.write("import dataclasses\n" + s)
                want[n] = m
                mon.hit("classes added to existing modules")
            elif op != "start":
                kind = "node" if a % 2 else "mark"
                stem = f"{kind}_{r.choice(['zz', 'aa', 'new_thing', 'text_x', 'marks_y', 'nodes'])}{r.choice(['_', ''])}{k}"
                src, names = module_source(kind, stem.split("_", 1)[1], r, mon)
                with open(os.path.join(pkg, kind + "s", f"{stem}.py"), "w") as f:
                    f.write(src)
                added[stem] = (kind, names)
                want.update({n: f"{kind}s.{stem}" for n in names})
                mon.hit("modules added")
            if r.random() < 0.3:         # what an older, longer module left behind
                with open(os.path.join(pkg, "api.py"), "a", encoding="utf-8") as f:
                    f.write("\n# older\n" * 2000)
            src = regenerate(root, r, mon, what)
            compare(src, want, mon, what)
            imported(root, r, want, mon, what)
    finally:
        shutil.rmtree(top, ignore_errors=True)
