"""C20: the schema analysis orders and finds everything; the test runner helper always restores the working directory."""
import copy
import importlib
import importlib.util
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import types

from .. import env

ID = "C20"
QUICK, THOROUGH = 250000, 1500000
SHRINK = False
SCRIPT = "scripts/s01-adf-json-schema-analysis/s2_analyze_adf_json_schema.py"
RULE = ("random dependency graphs (acyclic, cyclic, dense, chains, unknown and self dependencies), random schemas with references and type "
        "names planted at random depth, whole runs of the analysis script on generated schemas under several hash seeds, and random nested "
        "uses of the working-directory helper whose bodies raise, change directory, or are closed early; distinct by input")
ESSENTIAL = ["graphs", "acyclic graphs", "cyclic graphs", "dependencies ordered", "schemas", "references found", "type names found", "base types",
             "analysis runs", "reported definitions", "report sections", "directory bodies", "bodies that raise", "bodies that change directory", "bodies closed early",
             "missing directories", "processes with other hash seeds", "runner calls", "runner calls that raise", "previews"]


def stub(data):
    m = types.ModuleType("atlas_doc_parser.tests.data.schema")
    m.adf_json_schema = types.SimpleNamespace(data=data)
    return m


_mod = {}


def analysis():
    """The analysis script as a module, its downloaded schema replaced by a stand-in."""
    if "s" not in _mod:
        name = "atlas_doc_parser.tests.data.schema"
        for parent in ("atlas_doc_parser.tests", "atlas_doc_parser.tests.data"):
            if parent not in sys.modules:
                p = types.ModuleType(parent)
                p.__path__ = []
                sys.modules[parent] = p
        sys.modules[name] = stub({})
        spec = importlib.util.spec_from_file_location("vmon_s2", os.path.join(env.REPO, SCRIPT))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mod["s"] = m
    return _mod["s"]


# ---------------------------------------------------------------- inputs
def graph(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    style = rng.choice(["acyclic", "acyclic", "any", "chain", "dense", "ring"])
    names = rng.sample([f"{a}{b}" for a in "abcdefghij" for b in ["", "1", "2", "10", "Z", "_node"]], n)
    g = {x: [] for x in names}
    order = names[:]
    rng.shuffle(order)
    for i, x in enumerate(order):
        if style in ("acyclic", "dense"):
            k = rng.choice([0, 1, 2, 3]) if style == "acyclic" else i
            g[x] = rng.sample(order[:i], min(i, k))
        elif style == "chain" and i:
            g[x] = [order[i - 1]]
        elif style == "ring":
            g[x] = [order[i - 1]] if rng.random() < 0.85 else []
        elif style == "any":
            g[x] = rng.sample(order, min(n, rng.choice([0, 0, 1, 1, 2])))
        if rng.random() < 0.15:
            g[x].append(rng.choice(["unknown", "zz", "x_mark"]))
    return {k: sorted(set(v)) for k, v in g.items()}


KEYS = ["properties", "items", "anyOf", "allOf", "type", "enum", "$ref", "attrs", "content", "additionalProperties", "required", "x"]


def schema(rng, depth=0):
    x = rng.random()
    if depth > 6 or x < 0.12:
        return rng.choice(["string", "#/definitions/not_a_ref", 0, None, True, "", 1.5, [], {}])
    if x < 0.3:
        return {"$ref": rng.choice(["#/definitions/", "#/definitions/", "#/definitions/", "other.json#/definitions/", "#/defs/", "definitions/"])
                + rng.choice(["a_node", "b_mark", "a_with_b_node", "x/y", "definitions", "#/definitions/a", "ü", ""]),
                **({"more": schema(rng, depth + 1)} if rng.random() < 0.3 else {})}
    if x < 0.5:
        d = {"type": {"enum": rng.choice([["doc"], [], ["a", "b"], ["paragraph"], ["x", "x"], [f"t{k}" for k in range(rng.randrange(60))]])}}
        if rng.random() < 0.4:
            d["type"][rng.choice(["default", "anyOf", "type"])] = schema(rng, depth + 1)
        if rng.random() < 0.5:
            d[rng.choice(KEYS[:4] + KEYS[7:])] = schema(rng, depth + 1)
        return d
    if x < 0.7:
        return [schema(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    d = {}
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(KEYS)
        if k == "type" and rng.random() < 0.6:
            d[k] = rng.choice(["null", "object", "array", "string", "number", "", ["null", "string"], "ref"])
            continue
        d[k] = "#/definitions/r%d" % rng.randrange(9) if k == "$ref" else ["e%d" % rng.randrange(9)] if k == "enum" else schema(rng, depth + 1)
    return d


def refs_of(x):
    out = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            r = x.get("$ref")
            if isinstance(r, str) and r.startswith("#/definitions/"):
                out.add(r[len("#/definitions/"):])
            stack += x.values()
        elif isinstance(x, list):
            stack += x
    return out


def enums_of(x):
    out = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            t = x.get("type")
            if isinstance(t, dict) and "enum" in t:
                out.update(t["enum"])
            stack += x.values()
        elif isinstance(x, list):
            stack += x
    return out


def deep(k, inner):
    for i in range(k):
        inner = {"anyOf": [inner]} if i % 2 else {"properties": {"x": inner}}
    return inner


def whole(rng):
    """A schema of definitions the script can analyse."""
    bases = rng.sample(["doc", "paragraph", "text", "listItem", "bulletList", "table_row", "panel", "expand", "rule"], rng.choice([1, 3, 6, 9]))
    marks = rng.sample(["em", "strong", "link", "code"], rng.choice([1, 3]))
    names = [f"{b}_node" for b in bases] + [f"{m}_mark" for m in marks] + ["block_content", "inline_node_content"][:rng.choice([0, 1, 2])]
    names += [f"{b}_with_{m}_node" for b in bases for m in ["alignment", "no_marks"] if rng.random() < 0.3]
    d = {}
    rng.shuffle(names)
    for n in names:
        d[n] = {"type": "object", "properties": {"type": {"enum": [n.split("_")[0]]}, "content": {"items": {"anyOf": [
            {"$ref": f"#/definitions/{x}"} for x in rng.sample(names, rng.choice([0, 1, 2, len(names)]))]}}}}
        if rng.random() < 0.3:
            d[n]["allOf"] = [{"$ref": f"#/definitions/{rng.choice(['gone_node', 'gone_mark', 'x_with_y_node'])}"}, schema(rng, 4)]
        if rng.random() < 0.1:
            d[n] = {"$ref": f"#/definitions/{rng.choice(names)}"}
    return {"definitions": d}


STEPS = ["raise", "raise base", "chdir", "nest", "ok", "missing", "close", "return", "runner", "runner raises", "str path"]


def directed():
    out = [{"what": "graph", "graph": g} for g in (
        {}, {"a": []}, {"a": ["a"]}, {"a": ["b"], "b": ["a"]}, {"b": ["a"], "a": []}, {"a": ["b"], "b": ["c"], "c": []},
        {"c": ["a", "b"], "b": ["a"], "a": ["x"]}, {"a": ["b"], "b": ["c"], "c": ["b"], "d": []},
        {f"n{i:03}": [f"n{i + 1:03}"] if i < 199 else [] for i in range(200)},
        {f"n{i:03}": [f"n{j:03}" for j in range(i)] for i in range(60)})]
    for k in (0, 1, 5, 60, 150):
        out.append({"what": "schema", "schema": deep(k, {"$ref": "#/definitions/a_node", "type": {"enum": ["t"]}})})
    for k in (1, 5, 9, 10, 50, 1000):
        many = [{"$ref": f"#/definitions/d{i}_node"} for i in range(k)]
        out.append({"what": "schema", "schema": {"anyOf": many, "type": {"enum": [f"t{i}" for i in range(k)]}}})
        out.append({"what": "schema", "schema": {f"p{i}": {"type": {"enum": [f"t{i}"]}, **x} for i, x in enumerate(many)}})
        out.append({"what": "graph", "graph": {"a": [f"d{i}" for i in range(k)], **{f"d{i}": [] for i in range(k)}}})
        out.append({"what": "graph", "graph": {**{f"z{i}": ["a"] for i in range(k)}, "a": []}})
    for t in ("null", "object", "array", "string", None, 0, [], ["null"], {}):
        for inner in ({"$ref": "#/definitions/a_node"}, {"type": {"enum": ["t"]}}, [{"$ref": "#/definitions/a_node", "type": {"enum": ["t"]}}]):
            for key in ("anyOf", "properties", "default", "items", "not"):
                out.append({"what": "schema", "schema": {"type": t, key: inner}})
                out.append({"what": "schema", "schema": {key: inner, "type": t}})
    for s in STEPS:
        out.append({"what": "cwd", "steps": [s], "seed": 0})
        out.append({"what": "cwd", "steps": [s, s, "ok"], "seed": 1})
        out.append({"what": "cwd", "steps": ["nest", s, "chdir", s], "seed": 2})
    for k in range(4):
        out.append({"what": "seeds", "seed": k + 1000 * env.SEED})
    for k in range(12):
        out.append({"what": "whole", "schema": whole(random.Random(k)), "seed": k})
    return out


def generate(rng, i):
    x = rng.random()
    if x < 0.45:
        return {"what": "graph", "graph": graph(rng)}
    if x < 0.8:
        return {"what": "schema", "schema": schema(rng)}
    if x < 0.9:
        return {"what": "names", "names": ["".join(rng.choice(["a", "B", "_node", "_mark", "_with_", "x_", "_"]) for _ in range(rng.randrange(1, 6)))
                                          for _ in range(20)]}
    if x < 0.9005:
        return {"what": "whole", "schema": whole(rng), "seed": i}
    return {"what": "cwd", "steps": [rng.choice(STEPS) for _ in range(rng.choice([1, 2, 4, 8]))], "seed": i}


# ---------------------------------------------------------------- monitor
def check(api, case, mon):
    w = case["what"]
    if w == "graph":
        order(case["graph"], mon)
    elif w == "schema":
        find(case["schema"], mon)
    elif w == "names":
        for n in case["names"]:
            base(n, mon)
    elif w == "seeds":
        seeds(case["seed"], mon)
    elif w == "whole":
        script(case["schema"], case["seed"], mon)
    else:
        directory(case["steps"], random.Random(f"c20:{case['seed']}"), mon)
    mon.seen(json.dumps(case, sort_keys=True))


def cyclic_reach(g):
    """Nodes on a cycle, or that depend on one."""
    good = set()
    grown = True
    while grown:
        grown = False
        for n in g:
            if n not in good and all(d in good or d not in g for d in g[n]):
                good.add(n)
                grown = True
    return set(g) - good


def order(g, mon):
    m = analysis()
    mon.hit("graphs")
    arg = {k: set(v) for k, v in g.items()}
    res = m.topological_sort(arg)
    if not isinstance(res, (list, tuple)):
        mon.fail(f"the order of {g!r:.300} is {res!r:.100}")
    if arg != {k: set(v) for k, v in g.items()}:
        mon.fail(f"sorting changes the graph {g!r:.300}")
    if sorted(res) != sorted(g):
        mon.fail(f"the order {res!r:.300} does not list each definition of {g!r:.300} exactly once")
    bad = cyclic_reach(g)
    mon.hit("cyclic graphs" if bad else "acyclic graphs")
    pos = {n: i for i, n in enumerate(res)}
    for n in g:
        if n not in bad:
            for d in g[n]:
                if d in pos:
                    mon.hit("dependencies ordered")
                    if pos[d] > pos[n]:
                        mon.fail(f"{n} comes before {d}, on which it depends, in {res!r:.300} for {g!r:.300}")
    if list(m.topological_sort({k: set(reversed(v)) for k, v in g.items()})) != list(res):
        mon.fail(f"the order of {g!r:.300} differs from one call to the next")


def find(s, mon):
    m = analysis()
    mon.hit("schemas")
    before = copy.deepcopy(s)
    want = refs_of(s)
    got = set()
    m.extract_refs(s, got)
    mon.hit("references found", len(want))
    if got != want:
        mon.fail(f"references {got!r:.200} instead of {want!r:.200} for {json.dumps(s)[:400]}")
    had = {"old"}
    m.extract_refs(s, had)
    if had != want | {"old"}:
        mon.fail(f"references added to a set with one member give {had} for {json.dumps(s)[:300]}")
    want = enums_of(s)
    mon.hit("type names found", len(want))
    for k in range(2):
        got = m.extract_type_enums(s)
        if got != want:
            mon.fail(f"type names {got!r:.200} instead of {want!r:.200} (call {k + 1}) for {json.dumps(s)[:400]}")
    if m.extract_type_enums({}) != set():
        mon.fail("type names of an earlier schema are still there")
    if s != before:
        mon.fail("the analysis changes the schema")


def base(n, mon):
    mon.hit("base types")
    if n.endswith("_node"):
        want = n[:-len("_node")].split("_with_")[0]
    elif n.endswith("_mark"):
        want = n[:-len("_mark")]
    else:
        want = None
    got = analysis().get_base_type(n)
    if got != want:
        mon.fail(f"the base type of {n} is {got!r}, expected {want!r}")


def script(data, seed, mon):
    """The whole script, in a scratch copy, under two hash seeds."""
    top = tempfile.mkdtemp(prefix="vmon-c20-")
    try:
        p = os.path.join(top, "atlas_doc_parser", "tests", "data")
        os.makedirs(p)
        for d in (p, os.path.dirname(p), os.path.dirname(os.path.dirname(p))):
            open(os.path.join(d, "__init__.py"), "w").close()
        with open(os.path.join(top, "schema.json"), "w") as f:
            json.dump(data, f)
        with open(os.path.join(p, "schema.py"), "w") as f:
            f.write("import json, os, types\nadf_json_schema = types.SimpleNamespace(data=json.load(open(os.path.join(%r, 'schema.json'))))\n" % top)
        sc = os.path.join(top, "scripts")
        os.makedirs(sc)
        shutil.copy(os.path.join(env.REPO, SCRIPT), os.path.join(sc, "s2.py"))
        out = []
        for hs in (seed, seed + 1000):
            e = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": top, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hs)}
            r = subprocess.run([sys.executable, os.path.join(sc, "s2.py")], env=e, cwd=top, capture_output=True, text=True, timeout=60)
            mon.hit("analysis runs")
            if r.returncode:
                mon.fail(f"the analysis fails: {r.stderr[-400:]}")
            files = [f for f in os.listdir(sc) if f.endswith(".md")]
            if len(files) != 1:
                mon.fail(f"the analysis writes {files}")
            out.append(open(os.path.join(sc, files[0]), encoding="utf-8").read())
        if out[0] != out[1]:
            mon.fail("two runs of the analysis give different reports")
        report(data, out[0], mon)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def base_of(n):
    """The base type of the name of a node or mark definition."""
    return n[:-5].split("_with_")[0] if n.endswith("_node") else n[:-5]


def report(data, text, mon):
    """The report says exactly what the schema defines."""
    defs = data["definitions"]
    parts, counts = {}, {}
    head = None
    for line in text.split("\n"):
        if line.startswith("#"):
            head = line.lstrip("#").strip()
            parts[head] = []
        elif line.strip() and head is not None:
            parts[head].append(line)

    def items(word):
        found = [h for h in parts if word in h.lower()]
        if len(found) != 1:
            mon.fail(f"the report has {len(found)} sections about {word}: {list(parts)}")
        return [x[2:] for x in parts[found[0]] if x.startswith("- ")]

    names, said = [], {}
    for line in text.split("\n"):
        h, _, t = line.partition(". **")
        if h.isdigit() and "**" in t:
            n, _, rest = t.partition("**")
            if int(h) != len(names) + 1:
                mon.fail(f"the report numbers {n} {h}, it is in position {len(names) + 1}")
            names.append(n)
            said[n] = sorted(x.strip() for x in rest.partition("depends on:")[2].split(",") if x.strip())
    deps = {}
    for n, d in defs.items():
        if n.endswith("_node"):
            deps.setdefault(base_of(n), set()).update(base_of(r) for r in refs_of(d) if r.endswith(("_node", "_mark")))
    deps = {k: sorted(v - {k}) for k, v in deps.items()}
    if sorted(names) != sorted(deps):
        mon.fail(f"the report orders {names}, the schema defines {sorted(deps)}")
    bad = cyclic_reach(deps)
    for n in names:
        mon.hit("reported definitions")
        if said[n] != deps[n]:
            mon.fail(f"the report says that {n} depends on {said[n]}, it depends on {deps[n]}")
        if n not in bad:
            for d in deps[n]:
                if d in deps and names.index(d) > names.index(n):
                    mon.fail(f"the report puts {n} before {d}, on which it depends")
    marks = sorted({base_of(n) for n in defs if n.endswith("_mark")})
    types = sorted(enums_of(defs))
    for word, want in (("type enum", types), ("mark definitions", marks), ("phase 2", ["Mark" + m[0].upper() + m[1:] for m in marks]),
                       ("phase 3", ["Node" + n[0].upper() + n[1:] for n in names if not deps[n]]),
                       ("phase 4", ["Node" + n[0].upper() + n[1:] + " - needs: " + ", ".join(deps[n]) for n in names if deps[n]])):
        got = items(word)
        mon.hit("report sections")
        if got != want:
            mon.fail(f"the report lists {got!r:.300} under {word}, expected {want!r:.300}")
    for x in items("overview"):
        k, _, v = x.rpartition(":")
        counts[k.split("(")[0].strip().lower()] = v.strip()
    nodes = sum(n.endswith("_node") for n in defs)
    mk = sum(n.endswith("_mark") for n in defs)
    for k, want in (("total definitions", len(defs)), ("node definitions", nodes), ("mark definitions", mk),
                    ("other definitions", len(defs) - nodes - mk), ("unique type enum values", len(types))):
        if counts.get(k) != str(want):
            mon.fail(f"the report counts {counts.get(k)} {k}, the schema has {want}")


SEEDS = """
import sys, json
sys.path.insert(0, sys.argv[1])
from vmon import env
env.load()
from vmon.checks import c20
m = c20.analysis()
print(json.dumps([list(m.topological_sort({k: set(v) for k, v in g.items()})) for g in json.load(sys.stdin)]))
"""


def seeds(k, mon):
    """The same graphs in processes with different hash seeds."""
    graphs = [graph(random.Random(f"{k}:{i}")) for i in range(300)]
    out = []
    for hs in (k, k + 77, k + 1234):
        e = {**os.environ, "PYTHONHASHSEED": str(hs)}
        r = subprocess.run([sys.executable, "-B", "-c", SEEDS, env.VERIF], input=json.dumps(graphs), env=e, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise RuntimeError(r.stderr[-500:])
        out.append(json.loads(r.stdout))
        mon.hit("processes with other hash seeds")
    for g, *rs in zip(graphs, *out):
        if any(x != rs[0] for x in rs):
            mon.fail(f"the order of {g!r:.300} differs from one run to the next: {rs!r:.300}")


class Body(Exception):
    pass


class Base(BaseException):
    pass


def helper():
    return importlib.import_module("atlas_doc_parser.vendor.pytest_cov_helper")


def directory(steps, r, mon):
    from pathlib import Path
    h = helper()
    home = os.getcwd()
    top = os.path.realpath(tempfile.mkdtemp(prefix="vmon-c20-"))
    dirs = [os.path.join(top, d) for d in ("a", "b", "a/c", "d e")]
    for d in dirs:
        os.makedirs(d)
    os.chdir(top)
    try:
        play(h, list(steps), r, mon, dirs, Path)
        if os.getcwd() != top:
            mon.fail(f"after {steps} the working directory is {os.getcwd()}, not the one before")
    finally:
        os.chdir(home)
        shutil.rmtree(top, ignore_errors=True)


def play(h, steps, r, mon, dirs, Path):
    """Each step leaves the working directory as it found it."""
    while steps:
        s = steps.pop(0)
        before = os.getcwd()
        target = r.choice(dirs)
        mon.hit("directory bodies")
        if s in ("raise", "raise base"):
            err = r.choice([Body("x"), KeyError("k"), OSError(2, "x"), StopIteration()]) if s == "raise" else r.choice([Base(), KeyboardInterrupt(), SystemExit(3)])
            mon.hit("bodies that raise")
            try:
                with h.temp_cwd(Path(target)):
                    inside(target, mon)
                    if r.random() < 0.5:
                        os.chdir(r.choice(dirs))
                    raise err
            except BaseException as e:
                if e is not err and not isinstance(err, StopIteration):
                    if type(e).__name__ == "Violation":
                        raise
                    mon.fail(f"a body that raises {err!r} ends with {e!r}")
            else:
                mon.fail(f"the error {err!r} of a body is swallowed")
        elif s == "chdir":
            mon.hit("bodies that change directory")
            with h.temp_cwd(Path(target)):
                inside(target, mon)
                os.chdir(r.choice(dirs))
        elif s == "nest":
            with h.temp_cwd(Path(target)):
                inside(target, mon)
                play(h, steps, r, mon, dirs, Path)
                inside(target, mon)
        elif s == "missing":
            mon.hit("missing directories")
            try:
                with h.temp_cwd(Path(target) / "nowhere"):
                    mon.fail("a missing directory is entered")
            except OSError:
                pass
        elif s == "close":
            mon.hit("bodies closed early")

            def g():
                with h.temp_cwd(Path(target)):
                    yield 1
                    yield 2
            x = g()
            next(x)
            inside(target, mon)
            x.close()
        elif s == "return":
            def f():
                with h.temp_cwd(Path(target)) as p:
                    return p
            got = f()
            if str(got) != target:
                mon.fail(f"the helper gives {got!r} for {target!r}")
        elif s == "str path":
            with h.temp_cwd(target):
                inside(target, mon)
        elif s in ("runner", "runner raises"):
            runner(h, target, s == "runner raises", r, mon)
        else:
            with h.temp_cwd(Path(target)):
                inside(target, mon)
        if os.getcwd() != before:
            mon.fail(f"a body that does {s!r} leaves the working directory at {os.getcwd()}, it was {before}")


def inside(target, mon):
    if os.getcwd() != target:
        mon.fail(f"inside the body the working directory is {os.getcwd()}, expected {target}")


def runner(h, target, fails, r, mon):
    """run_unit_test and run_cov_test, with a stand-in for the process they start."""
    calls = []

    def fake(args, *a, **k):
        calls.append((list(args), k.get("cwd") or os.getcwd()))
        if fails:
            raise Body("no such program")
        return types.SimpleNamespace(returncode=0, stdout=b"", stderr=b"")
    names = ("run", "call", "check_call", "check_output", "Popen")
    real = {n: getattr(subprocess, n) for n in names}
    own = {n: f for n, f in vars(h).items() if any(f is x for x in real.values())}     # from subprocess import run
    for n in names:
        setattr(subprocess, n, fake)
    for n in own:
        setattr(h, n, fake)
    script = os.path.join(target, r.choice(["test_x.py", "t y.py", "tests/test_z.py"]))
    kind = r.choice(["unit", "cov", "cov folder"])
    module = r.choice(["pkg", "pkg.mod", "pkg.mod.py", "pkg.py_thing", "p.y.py"])
    preview = r.random() < 0.5
    html = os.path.join(target, r.choice(["h", "html cov", "a/b"]))
    try:
        try:
            if kind == "unit":
                h.run_unit_test(script=script, root_dir=target)
            else:
                h.run_cov_test(script=script, module=module, root_dir=target,
                               htmlcov_dir=html, is_folder=kind == "cov folder", preview=preview)
        except Body:
            pass
        else:
            if fails and calls:
                mon.fail("a runner that cannot start its process reports nothing")
    finally:
        for n, f in real.items():
            setattr(subprocess, n, f)
        for n, f in own.items():
            setattr(h, n, f)
    if calls:
        mon.hit("runner calls that raise" if fails else "runner calls")
        args, cwd = calls[0]
        args = [str(x) for x in args]
        if os.path.realpath(str(cwd)) != target:
            mon.fail(f"the {kind} runner starts its process in {cwd}, not in {target}")
        want = os.path.dirname(script) if kind == "cov folder" else script
        if args.count(want) != 1:
            mon.fail(f"the {kind} runner starts {args}, without {want}")
        if kind == "cov folder" and script in args:
            mon.fail(f"the {kind} runner starts {args}, with {script}")
        if "pytest" not in os.path.basename(args[0]) and "pytest" not in args[:3]:
            mon.fail(f"the {kind} runner starts {args}")
        joined = "\n".join(args)
        if kind != "unit":
            name = module[:-3] if module.endswith(".py") else module
            for what, text in (("module", f"--cov={name}"), ("root", f"--rootdir={target}"), ("html", f"html:{html}")):
                if text not in args and text.replace("=", "\n", 1) not in joined:
                    mon.fail(f"the {kind} runner starts {args} for the {what} {text}")
            if not fails and len(calls) != 1 + preview:
                mon.fail(f"the {kind} runner with preview={preview} starts {len(calls)} processes")
            if preview and not fails:
                mon.hit("previews")
                if os.path.join(html, "index.html") not in map(str, calls[1][0]):
                    mon.fail(f"the preview starts {calls[1][0]}, without the report in {html}")
        elif len(calls) != 1:
            mon.fail(f"the {kind} runner starts {len(calls)} processes")
