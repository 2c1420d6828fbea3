"""C21: parsed objects and the library's errors survive copying, pickling and process pools."""
import atexit
import copy
import dataclasses
import json
import os
import pickle
import random
import struct
import subprocess
import sys

from .. import adf, env, gen
from .common import ALL_TYPES, FALSY, cls_of, full_case, full_directed, known_types, md_or_error, minimal, parse
from .c06 import elements, parts

ID = "C21"
QUICK, THOROUGH = 10000, 120000
CPU_LIMIT = 240.0
RULE = ("valid documents, nodes and marks, fresh and used, copied (shallow, deep, replace) and pickled with every protocol here, in a "
        "process that has loaded nothing else and through process pools; errors of every kind treated alike; monitors: equality, "
        "class and OPT identity of every part, shared mutable parts, write attempts, outputs compared; distinct by skeleton")
ESSENTIAL = ["shallow copies", "deep copies", "pickles", "replacements", "changed replacements", "remote processes", "process pools",
             "errors copied", "errors pickled", "unimplemented errors", "used before copying", "parts copied", "OPT fields", "assignments refused"]


def directed():
    out = []
    for c in full_directed():
        if adf.depth(c["doc"]) <= 30 and adf.size(c["doc"]) <= 400:
            out.append({**c, "mode": "object", "seed": len(out)})
    for t in sorted(set(adf.UNIMPLEMENTED_NODES) | {"nope", "", "Paragraph", "é", "\ud800", "a'b\n", "%s", "{x}", "paragraph", "strong"}):
        for cat in ("node", "mark"):
            if t not in (adf.NODES if cat == "node" else adf.MARKS):
                out.append({"mode": "error", "cat": cat, "doc": {"type": t}, "direct": True})
    for cat, table in (("node", adf.NODES), ("mark", adf.MARKS)):
        for spec in table.values():
            if spec.attrs_required:
                out.append({"mode": "error", "cat": cat, "doc": {"type": spec.type}})
    for el in ({"type": "inlineCard", "attrs": {}}, {"type": "blockCard", "attrs": {}}, {"type": "date", "attrs": {"timestamp": "x"}},
               {"type": "text", "text": "a\nb", "marks": [{"type": "code"}]}, {"type": "media", "attrs": {"type": "external"}},
               {"type": "media", "attrs": {"type": "odd", "id": "1"}}, {"type": "doc", "version": 1, "content": [{"text": "x"}]},
               {"type": "doc"}, {"type": "nestedExpand", "content": [{"type": "nope2"}]}):
        out.append({"mode": "error", "cat": "node", "doc": el})
    out += [{"mode": "pool", "seed": k, "how": h} for k, h in enumerate(["spawn", "fork", "forkserver"])]
    return out


def generate(rng, i):
    if i % 12 == 7:
        g = gen.Gen(rng, max_depth=4, budget=12)
        doc = g.doc()
        els = [(p, e) for p, e, c in adf.walk(doc) if c == "node" and p]
        if els:
            p, e = rng.choice(els)
            if rng.random() < 0.5:
                e.pop("type")
            else:
                adf.at(doc, p[:-1])[p[-1]] = rng.choice([{"type": "inlineCard"}, {"type": "inlineCard", "attrs": {}}, {"type": "heading"},
                                                         {"type": "text"}, {"type": "date", "attrs": {"timestamp": "q"}}])
        return {"mode": "error", "cat": "node", "doc": doc}
    return {**full_case(rng, i), "mode": "object"}


def check(api, case, mon):
    if case["mode"] == "object":
        objects(api, case, mon)
    elif case["mode"] == "error":
        errors(api, case, mon)
    else:
        pools(api, case, mon)


# ---------------------------------------------------------------- objects
def outputs(o, cat):
    d = json.dumps(o.to_dict())
    if cat == "mark":
        return d, md_or_error(o, text="abc")
    return d, md_or_error(o), md_or_error(o, ignore_error=True)


def same(mon, a, b, what, OPT):
    """Every part: same class, same value, optional fields that are unset still the same OPT."""
    if a is OPT or b is OPT:
        mon.hit("OPT fields")
        if a is not b:
            mon.fail(f"{what}: OPT became {b!r:.100}" if a is OPT else f"{what}: {a!r:.100} became OPT")
        return
    if type(a) is not type(b):
        mon.fail(f"{what}: a {type(a).__name__} became a {type(b).__name__}")
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            try:
                got = getattr(b, f.name)
            except AttributeError:
                mon.fail(f"{what}: the copy has no {f.name}")
            same(mon, getattr(a, f.name), got, f"{what}.{f.name}", OPT)
    elif isinstance(a, dict):
        if list(a) != list(b):
            mon.fail(f"{what}: keys {list(a)!r:.100} became {list(b)!r:.100}")
        for k in a:
            same(mon, a[k], b[k], f"{what}[{k!r}]", OPT)
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            mon.fail(f"{what}: {len(a)} items became {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(mon, x, y, f"{what}[{i}]", OPT)
    elif a != b:
        mon.fail(f"{what}: {a!r:.100} became {b!r:.100}")


def immutable(o, r, mon, what):
    names = [f.name for f in dataclasses.fields(o)]
    n = r.choice(names + ["other"])
    for op in (lambda: setattr(o, n, "CHANGED"), lambda: delattr(o, n)):
        try:
            op()
        except Exception:
            mon.hit("assignments refused")
        else:
            mon.fail(f"{what}: {n} can be changed")


def objects(api, case, mon):
    from func_args.api import OPT
    r = random.Random(f"c21:{case['seed']}")
    doc, cat = case["doc"], case.get("cat", "node")
    whole = parse(api, copy.deepcopy(doc), cat)
    known_types(doc, mon, cat)
    targets = [(whole, cat)]
    els = list(elements(whole))[1:]
    for x in r.sample(els, min(2, len(els))):
        targets.append((x, "node" if isinstance(x, api.BaseNode) else "mark" if isinstance(x, api.BaseMark) else "attrs"))
        mon.hit("parts copied")
    for o, c in targets:
        if r.random() < 0.6:
            mon.hit("used before copying")
            if c != "attrs":
                outputs(o, c)
            repr(o), o == copy.copy(o)
        want = json.dumps(o.to_dict()) if c == "attrs" else outputs(o, c)
        for what, fn, deep in (("copy.copy", copy.copy, False), ("copy.deepcopy", copy.deepcopy, True),
                               *((f"pickle protocol {p}", lambda x, p=p: pickle.loads(pickle.dumps(x, p)), True)
                                 for p in (range(pickle.HIGHEST_PROTOCOL + 1) if r.random() < 0.3 else [r.randrange(6)])),
                               ("dataclasses.replace", dataclasses.replace, False)):
            what = f"{what} of a {type(o).__name__}"
            try:
                q = fn(o)
                if r.random() < 0.2:
                    q = fn(q)
            except Exception as e:
                mon.fail(f"{what} raises {type(e).__name__}: {e}")
            mon.hit({"co": "shallow copies", "pi": "pickles", "da": "replacements"}[what[:2]] if "deepcopy" not in what else "deep copies")
            if q is o:
                if deep:
                    mon.fail(f"{what} gives the object itself")
            same(mon, o, q, what, OPT)
            if not (q == o and o == q) or q != o:
                mon.fail(f"{what} is not equal to it")
            try:
                h = hash(o)
            except TypeError:
                h = None
            if h is not None and "pickle" not in what and hash(q) != h:
                mon.fail(f"{what} has another hash")
            got = json.dumps(q.to_dict()) if c == "attrs" else outputs(q, c)
            mon.equal(got, want, what)
            immutable(q, r, mon, what)
            if deep:
                a = parts(o, {}, None)
                b = parts(q, {}, None)
                shared = [a[i] for i in a if i in b and isinstance(a[i], (dict, list, set))]
                if shared:
                    mon.fail(f"{what} shares the mutable {cut(shared[0])} with it")
            # the original is as before
            mon.equal(json.dumps(o.to_dict()) if c == "attrs" else outputs(o, c), want, f"the object after {what}")
        changed(api, o, c, r, mon, OPT)
    mon.seen(adf.shape(doc, cat))
    if r.random() < 0.15 or case.get("remote"):
        data = pickle.dumps(whole, r.randrange(6))
        got = remote()(("object", cat, data))
        mon.hit("remote processes")
        if got[0] != "ok":
            mon.fail(f"in a fresh process: {got[1]}")
        mon.equal(got[1], outputs(whole, cat), "outputs of the unpickled object in another process")
        back = pickle.loads(got[2])
        same(mon, whole, back, "after a visit to another process", OPT)
        if back != whole:
            mon.fail("not equal after a visit to another process")
        parsed = pickle.loads(got[3]) if got[3] else None
        if parsed is not None:
            same(mon, whole, parsed, "parsed in another process", OPT)


def cut(x):
    return repr(x)[:120]


def changed(api, o, c, r, mon, OPT):
    """dataclasses.replace with one field changed gives what parsing the changed JSON gives, and leaves the object alone."""
    fields = [f.name for f in dataclasses.fields(o) if f.name != "type"]
    if not fields or c == "attrs":
        return
    before = json.dumps(o.to_dict())
    n = r.choice(fields)
    v = getattr(o, n)
    d = json.loads(before)
    if n in ("content", "marks") and isinstance(v, list):
        k = r.randrange(len(v) + 1)
        new = v[:k]
        d[n] = d[n][:k]
    elif n in ("text",) and isinstance(v, str):
        new = d[n] = v + "!"
    elif n == "attrs" and dataclasses.is_dataclass(v):
        new = copy.deepcopy(v)
    else:
        return
    what = f"dataclasses.replace({type(o).__name__}, {n}=...)"
    try:
        q = dataclasses.replace(o, **{n: new})
    except Exception as e:
        mon.fail(f"{what} raises {type(e).__name__}: {e}")
    mon.hit("changed replacements")
    got = json.loads(json.dumps(q.to_dict()))
    if not adf.strict_eq(got, d):
        mon.fail(f"{what}: {adf.first_diff(got, d)}")
    fresh = parse(api, d, c)
    same(mon, fresh, q, what, OPT)
    if fresh != q:
        mon.fail(f"{what} is not equal to the parsed changed document")
    mon.equal(outputs(q, c), outputs(fresh, c), what)
    mon.equal(json.dumps(o.to_dict()), before, f"the object after {what}")


# ---------------------------------------------------------------- errors
def same_error(mon, e, f, what):
    if type(f) is not type(e):
        mon.fail(f"{what}: a {type(e).__name__} became a {type(f).__name__}")
    if str(f) != str(e) or f.args != e.args:
        mon.fail(f"{what}: {str(e)!r:.200} became {str(f)!r:.200}")
    a = {k: v for k, v in vars(e).items() if not k.startswith("__")}
    b = {k: v for k, v in vars(f).items() if not k.startswith("__")}
    if a.keys() != b.keys() or any(type(a[k]) is not type(b[k]) or a[k] != b[k] for k in a):
        mon.fail(f"{what}: attributes {a!r:.200} became {b!r:.200}")


def errors(api, case, mon):
    doc, cat = case["doc"], case["cat"]
    found = []

    def run(fn):
        try:
            return fn()
        except Exception as e:
            found.append(e)

    o = run(lambda: parse(api, doc, cat)) if not case.get("direct") else run(
        lambda: (api.parse_mark if cat == "mark" else api.parse_node)(doc))
    if o is not None and cat == "node":
        run(lambda: o.to_markdown())
    for e in found:
        if isinstance(e, api.UnimplementedTypeError):
            mon.hit("unimplemented errors")
            if (e.type_value, e.category) != (doc["type"], cat) and case.get("direct"):
                mon.fail(f"the error for {doc['type']!r} says {e.type_value!r}, {e.category!r}")
        for what, fn in (("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy),
                         *((f"pickle protocol {p}", lambda x, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(6))):
            try:
                f = fn(e)
                g = fn(f)
            except Exception as x:
                mon.fail(f"{what} of the error {type(e).__name__}({str(e)!r:.100}) raises {type(x).__name__}: {x}")
            mon.hit("errors pickled" if what.startswith("pickle") else "errors copied")
            same_error(mon, e, f, what)
            same_error(mon, e, g, what + " twice")
        got = remote()(("error", cat, pickle.dumps(e)))
        mon.hit("remote processes")
        if got[0] != "ok":
            mon.fail(f"the error {type(e).__name__} in another process: {got[1]}")
        same_error(mon, e, pickle.loads(got[2]), "after a visit to another process")
        mon.equal(got[1], (type(e).__name__, str(e)), "the error in another process")
        mon.seen((type(e).__name__, str(e)))


# ---------------------------------------------------------------- other processes
SERVER = """
import sys, struct, pickle, os
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
import json
def md(o, **k):
    try:
        return ("ok", o.to_markdown(**k))
    except Exception as e:
        return ("raise", type(e).__name__, str(e))
def serve(kind, cat, data):
    x = pickle.loads(data)          # imports what it needs by itself
    if kind == "error":
        return ("ok", (type(x).__name__, str(x)), pickle.dumps(x))
    d = json.dumps(x.to_dict())
    if cat == "mark":
        got = (d, md(x, text="abc"))
    else:
        got = (d, md(x), md(x, ignore_error=True))
    again = type(x).from_dict(json.loads(d))
    return ("ok", got, pickle.dumps(x), pickle.dumps(again))
while True:
    head = inp.read(8)
    if len(head) < 8:
        break
    try:
        kind, cat, data = pickle.loads(inp.read(struct.unpack("q", head)[0]))
        res = serve(kind, cat, data)
    except BaseException as e:
        res = ("fail", type(e).__name__ + ": " + str(e))
    b = pickle.dumps(res)
    out.write(struct.pack("q", len(b)) + b)
    out.flush()
"""
_server = {}


class Remote:
    def __init__(self):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-B", "-c", SERVER.format(repo=env.REPO)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        self.n = 0

    def __call__(self, msg):
        self.n += 1
        b = pickle.dumps(msg)
        self.p.stdin.write(struct.pack("q", len(b)) + b)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            return ("fail", "the process died")
        return pickle.loads(self.p.stdout.read(struct.unpack("q", head)[0]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def remote():
    """A process of this worker's that is replaced now and then, so that first use is seen often."""
    k = os.getpid()
    s = _server.get(k)
    if s is None or s.n >= 150 or s.p.poll() is not None:
        if s is not None:
            s.close()
        s = _server[k] = Remote()
    return s


# ---------------------------------------------------------------- process pools
POOL = """
import sys
sys.path.insert(0, {repo!r}); sys.path.insert(0, {verif!r})
sys.dont_write_bytecode = True
def main():
    import pickle, multiprocessing, concurrent.futures
    import atlas_doc_parser.api as api
    jobs = pickle.load(open({job!r}, "rb"))
    ctx = multiprocessing.get_context({how!r})
    out = []
    with concurrent.futures.ProcessPoolExecutor(2, mp_context=ctx) as pool:
        fs = []
        for cat, doc in jobs:
            fn = api.parse_mark if cat == "mark" else api.NodeDoc.from_dict if doc.get("type") == "doc" else api.parse_node
            fs.append(pool.submit(fn, doc))
        for f in fs:
            try:
                out.append(("ok", f.result(timeout=100)))
            except Exception as e:
                e.__cause__ = None      # the text of the remote traceback
                out.append(("raise", e))
    pickle.dump(out, open({res!r}, "wb"))
if __name__ == "__main__":
    main()
"""


def pools(api, case, mon):
    import shutil
    import tempfile
    from func_args.api import OPT
    r = random.Random(f"c21pool:{env.SEED}:{case['seed']}")
    jobs = []
    for k in range(40):
        jobs.append(("node", gen.Gen(r, max_depth=4, budget=15, surrogates=False).doc()))
        if k % 4 == 0:
            jobs.append((r.choice(["node", "mark"]), {"type": f"nope{k}"}))
            jobs.append(("node", {"type": "heading"}))
            jobs.append(("mark", {"type": "link"}))
            jobs.append(("node", {"type": "doc", "version": 1, "content": [{"type": "paragraph", "content": [{"text": "x"}]}]}))
    d = tempfile.mkdtemp(prefix="vmon-c21-")
    try:
        jp, rp, main = os.path.join(d, "job"), os.path.join(d, "res"), os.path.join(d, "pool_main.py")
        with open(jp, "wb") as f:
            pickle.dump(jobs, f)
        with open(main, "w") as f:
            f.write(POOL.format(repo=env.REPO, verif=env.VERIF, job=jp, res=rp, how=case["how"]))
        try:
            p = subprocess.run([sys.executable, "-B", main], capture_output=True, timeout=200, cwd=d, start_new_session=True)
            err = p.stderr.decode("utf-8", "replace")[-500:]
        except subprocess.TimeoutExpired:
            err = "still running after 200 s"
        if not os.path.exists(rp):
            mon.fail(f"a {case['how']} process pool that parses documents does not finish: {err}")
        with open(rp, "rb") as f:
            out = pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.hit("process pools")
    for (cat, doc), got in zip(jobs, out):
        try:
            want = ("ok", parse(api, doc, cat))
        except Exception as e:
            want = ("raise", e)
        if want[0] != got[0]:
            mon.fail(f"in a {case['how']} process pool: {got!r:.200}, here: {want!r:.200}")
        if want[0] == "ok":
            same(mon, want[1], got[1], f"parsed in a {case['how']} pool", OPT)
            if want[1] != got[1]:
                mon.fail(f"parsed in a {case['how']} pool: not equal")
        else:
            same_error(mon, want[1], got[1], f"raised in a {case['how']} pool")
        mon.hit("pool results")
