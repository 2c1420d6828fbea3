"""C07: results depend only on the document, not on history, concurrency or environment."""
import copy
import hashlib
import json
import os
import pickle
import random
import struct
import subprocess
import sys
import tempfile
import threading
import time

from .. import adf, env, gen
from .common import corpus

ID = "C07"
QUICK, THOROUGH = 840, 20000
CPU_LIMIT = 240.0
LINES = False
SHRINK = False
RULE = ("histories of operations over pools of related documents (near-equal twins, equal identifiers, failing documents, input dicts "
        "re-used in place), the same pools processed by many threads with injected switches inside the library, cold starts and "
        "environments in fresh processes; every result is compared with that of a pristine process that handled only that document; "
        "distinct by pool skeleton and mode")
ESSENTIAL = ["history operations", "thread operations", "pristine references", "failed operations in history", "re-used dicts",
             "injected switches", "first uses", "parts between wholes", "wholes between parts", "operations interrupted",
             "operations inside operations", "cold starts", "environments", "operations overlapped"]


# ---------------------------------------------------------------- what is observed of a document
def observe(api, doc, mode="all"):
    """Everything the library says about a document, as plain data."""
    out = {}
    if isinstance(doc, tuple):
        return observe_part(api, *doc)
    try:
        o = api.NodeDoc.from_dict(doc)
    except Exception as e:
        return {"parse": (type(e).__name__, str(e)[:300])}
    if mode in ("all", "dict"):
        try:
            out["dict"] = json.dumps(o.to_dict())
        except Exception as e:
            out["dict"] = (type(e).__name__, str(e)[:300])
    if mode in ("all", "md"):
        try:
            out["md"] = o.to_markdown()
        except Exception as e:
            out["md"] = (type(e).__name__, str(e)[:300])
    if mode in ("all", "soft"):
        try:
            out["soft"] = o.to_markdown(ignore_error=True)
        except Exception as e:
            out["soft"] = (type(e).__name__, str(e)[:300])
    return out


def part_at(o, path):
    """The object that a path of field names and positions leads to, or None."""
    for k in path:
        try:
            o = o[k] if isinstance(k, int) else getattr(o, k)
        except (AttributeError, IndexError, TypeError, KeyError):
            return None
    return o


def say(o):
    out = {"dict": json.dumps(o.to_dict())}
    for name, args in (("md", {}), ("soft", {"ignore_error": True})):
        try:
            out[name] = o.to_markdown(**args)
        except Exception as e:
            out[name] = (type(e).__name__, str(e)[:300])
    return out


def told(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__, str(e)[:300]


def observe_part(api, doc, path):
    """What a part of a document says by itself; the document around it is only parsed."""
    try:
        o = part_at(api.NodeDoc.from_dict(doc), path)
    except Exception as e:
        return {"parse": (type(e).__name__, str(e)[:300])}
    if not isinstance(o, api.BaseNode):
        return {}
    return say(o)


# ---------------------------------------------------------------- the pristine process
class Zygote:
    """A process that has imported the library and done nothing else; each request is served by a fresh fork of it."""

    def __init__(self, api):
        self.pid_owner = os.getpid()
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                self.serve(api, a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def serve(self, api, r, w):
        while True:
            head = read(r, 8)
            if not head:
                return
            docs = pickle.loads(read(r, struct.unpack("q", head)[0]))
            if isinstance(docs, dict):
                pid = os.fork()
                if pid == 0:
                    try:
                        data = pickle.dumps(first_use(api, **docs))
                        write(w, struct.pack("q", len(data)) + data)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                continue
            for doc in docs:
                pid = os.fork()
                if pid == 0:
                    try:
                        data = pickle.dumps(observe(api, doc))
                        write(w, struct.pack("q", len(data)) + data)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)

    def first(self, **job):
        """The very first operations of a process, by several threads at once."""
        data = pickle.dumps(job)
        write(self.w, struct.pack("q", len(data)) + data)
        return pickle.loads(read(self.r, struct.unpack("q", read(self.r, 8))[0]))

    def __call__(self, docs):
        data = pickle.dumps(docs)
        write(self.w, struct.pack("q", len(data)) + data)
        out = []
        for _ in docs:
            n = struct.unpack("q", read(self.r, 8))[0]
            out.append(pickle.loads(read(self.r, n)))
        return out


def first_use(api, docs, plans, rate, seed):
    sys.setswitchinterval(1e-6)
    start = threading.Barrier(len(plans))
    out = []

    def body(plan):
        start.wait()
        for k, mode in plan:
            try:
                got = observe(api, docs[k], mode)
            except BaseException as e:
                got = {"thread": repr(e)}
            out.append((k, got))

    ts = [threading.Thread(target=body, args=(p,)) for p in plans]
    sw = Switcher(seed, rate)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sw.close()
    return out, sw.n


def read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            return b
        b += x
    return b


def write(fd, b):
    while b:
        b = b[os.write(fd, b):]


_z = {}


def zygote(api):
    if os.getpid() not in _z:
        _z[os.getpid()] = Zygote(api)
    return _z[os.getpid()]


# ---------------------------------------------------------------- pools of documents
def pool(r):
    """Documents that a wrong cache or shared state would confuse."""
    out = []
    for _ in range(2):
        g = gen.Gen(r, max_depth=4, budget=r.choice([8, 20, 40]), surrogates=False)
        out.append(g.doc())
    s = gen.Safe(r, budget=r.choice([6, 15, 30]))
    d = s.doc()
    out.append(d)
    k = r.random()
    if k < 0.3:
        out.append(r.choice(corpus()))
    # twins: the same identifiers and shape, other values
    same = r.choice(["same-id", "0", "8f14e45f-ceea-467f-a3f4-9d1c2b7e6a55", "x" * 100, "ari:cloud:confluence:" + "y" * 300])
    for base in list(out):
        if r.random() < 0.7:
            for _, el, c in adf.walk(base):
                for n in ("localId", "id"):
                    if isinstance(el.get("attrs"), dict) and n in el["attrs"]:
                        el["attrs"][n] = same
        t = copy.deepcopy(base)
        for _, el, c in adf.walk(t):
            if "text" in el and isinstance(el["text"], str) and r.random() < 0.5:
                el["text"] = el["text"][::-1] or "z"
            a = el.get("attrs")
            if isinstance(a, dict):
                for n in list(a):
                    if n in ("localId", "id"):
                        a[n] = same
                    elif n in ("url", "href", "text", "alt", "title", "shortName") and isinstance(a[n], str) and r.random() < 0.5:
                        a[n] = a[n] + "2"
                    elif n == "timestamp" and r.random() < 0.7:
                        a[n] = str(r.randrange(10 ** 12))
                    elif n == "state":
                        a[n] = r.choice(["TODO", "DONE"])
                    elif n == "order" and isinstance(a[n], int):
                        a[n] = a[n] + 1
                    elif n == "level" and el.get("type") == "heading":
                        a[n] = r.randrange(1, 7)
                    elif a[n] is True or a[n] is False:
                        a[n] = r.choice([True, False, 1, 0, 1.0])
                    elif type(a[n]) is int and a[n] in (0, 1):
                        a[n] = r.choice([bool(a[n]), float(a[n]), a[n]])
        out.append(t)
    # documents that fail, or are skipped in part
    for base in r.sample(out, 2):
        t = copy.deepcopy(base)
        els = [(p, e) for p, e, c in adf.walk(t) if c == "node" and p]
        if els:
            p, e = r.choice(els)
            x = r.random()
            if x < 0.3:
                e.pop("type")
            elif x < 0.6:
                adf.at(t, p[:-1])[p[-1]] = {"type": "inlineCard", "attrs": {}}
            elif x < 0.8:
                adf.at(t, p[:-1])[p[-1]] = {"type": "nope"}
            else:
                adf.at(t, p[:-1])[p[-1]] = {"type": "text", "text": "a\nb", "marks": [{"type": "code"}]}
        out.append(t)
    return out


MODES = ["history"] * 4 + ["parts"] * 2 + ["interrupted"] * 2 + ["nested"] + ["threads"] * 3 + ["first"] * 3


def directed():
    out = [{"mode": "cold", "seed": k} for k in range(8 if env.TIER == "quick" else 60)]
    out += [{"mode": "env", "seed": k, "which": k} for k in range(len(ENVS))]
    out += [{"mode": "long", "seed": 0}]
    return out


def generate(rng, i):
    return {"mode": MODES[i % len(MODES)], "seed": rng.randrange(10 ** 9)}


def check(api, case, mon):
    {"history": history, "parts": part_history, "interrupted": interrupted, "nested": nested, "threads": threads, "first": first, "cold": cold, "env": environment, "long": long_run}[case["mode"]](api, case, mon)


def compare(mon, got, want, what):
    for k in want:
        if k not in got and k == "parse":
            mon.fail(f"{what}: parses, but alone it fails with {want[k]}")
        if k in got and got[k] != want[k]:
            mon.fail(f"{what}: {k} is {str(got[k])!r:.300}, alone it is {str(want[k])!r:.300}")
    for k in got:
        if k not in want:
            mon.fail(f"{what}: {k} is {str(got[k])!r:.300}, alone it has {list(want)}")


def history(api, case, mon):
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = pool(r)
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    objs = {}
    slot = {}           # a dict that is re-used for one document after the other
    parts = {}          # part objects re-used in different documents
    for step in range(r.choice([10, 20, 40])):
        k = r.randrange(len(docs))
        doc, ref = docs[k], refs[k]
        mon.hit("history operations")
        if "parse" in ref or any(isinstance(v, tuple) for v in ref.values()):
            mon.hit("failed operations in history")
        x = r.random()
        if x < 0.35:
            compare(mon, observe(api, copy.deepcopy(doc), r.choice(["all", "dict", "md", "soft"])), ref, f"step {step}, document {k}")
        elif x < 0.6:
            slot.clear()
            slot.update(copy.deepcopy(doc))
            mon.hit("re-used dicts")
            compare(mon, observe(api, slot), ref, f"step {step}, document {k} in a re-used dict")
        elif x < 0.75:
            # children put into the same list object
            parts.setdefault("content", []).clear()
            parts["content"].extend(copy.deepcopy(doc["content"]))
            compare(mon, observe(api, {**doc, "content": parts["content"]}), ref, f"step {step}, document {k} in a re-used list")
        elif k in objs:
            o = objs[k]
            if x < 0.9:
                try:
                    got = {"md": o.to_markdown()}
                except Exception as e:
                    got = {"md": (type(e).__name__, str(e)[:300])}
            else:
                got = {"dict": json.dumps(o.to_dict())}
            compare(mon, {**ref, **got}, ref, f"step {step}, an older object of document {k}")
        else:
            try:
                objs[k] = api.NodeDoc.from_dict(doc)
            except Exception as e:
                compare(mon, {"parse": (type(e).__name__, str(e)[:300])}, ref, f"step {step}, document {k}")
    mon.seen(("history", [adf.shape(d) for d in docs]))


def part_history(api, case, mon):
    """Parts and wholes of one document converted in any order; each says what it says when it is the only one ever converted."""
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = []
    for d in pool(r)[:r.choice([1, 2])]:
        paths = [p for p, e, c in adf.walk(d) if c == "node"]
        docs += [(d, tuple(p)) for p in r.sample(paths, min(len(paths), r.choice([3, 6, 10])))]
        docs.append((d, ()))
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    objs = {}
    for step in range(r.choice([10, 20, 40])):
        k = r.randrange(len(docs))
        doc, path = docs[k]
        ref = refs[k]
        if not ref or "parse" in ref:
            continue
        if id(doc) not in objs or r.random() < 0.1:
            objs[id(doc)] = api.NodeDoc.from_dict(copy.deepcopy(doc))
        mon.hit("parts between wholes" if path else "wholes between parts")
        o = part_at(objs[id(doc)], path)
        if o is None:
            mon.fail(f"step {step}: the part at {path} is missing")
        compare(mon, say(o), ref, f"step {step}, the part at {path} of a document converted before")
    mon.seen(("parts", [adf.shape(d) for d, p in docs if not p]))


class Injected(BaseException):
    """Thrown at some line of the library, as an interrupt or a timeout is."""


class At:
    """Calls a function before the n-th line that the library runs from now on."""

    def __init__(self, n, action):
        self.n, self.action, self.done, self.depth = n, action, 0, 0
        root = os.path.join(env.REPO, env.PKG) + os.sep
        m = self.m = sys.monitoring

        def line(code, no):
            if not code.co_filename.startswith(root):
                return m.DISABLE
            if self.depth:
                return None
            self.n -= 1
            if self.n == 0:
                self.depth += 1
                self.where = (code.co_name, no)
                self.done += 1
                try:
                    self.action()
                finally:
                    self.depth -= 1

        m.use_tool_id(4, "vmon-at")
        m.register_callback(4, m.events.LINE, line)
        m.set_events(4, m.events.LINE)
        m.restart_events()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.m.set_events(4, 0)
        self.m.register_callback(4, self.m.events.LINE, None)
        self.m.free_tool_id(4)


def sink(r):
    """A document with every kind of block."""
    g = gen.Safe(r, budget=60, max_depth=4, features={"richcells"})
    return gen.wrap("doc", [g.block(t) for t in r.sample(adf.DOC_CHILDREN, len(adf.DOC_CHILDREN))])


def lines_of(op):
    """The number of lines of the library that an operation runs."""
    with At(10 ** 9, None) as a:
        try:
            op()
        except Exception:
            pass
    return 10 ** 9 - a.n


def interrupted(api, case, mon):
    """Operations thrown out of at any line; whatever comes after, on the same objects and on others, is as in a new process."""
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = pool(r) + [sink(r)]
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    objs = {}
    for k, d in enumerate(docs):
        try:
            objs[k] = api.NodeDoc.from_dict(copy.deepcopy(d))
        except Exception:
            pass
    kinds = [KeyboardInterrupt, SystemExit, MemoryError, RecursionError, Injected, GeneratorExit]
    for step in range(r.choice([8, 15, 30])):
        k = r.choice([r.randrange(len(docs)), len(docs) - 1])
        exc = r.choice(kinds)

        def throw():
            raise exc("injected")

        o = objs.get(k)
        x = r.random()
        op = ((lambda: api.NodeDoc.from_dict(docs[k])) if o is None or x < 0.35 else o.to_dict if x < 0.5 else o.to_markdown if x < 0.75
              else lambda: o.to_markdown(ignore_error=True))
        n = lines_of(op)
        at = int(n ** r.random()) if r.random() < 0.2 else r.randrange(1, n + 1) if n else 1
        with At(at, throw) as a:
            try:
                op()
            except BaseException:
                pass
        if a.done:
            mon.hit("operations interrupted")
            mon.seen((a.where, exc.__name__))
        what = f"step {step}, after a {exc.__name__} at line {at} of an operation on document {k}"
        compare(mon, observe(api, docs[k]), refs[k], f"{what}, the same document")
        if o is not None:
            compare(mon, say(o), refs[k], f"{what}, the same object")
        j = r.randrange(len(docs))
        compare(mon, observe(api, docs[j]), refs[j], f"{what}, document {j}")


def nested(api, case, mon):
    """Operations inside operations, as a signal handler, a log handler or a finaliser makes them."""
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = pool(r) + [sink(r)]
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    for step in range(r.choice([8, 15, 30])):
        k, j = (r.choice([r.randrange(len(docs)), len(docs) - 1]) for _ in range(2))
        inner = []
        o = None
        if r.random() < 0.7:
            try:
                o = api.NodeDoc.from_dict(docs[k])
            except Exception:
                pass
        if o is None:
            op = lambda: observe(api, docs[k])                                      # noqa: E731
        else:
            op = lambda: {**refs[k], "md": told(o.to_markdown)}                     # noqa: E731
        n = lines_of(op)
        at = r.randrange(1, n + 1) if n else 1
        with At(at, lambda: inner.append(observe(api, docs[j]))) as a:
            got = op()
        compare(mon, got, refs[k], f"step {step}, document {k} with document {j} processed inside at line {at}")
        if inner:
            mon.hit("operations inside operations")
            compare(mon, inner[0], refs[j], f"step {step}, document {j} processed inside document {k}")
            mon.seen((a.where, "nested"))


def long_run(api, case, mon):
    """Many documents in one process: counters and bounded caches must not show."""
    z = zygote(api)
    r = random.Random(5)
    docs = [d for _ in range(3) for d in pool(r)]
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    for n in range(1500 if env.TIER == "quick" else 20000):
        k = n % len(docs)
        if n % 3 == 0:
            d = gen.Gen(r, max_depth=3, budget=6).doc()
            observe(api, d)
        compare(mon, observe(api, docs[k]), refs[k], f"operation {n}, document {k}")
        mon.hit("history operations")


class Switcher:
    """Gives the processor away at random lines of the library, in all threads."""

    def __init__(self, seed, rate):
        self.n = 0
        self.lines = set()
        r = random.Random(seed)
        root = os.path.join(env.REPO, env.PKG) + os.sep
        m = sys.monitoring
        self.m = m

        def line(code, n):
            if not code.co_filename.startswith(root):
                return m.DISABLE
            if r.random() < rate:
                self.n += 1
                self.lines.add((code.co_name, n))
                time.sleep(0 if r.random() < 0.7 else 1e-5)

        m.use_tool_id(4, "vmon-switch")
        m.register_callback(4, m.events.LINE, line)
        m.set_events(4, m.events.LINE)
        m.restart_events()

    def close(self):
        self.m.set_events(4, 0)
        self.m.register_callback(4, self.m.events.LINE, None)
        self.m.free_tool_id(4)


def run_threads(api, docs, refs, r, n_threads, n_ops, rate, mon):
    keep = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    start = threading.Barrier(n_threads)
    out = []
    active = [0]
    overlap = [0]
    shared = []
    for d in docs:
        try:
            shared.append(api.NodeDoc.from_dict(copy.deepcopy(d)))
        except Exception:
            shared.append(None)
    plans = [[(r.randrange(len(docs)), r.choice(["all", "md", "dict", "shared", "shared"])) for _ in range(n_ops)]
             for _ in range(n_threads)]

    def body(plan):
        start.wait()
        for k, mode in plan:
            active[0] += 1
            if active[0] > 1:
                overlap[0] += 1
            try:
                if mode == "shared" and shared[k] is not None:
                    try:
                        got = {"md": shared[k].to_markdown(), "dict": json.dumps(shared[k].to_dict())}
                    except Exception as e:
                        got = {"md": (type(e).__name__, str(e)[:300])}
                    got = {**refs[k], **got}
                else:
                    got = observe(api, docs[k], "all" if mode == "shared" else mode)
            except BaseException as e:
                got = {"thread": repr(e)}
            active[0] -= 1
            out.append((k, mode, got))

    sw = Switcher(r.random(), rate) if rate else None
    ts = [threading.Thread(target=body, args=(p,)) for p in plans]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        if sw:
            sw.close()
        sys.setswitchinterval(keep)
    mon.hit("thread operations", len(out))
    mon.hit("operations overlapped", overlap[0])
    if sw:
        mon.hit("injected switches", sw.n)
        mon.hit("distinct switch lines", len(sw.lines))
    for k, mode, got in out:
        compare(mon, got, refs[k], f"{n_threads} threads, document {k} ({mode})")
    if len(out) != n_threads * n_ops:
        mon.fail(f"{len(out)} of {n_threads * n_ops} threaded operations finished")


def threads(api, case, mon):
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = pool(r)
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    run_threads(api, docs, refs, r, r.choice([2, 3, 4, 8]), r.choice([4, 8]), r.choice([0.02, 0.1, 0.3]), mon)
    mon.seen(("threads", [adf.shape(d) for d in docs]))


def first(api, case, mon):
    """Several threads whose first operations in the process overlap, several times over."""
    z = zygote(api)
    r = random.Random(case["seed"])
    docs = pool(r)
    refs = z(docs)
    mon.hit("pristine references", len(docs))
    for _ in range(6):
        n = r.choice([2, 2, 3, 4, 8])
        if r.random() < 0.5:
            # all of them begin with the same document
            k = r.randrange(len(docs))
            plans = [[(k, r.choice(["all", "md", "dict", "soft"]))] for _ in range(n)]
        else:
            plans = [[(r.randrange(len(docs)), r.choice(["all", "md"])) for _ in range(2)] for _ in range(n)]
        out, switches = z.first(docs=docs, plans=plans, rate=r.choice([0.05, 0.2, 0.5]), seed=r.random())
        mon.hit("first uses")
        mon.hit("switches in first uses", switches)
        for k, got in out:
            if "thread" in got:
                mon.fail(f"the first operations of {n} threads: {got['thread']}")
            mon.hit("thread operations")
            compare(mon, got, refs[k], f"the first operations of {n} threads, document {k}")
        if len(out) != sum(map(len, plans)):
            mon.fail("not all first operations finished")
    mon.seen(("first", [adf.shape(d) for d in docs]))


CHILD = """
import sys, json, pickle, random
sys.path.insert(0, {verif!r})
sys.dont_write_bytecode = True
job = pickle.load(open({job!r}, "rb"))
from vmon import env
env.REPO = {repo!r}
exec(job.get("before", ""))
if job["mode"] == "cold":
    # several threads import and use the library at once
    import threading
    sys.path.insert(0, {repo!r})
    sys.setswitchinterval(1e-6)
    start = threading.Barrier(job["threads"])
    out = []
    def body(t):
        start.wait()
        try:
            import atlas_doc_parser.api as api
            from vmon.checks.c07 import observe
            for k in job["order"][t]:
                out.append((k, observe(api, job["docs"][k])))
        except BaseException as e:
            out.append((-1, {{"thread": repr(e)}}))
    from vmon.checks import c07
    ts = [threading.Thread(target=body, args=(t,)) for t in range(job["threads"])]
    [t.start() for t in ts]
    [t.join() for t in ts]
else:
    api = env.load()
    env.quiet_logging()
    exec(job.get("after", ""))
    from vmon.checks.c07 import observe
    out = [(k, observe(api, job["docs"][k])) for k in job["order"][0]]
pickle.dump(out, open({res!r}, "wb"))
"""


def child(job, environ=None, cwd=None, flags=(), prefix=()):
    d = tempfile.mkdtemp(prefix="vmon-c07-")
    try:
        jp, rp = os.path.join(d, "job"), os.path.join(d, "res")
        with open(jp, "wb") as f:
            pickle.dump(job, f)
        e = {k: v for k, v in os.environ.items() if k not in ("TZ", "LC_ALL", "LANG", "PYTHONHASHSEED")}
        e.update({"PYTHONDONTWRITEBYTECODE": "1"})
        e.update(environ or {})
        code = CHILD.format(verif=env.VERIF, repo=env.REPO, job=jp, res=rp)
        p = subprocess.run([*prefix, sys.executable, "-B", *flags, "-c", code], env=e, cwd=cwd or d, capture_output=True, timeout=300)
        if not os.path.exists(rp):
            return None, p.stderr.decode("utf-8", "replace")[-1500:]
        with open(rp, "rb") as f:
            return pickle.load(f), ""
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def cold(api, case, mon):
    r = random.Random(f"cold{env.SEED}:{case['seed']}")
    docs = pool(r) + [d for _ in range(2) for d in [gen.Gen(r, budget=60, surrogates=False).doc()]]
    refs = zygote(api)(docs)
    n = r.choice([2, 4, 8, 16])
    order = [r.sample(range(len(docs)), len(docs)) for _ in range(n)]
    out, err = child({"mode": "cold", "docs": docs, "order": order, "threads": n})
    mon.hit("cold starts")
    if out is None:
        mon.fail(f"a process in which {n} threads import and use the library at once died: {err[-600:]}")
    for k, got in out:
        if k < 0:
            mon.fail(f"a thread that uses the library right after import: {got['thread']}")
        mon.hit("thread operations")
        compare(mon, got, refs[k], f"right after import, {n} threads, document {k}")
    if len(out) != n * len(docs):
        mon.fail("not all operations finished after a cold start")


ENVS = [
    dict(environ={"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo"}),
    dict(environ={"PYTHONHASHSEED": "2", "TZ": "America/Los_Angeles"}),
    dict(environ={"PYTHONHASHSEED": "random", "TZ": "XYZ+23:30"}),
    dict(environ={"TZ": "XYZ-14"}, flags=("-O",)),
    dict(environ={"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
    dict(environ={"LC_ALL": "POSIX", "PYTHONIOENCODING": "ascii"}, flags=("-OO",)),
    dict(environ={"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, cwd="/"),
    dict(environ={"LANG": "de_DE.UTF-8", "PYTHONHASHSEED": "12345"}, cwd="/tmp"),
    dict(environ={"PYTHONDEVMODE": "1"}),
    dict(environ={"HOME": "/nonexistent", "USER": "", "COLUMNS": "20", "NO_COLOR": "1", "PYTHONOPTIMIZE": "2"}),
    dict(environ={"PYTHONMALLOC": "debug", "TZ": "Pacific/Kiritimati"}),
    dict(environ={"TZ": "Europe/London", "PYTHONHASHSEED": "99"}, flags=("-X", "utf8=0")),
    dict(flags=("-W", "error", "-W", "ignore::DeprecationWarning", "-W", "ignore::PendingDeprecationWarning", "-bb")),
    dict(flags=("-I", "-X", "tracemalloc=5"), after="import warnings; warnings.simplefilter('error'); warnings.resetwarnings()"),
    # a process that logs everything
    dict(after="""
import logging
for name in (None, "atlas_doc_parser"):
    log = logging.getLogger(name)
    log.disabled = False
    log.setLevel(1)
    log.addHandler(logging.NullHandler())
"""),
    # ... nothing
    dict(after="import logging; logging.disable(10 ** 6)", before="import logging; logging.raiseExceptions = False"),
    # settings of the process that other code may have made
    dict(before="""
import decimal, gc, locale, os, random, socket, sys, threading
decimal.getcontext().prec = 2
decimal.getcontext().rounding = decimal.ROUND_UP
decimal.DefaultContext.prec = 2
gc.set_threshold(1)
random.seed(0)
os.umask(0o777)
sys.setrecursionlimit(5000)
socket.setdefaulttimeout(0.001)
threading.stack_size(64 * 2 ** 20)
sys.argv = ["x", "--debug", "-v", "--strict"]
for k in ("DEBUG", "VERBOSE", "CI", "TESTING", "ENV", "STRICT", "ATLAS_DOC_PARSER_DEBUG", "PYTEST_CURRENT_TEST"):
    os.environ[k] = "1"
"""),
    dict(before="import sys; sys.stdin.close(); sys.stdin = None", after="import sys; sys.stdout = sys.stderr = None"),
    dict(after="import gc, sys, threading; gc.disable(); f = lambda *a: f; sys.settrace(f); threading.settrace(f); sys.setprofile(lambda *a: None)"),
    # a working directory that has gone, and no open files to spare
    dict(after="""
import os, resource, tempfile
d = tempfile.mkdtemp()
os.chdir(d)
os.rmdir(d)
resource.setrlimit(resource.RLIMIT_NOFILE, (10, 10))
import json
"""),
    dict(before="import collections, json, sys, types; sys.modules['unittest'] = sys.modules['pytest'] = types.ModuleType('pytest')"),
]


def environment(api, case, mon):
    r = random.Random(f"env{env.SEED}:{case['seed'] % 3}")
    docs = []
    for _ in range(6 if env.TIER == "quick" else 60):
        docs += pool(r)
    dates = [{"type": "date", "attrs": {"timestamp": str(t)}} for t in
             [0, 86399999, 86400000, 1586361600000, 1700000000000, 951782400000, 1e12.__int__() - 1]
             + [r.randrange(4 * 10 ** 12) for _ in range(20)]]
    docs.append(gen.wrap("doc", [{"type": "paragraph", "content": dates}]))
    refs = zygote(api)(docs)
    order = list(range(len(docs)))
    r.shuffle(order)
    e = dict(ENVS[case["which"]])
    job = {k: e.pop(k) for k in ("before", "after") if k in e}
    out, err = child({"mode": "env", "docs": docs, "order": [order], **job}, **e)
    mon.hit("environments")
    if out is None:
        mon.fail(f"with {ENVS[case['which']]} the library does not run: {err[-600:]}")
    for k, got in out:
        mon.hit("operations in other environments")
        compare(mon, got, refs[k], f"with {ENVS[case['which']]}, document {k}")
    mon.seen(("env", case["which"]))
