"""C23: what is kept in memory does not grow with the documents processed."""
import contextlib
import copy
import gc
import json
import random
import sys
import threading
import weakref

from .. import adf, gen
from ..adf import MARKS, NODES
from .common import parse
from .c06 import elements

ID = "C23"
QUICK, THOROUGH = 24, 120
CPU_LIMIT = 600.0
LINES = False
SHRINK = False
RULE = ("histories of thousands of documents that differ in every string, number and identifier, of one kind per history (each element type, all "
        "types, documents that fail to parse or to convert, unimplemented types, sub-elements, copies, threads), each parsed, serialised, "
        "converted and dropped; monitors: the interpreter's count of allocated blocks and the number of live parsed objects, of which a "
        "violation needs steady growth over every one of several later rounds; distinct by kind and seed")
ESSENTIAL = ["documents dropped", "rounds measured", "live objects counted", "failed documents", "unimplemented documents", "converted documents",
             "all types", "one type", "self test"]

KINDS = ["all", "fails", "unimplemented", "safe", "threads", "copies", "parts", "settings"]


def directed():
    out = [{"mode": "selftest"}]
    out += [{"mode": k, "seed": 0} for k in KINDS]
    leaf = sorted(set(NODES) | {"mark:" + m for m in MARKS})
    # groups of types share a history; a fault in one is as visible as alone
    out += [{"mode": "type", "types": leaf[i::13], "seed": i} for i in range(13)]
    out += [{"mode": "type", "types": leaf[i::13], "seed": i, "odd": True} for i in range(13)]
    return out


def generate(rng, i):
    return {"mode": KINDS[i % len(KINDS)], "seed": rng.randrange(10 ** 9), "odd": i % 16 >= 8}


# ---------------------------------------------------------------- documents that differ everywhere
class Unique:
    def __init__(self, r, odd=False):
        self.r = r
        self.n = r.randrange(10 ** 6)
        self.odd = odd

    def token(self):
        self.n += 1
        if self.odd:
            return f"u{self.n}``|\\#*<b>_[y](z)\u00e9 {'x' * 80}:"
        return f"u{self.n}x"

    def number(self):
        self.n += 1
        return 10 ** 9 + self.n

    def value(self, kind, depth=0):
        if isinstance(kind, tuple):
            return self.r.choice(kind[1])
        if kind == "str":
            return self.token()
        if kind in ("int", "num"):
            return self.number()
        if kind == "bool":
            return self.r.random() < 0.5
        if kind == "liststr":
            return [self.token()]
        if kind == "listint":
            return [self.number()]
        if kind == "timestamp":
            return str(self.number() * 1000)
        if kind == "datasource":
            return {"id": self.token(), "parameters": {"p": self.token()}, "views": [{"type": "table", "properties": {"c": [self.token()]}}]}
        return {self.token(): self.token()}

    def element(self, spec, depth=0, marks=None):
        el = {"type": spec.type}
        for n, (req, kind) in spec.extra.items():
            el[n] = 1 if n == "version" else self.token()
        if spec.attrs is not None:
            el["attrs"] = {n: self.value(k) for n, (req, k) in spec.attrs.items() if req or self.r.random() < 0.7}
            if spec.type == "heading":
                el["attrs"]["level"] = 1 + self.n % 6
            if spec.type in ("inlineCard", "blockCard", "embedCard"):
                el["attrs"]["url"] = "https://e.x/" + self.token()
            if "localId" in spec.attrs:
                el["attrs"]["localId"] = self.token()
            if spec.type == "media":
                el["attrs"]["type"] = self.r.choice(["file", "external"])
                el["attrs"]["url"] = "https://e.x/" + self.token()
        if spec.content is not None:
            el["content"] = []
            if depth < 5:
                kids = self.r.sample(list(spec.content), min(len(spec.content), 2 if depth else 4))
                el["content"] = [self.element(NODES[t], depth + 1) for t in kids]
        if spec.marks is not None and self.r.random() < 0.7:
            m = self.r.choice(marks or list(MARKS))
            if spec.type == "text" or m in MARKS:
                el["marks"] = [self.element_mark(MARKS[m])]
        return el

    def element_mark(self, spec):
        el = {"type": spec.type}
        if spec.attrs is not None:
            el["attrs"] = {n: self.value(k) for n, (req, k) in spec.attrs.items()}
        return el

    def doc(self, k=8):
        return {"type": "doc", "version": 1, "content": [self.element(NODES[self.r.choice(adf.DOC_CHILDREN)], 3 if self.r.random() < 0.7 else 1)
                                                         for _ in range(k)]}


def documents(mode, case, r):
    """An endless source of (element, category)."""
    u = Unique(r, case.get("odd"))
    types = case.get("types")
    k = 0
    while True:
        k += 1
        if mode == "type":
            t = types[k % len(types)]
            if t.startswith("mark:"):
                if k // len(types) % 2:
                    yield u.element_mark(MARKS[t[5:]]), "mark"
                else:
                    yield {"type": "text", "text": u.token(), "marks": [u.element_mark(MARKS[t[5:]])]}, "node"
            else:
                yield u.element(NODES[t], 4), "node"
        elif mode == "fails":
            d = u.doc(2)
            x = k % 6
            if x == 0:
                d["content"].append({"type": u.token(), "content": [{"no": 1}]})
                d["content"].append({"content": [], "x": u.token()})
            elif x == 1:
                d["content"].append({"type": "heading", "x": u.token()})
            elif x == 2:
                d["content"].append({"type": "blockCard", "attrs": {"data": {"x": u.token()}}})
            elif x == 3:
                d["content"].append({"type": "paragraph", "content": [{"type": "date", "attrs": {"timestamp": u.token()}}]})
            elif x == 4:
                d["content"].append({"type": "paragraph", "content": [
                    {"type": "text", "text": u.token() + "\n" + u.token(), "marks": [{"type": "code"}]}]})
            else:
                d["content"] = [{"type": "mediaSingle", "attrs": {"layout": "center"}, "content": [
                    {"type": "media", "attrs": {"type": u.token(), "id": u.token()}}]}]
            yield d, "node"
        elif mode in ("unimplemented", "settings"):
            d = u.doc(2)
            name = u.token() if k % 2 else r.choice(adf.UNIMPLEMENTED_NODES)
            d["content"].insert(k % 3, {"type": name, "attrs": {"a": u.token()}, "content": [u.element(NODES["paragraph"], 4)]})
            d["content"].append({"type": "paragraph", "content": [{"type": "text", "text": u.token(), "marks": [{"type": u.token()}]}]})
            yield d, "node"
        elif mode == "safe":
            s = gen.Safe(r, budget=6, max_depth=3)
            s.n = u.number()
            yield s.doc(n=2), "node"
        else:
            yield u.doc(3), "node"


def process(api, el, cat, mode, r, k, mon):
    """All that a user can do with one document, then it is dropped."""
    try:
        o = parse(api, el, cat)
    except Exception:
        mon.hit("failed documents")
        return None
    try:
        if cat == "mark":
            o.to_markdown(f"t{k}``|*_{'y' * 80}" if k % 2 else f"t{k}")
        else:
            o.to_markdown(ignore_error=True)
            o.to_markdown()
        mon.hit("converted documents")
    except Exception:
        mon.hit("failed documents")
    o.to_dict()
    if mode == "copies":
        q = copy.deepcopy(o)
        q == o, repr(q), q.to_dict()
        with contextlib.suppress(Exception):
            q.to_markdown()
    if mode == "parts":
        for x in list(elements(o))[:20]:
            x.to_dict()
            if isinstance(x, api.BaseNode):
                with contextlib.suppress(Exception):
                    x.to_markdown()
                x.is_type_of(api.TypeEnum.paragraph) if hasattr(api, "TypeEnum") else None
    if k % 5 == 0:
        with contextlib.suppress(TypeError):
            return [weakref.ref(x) for x in [o, *list(elements(o))[1:6]]]
    return None


def rounds(step, n_warm, n_round, mon, what, n_rounds=4, limit=0.12):
    """
    Growth of memory over later rounds: a violation only if every round of three measurements, each after a longer warm-up, grows by
    more than `limit` blocks per document (a record kept per document is at least one block each).
    """
    for warm in (n_warm, 4 * n_warm, 40 * n_warm):      # a large bounded cache may need long to fill
        for _ in range(warm):
            step()
        grown = []
        for _ in range(n_rounds):
            gc.collect()
            a = sys.getallocatedblocks()
            for _ in range(n_round):
                step()
            gc.collect()
            grown.append(sys.getallocatedblocks() - a)
            mon.hit("rounds measured")
        if min(grown) <= limit * n_round:
            return
    mon.fail(f"{what}: {n_rounds} rounds of {n_round} documents each, after {45 * n_warm} others, leave {grown} more memory blocks in use")


def check(api, case, mon):
    mode = case["mode"]
    if mode == "selftest":
        return selftest(mon)
    r = random.Random(f"c23:{mode}:{case['seed']}")
    src = documents(mode, case, r)
    settings = sys.modules["atlas_doc_parser.settings"]
    keep = settings.WARN_UNIMPLEMENTED_TYPE
    state = {"k": 0}
    refs = []

    def one():
        state["k"] += 1
        el, cat = next(src)
        if mode == "settings":
            settings.WARN_UNIMPLEMENTED_TYPE = state["k"] % 3 == 0
        got = process(api, el, cat, mode, r, state["k"], mon)
        del el
        return got

    def step():
        # counted in the monitor's own table before measuring starts, so that it is not growth
        if mode == "threads" and state["k"] % 4 == 0:
            t = threading.Thread(target=one)
            t.start()
            t.join()
        else:
            one()
        mon.hit("documents dropped")

    mon.hit({"type": "one type", "all": "all types"}.get(mode, mode))
    if mode == "unimplemented":
        mon.hit("unimplemented documents")
    try:
        small = mode in ("type",)
        n = 500 if small else 200
        rounds(step, 3 * n, n, mon, mode + (" " + ",".join(case["types"]) if "types" in case else ""))
        # no more parsed objects alive than a bounded number, however many were dropped
        for k in range(300):
            state["k"] = 4
            got = one()
            if got:
                refs.append(got)
            del got
        for later in (100, 1000, 25000):                    # the last ones only if a bounded cache may hold the objects
            for _ in range(later):
                one()
            gc.collect()
            alive = sum(any(x() is not None for x in rs) for rs in refs)
            if alive <= 0.8 * len(refs):
                break
        mon.hit("live objects counted", len(refs))
        if refs and alive > 0.8 * len(refs):
            mon.fail(f"{mode}: of {len(refs)} documents dropped, parts of {alive} are still alive")
    finally:
        settings.WARN_UNIMPLEMENTED_TYPE = keep
    mon.seen((mode, case["seed"], case.get("types"), case.get("odd")))


def selftest(mon):
    """The monitor sees a cache without bound, and not a bounded one."""
    from ..runner import Monitor, Violation
    import functools
    n = [0]
    seen = {}

    def leaky():
        n[0] += 1
        seen[f"u{n[0]}"] = None

    cached = functools.lru_cache(maxsize=512)(lambda x: x + "y")

    def bounded():
        n[0] += 1
        cached(f"u{n[0]}")

    with contextlib.suppress(Violation):
        rounds(leaky, 600, 200, Monitor(), "leak")
        raise RuntimeError("the monitor does not see a leak")
    try:
        rounds(bounded, 600, 200, Monitor(), "bounded")
    except Violation as e:
        raise RuntimeError(f"the monitor reports a bounded cache: {e}")
    mon.hit("self test")
