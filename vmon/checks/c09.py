"""C09: strict conversion raises the first error; lenient conversion leaves out exactly the failing elements."""
import copy
import random

from .. import adf, gen
from .common import parse

ID = "C09"
QUICK, THOROUGH = 60000, 500000
GIANTS = "all"
GIANT = {"full": False, "inject": False}
GIANT_SCALE = 0.5
DECORATE = True
RULE = ("valid documents in which any set of leaves is made unconvertible by its data (cards and external media without address, code "
        "with line breaks, bad dates and media types, emoji without any name), or converted elements of any kind fail by fault "
        "injection; oracles: the error of the first failing element converted alone, and the document without the failing elements; "
        "distinct by skeleton and faults")
ESSENTIAL = ["strict errors compared", "lenient outputs compared", "healthy documents", "data faults", "injected faults", "several faults",
             "fault in table", "fault in list", "fault in task list", "fault in decision list", "fault in panel", "fault in blockquote",
             "fault in expand", "fault in heading", "fault in mediaSingle", "roots other than documents", "interruptions"] + [
                 f"failing {t}" for t in ("bulletList", "orderedList", "listItem", "taskList", "taskItem", "decisionList", "decisionItem", "table",
                                          "tableRow", "tableCell", "tableHeader", "panel", "blockquote", "expand", "nestedExpand", "paragraph",
                                          "heading", "mediaSingle")]


def directed():
    out = []
    r = random.Random(9)
    # every container as the root
    k = 0
    while len({c["doc"]["type"] for c in out}) < len(ROOTS) and k < 3000 or k < 500:
        g = gen.Safe(r, budget=6, max_depth=4, features={"richcells"})
        d = gen.wrap("doc", [g.block(adf.DOC_CHILDREN[k % len(adf.DOC_CHILDREN)])])
        out.append({"doc": root(d, r, ROOTS[k % len(ROOTS)]), "seed": 2 * 10 ** 6 + k, "full": False, "inject": False})
        k += 1
    for k in range(400):
        g = gen.Safe(r, budget=4, max_depth=4, features={"richcells"})
        t = adf.DOC_CHILDREN[k % len(adf.DOC_CHILDREN)]
        out.append({"doc": gen.wrap("doc", [g.block(t)]), "seed": 10 ** 6 + k, "full": False, "inject": k % 3 == 2})
    return out


ROOTS = [t for t, s in adf.NODES.items() if s.content is not None and t not in ("mediaGroup", "caption", "doc")]


def root(doc, r, t=None):
    """A container inside the document, taken for itself."""
    subs = [el for p, el, c in adf.walk(doc) if c == "node" and el["type"] in ROOTS and not any(k == "mediaGroup" for k in p)]
    subs = [el for el in subs if el["type"] == t] or subs
    return r.choice(subs) if subs else doc


def generate(rng, i):
    case = generate_doc(rng, i)
    if rng.random() < 0.25:
        case["doc"] = root(case["doc"], rng)
    return case


def generate_doc(rng, i):
    x = rng.random()
    if x < 0.4:
        g = gen.Gen(rng, max_depth=rng.choice([3, 5, 7]), budget=rng.choice([8, 25, 60]), own_marks=True)
        return {"doc": g.doc(), "seed": i, "full": True, "inject": False}
    g = gen.Safe(rng, budget=rng.choice([6, 20, 50]), max_depth=rng.choice([3, 5]), features={"richcells"} | (
        {"empties"} if rng.random() < 0.3 else set()))
    return {"doc": g.doc(rng.sample(adf.DOC_CHILDREN, rng.choice([1, 3, 17]))), "seed": i, "full": False, "inject": rng.random() < 0.3}


HIDDEN = ("mediaGroup", "caption", "mediaInline")


def leaves(el, path=()):
    """Elements without modelled content that conversion renders, in order."""
    if el["type"] in HIDDEN:
        return
    spec = adf.NODES[el["type"]]
    if spec.content is None:
        yield path, el
        return
    for i, c in enumerate(el.get("content") or []):
        yield from leaves(c, path + (i,))


def get(doc, path):
    for i in path:
        doc = doc["content"][i]
    return doc


def break_one(el, r):
    """Make a leaf unconvertible by its data; None if this type has no such data."""
    t = el["type"]
    el = copy.deepcopy(el)
    a = el.setdefault("attrs", {}) if t != "text" else None
    if t == "text":
        el["text"] = r.choice(["a\nb", "\n", "x\n", "\nx\n\n\ny"])
        el["marks"] = r.choice([[{"type": "code"}], [{"type": "strong"}, {"type": "code"}], [{"type": "code"}, {"type": "em"}]])
    elif t in ("inlineCard", "blockCard"):
        el["attrs"] = r.choice([{}, {"data": {"a": 1}}, {"url": None}])
    elif t == "media":
        el["attrs"] = r.choice([{"type": "external"}, {"type": "external", "alt": "x"}, {"type": "external", "url": None},
                                {"type": "strange", "id": "x"}, {"type": "", "url": "http://e.x"}])
        el.pop("marks", None)
    elif t == "date":
        el["attrs"] = {"timestamp": r.choice(["abc", "", "1.5.1", "9" * 30, "2020-01-01", None])}
    elif t == "emoji":
        el["attrs"] = {"shortName": None}
    else:
        return None
    return el


CANDIDATE = {"text", "inlineCard", "blockCard", "media", "date", "emoji"}


def remove(doc, paths):
    doc = copy.deepcopy(doc)
    for p in sorted(paths, reverse=True):
        del get(doc, p[:-1])["content"][p[-1]]
    return doc


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("raise", type(e).__name__, str(e))


def check(api, case, mon):
    r = random.Random(f"c09:{case['seed']}")
    if case.get("inject"):
        return injected(api, case["doc"], r, mon)
    doc = copy.deepcopy(case["doc"])
    ls = list(leaves(doc))
    k = r.choice([0, 1, 1, 1, 2, 3, 8])
    cand = [p for p, el in ls if el["type"] in CANDIDATE]
    for p in r.sample(cand, min(k, len(cand))):
        get(doc, p[:-1])["content"][p[-1]] = break_one(get(doc, p), r)
    # which leaves cannot be converted: each is asked alone
    failing = []
    for p, el in leaves(doc):
        out = outcome(lambda: parse(api, el).to_markdown())
        if out[0] == "raise":
            failing.append((p, out))
        want_fail = broken(el)
        if want_fail is not None and want_fail != (out[0] == "raise"):
            mon.fail(f"a {el['type']} that {'cannot' if want_fail else 'can'} be converted gives {out!r:.200}: {el!r:.200}")
    if doc["type"] != "doc":
        mon.hit("roots other than documents")
        if failing:
            mon.hit(f"failing {doc['type']}")
    note(mon, doc, [p for p, _ in failing])
    mon.hit("data faults", len(failing))
    o = parse(api, copy.deepcopy(doc))
    strict = outcome(o.to_markdown)
    explicit = outcome(lambda: o.to_markdown(ignore_error=False))
    if explicit != strict:
        mon.fail("strict is not the default")
    soft = outcome(lambda: o.to_markdown(ignore_error=True))
    if soft[0] != "ok":
        mon.fail(f"lenient conversion raises {soft[1]}: {soft[2]!r:.200}")
    verdict(api, doc, [p for p, _ in failing], failing[0][1] if failing else None, strict, soft, mon)


def broken(el):
    """What the data alone says; None when it does not settle it."""
    t, a = el["type"], el.get("attrs") or {}
    if t in ("inlineCard", "blockCard"):
        return not isinstance(a.get("url"), str)
    if t in ("mention", "status", "extension", "embedCard", "rule", "hardBreak"):
        return False
    if t == "text":
        marks = [m["type"] for m in el.get("marks") or []]
        if "\n" not in el["text"] and marks.count("link") == 0:
            return False
        if marks and marks[0] == "code" and "\n" in el["text"]:
            return True
        if "code" not in marks:
            return False
    return None


def verdict(api, doc, failing, first, strict, soft, mon):
    if failing:
        mon.hit("strict errors compared")
        if strict[0] == "ok":
            mon.fail(f"strict conversion does not raise, although {get(doc, failing[0])!r:.200} cannot be converted")
        if strict != first:
            mon.fail(f"strict conversion raises {strict!r:.200}, the first failing element raises {first!r:.200}")
    elif strict[0] != "ok":
        mon.fail(f"strict conversion raises {strict!r:.200}, although every element can be converted")
    else:
        mon.hit("healthy documents")
        if strict != soft:
            mon.fail(f"nothing fails, but lenient gives {soft[1]!r:.200} and strict {strict[1]!r:.200}")
    if len(failing) > 1:
        mon.hit("several faults")
    pruned = parse(api, remove(doc, failing))
    want = outcome(pruned.to_markdown)
    mon.hit("lenient outputs compared")
    if want[0] != "ok":
        mon.fail(f"without its failing elements the document still raises {want!r:.200}")
    if soft[1] != want[1]:
        a, b = soft[1], want[1]
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        mon.fail(f"lenient output differs from that without the failing elements {failing[:3]} at {i}: {a[max(0, i - 30):i + 80]!r}, "
                 f"expected {b[max(0, i - 30):i + 80]!r}")
    mon.seen((adf.shape(doc), tuple(failing)))


def note(mon, doc, failing):
    for p in failing:
        el = doc
        for i in p:
            for name, ts in (("table", ("table",)), ("list", ("bulletList", "orderedList")), ("task list", ("taskList",)),
                             ("decision list", ("decisionList",)), ("panel", ("panel",)), ("blockquote", ("blockquote",)),
                             ("expand", ("expand", "nestedExpand")), ("heading", ("heading",)), ("mediaSingle", ("mediaSingle",))):
                if el["type"] in ts:
                    mon.hit("fault in " + name)
            el = el["content"][i]


class Injected(Exception):
    pass


FAULTS = [ValueError("fault"), KeyError("fault"), TypeError("fault"), NotImplementedError(), RuntimeError("fault"), OSError("fault"),
          ZeroDivisionError("fault"), UnicodeError("fault"), RecursionError("fault"), AssertionError("fault"), Injected("fault"),
          BufferError("fault"), IndexError("fault"), LookupError()]
# elements that are containers of others only in form (their parents render their content)
PASSIVE = {"listItem", "taskItem", "decisionItem", "tableRow", "tableCell", "tableHeader", "doc", "caption"}


INTERRUPTIONS = [KeyboardInterrupt("stop"), SystemExit(3), GeneratorExit()]


def interrupted(o, plan, r, mon):
    """A request to stop the program is no conversion error: it is never swallowed."""
    x = r.choice(list(plan))
    keep, plan[x] = plan[x], (plan[x][0], r.choice(INTERRUPTIONS))
    want = plan[x][1]
    others = {k: v for k, v in plan.items() if k != x}
    for k in others:
        del plan[k]
    try:
        for kw in ({}, {"ignore_error": True}):
            try:
                o.to_markdown(**kw)
            except BaseException as e:
                if e is not want:
                    raise
                mon.hit("interruptions")
            else:
                mon.fail(f"{want!r} during a conversion ({kw}) is swallowed")
    finally:
        plan.update(others)
        plan[x] = keep


def injected(api, doc, r, mon):
    """Elements fail because their class's conversion is made to fail for them."""
    o = parse(api, copy.deepcopy(doc))
    nodes = []

    def go(x, el, path):
        if el["type"] in HIDDEN:
            return
        if path and el["type"] not in PASSIVE:
            nodes.append((path, x))
        for i, c in enumerate(el.get("content") or []):
            go(x.content[i], c, path + (i,))

    go(o, doc, ())
    if not nodes:
        return
    chosen = r.sample(nodes, min(len(nodes), r.choice([1, 1, 2, 4])))
    # innermost only: an element around a failing one would hide it
    chosen = [(p, x) for p, x in chosen if not any(q != p and q[:len(p)] == p for q, _ in chosen)]
    plan = {id(x): (p, r.choice(FAULTS)) for p, x in chosen}
    called = []
    classes = {type(x) for _, x in chosen}
    saved = {}

    def patch(cls):
        orig = cls.to_markdown
        saved[cls] = cls.__dict__.get("to_markdown")

        def to_markdown(self, *args, **kw):
            if id(self) in plan:
                p, e = plan[id(self)]
                called.append((p, e))
                raise e
            return orig(self, *args, **kw)

        cls.to_markdown = to_markdown

    for cls in classes:
        patch(cls)
    try:
        if r.random() < 0.3:
            interrupted(o, plan, r, mon)
        called.clear()
        strict = outcome(o.to_markdown)
        strict_called = list(called)
        called.clear()
        soft = outcome(lambda: o.to_markdown(ignore_error=True))
        soft_called = list(called)
    finally:
        for cls, fn in saved.items():
            if fn is None:
                del cls.to_markdown
            else:
                cls.to_markdown = fn
    mon.hit("injected faults", len(soft_called))
    if soft[0] != "ok":
        mon.fail(f"lenient conversion raises {soft[1]}: {soft[2]!r:.200} (injected)")
    failing = sorted({p for p, _ in soft_called})
    note(mon, doc, failing)
    first = None
    if strict_called:
        e = strict_called[0][1]
        first = ("raise", type(e).__name__, str(e))
        if strict_called[0][0] != failing[0]:
            mon.fail("strict conversion meets the failing elements in another order than the document")
    elif failing:
        mon.fail("strict conversion does not convert elements that lenient conversion converts")
    verdict(api, doc, failing, first, strict, soft, mon)
