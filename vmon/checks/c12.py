"""C12: lists keep items, nesting, numbering, indentation and check states."""
import random
import re

from .. import adf, gen, harvest
from . import tree
from .common import parse

ID = "C12"
QUICK, THOROUGH = 24000, 350000
GIANTS = ["bulletList", "orderedList", "taskList", "listItem", "ordered item", "lists in item", "long item", "taskItem", "deep bullets", "deep numbers",
          "deep tasks", "deep lists", "deep in panel"]
DECORATE = True
RULE = ("list trees of all kinds mixed (deep, wide, any start number, items with several blocks, breaks and code), at the top level and in "
        "quotes, panels and expands, read back with markdown-it and compared item by item; a second monitor reads marker, number, box and "
        "indentation of each item's line; distinct by skeleton and start numbers")
ESSENTIAL = ["blocks compared", "items compared", "markers compared", "ordered items", "task items", "nested 3 deep", "wide numbers",
             "mixed nesting", "checked", "unchecked", "start zero", "huge numbers", "items that begin otherwise"]


def item(*kids):
    return {"type": "listItem", "content": list(kids)}


EMPTY = {"type": "paragraph"}


def para(*texts):
    return {"type": "paragraph", "content": [{"type": "text", "text": t} for t in texts]}


class Lists(gen.Safe):
    def tree(self, t, depth, max_depth):
        r = self.r
        n = self.few(1, 4)
        if t == "taskList":
            kids = []
            for k in range(n):
                kids.append(self.task_item())
                if depth < max_depth and self.left > 0 and r.random() < 0.4:
                    self.left -= 1
                    kids.append(self.tree("taskList", depth + 1, max_depth))
            return {"type": t, "attrs": {"localId": "t"}, "content": kids}
        items = []
        for k in range(n):
            self.left -= 1
            kids = [self.empty_paragraph() if r.random() < 0.06 else self.paragraph() if r.random() < 0.85 else r.choice([self.code, self.media_single, self.extension])()]
            if depth < max_depth and self.left > 0 and r.random() < 0.06:
                kids = []       # begins with a list of its own
            if depth < max_depth and (not kids or self.left > 0 and r.random() < 0.5):
                for _ in range(r.choice([1, 1, 1, 2])):
                    kids.append(self.tree(r.choice(["bulletList", "orderedList", "taskList"]), depth + 1, max_depth))
                    if r.random() < 0.2:
                        kids.append(r.choice([self.paragraph, self.code, self.media_single, self.extension])())
            elif r.random() < 0.2:
                kids.append(r.choice([self.paragraph, self.code, self.media_single, self.extension])())
            items.append(item(*kids))
        el = {"type": t, "content": items}
        if t == "orderedList" and r.random() < 0.7:
            el["attrs"] = {"localId": "o"} if r.random() < 0.2 else {}
            if r.random() < 0.85:
                el["attrs"]["order"] = r.choice([0, 0, 1, 2, 5, 8, 9, 10, 42, 90, 95, 98, 99, 100, 101, 500, 990, 998, 999, 1000, 123456789,
                                                 r.choice(harvest.near(100000)), r.randrange(1, 2000)])
            if r.random() < 0.05:
                el["attrs"]["order"] = None
        return el


def directed():
    out = []
    r = random.Random(12)
    kinds = ["bulletList", "orderedList", "taskList"]

    def chain(types, order=None, width=2, g=None):
        g = g or Lists(r)
        def go(k):
            t = types[k]
            if t == "taskList":
                kids = []
                for i in range(width):
                    kids.append(g.task_item())
                    if i == 0 and k + 1 < len(types) and types[k + 1] == "taskList":
                        kids.append(go(k + 1))
                return {"type": t, "attrs": {"localId": "t"}, "content": kids}
            items = []
            for i in range(width):
                kids = [para(g.text())]
                if k + 1 < len(types) and i == 0:
                    kids.append(go(k + 1))
                items.append(item(*kids))
            el = {"type": t, "content": items}
            if t == "orderedList" and order is not None:
                el["attrs"] = {"order": order}
            return el
        return gen.wrap("doc", [go(0)])

    for a in kinds:
        for order in (None, 0, 1, 9, 99, 100, 1000):
            out.append({"doc": chain([a], order, 3)})
        for b in kinds:
            for order in (None, 0, 99, 1000):
                out.append({"doc": chain([a, b], order)})
            for c in kinds:
                out.append({"doc": chain([a, b, c], 100)})
                for d in kinds:
                    out.append({"doc": chain([a, b, c, d])})
    for n in (9, 10, 11, 12, 99, 101, 120, 1001):
        g = Lists(r)
        out.append({"doc": gen.wrap("doc", [{"type": "orderedList", "content": [item(para(g.text()), gen.wrap("bulletList", item(
            para(g.text())))) for _ in range(n)]}])})
    for a in kinds[:2]:
        for b in kinds[:2]:
            for inner in ([item(EMPTY), item(para("k1z"))], [item(para("k1z")), item(EMPTY), item(para("k2z"))], [item(para("k1z")), item(EMPTY)],
                          [item(EMPTY, gen.wrap("bulletList", item(para("k1z"))))], [item(EMPTY)], [item(EMPTY, para("k1z"))],
                          [item(EMPTY, {"type": "codeBlock"})]):
                for outer in ([para("k8z")], [EMPTY], [para("k8z"), gen.wrap("bulletList", item(para("k9z")))]):
                    el = {"type": a, "content": [item(*outer, {"type": b, "content": inner}), item(para("k3z")), item(EMPTY), item(para("k4z"))]}
                    out.append({"doc": gen.wrap("doc", [el])})
                    out.append({"doc": gen.wrap("doc", [gen.wrap("panel", [el])])})
    # items of many blocks
    for a in kinds[:2]:
        for n in (8, 11, 13, 17, 21, 33, 65, 101):
            for k in range(4):
                g = Lists(r)
                kids = [[para(g.text()), g.code(), chain([r.choice(kinds)], g=g)["content"][0], g.media_single()][(k if k < 3 else j) % 4] for j in range(n)]
                if kids[0]["type"] in kinds:
                    kids.insert(0, para(g.text()))
                # neighbouring lists of one kind would join
                kids = [x for j, x in enumerate(kids) if j == 0 or x["type"] not in kinds or kids[j - 1]["type"] not in kinds]
                out.append({"doc": gen.wrap("doc", [{"type": a, "content": [item(*kids), item(para(g.text()))]}])})
    # items that begin with a list
    for a in kinds[:2]:
        for b in kinds:
            for order in (None, 0, 99, 1000):
                for k in range(5):
                    g = Lists(r)
                    fresh = lambda t=b: chain([t], g=g)["content"][0]       # noqa: E731
                    rest = lambda: [[], [para(g.word())], [{"type": "codeBlock"}], [EMPTY], [fresh(a)]][k]      # noqa: E731
                    el = {"type": a, "content": [item(fresh(), *rest()), item(para(g.word()), {"type": a, "content": [
                        item(fresh(), *rest()), item(para(g.word()))]}), item({"type": a, "content": [item(fresh())]})]}
                    if a == "orderedList" and order is not None:
                        el["attrs"] = {"order": order}
                    kids = [para(g.word()), el, para(g.word())]
                    out.append({"doc": gen.wrap("doc", kids)})
                    out.append({"doc": gen.wrap("doc", [gen.wrap("panel", kids)])})
    for order in (10 ** 9 - 2, 10 ** 9, 2 ** 31 - 2, 2 ** 32 - 1, 2 ** 53 - 1, 2 ** 53, 10 ** 20):
        for b in [None] + kinds:
            out.append({"doc": chain(["orderedList"] + ([b] if b else []), order, 3), "huge": True})
    for n in (5, 8, 12, 20):
        for t in kinds:
            out.append({"doc": chain([t] * n)})
        out.append({"doc": chain([r.choice(kinds[:2]) for _ in range(n)])})
    return out


def generate(rng, i):
    g = Lists(rng, budget=rng.choice([4, 10, 25, 60]))
    kids = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            kids.append(g.block(rng.choice(["paragraph", "heading", "rule", "codeBlock"])))
        kids.append(g.tree(rng.choice(["bulletList", "orderedList", "taskList"]), 0, rng.choice([0, 1, 2, 3, 5, 8])))
    x = rng.random()
    if x < 0.12:
        kids = [gen.wrap("panel", kids)]
    elif x < 0.2:
        kids = [gen.wrap("blockquote", [k for k in kids if k["type"] in adf.QUOTE_CHILDREN] or [g.paragraph()])]
    elif x < 0.3:
        kids = [gen.wrap("expand", kids)]
    return {"doc": gen.wrap("doc", kids)}


TOK = re.compile(r"[A-Za-z][A-Za-z0-9]*?\d+z")
MARKER = re.compile(r"^((?:> ?)*)( *)(- \[[ x]\]|-|\d+\.) (.*)$")


def first_token(n):
    """The first visible token of the first block of an item, None if it begins otherwise."""
    if n["type"] == "listItem" and n["content"][0]["type"] in ("bulletList", "orderedList", "taskList"):
        return None
    kids = n.get("content") if n["type"] == "taskItem" else n["content"][0].get("content") if n["content"][0]["type"] == "paragraph" else None
    if not kids or kids[0]["type"] != "text" or any(m["type"] == "link" for m in kids[0].get("marks") or []):
        return None
    m = TOK.search(kids[0]["text"])
    return m.group(0) if m else None


def markers(el, indent, level, out):
    """(first token, indentation, marker) of every item that begins with text."""
    if el["type"] == "taskList":
        for k in el["content"]:
            if k["type"] == "taskList":
                markers(k, indent + 4, level + 1, out)
            else:
                box = "- [x]" if k["attrs"]["state"] == "DONE" else "- [ ]"
                out.append((first_token(k) if k.get("content") else None, indent, box, level))
        return
    n = 1
    if el["type"] == "orderedList" and level == 0:
        v = (el.get("attrs") or {}).get("order")
        n = v if isinstance(v, int) and not isinstance(v, bool) else 1
    for k in el["content"]:
        mark = "-" if el["type"] == "bulletList" else f"{n}."
        out.append((first_token(k), indent, mark, level))
        for c in k["content"]:
            if c["type"] in ("bulletList", "orderedList", "taskList"):
                markers(c, indent + max(4, len(mark) + 1), level + 1, out)
        n += 1


def lists(el):
    if el["type"] in ("bulletList", "orderedList", "taskList"):
        yield el
    elif el["type"] in ("doc", "expand", "panel", "blockquote"):
        for k in el["content"]:
            yield from lists(k)


def check(api, case, mon):
    doc = case["doc"]
    if case.get("huge"):        # a reader takes no number of more than nine digits for a marker
        md = parse(api, doc).to_markdown()
        mon.hit("huge numbers")
    else:
        md, want, got = tree.compare(api, doc, mon)
    exp = []
    for el in lists(doc):
        markers(el, 0, 0, exp)
    where = {}
    for line in md.split("\n"):
        m = MARKER.match(line)
        for t in TOK.findall(line):
            where[t] = (m, line)
    for tok, indent, mark, level in exp:
        mon.hit("items compared")
        if mark[0] == "-":
            mon.hit("checked" if "x" in mark else "unchecked" if "[" in mark else "bullets")
        else:
            mon.hit("ordered items")
            if len(mark) > 3:
                mon.hit("wide numbers")
            if mark == "0.":
                mon.hit("start zero")
        if "[" in mark:
            mon.hit("task items")
        if level >= 2:
            mon.hit("nested 3 deep")
        if tok is None:
            mon.hit("items that begin otherwise")
            continue
        m, line = where.get(tok, (None, None))
        mon.hit("markers compared")
        if m is None:
            mon.fail(f"the item that begins with {tok} is on the line {line!r:.120}, which has no list marker; expected {mark!r}")
        if m.group(3) != mark:
            mon.fail(f"the item that begins with {tok} has marker {m.group(3)!r}, expected {mark!r}: {line!r:.120}")
        if len(m.group(2)) != indent:
            mon.fail(f"the item that begins with {tok} is indented by {len(m.group(2))}, expected {indent}: {line!r:.120}")
    kinds = {el["type"] for _, el, c in adf.walk(doc) if el.get("type") in ("bulletList", "orderedList", "taskList")}
    if len(kinds) > 1:
        mon.hit("mixed nesting")
    mon.seen((adf.shape(doc), tuple(m for _, _, m, _ in exp)))
