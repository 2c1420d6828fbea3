"""
Documents far bigger than any sample in one dimension at a time: children of each kind of container, length of a
text, depth of nesting, marks. A case names the document ({"giant": [name, n]}) and the runner builds it.
"""
import random

from . import gen

N = 5300            # blocks
LEAVES = 11000      # inline elements


def _g(name):
    return gen.Safe(random.Random(f"giant:{name}"), budget=10 ** 9, max_depth=3)


def _text(g):
    return {"type": "text", "text": g.word()}


def _texts(g, n):
    return [{"type": "text", "text": (" " if k else "") + g.word()} for k in range(n)]


def _para(g, n=1):
    return {"type": "paragraph", "content": _texts(g, n)}


def _li(g):
    return {"type": "listItem", "content": [_para(g)]}


def _task(g):
    return {"type": "taskItem", "attrs": {"localId": "i", "state": "DONE" if g.r.random() < 0.5 else "TODO"}, "content": [_text(g)]}


def _decision(g, n=1):
    return {"type": "decisionItem", "attrs": {"localId": "i", "state": "DECIDED"}, "content": _texts(g, n)}


def _cell(g, t="tableCell", n=1):
    return {"type": t, "content": [_para(g) for _ in range(n)]}


def _list(t, items, **attrs):
    d = {"type": t, "content": items}
    if t in ("taskList", "decisionList"):
        d["attrs"] = {"localId": "l"}
    if attrs:
        d["attrs"] = {**d.get("attrs", {}), **attrs}
    return d


def _item(g, t, *more):
    return _task(g) if t == "taskList" else {"type": "listItem", "content": [_para(g), *more]}


def _deep(g, kinds, n):
    """Lists nested n deep."""
    d = None
    for k in range(n, 0, -1):
        t = kinds[k % len(kinds)]
        if t == "taskList":
            d = _list(t, [_task(g)] + ([d] if d else []) + [_task(g)])
        else:
            d = _list(t, [_item(g, t, *([d] if d else [])), _item(g, t)])
    return d


def _doc(*c):
    return {"type": "doc", "version": 1, "content": list(c)}


def _media(g):
    return {"type": "media", "attrs": {"type": "file", "id": g.word(), "collection": "c"}}


def _mixed(g, n):
    kinds = ["paragraph", "heading", "bulletList", "codeBlock", "rule", "blockquote", "orderedList", "panel", "taskList", "table", "mediaSingle",
             "extension", "blockCard", "decisionList", "embedCard", "expand"]
    out = []
    for k in range(n):
        g.left = 3
        out.append(g.block(kinds[k % len(kinds)], 2))
    return out


def _json(n):
    return {"list": list(range(n)), "pairs": {f"k{i}": [i] for i in range(n)}, "text": "x y" * n}


def _nest(n):
    a = b = c = 1
    for k in range(n):
        a, b, c = {"in": a, "n": k}, [b, k], {"in": c, "n": k} if k % 2 else [c, k]
    return {"objects": a, "lists": b, "both": c}


BUILD = {
    "doc": lambda g, n: _doc(*[_para(g) for _ in range(n)]),
    "doc headings": lambda g, n: _doc(*[{"type": "heading", "attrs": {"level": 1 + k % 6}, "content": [_text(g)]} for k in range(n)]),
    "doc rules": lambda g, n: _doc(*[_para(g) if k % 2 else {"type": "rule"} for k in range(n)]),
    "doc code": lambda g, n: _doc(*[{"type": "codeBlock", "content": [{"type": "text", "text": g.word() + "\n\n\n" + g.word()}]} for k in range(n)]),
    "doc empties": lambda g, n: _doc(_para(g), *[{"type": "paragraph"} for _ in range(n)], _para(g)),
    "doc mixed": lambda g, n: _doc(*_mixed(g, n // 3)),
    "expand": lambda g, n: _doc({"type": "expand", "attrs": {"title": "t"}, "content": [_para(g) for _ in range(n)]}, _para(g)),
    "panel": lambda g, n: _doc({"type": "panel", "attrs": {"panelType": "note"}, "content": [_para(g) for _ in range(n)]}, _para(g)),
    "blockquote": lambda g, n: _doc({"type": "blockquote", "content": [_para(g) for _ in range(n)]}, _para(g)),
    "bulletList": lambda g, n: _doc(_list("bulletList", [_li(g) for _ in range(n)])),
    "orderedList": lambda g, n: _doc(_list("orderedList", [_li(g) for _ in range(n)], order=7)),
    "taskList": lambda g, n: _doc(_list("taskList", [_task(g) for _ in range(n)])),
    "decisionList": lambda g, n: _doc(_list("decisionList", [_decision(g) for _ in range(n)])),
    "listItem": lambda g, n: _doc(_list("bulletList", [{"type": "listItem", "content": [_para(g) for _ in range(n // 2)]}, _li(g)])),
    "ordered item": lambda g, n: _doc(_list("orderedList", [{"type": "listItem", "content": [_para(g) for _ in range(n // 2)]}, _li(g)])),
    "lists in item": lambda g, n: _doc(_list("orderedList", [{"type": "listItem", "content": [_para(g)] + [
        _list(("bulletList", "orderedList")[k % 2], [_li(g)]) for k in range(n // 4)]}, _li(g)])),
    "rows": lambda g, n: _doc(_list("table", [{"type": "tableRow", "content": [_cell(g, "tableHeader" if not k else "tableCell")]} for k in range(n // 2)])),
    "columns": lambda g, n: _doc(_list("table", [{"type": "tableRow", "content": [_cell(g, t) for _ in range(n // 4)]} for t in ("tableHeader", "tableCell")])),
    "tableCell": lambda g, n: _doc(_list("table", [{"type": "tableRow", "content": [_cell(g, "tableHeader", n // 4)]},
                                                   {"type": "tableRow", "content": [_cell(g, "tableCell", n // 4)]}])),
    "mediaGroup": lambda g, n: _doc({"type": "mediaGroup", "content": [_media(g) for _ in range(n)]}, _para(g)),
    "paragraph": lambda g, n: _doc(_para(g, n)),
    "heading": lambda g, n: _doc({"type": "heading", "attrs": {"level": 2}, "content": _texts(g, n)}),
    "taskItem": lambda g, n: _doc(_list("taskList", [{**_task(g), "content": _texts(g, n)}])),
    "decisionItem": lambda g, n: _doc(_list("decisionList", [_decision(g, n)])),
    "inline": lambda g, n: _doc({"type": "paragraph", "content": [x for _ in range(n // 4) for x in (_text(g), {"type": "text", "text": " "}, g.atom(), {"type": "text", "text": " "})] + [_text(g)]}),
    "codeBlock": lambda g, n: _doc({"type": "codeBlock", "content": [{"type": "text", "text": g.word() + "\n" * (1 + k % 4)} for k in range(n)]}),
    "code lines": lambda g, n: _doc({"type": "codeBlock", "attrs": {"language": "python"}, "content": [
        {"type": "text", "text": "".join(f"{' ' * (k % 5)}{g.word()}\n" for k in range(n))}]}),
    "long text": lambda g, n: _doc({"type": "paragraph", "content": [{"type": "text", "text": " ".join(g.word() for _ in range(n))}]}),
    "long heading": lambda g, n: _doc({"type": "heading", "attrs": {"level": 1}, "content": [{"type": "text", "text": " ".join(g.word() for _ in range(n))}]}),
    "long item": lambda g, n: _doc(_list("bulletList", [{"type": "listItem", "content": [{"type": "paragraph", "content": [
        {"type": "text", "text": " ".join(g.word() for _ in range(n))}]}]}])),
    "long quote": lambda g, n: _doc({"type": "blockquote", "content": [{"type": "paragraph", "content": [
        {"type": "text", "text": " ".join(g.word() for _ in range(n))}]}]}),
    "long cell": lambda g, n: _doc(_list("table", [{"type": "tableRow", "content": [{"type": "tableHeader", "content": [{"type": "paragraph", "content": [
        {"type": "text", "text": " ".join(g.word() for _ in range(n))}]}]}]}])),
    "deep bullets": lambda g, n: _doc(_deep(g, ["bulletList"], n)),
    "deep numbers": lambda g, n: _doc(_deep(g, ["orderedList"], n)),
    "deep tasks": lambda g, n: _doc(_deep(g, ["taskList"], n)),
    "deep lists": lambda g, n: _doc(_deep(g, ["bulletList", "orderedList"], n)),
    "deep in panel": lambda g, n: _doc({"type": "panel", "attrs": {"panelType": "info"}, "content": [_deep(g, ["orderedList", "bulletList"], n)]}),
    "json": lambda g, n: _doc({"type": "extension", "attrs": {"extensionType": "x", "extensionKey": g.word(), "parameters": _json(n)}}, _para(g)),
    "deep json": lambda g, n: _doc({"type": "extension", "attrs": {"extensionType": "x", "extensionKey": g.word(), "parameters": _nest(n)}}, _para(g)),
    "marks": lambda g, n: _doc({"type": "paragraph", "content": [{"type": "text", "text": g.word(), "marks": [
        {"type": "annotation", "attrs": {"id": str(k), "annotationType": "inlineComment"}} for k in range(n // 4)]}]}),
}
LEAFY = {"paragraph", "heading", "taskItem", "decisionItem", "codeBlock", "code lines", "long text", "long heading", "long item", "long quote", "long cell",
         "inline", "doc empties", "mediaGroup"}


def size(name):
    return 75 if name.startswith("deep") else LEAVES if name in LEAFY else N


def build(case):
    name, n = case["giant"]
    return BUILD[name](_g(name), n)


def cases(mod):
    """A case for each of the names in the check's GIANTS ("all": every one), each with what GIANT adds."""
    names = getattr(mod, "GIANTS", ())
    scale = getattr(mod, "GIANT_SCALE", 1)
    return [{"giant": [x, size(x) if x.startswith("deep") else int(size(x) * scale)], "cat": "node", "seed": k, **getattr(mod, "GIANT", {})}
            for k, x in enumerate(sorted(BUILD) if names == "all" else names)]
