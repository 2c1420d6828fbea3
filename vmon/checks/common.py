"""Shared by the checks: case sources and ways to drive the library."""
import glob
import json
import os
import random

from .. import adf, env, gen, harvest
from ..adf import NODES, MARKS


def corpus():
    """Real documents exported from Confluence (the sample set of the project)."""
    out = []
    for p in sorted(glob.glob(os.path.join(env.VERIF, "corpus", "*.json"))):
        with open(p, encoding="utf-8") as f:
            out.append(json.load(f))
    return out


def parse(api, el, cat="node"):
    """Through the generic parser, or the class itself when it is a document."""
    if cat == "mark":
        return api.parse_mark(el)
    if el.get("type") == "doc":
        return api.NodeDoc.from_dict(el)
    return api.parse_node(el)


def cls_of(api, el, cat):
    return getattr(api, adf.spec_of(el, cat).cls)


def full_case(rng, i, **kw):
    """A case with a hostile full-model document, node or mark."""
    x = rng.random()
    g = gen.Gen(rng, max_depth=rng.choice([2, 4, 6, 6, 9]), budget=rng.choice([5, 15, 40, 40, 120]), **kw)
    if x < 0.72:
        return {"doc": g.doc(), "cat": "node", "seed": i}
    if x < 0.9:
        return {"doc": g.node(list(NODES)[i % len(NODES)]), "cat": "node", "seed": i}
    return {"doc": g.mark([list(MARKS)[i % len(MARKS)]]), "cat": "mark", "seed": i}


FALSY = {"str": ["", "0", " "], "int": [0, -1, 1], "num": [0, 0.0, 1.0, 1], "bool": [False, True],
         "json": [None, False, 0, 0.0, "", [], {}, [None], {"a": None}, [[]], {"": []}],
         "object": [{}, {"a": None}, {"type": "text"}, {"type": "paragraph", "content": [{"type": "nope"}]}],
         "datasource": [{}, {"id": "a"}, {"parameters": {}}, {"views": [{}, {"type": "t"}, {"properties": {"a": 1}}, {"type": None}]}, {"views": None, "id": None},
                        {"id": "a", "parameters": {"a": [1, {"b": None}]}, "views": [{"type": "t", "properties": {"columns": [{"key": "a"}]}}] * 2}, {"id": "", "parameters": None, "views": []}, {"id": "x", "parameters": {"jql": ""}, "views": [
             {"type": "table", "properties": {}}]}, {"unknown": 1}],
         "liststr": [[], [""], ["a", "a"]], "listint": [[], [0], [0, 0]],
         "timestamp": ["0", "1586361600000"]}


def minimal(spec, r=None):
    """The smallest element of a type."""
    r = r or random.Random(0)
    g = gen.Gen(r)
    el = {"type": spec.type}
    for n, (req, kind) in spec.extra.items():
        if req:
            el[n] = "w"
        elif n == "version":
            el[n] = 1
    if spec.attrs is not None and spec.attrs_required:
        el["attrs"] = {n: g.value(k) for n, (req, k) in spec.attrs.items() if req}
    if spec.content_required:
        el["content"] = []
    return el


def full_directed():
    """Every type minimal, with empty optional parts, and with each optional attribute at its corner values."""
    out = []
    for cat, table in (("node", NODES), ("mark", MARKS)):
        for spec in table.values():
            m = minimal(spec)
            out.append({"doc": m, "cat": cat, "seed": 0})
            if spec.content is not None:
                out.append({"doc": {**m, "content": []}, "cat": cat, "seed": 0})
            if spec.marks is not None:
                out.append({"doc": {**m, "marks": []}, "cat": cat, "seed": 0})
            if spec.attrs is not None:
                base = m.get("attrs", {})
                out.append({"doc": {**m, "attrs": dict(base)}, "cat": cat, "seed": 0})
                everything = dict(base)
                for n, (req, kind) in spec.attrs.items():
                    vals = kind[1] if isinstance(kind, tuple) else FALSY[kind]
                    for v in list(vals) + ([None] if not req else []):
                        out.append({"doc": {**m, "attrs": {**base, n: v}}, "cat": cat, "seed": 0})
                    everything[n] = vals[0]
                out.append({"doc": {**m, "attrs": everything}, "cat": cat, "seed": 0})
                nothing = {n: None for n, (req, _) in spec.attrs.items() if not req}
                out.append({"doc": {**m, "attrs": {**base, **nothing}}, "cat": cat, "seed": 0})
            if spec.content is not None:
                for t in spec.content:
                    out.append({"doc": {**m, "content": [minimal(NODES[t])] * 2}, "cat": cat, "seed": 0})
            if spec.marks is not None:
                for t in MARKS:
                    out.append({"doc": {**m, "marks": [minimal(MARKS[t])] * 2}, "cat": cat, "seed": 0})
    for k, d in enumerate(corpus()):
        out.append({"doc": d, "cat": "node", "seed": k})
    # deep and wide
    para = {"type": "paragraph", "content": [{"type": "text", "text": "x"}]}
    for n in (1, 2, 40):
        out.append({"doc": gen.chain(["doc"] + ["listItem", "bulletList"][::-1] * n, para), "cat": "node", "seed": 0})
        out.append({"doc": gen.chain(["doc"] + ["expand", "panel", "blockquote"] * n, para), "cat": "node", "seed": 0})
    for n in (10, 100, 1000, 3000):
        out.append({"doc": gen.wrap("doc", [para] * n), "cat": "node", "seed": 0})
        out.append({"doc": gen.wrap("doc", [gen.wrap("paragraph", [{"type": "text", "text": "y", "marks": [
            {"type": "em"}] * 3}] * n)]), "cat": "node", "seed": 0})
    return out


def datasource(api, v):
    """Classes of the card's datasource, where its data has their form; else the data."""
    D, V = api.NodeBlockCardAttrsDatasource, api.NodeBlockCardAttrsDatasourceView
    if not isinstance(v, dict) or not set(v) <= {"id", "parameters", "views"}:
        return v
    v = dict(v)
    if isinstance(v.get("views"), list):
        v["views"] = [V(**x) if isinstance(x, dict) and set(x) <= {"type", "properties"} else x for x in v["views"]]
    return D(**v)


def build(api, el, cat="node", with_type=True, objects=False, memo=None):
    """The same element through the public constructors; memo: equal parts are one object."""
    if memo is not None:
        key = cat + repr(el)
        if key not in memo:
            memo[key] = build1(api, el, cat, with_type, objects, memo)
        return memo[key]
    return build1(api, el, cat, with_type, objects, None)


def build1(api, el, cat, with_type, objects, memo):
    spec = adf.spec_of(el, cat)
    kw = {}
    for k, v in el.items():
        if k not in spec.fields or (k == "type" and not with_type):
            continue
        if k == "attrs":
            acls = getattr(api, adf.ATTR_CLASS[spec.type])
            key = (spec.type, cat, repr(v))
            if memo is not None and key in memo:
                v = memo[key]
            else:
                v = acls(**{a: datasource(api, x) if objects and spec.attrs[a][1] == "datasource" else x for a, x in v.items() if a in spec.attrs})
                if memo is not None:
                    memo[key] = v
        elif k == "content":
            v = [build(api, c, "node", with_type, objects, memo) for c in v if adf.spec_of(c, "node")]
        elif k == "marks":
            v = [build(api, c, "mark", with_type, objects, memo) for c in v if adf.spec_of(c, "mark")]
        kw[k] = v
    return getattr(api, spec.cls)(**kw)


def plain_json(x, path="$"):
    """None if x is built of exactly the JSON types, else where it is not."""
    t = type(x)
    if t is dict:
        for k, v in x.items():
            if type(k) is not str:
                return f"{path}: key {k!r}"
            b = plain_json(v, f"{path}.{k}")
            if b:
                return b
        return None
    if t is list:
        for i, v in enumerate(x):
            b = plain_json(v, f"{path}[{i}]")
            if b:
                return b
        return None
    if x is None or t in (str, int, float, bool):
        return None
    return f"{path}: {t.__name__} {x!r:.80}"


def known_types(doc, mon, cat="node"):
    for _, el, c in adf.walk(doc, cat):
        if isinstance(el, dict) and isinstance(el.get("type"), str):
            mon.hit(f"{c}:{el['type']}")


def md_or_error(o, **kw):
    try:
        return ("ok", o.to_markdown(**kw))
    except Exception as e:
        return ("raise", type(e).__name__, str(e))


ALL_TYPES = [f"node:{t}" for t in NODES] + [f"mark:{t}" for t in MARKS]
