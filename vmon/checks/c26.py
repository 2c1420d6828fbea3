"""C26: node and mark types that are added as documented take part like the built-in ones."""
import contextlib
import copy
import dataclasses
import importlib
import logging
import random
import re

from .. import adf, gen
from .c03 import Records
from .c05 import objects
from .common import full_case, parse

ID = "C26"
QUICK, THOROUGH = 9000, 150000
RULE = ("classes made up from random specifications (attributes, children, marks, further fields, required or optional; own classes or "
        "subclasses of built-in ones) are registered under new, reserved or built-in type names in histories of registering, replacing "
        "and removing, around random documents that hold elements of theirs at any depth; oracles: the same field table as for the "
        "built-in types, the document without the elements, and built-in elements in the same place; distinct by skeleton and specification")
ESSENTIAL = ["new node types", "new mark types", "subclasses of built-in types", "built-in types replaced", "elements of new types", "elements compared",
             "skipped before", "skipped after", "registered again", "missing parts", "unknown fields", "write attempts", "same class name twice",
             "new types inside new types", "attributes left as data", "constructed", "unconvertible blocks", "unconvertible inlines",
             "marks without syntax", "marks folded", "inline output", "block output", "leniency seen", "more fields", "other attributes",
             "serialised and parsed again"]
ASSUMES = ["classes are added by the documented registries NODE_TYPE_TO_CLASS_MAPPING and MARK_TYPE_TO_CLASS_MAPPING"]

NAMES = ["layoutSection", "layoutColumn", "placeholder", "bodiedExtension", "inlineExtension", "syncBlock", "bodiedSyncBlock", "blockTaskItem",
         "image", "sub", "external", "file", "custom", "my-node", "Paragraph", "décision", "x y", "TEXT", "0", "multiBodiedExtension"]
FIELDS = ["localId", "url", "id", "kind", "data", "items", "text", "width", "value", "level", "order", "name", "version"]
EXTRA = ["text", "version", "key", "flag", "data", "items", "localId", "url", "note"]
KINDS = [adf.S, adf.I, adf.N, adf.B, adf.J, adf.LS, adf.O]
CLASSES = ["NodeText", "NodeParagraph", "MarkStrong", "NodeNew", "Custom", "Custom", "NodeLayoutSection", "MarkNew", "NodeHeading"]


def directed():
    out = []
    for cat, table in (("node", adf.NODES), ("mark", adf.MARKS)):
        for t in table:
            for v in range(4):
                out.append({"replace": t, "cat": cat, "variant": v, "seed": v})
    for k in range(40):
        out.append({"convert": True, "seed": 10 ** 6 + k})
    return out


# ------------------------------------------------------------------- making up types
def spec_plan(r, taken, cat):
    """A new type, as plain data."""
    own = adf.NODES if cat == "node" else adf.MARKS
    other = adf.MARKS if cat == "node" else adf.NODES
    pool = [t for t in NAMES + list(other) if t not in own and t not in taken]
    p = {"cat": cat, "type": r.choice(pool), "class": r.choice(CLASSES), "typed": r.random() < 0.7}
    x = r.random()
    if x < 0.35:
        attrs = {n: (r.random() < 0.5, r.choice(KINDS)) for n in r.sample(FIELDS, r.choice([0, 1, 2, 5]))}
        p["attrs"] = attrs
        p["attrs_required"] = r.random() < 0.5
    p["extra"] = {n: (r.random() < 0.4, r.choice(KINDS)) for n in r.sample(EXTRA, r.choice([0, 0, 1, 3]))}
    if "attrs" not in p and r.random() < 0.2:
        p["extra"]["attrs"] = (r.random() < 0.5, adf.O)      # attributes that stay plain data
    if cat == "node":
        if r.random() < 0.6:
            p["content"] = True
            p["content_required"] = r.random() < 0.4
        if r.random() < 0.5:
            p["marks"] = True
    return p


def sub_plan(r, taken, cat):
    """A subclass of a built-in class under another name, which parses like it."""
    own = adf.NODES if cat == "node" else adf.MARKS
    pool = [t for t in NAMES if t not in own and t not in taken]
    return {"cat": cat, "type": r.choice(pool), "base": r.choice([t for t in own if t != "doc"]), "class": r.choice(CLASSES), "typed": r.random() < 0.7}


def plans(r):
    out, taken = [], {"node": set(), "mark": set()}
    for _ in range(r.choice([1, 2, 3, 4])):
        cat = "node" if r.random() < 0.65 else "mark"
        p = (sub_plan if r.random() < 0.3 else spec_plan)(r, taken[cat], cat)
        taken[cat].add(p["type"])
        out.append(p)
    return out


def spec_for(p, r):
    if "base" in p:
        b = (adf.NODES if p["cat"] == "node" else adf.MARKS)[p["base"]]
        return adf.Spec(p["type"], "@" + p["type"], b.attrs, b.attrs_required, b.content, b.content_required, b.marks, b.extra, p["cat"])
    extra = {k: tuple(v) for k, v in p["extra"].items()}
    return adf.Spec(p["type"], "@" + p["type"], {k: tuple(v) for k, v in p["attrs"].items()} if "attrs" in p else None, p.get("attrs_required", False),
                    list(adf.NODES) if p.get("content") else None, p.get("content_required", False),
                    list(adf.MARKS) if p.get("marks") else None, extra, p["cat"])


@contextlib.contextmanager
def tables(ps):
    """The types of the plans in the field table of the checks."""
    keep = dict(adf.NODES), dict(adf.MARKS), dict(adf.ATTR_CLASS)
    try:
        for p in ps:
            s = spec_for(p, None)
            (adf.NODES if p["cat"] == "node" else adf.MARKS)[p["type"]] = s
        yield
    finally:
        for d, k in zip((adf.NODES, adf.MARKS, adf.ATTR_CLASS), keep):
            d.clear()
            d.update(k)


class Registry:
    """The two registries of the library, put back as they were at the end."""

    def __enter__(self):
        self.maps = {"node": importlib.import_module("atlas_doc_parser.nodes.parse_node").NODE_TYPE_TO_CLASS_MAPPING,
                     "mark": importlib.import_module("atlas_doc_parser.marks.parse_mark").MARK_TYPE_TO_CLASS_MAPPING}
        self.keep = {c: dict(m) for c, m in self.maps.items()}
        return self

    def add(self, cat, t, cls):
        self.maps[cat][t] = cls

    def remove(self, cat, t):
        del self.maps[cat][t]

    def __exit__(self, *a):
        for c, m in self.maps.items():
            m.clear()
            m.update(self.keep[c])


def make_class(name, base, fields, body=None):
    """A frozen dataclass as a programmer would write it: {field: (annotation, default)}."""
    ns = {"__annotations__": {n: a for n, (a, _) in fields.items()}, "__module__": "new_types", **{n: d for n, (_, d) in fields.items()}, **(body or {})}
    return dataclasses.dataclass(frozen=True)(type(name, (base,), ns))


class Api:
    """The library's names, and the made-up classes under the names of their specifications."""

    def __init__(self, api, classes):
        self.api, self.classes = api, classes

    def __getattr__(self, n):
        return self.classes[n] if n in self.classes else getattr(self.api, n)


def make(api, p, classes, body=None):
    """The class of a plan; its attributes' class under its own name."""
    import atlas_doc_parser.mark_or_node as mn
    from func_args.api import OPT, REQ
    t, cat = p["type"], p["cat"]
    key = f"@{cat}:{t}"
    table = adf.NODES if cat == "node" else adf.MARKS
    spec = table[t]
    spec.cls = key
    if "base" in p:
        b = getattr(api, table[p["base"]].cls)
        fields = {"type": (str, t)} if p["typed"] else {"type": (str, REQ)}
        cls = make_class(p["class"], b, fields, body)
        if spec.attrs is not None:
            classes[key + ":attrs"] = getattr(api, adf.ATTR_CLASS[p["base"]])
    else:
        fields = {"type": (str, t)} if p["typed"] else {}
        if spec.attrs is not None:
            acls = make_class(p["class"] + "Attrs", mn.Base, {n: (object, REQ if req else OPT) for n, (req, _) in spec.attrs.items()})
            classes[key + ":attrs"] = acls
            fields["attrs"] = (acls, REQ if spec.attrs_required else OPT)
        if spec.content is not None:
            fields["content"] = (list, REQ if spec.content_required else OPT)
        if spec.marks is not None:
            fields["marks"] = (list, OPT)
        for n, (req, _) in spec.extra.items():
            fields[n] = (dict if n == "attrs" else object, REQ if req else OPT)
        cls = make_class(p["class"], mn.BaseNode if cat == "node" else mn.BaseMark, fields, body)
    classes[key] = cls
    return cls


def generate(rng, i):
    if rng.random() < 0.2:
        return {"convert": True, "seed": i}
    if rng.random() < 0.1:
        cat = rng.choice(["node", "mark"])
        return {"replace": rng.choice(list(adf.NODES if cat == "node" else adf.MARKS)), "cat": cat, "variant": rng.randrange(4), "seed": i}
    ps = plans(rng)
    with tables(ps):
        case = full_case(rng, i)
        g = gen.Gen(rng, max_depth=rng.choice([1, 2, 3]), budget=rng.choice([3, 8, 20]))
        insert(case["doc"], case["cat"], ps, rng, g)
        extras(case["doc"], case["cat"], ps, rng, g)
    return {**case, "plans": ps}


def element(p, r, g):
    return g.mark([p["type"]]) if p["cat"] == "mark" else g.node(p["type"])


def extras(doc, cat, ps, r, g):
    """Further fields of the new elements: marks have none yet, nodes have all."""
    for _, el, c in list(adf.walk(doc, cat)):
        for p in ps:
            if (c, el["type"]) == (p["cat"], p["type"]):
                for n, (req, kind) in adf.spec_of(el, c).extra.items():
                    if n not in el:
                        el[n] = g.value(kind)
                    if not req and r.random() < 0.5:
                        del el[n]


def insert(doc, cat, ps, r, g):
    spots = [(el, key, kc) for _, el, c in adf.walk(doc, cat) if c == "node" for key, kc in (("content", "node"), ("marks", "mark"))
             if isinstance(el.get(key), list) and getattr(adf.spec_of(el, c), key) is not None]
    for p in ps:
        own = [s for s in spots if s[2] == p["cat"]]
        for _ in range(r.choice([1, 1, 2, 4])):
            if not own:
                break
            el, key, _ = r.choice(own)
            el[key].insert(r.randrange(len(el[key]) + 1), element(p, r, g))


def new_elements(doc, cat, names):
    return [(path, el, c) for path, el, c in adf.walk(doc, cat) if (c, el["type"]) in names]


def skipped(doc, cat, names):
    """The outermost elements of the new types, which are what is skipped without them."""
    out = []

    def go(el, c):
        if c != "node":
            return
        spec = adf.spec_of(el, c)
        for key, kc in (("content", "node"), ("marks", "mark")):
            if getattr(spec, key) is None or not isinstance(el.get(key), list):
                continue
            for k in el[key]:
                if (kc, k["type"]) in names:
                    out.append((kc, k["type"]))
                else:
                    go(k, kc)
    go(doc, cat)
    return out


class Log:
    def __enter__(self):
        import atlas_doc_parser.settings as settings
        self.settings = settings
        self.log = logging.getLogger("atlas_doc_parser")
        self.keep = (settings.WARN_UNIMPLEMENTED_TYPE, self.log.level, self.log.propagate, list(self.log.handlers))
        self.h = Records()
        self.log.handlers[:] = [self.h]
        self.log.setLevel(1)
        self.log.propagate = False
        settings.WARN_UNIMPLEMENTED_TYPE = True
        return self.h

    def __exit__(self, *a):
        self.settings.WARN_UNIMPLEMENTED_TYPE, level, self.log.propagate, self.log.handlers[:] = self.keep
        self.log.setLevel(level)


def check(api, case, mon):
    r = random.Random(f"c26:{case['seed']}")
    if "replace" in case:
        return replace(api, case, r, mon)
    if "convert" in case:
        return convert(api, r, mon)
    histories(api, case, r, mon)


def parse_new(api, el, cat):
    return api.parse_mark(el) if cat == "mark" else parse(api, el)


def histories(api, case, r, mon):
    from func_args.api import OPT
    doc, cat, ps = case["doc"], case["cat"], case["plans"]
    names = {(p["cat"], p["type"]) for p in ps}
    with Log() as h, Registry() as reg:
        without = pruned(doc, cat, names)

        def plain(when):
            """As without the types."""
            if (cat, doc["type"]) in names:
                try:
                    o = parse_new(api, copy.deepcopy(doc), cat)
                except api.UnimplementedTypeError as e:
                    return e.type_value, e.category
                mon.fail(f"{when} registration, type {doc['type']!r} parses to {o!r:.150}")
            h.got.clear()
            o = parse_new(api, copy.deepcopy(doc), cat)
            with_outer = skipped(doc, cat, names)
            if len(h.got) != len(with_outer):
                mon.fail(f"{when} registration, {len(h.got)} warning(s) for {len(with_outer)} element(s) of unknown type {with_outer[:5]}")
            d = o.to_dict()
            if not adf.strict_eq(d, adf.project(doc, cat)):
                mon.fail(f"{when} registration: {adf.first_diff(adf.project(doc, cat), d)}")
            mon.hit(f"skipped {when}", len(with_outer))
            return o

        before = plain("before")
        with tables(ps):
            first = True
            for round_ in range(r.choice([1, 2])):
                classes = {}
                for p in ps:
                    cls = make(api, p, classes)
                    reg.add(p["cat"], p["type"], cls)
                    mon.hit("subclasses of built-in types" if "base" in p else f"new {p['cat']} types")
                    if "attrs" in p.get("extra", ()):
                        mon.hit("attributes left as data")
                if len({p["class"] for p in ps}) < len(ps):
                    mon.hit("same class name twice")
                if not first:
                    mon.hit("registered again")
                first = False
                participate(api, Api(api, classes), doc, cat, ps, names, h, OPT, r, mon)
        for p in ps:
            reg.remove(p["cat"], p["type"])
        after = plain("after")
        if not (before == after):
            mon.fail("registering and removing types leaves a different outcome behind")
        if not isinstance(after, tuple) and not adf.strict_eq(after.to_dict(), adf.project(without, cat)):
            mon.fail("the document is not the one without the elements")
    mon.seen((adf.shape(doc, cat), repr(ps)))


def pruned(doc, cat, names):
    doc = copy.deepcopy(doc)

    def go(el, c):
        spec = adf.spec_of(el, c)
        for key, kc in (("content", "node"), ("marks", "mark")):
            if c == "node" and spec is not None and getattr(spec, key) is not None and isinstance(el.get(key), list):
                el[key] = [k for k in el[key] if (kc, k["type"]) not in names]
                for k in el[key]:
                    go(k, kc)
    go(doc, cat)
    return doc


def participate(api, full, doc, cat, ps, names, h, OPT, r, mon):
    elements = new_elements(doc, cat, names)
    mon.hit("elements of new types", len(elements))
    if any((c2, el2["type"]) in names and p2 and len(p2) > len(p1) and p2[:len(p1)] == p1 for p1, _, _ in elements for p2, el2, c2 in elements):
        mon.hit("new types inside new types")
    want = adf.project(doc, cat)
    h.got.clear()
    given = copy.deepcopy(doc)
    o = parse_new(api, given, cat)
    if h.got:
        mon.fail(f"warning for a registered type: {h.got[0].getMessage()!r:.200}")
    if not adf.strict_eq(given, doc):
        mon.fail("parsing changed the input")
    walk_objects(full, o, want, cat, OPT, mon)
    d = o.to_dict()
    if not adf.strict_eq(d, want):
        mon.fail(f"serialises differently: {adf.first_diff(want, d)}")
    again = parse_new(api, d, cat)
    mon.hit("serialised and parsed again")
    if not (again == o) or again != o:
        mon.fail("parsing what was serialised gives a different object")
    for path, el, c in r.sample(elements, min(3, len(elements))):
        key = f"@{c}:{el['type']}"
        cls = full.classes[key]
        spec = adf.spec_of(el, c)
        x = cls.from_dict(copy.deepcopy(el))
        y = parse_new(api, copy.deepcopy(el), c)
        inside = o
        for a, b in zip(path[::2], path[1::2]):
            inside = getattr(inside, a)[b]
        if type(x) is not cls or not (x == y) or not (x == inside):
            mon.fail(f"a {key} parsed by its class, by the parser and inside the document are not equal")
        # built by hand
        mon.hit("constructed")
        kw = {k: v for k, v in vars_of(x, OPT).items() if k != "type" or not default_type(cls)}
        z = cls(**kw)
        if not (z == x) or not adf.strict_eq(z.to_dict(), x.to_dict()):
            mon.fail(f"a {key} built from the fields of a parsed one is not equal to it")
        # no member of the enumeration but its own
        for m in api.TypeEnum:
            if x.is_type_of(m) is not (m.value == el["type"]) or x.is_type_of([m]) is not (m.value == el["type"]):
                mon.fail(f"{key}: is_type_of({m}) is wrong")
        # what it requires
        for where, n in [("attrs", n) for n, (req, _) in (spec.attrs or {}).items() if req and "attrs" in el] + [
                (None, n) for n, (req, _) in spec.extra.items() if req] + [
                (None, "attrs")] * spec.attrs_required + [(None, "content")] * spec.content_required:
            bad = copy.deepcopy(doc)
            e = adf.at(bad, path)
            del (e[where] if where else e)[n]
            mon.hit("missing parts")
            for what, arg, c1 in (("in the document", bad, cat), ("alone", e, c)):
                try:
                    got = parse_new(api, arg, c1)
                except api.ParamError:
                    continue
                except Exception as ex:
                    mon.fail(f"{key} {what} without its {where or ''} {n} raises {type(ex).__name__}: {str(ex)[:150]}, not ParamError")
                mon.fail(f"{key} {what} without its {where or ''} {n} parses to {got!r:.200}")
        # what it does not know
        bad = copy.deepcopy(doc)
        e = adf.at(bad, path)
        for n in ("unknown", "content", "marks", "attrs"):
            if n not in spec.fields:
                e[n] = r.choice([5, None, [], {"a": 1}, [5], "x", [{"type": "nope"}]])
        if spec.attrs is not None and isinstance(e.get("attrs"), dict):
            e["attrs"]["unknown"] = {"a": [1]}
        mon.hit("unknown fields")
        h.got.clear()
        if not (parse_new(api, bad, cat) == o) or h.got:
            mon.fail(f"unknown fields of a {key} change the outcome")
        for n in spec.fields:
            mon.hit("write attempts")
            try:
                setattr(x, n, 1)
            except dataclasses.FrozenInstanceError:
                continue
            mon.fail(f"{n} of a {key} can be written")


def default_type(cls):
    f = cls.__dataclass_fields__["type"]
    return isinstance(f.default, str)


def vars_of(x, OPT):
    return {f.name: getattr(x, f.name) for f in dataclasses.fields(x) if getattr(x, f.name) is not OPT}


def walk_objects(full, o, want, cat, OPT, mon):
    """C05's mirror, with the attribute classes of the new types (a node and a mark may share a name)."""
    def go(o, el, cat, path):
        spec = adf.spec_of(el, cat)
        cls = getattr(full, spec.cls)
        mon.hit("elements compared")
        if type(o) is not cls:
            mon.fail(f"{path}: {cat} {spec.type} parsed to a {type(o).__module__}.{type(o).__name__}, registered {cls.__module__}.{cls.__name__}")
        if o.type != spec.type:
            mon.fail(f"{path}: {spec.type} has type {o.type!r}")
        for f in spec.fields - {"type"}:
            v = getattr(o, f)
            if f not in el:
                if v is not OPT:
                    mon.fail(f"{path}: {spec.type} without {f} has {v!r:.80} there")
            elif f == "attrs" and spec.attrs is not None:
                acls = full.classes[spec.cls + ":attrs"] if spec.cls.startswith("@") else getattr(full, adf.ATTR_CLASS[spec.type])
                if type(v) is not acls:
                    mon.fail(f"{path}: attributes of {spec.type} are a {type(v).__module__}.{type(v).__name__}")
                for a in spec.attrs:
                    x = getattr(v, a)
                    if (x is not OPT) if a not in el["attrs"] else not adf.strict_eq(x, el["attrs"][a]):
                        mon.fail(f"{path}: attribute {a} of {spec.type} is {x!r:.80}, given {el['attrs'].get(a, 'nothing')!r:.80}")
            elif f in ("content", "marks"):
                if type(v) is not list or len(v) != len(el[f]):
                    mon.fail(f"{path}: {f} of {spec.type}: {len(v)} items, given {len(el[f])}")
                for i, (x, y) in enumerate(zip(v, el[f])):
                    go(x, y, "node" if f == "content" else "mark", f"{path}.{f}[{i}]")
            elif not adf.strict_eq(v, el[f]):
                mon.fail(f"{path}: {f} of {spec.type} is {v!r:.80}, given {el[f]!r:.80}")
    go(o, want, cat, "$")


# ------------------------------------------------------------------- built-in types replaced
def replace(api, case, r, mon):
    """A subclass under the name of a built-in type: it is used, everywhere, and nothing else changes."""
    from func_args.api import OPT
    import atlas_doc_parser.mark_or_node as mn
    t, cat, variant = case["replace"], case["cat"], case["variant"]
    table = adf.NODES if cat == "node" else adf.MARKS
    spec = table[t]
    base = getattr(api, spec.cls)
    g = gen.Gen(r, max_depth=5, budget=r.choice([10, 40]))
    doc = g.doc() if t != "doc" else gen.wrap("doc", [g.node("blockquote"), g.doc()])
    if t != "doc":
        fits = [(el, key) for _, el, c in adf.walk(doc) if c == "node" for key in ("content", "marks")
                if isinstance(el.get(key), list) and getattr(adf.spec_of(el, c), key) is not None and (key == "content") == (cat == "node")]
        for _ in range(3):
            if fits:
                el, key = r.choice(fits)
                el[key].insert(r.randrange(len(el[key]) + 1), g.node(t) if cat == "node" else g.mark([t]))
    doc.setdefault("content", []).append({"type": "paragraph", "content": [{"type": "text", "text": "x", "marks": [g.mark([t])] if cat == "mark" else []}]}
                                         if cat == "mark" else g.node(t))
    name = base.__name__ if r.random() < 0.5 else "Other"
    fields, extra_field = {}, None
    if variant == 1:
        extra_field = "added"
        fields = {"added": (str, OPT)}
    elif variant == 2 and spec.attrs is not None:
        acls = make_class(name + "Attrs", getattr(api, adf.ATTR_CLASS[t]), {"added": (str, OPT)})
        from func_args.api import REQ
        fields = {"attrs": (acls, REQ if spec.attrs_required else OPT)}
        mon.hit("other attributes")
    for el in [el for _, el, c in adf.walk(doc) if el["type"] == t and c == cat]:
        if variant == 1:
            el["added"] = "A"
        elif variant == 2 and isinstance(el.get("attrs"), dict):
            el["attrs"]["added"] = "A"
    Sub = make_class(name, base, fields) if variant != 3 else type(name, (base,), {"__module__": "new_types"})
    mon.hit("built-in types replaced")
    first = parse(api, copy.deepcopy(doc))
    md = [outcome(first, e) for e in (False, True)]
    with Registry() as reg:
        reg.add(cat, t, Sub)
        o = parse(api, copy.deepcopy(doc))
        got = [outcome(o, e) for e in (False, True)]
        for x in objects(o):
            if isinstance(x, base) and x is not o and type(x) is not Sub:
                mon.fail(f"a {t} is still parsed to the class registered before")
            if type(x) is Sub:
                mon.hit("elements of new types")
                if variant == 1:
                    mon.hit("more fields")
                    if x.added != "A":
                        mon.fail(f"the added field of a {t} is {x.added!r}")
                if variant == 2 and spec.attrs is not None and x.attrs is not OPT:
                    if type(x.attrs) is not acls or x.attrs.added != "A":
                        mon.fail(f"the attributes of a {t} are a {type(x.attrs).__name__}, not of the class's own")
        d = o.to_dict()
        w = adf.project(doc)
        paths = [p for p, el, c in adf.walk(w) if el["type"] == t and c == cat and p]
        for p in paths:
            e = adf.at(w, p)
            if variant == 1:
                e["added"] = "A"
            elif variant == 2 and spec.attrs is not None and isinstance(e.get("attrs"), dict):
                e["attrs"]["added"] = "A"
        if not adf.strict_eq(d, w):
            mon.fail(f"with {t} replaced by a subclass, the document serialises differently: {adf.first_diff(w, d)}")
        # an error may name the class
        if [x[:1] if isinstance(x, tuple) else x for x in got] != [x[:1] if isinstance(x, tuple) else x for x in md] or any(
                type(x) is not type(y) for x, y in zip(got, md)):
            mon.fail(f"with {t} replaced by a subclass, the Markdown differs: {got!r:.300} / {md!r:.300}")
    o = parse(api, copy.deepcopy(doc))
    if not (o == first) or [outcome(o, e) for e in (False, True)] != md:
        mon.fail(f"after {t} was replaced and restored, its documents parse differently")
    mon.seen((t, cat, variant, adf.shape(doc)))


def outcome(o, e):
    try:
        return o.to_markdown(ignore_error=e)
    except Exception as ex:
        return type(ex).__name__, str(ex)


# ------------------------------------------------------------------- conversion
INLINE_HOSTS = ("paragraph", "heading", "taskItem", "decisionItem", "caption")
BLOCK_HOSTS = ("doc", "blockquote", "panel", "expand", "nestedExpand", "tableCell", "tableHeader")
HIDDEN = ("mediaGroup", "mediaInline", "caption")


def convert(api, r, mon):
    import atlas_doc_parser.mark_or_node as mn
    g = gen.Safe(r, budget=r.choice([6, 20, 40]), max_depth=4, features={"richcells"})
    doc = g.doc(r.sample(adf.DOC_CHILDREN, r.choice([2, 5, 17])))
    doc["content"].append({"type": "paragraph", "content": [{"type": "text", "text": "last", "marks": [{"type": "em"}]}]})
    t = r.choice([n for n in NAMES if n not in adf.NODES and n not in adf.MARKS])
    flags = []

    def spots(hosts, key="content"):
        return [el for p, el, c in adf.walk(doc) if c == "node" and el["type"] in hosts and isinstance(el.get(key), list)
                and not any(k in HIDDEN for k in types_on(doc, p))]

    def variants(hosts, key, *elements, times=1):
        """The document with each of the elements in the same random places."""
        places = [(r.randrange(10 ** 6), r.random()) for _ in range(times)]
        out = []
        for e in elements:
            d = copy.deepcopy(doc)
            own = [el for p, el, c in adf.walk(d) if c == "node" and el["type"] in hosts and isinstance(el.get(key), list)
                   and not any(k in HIDDEN for k in types_on(d, p))]
            for a, b in places:
                kids = own[a % len(own)][key]
                if e is not None:
                    kids.insert(int(b * (len(kids) + 1)), copy.deepcopy(e))
            out.append(d)
        return out

    def both(d):
        o = api.NodeDoc.from_dict(d)
        return [outcome(o, False), outcome(o, True)]

    times = r.choice([1, 1, 2, 3])
    with Registry() as reg:
        # a node that does not convert is one: as a built-in one that fails, in the same place
        for hosts, builtin, what in ((INLINE_HOSTS[:-1], {"type": "inlineCard", "attrs": {}}, "unconvertible inlines"),
                                     (BLOCK_HOSTS, {"type": "blockCard", "attrs": {}}, "unconvertible blocks")):
            if not spots(hosts):
                continue
            reg.add("node", t, make_class("NodeBare", mn.BaseNode, {"type": (str, t)}))
            a, b, c = variants(hosts, "content", {"type": t}, builtin, None, times=times)
            mon.hit(what)
            ga, gb = both(a), both(b)
            if not isinstance(ga[0], tuple) or ga[0][0] != "NotImplementedError":
                mon.fail(f"a new type without conversion converts strictly to {ga[0]!r:.200}")
            if "NodeBare" not in ga[0][1]:
                mon.fail(f"the error of a new type without conversion does not name its class: {ga[0][1]!r:.200}")
            if ga[1] != gb[1]:
                mon.fail(f"a new type without conversion is not left out as a failing built-in one: {ga[1]!r:.200} / {gb[1]!r:.200}")
            # one with its own error
            def boom(self, ignore_error=False):
                flags.append(ignore_error)
                raise LookupError("own error")
            reg.add("node", t, make_class("NodeBoom", mn.BaseNode, {"type": (str, t)}, {"to_markdown": boom}))
            flags.clear()
            o = api.NodeDoc.from_dict(a)
            ga = [outcome(o, False)]
            strict = set(flags)
            flags.clear()
            ga.append(outcome(o, True))
            if ga[0] != ("LookupError", "own error") or ga[1] != gb[1]:
                mon.fail(f"the error of a new type: strictly {ga[0]!r:.150}, leniently {ga[1]!r:.150}")
            mon.hit("leniency seen")
            if strict != {False} or set(flags) != {True}:
                mon.fail(f"strict and lenient conversion reach a new type as ignore_error = {strict} and {set(flags)}")
        # what an inline node converts to stands where its text would
        token = f"Tok{r.randrange(10 ** 6)}en"
        if spots(INLINE_HOSTS):
            reg.add("node", t, make_class("NodeTok", mn.BaseNode, {"type": (str, t), "text": (str, "")}, {"to_markdown": lambda self, ignore_error=False: self.text}))
            a, b = variants(INLINE_HOSTS, "content", {"type": t, "text": token}, {"type": "text", "text": token}, times=times)
            mon.hit("inline output")
            if both(a) != both(b):
                mon.fail(f"what a new inline type converts to stands elsewhere than a text: {both(a)!r:.300} / {both(b)!r:.300}")
        # what a block converts to is on a line of its own, in order
        reg.add("node", t, make_class("NodeBlk", mn.BaseNode, {"type": (str, t)}, {"to_markdown": lambda self, ignore_error=False: token}))
        a, b = variants(BLOCK_HOSTS, "content", {"type": t}, {"type": "paragraph", "content": [{"type": "text", "text": token}]}, times=times)
        mon.hit("block output")
        for x, y in zip(both(a), both(b)):
            if essence(x) != essence(y):
                mon.fail(f"what a new block type converts to is not where a paragraph would be: {x!r:.300} / {y!r:.300}")
        # marks
        for cls, fold in ((make_class("MarkBare", mn.BaseMark, {"type": (str, t)}), None),
                          (make_class("MarkWrap", mn.BaseMark, {"type": (str, t), "note": (str, "")},
                                      {"to_markdown": lambda self, text: f"<{self.note}{text}>"}), "q")):
            if not spots(("text",), "marks"):
                continue
            reg.add("mark", t, cls)
            a, b = variants(("text",), "marks", {"type": t, "note": "q"}, None, times=times)
            if fold is None:
                mon.hit("marks without syntax")
                if both(a) != both(b):
                    mon.fail(f"a new mark without syntax changes the Markdown: {both(a)!r:.300} / {both(b)!r:.300}")
            else:
                o = api.NodeDoc.from_dict(a)
                for x in objects(o):
                    if x.type == "text" and isinstance(x.marks, list):
                        want = x.text
                        for m in x.marks:
                            want = f"<q{want}>" if m.type == t else m.to_markdown(want)
                        mon.hit("marks folded")
                        if x.to_markdown() != want:
                            mon.fail(f"text with a new mark converts to {x.to_markdown()!r}, not {want!r}")
                        for line in want.split("\n"):
                            if line.replace("|", "\\|") not in outcome(o, True).replace("\\\\|", "\\|") and line not in outcome(o, True):
                                mon.fail(f"text with a new mark is not in the Markdown: {line!r}")
    mon.seen(("convert", adf.shape(doc), times))


def essence(md):
    """The lines, also those inside cells, that are not blank, without the marks of quotes."""
    if not isinstance(md, str):
        return md
    return [x for x in (p.strip("> ") for p in re.split(r"<br>|\n| \| |^\| | \|$", md, flags=re.M)) if x]


def types_on(doc, path):
    el, out = doc, []
    for k in path[:-1] if path and not isinstance(path[-1], int) else path:
        el = el[k]
        if isinstance(el, dict):
            out.append(el["type"])
    return out
