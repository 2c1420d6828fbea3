"""C05: the parsed tree mirrors the document, with the right classes."""
import copy
import json
import random

from .. import adf, gen
from .common import ALL_TYPES, build, cls_of, full_case, full_directed, known_types, parse

ID = "C05"
QUICK, THOROUGH = 12000, 200000
GIANTS = "all"
RULE = ("random valid documents over all types; monitors walk the parsed tree beside the document (class, type, attributes, omitted "
        "fields, order), ask every type test, and compare with twins that differ in one value or in none; distinct by skeleton")
ESSENTIAL = ["elements compared", "type tests", "omitted fields", "different twins", "equal twins", "typed attributes", "documents built without version"] + ALL_TYPES


def directed():
    return full_directed()


def generate(rng, i):
    return full_case(rng, i)


def mirror(api, o, el, cat, OPT, mon, path="$"):
    spec = adf.spec_of(el, cat)
    cls = getattr(api, spec.cls)
    mon.hit("elements compared")
    if type(o) is not cls:
        mon.fail(f"{path}: {spec.type} parsed to a {type(o).__name__}")
    if type(o.type) is not str or o.type != spec.type:
        mon.fail(f"{path}: {spec.type} has type {o.type!r}")
    for f in spec.fields:
        if not hasattr(o, f):
            mon.fail(f"{path}: {spec.type} object has no field {f}")
        v = getattr(o, f)
        if f not in el:
            mon.hit("omitted fields")
            if v is not OPT or o.is_opt(v) is not True:
                mon.fail(f"{path}: {spec.type} without {f} has {v!r:.80} there")
            continue
        if o.is_opt(v):
            mon.fail(f"{path}: given field {f} of {spec.type} is marked as omitted")
        if f == "attrs":
            acls = getattr(api, adf.ATTR_CLASS[spec.type])
            if type(v) is not acls:
                mon.fail(f"{path}: attributes of {spec.type} are a {type(v).__name__}")
            mon.hit("typed attributes")
            for a in spec.attrs:
                x = getattr(v, a)
                if a not in el["attrs"]:
                    mon.hit("omitted fields")
                    if x is not OPT:
                        mon.fail(f"{path}: {spec.type} without attribute {a} has {x!r:.80} there")
                elif v.is_opt(x):
                    mon.fail(f"{path}: given attribute {a} of {spec.type}, {x!r:.80}, is marked as omitted")
                elif not adf.strict_eq(x, el["attrs"][a]):
                    mon.fail(f"{path}: attribute {a} of {spec.type} is {x!r:.80}, given {el['attrs'][a]!r:.80}")
        elif f in ("content", "marks"):
            if type(v) is not list or len(v) != len(el[f]):
                mon.fail(f"{path}: {f} of {spec.type} has {len(v) if isinstance(v, list) else v!r} items, given {len(el[f])}")
            for i, (x, y) in enumerate(zip(v, el[f])):
                mirror(api, x, y, "node" if f == "content" else "mark", OPT, mon, f"{path}.{f}[{i}]")
        elif not adf.strict_eq(v, el[f]):
            mon.fail(f"{path}: {f} of {spec.type} is {v!r:.80}, given {el[f]!r:.80}")


def objects(o):
    yield o
    for f in ("content", "marks"):
        v = getattr(o, f, None)
        if isinstance(v, list):
            for x in v:
                yield from objects(x)


def type_tests(api, o, r, mon):
    TE = api.TypeEnum
    members = {m.value: m for m in TE}
    for v, m in members.items():
        mon.hit("type tests")
        got, want = o.is_type_of(m), v == o.type
        if got is not want:
            mon.fail(f"{o.type} element: is_type_of({m}) is {got!r}")
        if o.is_type_of([m]) is not want:
            mon.fail(f"{o.type} element: is_type_of([{m}]) is not {want}")
    for _ in range(6):
        k = r.choice([0, 1, 2, 3, 10, len(members)])
        lst = r.sample(list(members.values()), min(k, len(members)))
        if r.random() < 0.3 and lst:
            lst = lst + [r.choice(lst)]
        x = r.random()
        if x < 0.3:             # every type but its own
            lst = [m for m in lst if m.value != o.type]
        elif x < 0.5:           # its own among others, at any place
            lst.insert(r.randrange(len(lst) + 1), members[o.type])
        keep = list(lst)
        want = o.type in [m.value for m in lst]
        if o.is_type_of(lst) is not want:
            mon.fail(f"{o.type} element: is_type_of({lst}) is not {want}")
        if lst != keep:
            mon.fail("a type test changes the list it is given")


def twins(doc, cat, r):
    """Documents whose modelled content differs from this one in exactly one place."""
    places = []
    for path, el, c in adf.walk(doc, cat):
        spec = adf.spec_of(el, c)
        if isinstance(el.get("attrs"), dict) and spec.attrs:
            places += [(path, "attr", n) for n in spec.attrs]
        for f in ("content", "marks"):
            if isinstance(el.get(f), list) and (spec.content if f == "content" else spec.marks) is not None:
                places.append((path, "list", f))
                if not el[f]:
                    required = f == "content" and spec.content_required
                    if not required:
                        places.append((path, "drop", f))
            elif f in spec.fields:
                places.append((path, "add", f))
        if "text" in spec.extra:
            places.append((path, "text", None))
    g = gen.Gen(r)
    for _ in range(min(8, len(places))):
        path, how, n = r.choice(places)
        t = copy.deepcopy(doc)
        el = adf.at(t, path)
        if how == "attr":
            req = adf.spec_of(el, "mark" if path and path[-2] == "marks" else "node" if path else cat).attrs[n][0]
            cur = el["attrs"].get(n, "<missing>")
            if n in el["attrs"] and not req and r.random() < 0.4:
                del el["attrs"][n]
            else:
                new = r.choice([None, "", "other", 7, [], {}, [cur], g.json()])
                try:
                    if new == cur:
                        continue
                except Exception:
                    continue
                el["attrs"][n] = new
        elif how == "list":
            kids = el[n]
            x = r.random()
            kc = "node" if n == "content" else "mark"
            if x < 0.4 or not kids:
                kids.insert(r.randrange(len(kids) + 1), {"type": "rule"} if kc == "node" else {"type": "em"})
            elif x < 0.7:
                kids.pop(r.randrange(len(kids)))
            else:
                i, j = r.randrange(len(kids)), r.randrange(len(kids))
                kids[i], kids[j] = kids[j], kids[i]
        elif how == "drop":
            del el[n]
        elif how == "add":
            el[n] = []
        else:
            el["text"] = el["text"] + r.choice(["x", " ", "\n"])
        yield t, (path, how, n)


def check(api, case, mon):
    from func_args.api import OPT
    doc, cat = case["doc"], case["cat"]
    r = random.Random(f"c05:{case['seed']}")
    known_types(doc, mon, cat)
    o = parse(api, copy.deepcopy(doc), cat)
    want = adf.project(doc, cat)
    mirror(api, o, want, cat, OPT, mon)
    objs = list(objects(o))
    for x in (objs if len(objs) <= 6 else [objs[0]] + r.sample(objs, 5)):
        type_tests(api, x, r, mon)
    b = build(api, want, cat, with_type=False)
    for x, y in zip(objects(b), objs):
        if x.type != y.type or type(x) is not type(y):
            mon.fail(f"a {type(x).__name__} built without a type has type {x.type!r}")
    if want.get("type") == "doc":
        d = api.NodeDoc(content=b.content)
        mon.hit("documents built without version")
        if type(d.version) is not int or d.version != 1 or d.type != "doc" or d.content is not b.content:
            mon.fail(f"a document built from content alone has version {d.version!r} and type {d.type!r}")
    # equality
    other = parse(api, json.loads(json.dumps(doc)), cat)
    mon.hit("equal twins")
    if not (o == other) or (o != other) or not (o == b):
        mon.fail("two objects of one document are not equal")
    for t, what in twins(want, cat, r):
        same = adf.project(t, cat) == want
        p = parse(api, t, cat)
        mon.hit("equal twins" if same else "different twins")
        if (p == o) is not same or (p != o) is same:
            mon.fail(f"documents that {'do not differ' if same else 'differ'} at {what} parse to "
                     f"{'different' if same else 'equal'} objects")
    for x in (None, 0, want, o.to_dict(), object()):
        if o == x:
            mon.fail(f"a parsed object equals {type(x).__name__}")
    mon.seen(adf.shape(doc, cat))
