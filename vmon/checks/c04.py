"""C04: malformed elements are reported, never dropped."""
import copy
import logging
import random

from .. import adf, gen
from .c03 import element, unimplemented
from .common import cls_of, full_case, full_directed, parse

ID = "C04"
QUICK, THOROUGH = 14000, 180000
GIANTS = "all"
GIANT_SCALE = 0.3
RULE = ("valid documents in which one element at any depth is broken (type removed, required field or attribute removed, element "
        "or attributes replaced by a non-object), with skippable unimplemented siblings and warnings on or off; plus every class "
        "constructed without each of its required fields; distinct by skeleton, place and kind of damage")
ESSENTIAL = ["no type", "type not a name", "no required attribute", "no required field", "not an object", "attrs not an object", "constructor",
             "depth 3+", "with skippable siblings", "healthy twin parses"]
NOT_OBJECT = [None, 5, 0, True, "", "x", "type", "paragraph", [], ["type"], 1.5, [{"type": "paragraph"}]]


def faults(doc, cat):
    out = []
    for path, el, c in adf.walk(doc, cat):
        spec = adf.spec_of(el, c)
        if path:
            out.append((path, "no type", None))
            out.append((path, "type not a name", None))
            out.append((path, "not an object", None))
        for n, (req, _) in spec.extra.items():
            if req:
                out.append((path, "no required field", n))
        if spec.content_required:
            out.append((path, "no required field", "content"))
        if spec.attrs is not None:
            if spec.attrs_required:
                out.append((path, "no required field", "attrs"))
            if isinstance(el.get("attrs"), dict):
                for n, (req, _) in spec.attrs.items():
                    if req:
                        out.append((path, "no required attribute", n))
            out.append((path, "attrs not an object", None))
    return out


def directed():
    out = []
    for c in full_directed():
        if adf.size(c["doc"]) <= 3:
            out.append({**c, "all": True})
    out.append({"constructors": True})
    return out


def generate(rng, i):
    return full_case(rng, i)


def damage(doc, path, kind, name, r, cat):
    doc = copy.deepcopy(doc)
    el = adf.at(doc, path)
    if kind == "no type":
        del el["type"]
    elif kind == "type not a name":
        el["type"] = r.choice([[], {}, [el["type"]], {"type": el["type"]}, {el["type"]: None}, [[el["type"]]]])
    elif kind == "not an object":
        adf.at(doc, path[:-1])[path[-1]] = r.choice(NOT_OBJECT)
    elif kind == "no required field":
        del el[name]
    elif kind == "no required attribute":
        del el["attrs"][name]
    else:
        # a list or a text in place of attributes that are all optional lacks every attribute, as {} does: not claimed
        some = any(req for req, _ in adf.spec_of(el, ("node" if path[-2] == "content" else "mark") if path else cat).attrs.values())
        el["attrs"] = r.choice([x for x in NOT_OBJECT if some or not isinstance(x, (str, list))])
    return doc


def check(api, case, mon):
    import atlas_doc_parser.settings as settings
    if case.get("constructors"):
        return constructors(api, mon)
    doc, cat = case["doc"], case["cat"]
    r = random.Random(f"c04:{case['seed']}")
    parse(api, copy.deepcopy(doc), cat)     # the healthy document parses
    mon.hit("healthy twin parses")
    fs = faults(doc, cat)
    if not case.get("all") and len(fs) > 12:
        byk = {}
        for f in fs:
            byk.setdefault(f[1], []).append(f)
        fs = [r.choice(byk[r.choice(list(byk))]) for _ in range(12)]
    log = logging.getLogger("atlas_doc_parser")
    keep = settings.WARN_UNIMPLEMENTED_TYPE
    try:
        for path, kind, name in fs:
            settings.WARN_UNIMPLEMENTED_TYPE = r.random() < 0.5
            bad = damage(doc, path, kind, name, r, cat)
            if path and r.random() < 0.6:
                sibs = adf.at(bad, path[:-1])
                kc = "node" if path[-2] == "content" else "mark"
                for _ in range(r.choice([1, 2])):
                    t, _k = unimplemented(kc, r, gen.Gen(r))
                    sibs.insert(r.choice([path[-1], len(sibs)]), element(t, r, gen.Gen(r)))
                mon.hit("with skippable siblings")
            mon.hit(kind)
            if len(path) >= 6:
                mon.hit("depth 3+")
            where = f"{kind} {name or ''} at {'/'.join(map(str, path)) or 'the top'} of a {doc['type']}"
            try:
                got = parse(api, bad, cat)
            except api.ParamError:
                pass
            except Exception as e:
                if kind.startswith("no required"):
                    mon.fail(f"{where}: raises {type(e).__name__} ({str(e)[:150]}), not the exported ParamError")
            else:
                mon.fail(f"{where}: no error, parses to {got!r:.200}")
            mon.seen((adf.shape(doc, cat), path, kind, name))
    finally:
        settings.WARN_UNIMPLEMENTED_TYPE = keep


def constructors(api, mon):
    import atlas_doc_parser.exc as exc
    g = gen.Gen(random.Random(4))
    if exc.ParamError is not api.ParamError:
        mon.fail("two different ParamError classes are exported")
    for table in (adf.NODES, adf.MARKS):
        for spec in table.values():
            full = {n: "w" for n, (req, _) in spec.extra.items() if req}
            if spec.content_required:
                full["content"] = []
            if spec.attrs is not None:
                acls = getattr(api, adf.ATTR_CLASS[spec.type])
                req = {n: g.value(k) for n, (rq, k) in spec.attrs.items() if rq}
                acls(**req)
                for n in req:
                    expect_param_error(api, acls, {k: v for k, v in req.items() if k != n}, f"without {n}", mon)
                    expect_param_error(api, acls.from_dict, None, f"without {n}", mon,
                                       args=[{k: v for k, v in req.items() if k != n}])
                if spec.attrs_required:
                    full["attrs"] = acls(**req)
            cls = getattr(api, spec.cls)
            cls(**full)
            for n in full:
                rest = {k: v for k, v in full.items() if k != n}
                expect_param_error(api, cls, rest, f"without {n}", mon)
                expect_param_error(api, cls, {"type": spec.type, **rest}, f"without {n}", mon)
    mon.seen("constructors")


def expect_param_error(api, fn, kw, what, mon, args=()):
    mon.hit("constructor")
    name = getattr(fn, "__qualname__", fn)
    try:
        got = fn(*args, **(kw or {}))
    except api.ParamError:
        return
    except Exception as e:
        mon.fail(f"{name} {what} raises {type(e).__name__}: {str(e)[:150]}, not the exported ParamError")
    mon.fail(f"{name} {what} does not raise: {got!r:.200}")
