"""C01: parsing then serialising is the identity on the modelled part of a document."""
import copy
import json

from .. import adf
from .common import ALL_TYPES, build, full_case, full_directed, known_types, parse, plain_json

ID = "C01"
QUICK, THOROUGH = 18000, 250000
GIANTS = "all"
RULE = ("random valid documents (and single nodes and marks) over all 35 node and 16 mark types with hostile values, plus "
        "every type with every attribute at its corner values and real exported documents; non-trivial and distinct: by the "
        "skeleton of types, attribute names and nesting")
ESSENTIAL = ["round trips", "constructed", "constructed of shared parts", "null attributes", "reparsed", "datasource objects"] + ALL_TYPES
ASSUMES = ["the table of modelled fields in vmon/adf.py (written from the documentation) is the model"]


def directed():
    return full_directed()


def generate(rng, i):
    return full_case(rng, i)


def check(api, case, mon):
    doc, cat = case["doc"], case["cat"]
    want = adf.project(doc, cat)
    given = copy.deepcopy(doc)
    o = parse(api, given, cat)
    out = o.to_dict()
    mon.hit("round trips")
    known_types(doc, mon, cat)
    for _, el, c in adf.walk(want, cat):
        if None in (el.get("attrs") or {}).values():
            mon.hit("null attributes")
    bad = plain_json(out)
    if bad:
        mon.fail(f"serialised form is not plain JSON at {bad}")
    if not adf.strict_eq(out, want):
        mon.fail("round trip differs (given vs serialised): " + str(adf.first_diff(want, out)))
    json.loads(json.dumps(out))
    o2 = parse(api, out, cat)
    mon.hit("reparsed")
    if not (o2 == o) or o2 != o:
        mon.fail("the object parsed from the serialised form is not equal to the first one")
    if not adf.strict_eq(o2.to_dict(), want):
        mon.fail("second round trip differs: " + str(adf.first_diff(want, o2.to_dict())))
    for with_type, memo in ((True, None), (False, None), (True, {})):
        b = build(api, want, cat, with_type, memo=memo)
        mon.hit("constructed")
        if memo is not None:
            mon.hit("constructed of shared parts")
        if not (b == o):
            mon.fail(f"the same element built by constructors (type given: {with_type}, equal parts shared: {memo is not None}) is not equal to the parsed one")
        if not adf.strict_eq(b.to_dict(), want):
            mon.fail("built by constructors, it serialises differently: " + str(adf.first_diff(want, b.to_dict())))
    if any(isinstance((el.get("attrs") or {}).get("datasource"), dict) for _, el, c in adf.walk(want, cat) if el["type"] == "blockCard"):
        b = build(api, want, cat, objects=True)
        out = b.to_dict()
        mon.hit("datasource objects")
        bad = plain_json(out)
        if bad:
            mon.fail(f"serialised form of an object built by constructors is not plain JSON at {bad}")
        if not adf.strict_eq(out, want):
            mon.fail("built by constructors with datasource objects, it serialises differently: " + str(adf.first_diff(want, out)))
    for name in ("to_kwargs",):
        if isinstance(doc.get("attrs"), dict) and adf.spec_of(doc, cat).attrs is not None:
            mon.hit("attribute objects")
            if not adf.strict_eq(o.attrs.to_dict(), want["attrs"]):
                mon.fail("attribute object: " + str(adf.first_diff(want["attrs"], o.attrs.to_dict())))
    mon.seen(adf.shape(doc, cat))
