"""C06: isolation from the caller's data, and immutability."""
import copy
import dataclasses
import random

from .. import adf, gen
from .c02 import inject
from .common import ALL_TYPES, full_case, full_directed, known_types, md_or_error, parse

ID = "C06"
QUICK, THOROUGH = 8000, 150000
GIANTS = "all"
GIANT_SCALE = 0.5
RULE = ("random histories of parse / serialise / convert with in-place destruction of inputs and outputs in between, over valid "
        "documents; monitors: an identity walk over all mutable parts of inputs, objects and outputs, snapshots before and after, "
        "assignment to every field; distinct by skeleton")
ESSENTIAL = ["identity walks", "inputs destroyed", "outputs destroyed", "assignments refused", "deletions refused", "mutable parts",
             "aliased inputs", "fields nobody models", "snapshots compared"]


def directed():
    return full_directed()


def generate(rng, i):
    c = full_case(rng, i)
    if rng.random() < 0.3:
        c["foreign"] = True
    return c


def parts(x, out, keep):
    """ids of all mutable parts (dicts, lists, sets and objects with fields)."""
    if isinstance(x, dict):
        if id(x) not in out:
            out[id(x)] = x
            for v in x.values():
                parts(v, out, keep)
    elif isinstance(x, (list, set)):
        if id(x) not in out:
            out[id(x)] = x
            for v in x:
                parts(v, out, keep)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        if id(x) not in out:
            out[id(x)] = x
            for f in dataclasses.fields(x):
                parts(getattr(x, f.name), out, keep)
            for v in getattr(x, "__dict__", {}).values():
                parts(v, out, keep)
    return out


def destroy(x, r, seen=None):
    """Change every mutable part of JSON data in place."""
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            destroy(v, r, seen)
        k = r.random()
        if k < 0.3:
            x.clear()
        else:
            for n in list(x):
                if r.random() < 0.7:
                    x[n] = "DESTROYED"
            x["INTRUDER"] = 1
    elif isinstance(x, list):
        for v in x:
            destroy(v, r, seen)
        k = r.random()
        if k < 0.4:
            x.clear()
        elif k < 0.7:
            x.reverse()
            x.append("INTRUDER")
        else:
            x[:] = [0]


def elements(o):
    yield o
    a = getattr(o, "attrs", None)
    if dataclasses.is_dataclass(a):
        yield a
    for f in ("content", "marks"):
        v = getattr(o, f, None)
        if isinstance(v, list):
            for x in v:
                yield from elements(x)


def frozen(o, r, mon):
    els = list(elements(o))
    for x in els if len(els) <= 12 else [els[0]] + r.sample(els, 11):
        names = [f.name for f in dataclasses.fields(x)]
        for n in names + ["somethingElse"]:
            before = getattr(x, n, None)
            for what, op in (("assigning", lambda: setattr(x, n, "CHANGED")), ("deleting", lambda: delattr(x, n))):
                try:
                    op()
                except Exception:
                    mon.hit("assignments refused" if what == "assigning" else "deletions refused")
                else:
                    mon.fail(f"{what} {n} of a {type(x).__name__} works")
                if getattr(x, n, None) is not before:
                    mon.fail(f"{what} {n} of a {type(x).__name__} raises but takes effect")


def state(x, seen=None):
    """Everything reachable from an object, as data, for comparing before and after."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, [(k, state(v)) for k, v in vars(x).items()])
    if isinstance(x, dict):
        return {k: state(v) for k, v in x.items()}
    if isinstance(x, list):
        return [state(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return (type(x).__name__, x)
    return ("id", id(x))


def check(api, case, mon):
    doc, cat = case["doc"], case["cat"]
    r = random.Random(f"c06:{case['seed']}")
    known_types(doc, mon, cat)
    if case.get("foreign"):
        doc, done = inject(doc, cat, r, mon)
        mon.hit("fields nobody models", len(done))
    want = adf.project(doc, cat)
    given = copy.deepcopy(doc)
    if r.random() < 0.3:
        # the caller's data may use one object in several places
        given = alias(given)
        mon.hit("aliased inputs")
    o = parse(api, given, cat)
    if not adf.strict_eq(given, doc):
        mon.fail("parsing modifies the input: " + str(adf.first_diff(doc, given)))
    st = state(o)
    convert = md_or_error if cat == "node" else (lambda x: ("ok", x.to_markdown("some text")))
    soft = (lambda x: md_or_error(x, ignore_error=True)) if cat == "node" else (lambda x: None)
    o2 = parse(api, given, cat)
    outs = [o.to_dict(), o.to_dict(), o.to_kwargs(), o2.to_dict()]
    attr_outs = []
    for x in list(elements(o))[:20]:
        if x is not o:
            attr_outs.append(x.to_dict())
    md = convert(o)
    lenient = soft(o)
    mon.hit("snapshots compared")
    if not adf.strict_eq(given, doc):
        mon.fail("serialising or converting modifies the caller's data: " + str(adf.first_diff(doc, given)))
    if state(o) != st:
        mon.fail("serialising or converting modifies the parsed object")
    # no mutable part in common
    sets = [("the input", parts(given, {}, [])), ("the object", parts(o, {}, [])), ("a second object", parts(o2, {}, []))]
    sets += [(f"output {k}", parts(x, {}, [])) for k, x in enumerate(outs)]
    sets += [("an element's own output", parts(attr_outs, {}, []))]
    mon.hit("identity walks")
    for i in range(len(sets)):
        mon.hit("mutable parts", len(sets[i][1]))
        for j in range(i):
            common = sets[i][1].keys() & sets[j][1].keys()
            if common:
                x = sets[i][1][next(iter(common))]
                mon.fail(f"{sets[j][0]} and {sets[i][0]} share a mutable part: {x!r:.150}")
    # change everything that is not the object
    steps = ["input"] + [f"out{k}" for k in range(len(outs))] + ["attrs"]
    r.shuffle(steps)
    for s in steps:
        if s == "input":
            destroy(given, r)
            mon.hit("inputs destroyed")
        elif s == "attrs":
            destroy(attr_outs, r)
        else:
            destroy(outs[int(s[3:])], r)
            mon.hit("outputs destroyed")
        if state(o) != st:
            mon.fail(f"modifying {s} in place changes the parsed object")
        again = o.to_dict()
        if not adf.strict_eq(again, want):
            mon.fail(f"after modifying {s} in place the object serialises differently: {adf.first_diff(want, again)}")
    if convert(o) != md:
        mon.fail("after modifying inputs and outputs in place the Markdown differs")
    if soft(o) != lenient:
        mon.fail("after modifying inputs and outputs in place the lenient Markdown differs")
    if not adf.strict_eq(parse(api, copy.deepcopy(doc), cat).to_dict(), want):
        mon.fail("after modifying inputs and outputs in place a new parse of the document gives something else")
    frozen(o, r, mon)
    if state(o) != st:
        mon.fail("attempts to assign changed the object")
    mon.seen(adf.shape(doc, cat))


def alias(x, memo=None):
    """Equal parts become one object."""
    memo = memo if memo is not None else {}
    if isinstance(x, dict):
        x = {k: alias(v, memo) for k, v in x.items()}
    elif isinstance(x, list):
        x = [alias(v, memo) for v in x]
    else:
        return x
    key = repr(x)
    return memo.setdefault(key, x)
