"""C02: unmodelled fields have no effect."""
import copy
import random
import re

from .. import adf, gen
from .common import ALL_TYPES, corpus, full_case, full_directed, known_types, md_or_error, parse

ID = "C02"
QUICK, THOROUGH = 12000, 200000
GIANTS = "all"
GIANT_SCALE = 0.4
RULE = ("valid documents into whose elements and attribute objects unmodelled fields are injected at random (names modelled on "
        "other types, of other roles, Python names; any JSON values, valid and malformed elements included); distinct by skeleton and "
        "injected (type, field) pairs")
ESSENTIAL = ["injected into node", "injected into mark", "injected into attrs", "injected foreign content", "injected foreign marks",
             "injected foreign attrs", "compared Markdown"]

NAMES = sorted({a for s in list(adf.NODES.values()) + list(adf.MARKS.values()) for a in (s.attrs or {})}
               | {f for s in list(adf.NODES.values()) + list(adf.MARKS.values()) for f in s.fields}
               | set(gen.KEYS) | {"class", "def", "None", "__init__", "__eq__", "__hash__", "_fields", "kwargs", "dct", "macroMetadata",
                                  "metadata", "parent", "children", "attributes", "Type", "TYPE", "types", "OPT", "REQ", "is_opt"})

KNOWN = sorted({a for s in list(adf.NODES.values()) + list(adf.MARKS.values()) for a in (s.attrs or {})}
               | {f for s in list(adf.NODES.values()) + list(adf.MARKS.values()) for f in s.fields})


def spellings(n):
    """Names that somebody might take for this one."""
    snake = re.sub("[A-Z]", lambda m: "_" + m.group(0).lower(), n)
    return [snake, snake.replace("_", "-"), n.upper(), n.lower(), n[:1].upper() + n[1:], n + "s", n[:-1], "_" + n, n + "_", "@" + n, " " + n,
            n + " ", snake.upper(), "data-" + n, "default" + n[:1].upper() + n[1:], "old_" + n, n + "2"]


def directed():
    # every type x every foreign name, one at a time is too many: all names at once, with harmless and hostile values
    out = []
    for c in full_directed():
        if len(out) < 700 and adf.size(c["doc"]) < 50:
            out.append({**c, "all": True})
    return out


def generate(rng, i):
    return full_case(rng, i)


def inject(doc, cat, r, mon, everything=False):
    g = gen.Gen(r)
    doc = copy.deepcopy(doc)
    done = []

    def value(name):
        x = r.random()
        if name in ("content", "marks") and x < 0.8:
            return r.choice([[{"type": "text", "text": "INTRUDER"}], [{"type": "nope"}], [{"x": 1}], ["a"], [None], 5, None, "x",
                             [{"type": "paragraph", "content": [{"type": "text"}]}], [{"type": "strong"}], [{"type": "link"}], {}])
        if name == "attrs" and x < 0.8:
            return r.choice([{}, {"localId": 1}, 5, None, [], "x", {"level": 3, "text": "INTRUDER"}])
        if name == "text":
            return r.choice(["INTRUDER", "", None, 3, []])
        return g.json()

    for _, el, c in list(adf.walk(doc, cat)):
        spec = adf.spec_of(el, c)
        if spec is None:
            continue
        for target, known, where in ((el, spec.fields, c), (el.get("attrs"), spec.attrs, "attrs")):
            if not isinstance(target, dict) or known is None:
                continue
            free = [n for n in NAMES if n not in known and n not in target]
            if everything:
                names = free + [s for n in known for s in spellings(n)] + [f"x{k}" for k in range(r.choice([0, 0, 300]))] + list(g.novel)
            elif r.random() < 0.5:
                names = [r.choice(free) for _ in range(r.choice([1, 1, 2, 4]))]
                if where != "attrs" and r.random() < 0.4:
                    names += [n for n in ("attrs", "content", "marks") if n in free]
                if r.random() < 0.5:    # another spelling of a name it knows
                    names.append(r.choice(spellings(r.choice(list(known) or KNOWN))))
                if g.novel and r.random() < 0.3:
                    names.append(g.key())
                if r.random() < 0.1:
                    names = free
                if r.random() < 0.2:
                    n = g.string()
                    if n not in known and n not in target:
                        names.append(n)
            else:
                continue
            for n in names:
                if n in target or n in known:
                    continue
                v = value(n)
                if r.random() < 0.5:
                    target[n] = v
                else:       # unknown field first
                    old = dict(target)
                    target.clear()
                    target[n] = v
                    target.update(old)
                done.append((spec.type, where, n))
                mon.hit(f"injected into {where}")
                if n in ("content", "marks", "attrs") and where != "attrs":
                    mon.hit(f"injected foreign {n}")
    return doc, done


def check(api, case, mon):
    doc, cat = case["doc"], case["cat"]
    r = random.Random(f"c02:{case['seed']}")
    dirty, done = inject(doc, cat, r, mon, case.get("all", False))
    if not done:
        return
    known_types(doc, mon, cat)
    clean = parse(api, copy.deepcopy(doc), cat)
    try:
        got = parse(api, dirty, cat)
    except Exception as e:
        mon.fail(f"parsing fails with unknown fields {done[:8]}: {type(e).__name__}: {str(e)[:200]}")
    if not (got == clean):
        mon.fail(f"unknown fields change the parsed object: {done[:8]}")
    a, b = clean.to_dict(), got.to_dict()
    if not adf.strict_eq(a, b):
        mon.fail(f"unknown fields change the serialised form: {adf.first_diff(a, b)}; injected {done[:8]}")
    if cat == "node":
        mon.hit("compared Markdown")
        a, b = md_or_error(clean), md_or_error(got)
        if a != b:
            mon.fail(f"unknown fields change the Markdown: {a!r:.200} -> {b!r:.200}; injected {done[:8]}")
    mon.seen((adf.shape(doc, cat), tuple(done)))
