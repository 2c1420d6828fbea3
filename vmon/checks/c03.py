"""C03: unimplemented types are skipped exactly, with exactly one warning each when enabled."""
import copy
import logging
import random

from .. import adf, gen
from .common import full_case, parse

ID = "C03"
QUICK, THOROUGH = 16000, 200000
GIANTS = "all"
GIANT_SCALE = 0.3
RULE = ("valid documents into whose content and mark lists unimplemented elements are inserted, in histories that switch the warning "
        "setting; monitors: the parsed tree against the pruned document, the log records against the inserted elements in order; "
        "distinct by skeleton and inserted types")
ESSENTIAL = ["skipped nodes", "skipped marks", "warnings seen", "silent parses", "direct errors", "wrong-role types", "schema types", "repeated objects"]

NAMES = ["unknownThing", "Paragraph", "paragraph ", "TEXT", "", "x" * 200, "décision", "layoutsection", "None", "text\n", "0",
         "multiBodiedExtension", "blockExtension", "a b", "type", "content", "NodeParagraph", "node", "mark", "{type}", "%s"]


def directed():
    out = []
    for t in adf.TYPE_ENUM + NAMES:
        d = gen.wrap("doc", [{"type": "paragraph", "content": [
            {"type": "text", "text": "a", "marks": [{"type": "strong"}]}]}])
        out.append({"doc": d, "cat": "node", "seed": 1, "only": t})
        out.append({"doc": d, "cat": "node", "seed": 2, "only": t})
    return out


def generate(rng, i):
    c = full_case(rng, i)
    return c


def unimplemented(cat, r, g, only=None):
    own, other = (adf.NODES, adf.MARKS) if cat == "node" else (adf.MARKS, adf.NODES)
    if only is not None:
        return only if only not in own else None, "schema types"
    x = r.random()
    if x < 0.4:
        pool, kind = adf.UNIMPLEMENTED_NODES, "schema types"
    elif x < 0.6:
        pool, kind = [t for t in other if t not in own], "wrong-role types"
    else:
        pool, kind = NAMES, "made-up types"
    t = r.choice(pool)
    return (t, kind) if t not in own else ("unknownThing", "made-up types")


def element(t, r, g):
    """Whatever an unimplemented element may hold."""
    el = {"type": t}
    if r.random() < 0.5:
        el["attrs"] = r.choice([{}, None, 5, {"localId": "q", "layout": "two"}, g.json()])
    if r.random() < 0.6:
        el["content"] = r.choice([[], None, "x", [5], [{"no": "type"}], [{"type": "text"}],
                                  [{"type": "paragraph", "content": [{"type": "text", "text": "INSIDE"}]}],
                                  [{"type": "unknownThing"}]])
    if r.random() < 0.3:
        el["marks"] = r.choice([[], None, [{"type": "nope"}], ["x"]])
    if r.random() < 0.2:
        el[g.key() or "k"] = g.json()
        el["type"] = t
    return el


def insert(doc, cat, r, mon, only):
    """The polluted document, and [(category, type)] in the order a parser meets them."""
    g = gen.Gen(r)
    doc = copy.deepcopy(doc)
    want = []
    used = {"node": [], "mark": []}
    p = 1.0 if only is not None else r.choice([0.2, 0.5, 0.9])

    def go(el, c):
        spec = adf.spec_of(el, c)
        for key, kc in (("content", "node"), ("marks", "mark")):
            allowed = spec.content if key == "content" else spec.marks
            if c != "node" or allowed is None:
                continue
            kids = el.get(key)
            if not isinstance(kids, list):
                continue
            new = []
            for k in list(kids) + [None]:
                while r.random() < p * 0.5:
                    t, kind = unimplemented(kc, r, g, only)
                    if t is None:
                        break
                    el2 = element(t, r, g)
                    if used[kc] and r.random() < 0.12:      # one object at several places
                        el2 = r.choice(used[kc])
                        mon.hit("repeated objects")
                    used[kc].append(el2)
                    new.append((el2, True))
                    mon.hit(kind)
                    mon.hit("skipped nodes" if kc == "node" else "skipped marks")
                if k is not None:
                    new.append((k, False))
            for k, bad in new:
                if bad:
                    want.append((kc, k["type"]))
                else:
                    go(k, kc)
            el[key] = [k for k, _ in new]

    go(doc, cat)
    return doc, want


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)         # what is below a warning is not one
        self.got = []

    def emit(self, rec):
        self.got.append(rec)


def named(msg, t):
    return repr(t)[1:-1] in msg or t in msg


def unmatched(want, msgs):
    """None if each element has a message of its own that names it, else such an element without one."""
    if all(named(m, t) and c in m.lower() for (c, t), m in zip(want, msgs)):
        return None
    ok = [[j for j, m in enumerate(msgs) if named(m, t) and c in m.lower()] for c, t in want]
    owner = {}

    def assign(i, seen):
        for j in ok[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or assign(owner[j], seen):
                    owner[j] = i
                    return True
        return False

    for i in range(len(want)):
        if not assign(i, set()):
            return want[i]
    return None


def check(api, case, mon):
    import atlas_doc_parser.settings as settings
    doc, cat = case["doc"], case["cat"]
    r = random.Random(f"c03:{case['seed']}")
    polluted, want = insert(doc, cat, r, mon, case.get("only"))
    log = logging.getLogger("atlas_doc_parser")
    keep = (settings.WARN_UNIMPLEMENTED_TYPE, log.level, log.propagate, list(log.handlers))
    h = Records()
    # the logger and whatever is below it
    log.handlers[:] = [h]
    log.setLevel(1)
    log.propagate = False
    try:
        for on in [r.random() < 0.5 for _ in range(3)] if want else [True]:
            settings.WARN_UNIMPLEMENTED_TYPE = on
            h.got.clear()
            try:
                got = parse(api, copy.deepcopy(polluted), cat)
            except Exception as e:
                mon.fail(f"parsing fails because of unimplemented elements {want[:6]}: {type(e).__name__}: {str(e)[:200]}")
            recs = list(h.got)
            if not on or not want:
                mon.hit("silent parses")
                if recs:
                    mon.fail(f"{len(recs)} log record(s) with warnings {'on' if on else 'off'} and "
                             f"{len(want)} unimplemented element(s): {recs[0].getMessage()!r:.200}")
            else:
                mon.hit("warnings seen", len(recs))
                if len(recs) != len(want):
                    mon.fail(f"{len(recs)} warning(s) for {len(want)} unimplemented element(s) {want[:6]}")
                msgs = []
                for rec in recs:
                    if rec.levelno != logging.WARNING:
                        mon.fail(f"logged at level {rec.levelname}, not as a warning")
                    msgs.append(rec.getMessage())
                lost = unmatched(want, msgs)
                if lost:
                    mon.fail(f"the warnings {msgs[:4]!r:.400} name not exactly the skipped elements {want[:6]}: {lost} is left over")
            h.got.clear()
            settings.WARN_UNIMPLEMENTED_TYPE = True
            clean = parse(api, copy.deepcopy(doc), cat)
            if h.got:
                mon.fail(f"a document without unimplemented elements logs {h.got[0].getMessage()!r:.200}")
            if not (got == clean):
                mon.fail(f"not the document without its unimplemented elements {want[:6]}: "
                         f"{adf.first_diff(clean.to_dict(), got.to_dict())}")
            if not adf.strict_eq(got.to_dict(), adf.project(doc, cat)):
                mon.fail("serialises unlike the pruned document: " + str(adf.first_diff(adf.project(doc, cat), got.to_dict())))
        # directly
        for kc, fn in (("node", api.parse_node), ("mark", api.parse_mark)):
            t, _ = unimplemented(kc, r, gen.Gen(r), case.get("only"))
            if t is None:
                continue
            el = element(t, r, gen.Gen(r))
            mon.hit("direct errors")
            try:
                fn(el)
            except api.UnimplementedTypeError as e:
                if (e.type_value, e.category) != (t, kc):
                    mon.fail(f"error of {kc} type {t!r} carries {(e.type_value, e.category)!r}")
                if not named(str(e), t) or kc not in str(e).lower():
                    mon.fail(f"error message {str(e)!r:.200} does not name {kc} type {t!r}")
            except Exception as e:
                mon.fail(f"parsing {kc} type {t!r} directly raises {type(e).__name__}, not UnimplementedTypeError")
            else:
                mon.fail(f"parsing {kc} type {t!r} directly does not raise")
    finally:
        settings.WARN_UNIMPLEMENTED_TYPE, level, log.propagate, hs = keep
        log.setLevel(level)
        log.handlers[:] = hs
    mon.seen((adf.shape(doc, cat), tuple(want)))
