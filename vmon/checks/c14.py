"""C14: quoted content stays in its quote, and nothing else gets in."""
import copy
import random
import re

from .. import adf, gen
from .common import parse
from . import tree

ID = "C14"
QUICK, THOROUGH = 60000, 400000
GIANTS = ["panel", "blockquote", "decisionList", "decisionItem", "long quote", "deep in panel"]
DECORATE = True
RULE = ("block quotes, panels and decision lists with any allowed content (hostile text with exotic line separators included) among any "
        "neighbours; monitors: the prefix of every line, the quote tree read back with markdown-it, the panel heading, one quote per "
        "decision; distinct by skeleton")
ESSENTIAL = ["blocks compared", "quoted lines", "panels", "blockquotes", "decisions", "exotic separators", "neighbouring quotes", "panel types",
             "multi-line decisions", "lists in quotes", "code in quotes", "decision lines"]
SEPS = ["\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u00a0", "\n", "\n\n", "  \n", "\n\n\n", "\n \n", "\n- ", "\n# ", "\n    "]
QUOTES = ["blockquote", "panel", "decisionList"]
TYPES = ["info", "note", "tip", "warning", "error", "success", "custom"]


def directed():
    out = []
    r = random.Random(14)
    for q in QUOTES:
        for n in adf.DOC_CHILDREN:
            for order in (0, 1):
                g = gen.Safe(r, budget=4, max_depth=2)
                a, b = g.block(q), g.block(n)
                out.append({"doc": gen.wrap("doc", [a, b] if order else [b, a])})
    for q, kids in (("blockquote", adf.QUOTE_CHILDREN), ("panel", adf.PANEL_CHILDREN)):
        for a in kids:
            for b in kids:
                g = gen.Safe(r, budget=3, max_depth=2)
                out.append({"doc": gen.wrap("doc", [gen.wrap(q, [g.block(a, 1), g.block(b, 1)])])})
    for t in TYPES:
        out.append({"doc": gen.wrap("doc", [{**gen.wrap("panel", [{"type": "paragraph", "content": [{"type": "text", "text": "w1z"}]}]),
                                             "attrs": {"panelType": t}}])})
    for s in SEPS:
        for q in QUOTES:
            out.append({"hostile": q, "texts": [f"a{s}b", s, f"{s}a", f"a{s}"], "seed": 0})
    for q in QUOTES:
        out.append({"hostile": q, "texts": [f"line{i}\nmore" for i in range(300)], "seed": 0})
    return out


def generate(rng, i):
    if rng.random() < 0.25:
        texts = []
        for _ in range(rng.choice([1, 2, 3])):
            t = ""
            for _ in range(rng.choice([1, 2, 4])):
                t += rng.choice(["a", "w", "b c", "é", "> q", "", " "]) + rng.choice(SEPS)
            texts.append(t + rng.choice(["", "end"]))
        return {"hostile": rng.choice(QUOTES), "texts": texts, "seed": i}
    g = gen.Safe(rng, budget=rng.choice([4, 10, 30]), max_depth=rng.choice([2, 3, 5]), features={"empties"} if rng.random() < 0.3 else set())
    kids = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        kids.append(g.block(rng.choice(QUOTES)) if rng.random() < 0.7 else g.block(rng.choice(adf.DOC_CHILDREN)))
    if rng.random() < 0.2:
        kids = [{"type": "expand", "content": kids}]
    return {"doc": gen.wrap("doc", kids)}


def check(api, case, mon):
    if "hostile" in case:
        return hostile(api, case, mon)
    doc = case["doc"]
    last = None
    for _, el, c in adf.walk(doc):
        t = el.get("type")
        if c == "node" and t in QUOTES:
            mon.hit({"blockquote": "blockquotes", "panel": "panels", "decisionList": "decision lists"}[t])
            prefixed(api, el, mon)
            for k in el.get("content") or []:
                if k["type"] in ("bulletList", "orderedList", "taskList"):
                    mon.hit("lists in quotes")
                if k["type"] == "codeBlock":
                    mon.hit("code in quotes")
    ts = [k["type"] for k in doc["content"]]
    if any(a in QUOTES and b in QUOTES for a, b in zip(ts, ts[1:])):
        mon.hit("neighbouring quotes")
    tree.compare(api, doc, mon)
    mon.seen(adf.shape(doc))


def prefixed(api, el, mon):
    """Each line of the element's own Markdown is a quoted line; a panel begins with its type."""
    md = parse(api, copy.deepcopy(el)).to_markdown()
    lines = md.strip("\n").split("\n")
    t = el["type"]
    for k, line in enumerate(lines):
        if not line and t == "decisionList":
            continue        # between decisions
        mon.hit("quoted lines")
        if not line.startswith(">"):
            if not md.strip():
                break       # nothing to quote
            mon.fail(f"line {k} of a {t} is not quoted: {line!r:.150}")
    if t == "panel":
        mon.hit("panel types")
        want = f"**{el['attrs']['panelType'].upper()}**"
        if lines[0].strip("> ") != want.strip() or not lines[0].startswith("> "):
            mon.fail(f"a panel begins with {lines[0]!r:.100}, expected {want!r}")
    if t == "decisionList":
        for k in el["content"]:
            own = parse(api, copy.deepcopy(k)).to_markdown()
            mon.hit("decisions")
            want = decision_lines("".join(parse(api, copy.deepcopy(x)).to_markdown() for x in k.get("content") or []))
            got = [re.sub(r"\s+$", "", x) for x in own.split("\n")] if own.strip() else []
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                mon.fail(f"line {i} of a decision is {got[i:i + 2]!r:.150}, expected {want[i:i + 2]!r:.150}")
            mon.hit("decision lines", len(want))
            if "\n" in own.strip():
                mon.hit("multi-line decisions")
            for line in own.strip("\n").split("\n"):
                if own.strip() and not line.startswith(">"):
                    mon.fail(f"a line of a decision is not quoted: {line!r:.150}")


def decision_lines(text):
    """Lines with text in order, at most one empty line between two of them and none before the second."""
    out, n, gap = [], 0, False
    for line in text.split("\n"):
        line = re.sub(r"\s+$", "", line)
        if not line:
            gap = n > 1
            continue
        if gap:
            out.append(">")
        gap = False
        out.append("> " + line)
        n += 1
    return out


def hostile(api, case, mon):
    """Only a newline ends a line; every such line is quoted once and its text is unchanged."""
    q, texts = case["hostile"], case["texts"]
    if q == "decisionList":
        el = {"type": q, "attrs": {"localId": "d"}, "content": [
            {"type": "decisionItem", "attrs": {"localId": "i", "state": "DECIDED"}, "content": [{"type": "text", "text": t}]}
            for t in texts]}
    else:
        el = gen.wrap(q, [{"type": "paragraph", "content": [{"type": "text", "text": t}]} for t in texts])
    mon.hit("exotic separators", sum(ord(c) > 126 or ord(c) < 32 for t in texts for c in t))
    prefixed(api, el, mon)
    md = parse(api, el).to_markdown()
    got = []
    for line in md.split("\n"):
        s = line[1:] if line.startswith(">") else line
        if s.strip(" "):
            got.append(s.strip(" "))
    want = ["**INFO**"] if q == "panel" else []
    for t in texts:
        want += [x.strip(" ") for x in t.split("\n") if x.strip(" ")]
    # blanks of any kind at the end of a line are not part of the claim
    strip = lambda ls: [x for x in (re.sub(r"\s+$", "", y) for y in ls) if x.strip()]     # noqa: E731
    if strip(got) != strip(want):
        k = next((i for i, (x, y) in enumerate(zip(strip(got), strip(want))) if x != y), min(len(strip(got)), len(strip(want))))
        mon.fail(f"quoted line {k} of a {q} is {strip(got)[k:k + 2]!r:.150}, the text has {strip(want)[k:k + 2]!r:.150}")
    mon.seen((q, tuple(texts)))
