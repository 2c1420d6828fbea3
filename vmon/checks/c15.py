"""C15: at most one blank line between blocks, and only blank lines are ever removed."""
import copy
import random
import re

from .. import adf, gen, harvest
from .common import parse
from . import tree

ID = "C15"
QUICK, THOROUGH = 40000, 350000
GIANTS = ["doc", "doc headings", "doc rules", "doc empties", "expand", "panel", "blockquote", "bulletList", "taskList", "rows", "paragraph", "mediaGroup"]
DECORATE = True
RULE = ("documents, expand sections, quotes and panels with runs of empty paragraphs, headings, rules, expands and elements that render to "
        "nothing; monitors: no two blank (or empty quoted) lines in a row outside code, and the non-blank lines of a container are those "
        "of its blocks in order; distinct by skeleton")
ESSENTIAL = ["containers monitored", "lines read", "blank lines", "empty runs of 5 or more", "padded neighbours", "lines conserved",
             "hostile lines conserved", "in quotes", "in expands"]
PADDED = ["heading", "rule", "blockCard", "embedCard", "codeBlock", "bulletList", "expand", "table", "panel", "blockquote", "mediaSingle",
          "extension", "taskList", "decisionList", "orderedList"]


class Padded(gen.Safe):
    def __init__(self, r, **k):
        super().__init__(r, features={"empties", "strictblank", "solidcode"}, **k)

    def empties(self, n):
        r = self.r
        return [r.choice([lambda: {"type": "paragraph"}, lambda: {"type": "paragraph", "content": []}, self.media_group,
                          lambda: {"type": "expand", "content": []},
                          lambda: {"type": "expand", "content": [{"type": "paragraph"}] * r.randrange(3)},
                          lambda: {"type": "mediaSingle", "content": []}, lambda: {"type": "rule"},
                          lambda: {"type": "paragraph", "content": [{"type": "mediaInline", "attrs": {"id": "i", "collection": "c"}}]},
                          ])() for _ in range(n)]


def directed():
    out = []
    r = random.Random(15)
    para = {"type": "paragraph", "content": [{"type": "text", "text": "w1z"}]}
    for n in list(range(0, 14)) + [20, 50, 300]:
        for e in ({"type": "paragraph"}, {"type": "mediaGroup", "content": []}, {"type": "expand", "content": []}, {"type": "rule"},
                  {"type": "heading", "attrs": {"level": 1}}, {"type": "expand", "content": [{"type": "paragraph"}] * 3}):
            kids = [para] + [e] * n + [para]
            out.append({"doc": gen.wrap("doc", kids)})
            for c in ("panel", "blockquote", "expand"):
                out.append({"doc": gen.wrap("doc", [para, gen.wrap(c, kids), para])})
                out.append({"doc": gen.wrap("doc", [para, gen.wrap("expand", [gen.wrap(c, kids)] * 2), para])})
    for a in PADDED:
        for b in PADDED:
            g = Padded(r, budget=3, max_depth=2)
            x, y = g.block(a), g.block(b)
            out.append({"doc": gen.wrap("doc", [x, y])})
            out.append({"doc": gen.wrap("doc", [gen.wrap("panel", [x, {"type": "paragraph"}, y])])})
    for t in HOSTILE:
        out.append({"lines": [t], "seed": 0})
        out.append({"lines": ["a", t, "b"], "seed": 0})
    return out


HOSTILE = ["a", " a", "a ", "```", "```x", "````", "~~~", "> ", ">", "# a", "-", "- a", "1. a", "---", "\u2028", "a\u2028\u2028b", "\x0b", "\x0c",
           "\x1c\x1c\x1c", "\u00a0", " ", "\t", "<br>", "|", "\\n\\n\\n", "\x85\x85\x85", "   ```", "  - ```", "    ```"]


def generate(rng, i):
    if rng.random() < 0.2:
        return {"lines": [rng.choice(HOSTILE) if rng.random() < 0.6 else "" for _ in range(rng.choice([2, 5, 10, 30]))], "seed": i}
    g = Padded(rng, budget=rng.choice([4, 10, 30]), max_depth=rng.choice([2, 3, 5]))
    kids = []
    for _ in range(rng.choice([1, 2, 4])):
        x = rng.random()
        if x < 0.4:
            kids += g.empties(rng.choice([1, 2, 3, 5, 8, rng.choice(harvest.near(40))]))
        elif x < 0.7:
            kids.append(g.block(rng.choice(PADDED)))
        else:
            kids += g.blocks(adf.DOC_CHILDREN, 0, n=2)
    for c in rng.choice([[], [], ["expand"], ["panel"], ["blockquote"], ["expand", "expand"], ["expand", "panel"], ["expand", "blockquote"]])[::-1]:
        kids = [gen.wrap(c, kids)] + (g.empties(3) if rng.random() < 0.5 else []) + ([g.paragraph()] if rng.random() < 0.5 else [])
    return {"doc": gen.wrap("doc", kids)}


CONTAINERS = ("doc", "expand", "nestedExpand", "panel", "blockquote")


def blank(line, spaces):
    """Empty (or of spaces, where no text is), or a quoted line with nothing in it."""
    return line == "" or (spaces and line.strip(" ") == "") or (set(line) <= {">", " "} and ">" in line)


def monitor(md, what, mon, spaces=True):
    # between blocks: what is before the first and after the last line with text is no gap
    lines = md.strip("\n").split("\n")
    mon.hit("lines read", len(lines))
    k = 0
    while k < len(lines):
        if not blank(lines[k], spaces):
            k += 1
            continue
        mon.hit("blank lines")
        # blank lines of one quoting depth; what is before the first or after the last line of a quote is no gap
        d = lines[k].count(">")
        j = k
        while j < len(lines) and blank(lines[j], spaces) and lines[j].count(">") == d:
            j += 1
        if j - k >= 2 and depth(lines, k - 1, -1) >= d and depth(lines, j, 1) >= d:
            mon.fail(f"{what}: lines {k} to {j - 1} are blank ({lines[k]!r}) between {lines[max(0, k - 1)]!r:.60} and "
                     f"{lines[min(j, len(lines) - 1)]!r:.60}")
        k = j


def depth(lines, k, step):
    """Quoting depth of the nearest line with text."""
    if 0 <= k < len(lines):
        return re.match(r"^(?:> ?)*", lines[k]).group(0).count(">")
    return 0


def solid(md):
    return [x for x in md.split("\n") if x != ""]


def quoted_solid(md):
    return [re.sub(r"^> ?", "", x) for x in md.split("\n") if x.strip("> ") != ""]


def check(api, case, mon):
    if "lines" in case:
        return hostile(api, case["lines"], mon)
    doc = case["doc"]
    for path, el, c in adf.walk(doc):
        if c != "node" or el["type"] not in CONTAINERS:
            continue
        t = el["type"]
        mon.hit("containers monitored")
        if t in ("panel", "blockquote"):
            mon.hit("in quotes")
        elif t != "doc":
            mon.hit("in expands")
        kids = el["content"]
        ts = [k["type"] for k in kids]
        if any(all(not k.get("content") and k["type"] in ("paragraph", "expand") for k in kids[i:i + 5]) for i in range(len(kids) - 4)):
            mon.hit("empty runs of 5 or more")
        if any(a in PADDED and b in PADDED for a, b in zip(ts, ts[1:])):
            mon.hit("padded neighbours")
        md = parse(api, copy.deepcopy(el)).to_markdown()
        monitor(md, f"a {t}", mon)
        # only blank lines are gone
        want = [x for k in kids for x in solid(parse(api, copy.deepcopy(k)).to_markdown())]
        mon.hit("lines conserved", len(want))
        if t in ("panel", "blockquote"):
            got = quoted_solid(md)
            want = [x for x in want if x.strip("> ") != ""]
            if t == "panel":
                got = got[1:]
        else:
            got = solid(md)
        same(got, want, f"a {t}", mon)
    mon.seen(adf.shape(doc))


def same(got, want, what, mon):
    if got != want:
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        mon.fail(f"{what}: line {k} that is not blank is {got[k:k + 2]!r:.200}, its blocks give {want[k:k + 2]!r:.200}")


def hostile(api, lines, mon):
    """Texts whose lines look like fences, quotes and blanks: nothing but empty lines may go."""
    para = {"type": "paragraph", "content": [{"type": "text", "text": "\n".join(lines)}]}
    doc = gen.wrap("doc", [para, {"type": "paragraph"}, {"type": "paragraph"}, {"type": "rule"}, para])
    own = solid(parse(api, copy.deepcopy(para)).to_markdown())
    for c in (None, "expand"):
        d = doc if c is None else gen.wrap("doc", [{"type": c, "content": doc["content"]}])
        md = parse(api, copy.deepcopy(d)).to_markdown()
        mon.hit("hostile lines conserved", len(own))
        same(solid(md), own + ["---"] + own, f"hostile text in {c or 'a document'}", mon)
        if not any("`" in x or "~" in x for x in lines):
            monitor(md, f"hostile text in {c or 'a document'}", mon, spaces=False)
    mon.seen(tuple(lines))
