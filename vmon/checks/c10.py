"""C10: the Markdown has the document's sequence of blocks."""
import random

from .. import adf, gen
from . import tree

ID = "C10"
QUICK, THOROUGH = 50000, 600000
GIANTS = "all"
DECORATE = True
RULE = ("documents and expand sections with every pair and random longer sequences of all block types (empty paragraphs and elements "
        "without rendering in between); the output is read back with markdown-it (CommonMark + GFM tables) and compared block by block "
        "and run by run with the tree the document means; distinct by skeleton")
ESSENTIAL = ["blocks compared"] + list(tree.NAME.values())
ASSUMES = ["markdown-it-py is a correct CommonMark and GFM table parser", "vmon/expect.py states what a document means"]


def directed():
    out = []
    r = random.Random(10)
    for a in adf.DOC_CHILDREN:
        for b in adf.DOC_CHILDREN:
            for how in range(3):
                g = gen.Safe(r, budget=3, max_depth=2)
                kids = [g.block(a), g.block(b)]
                if how == 1:
                    kids = [{"type": "expand", "content": kids}, g.block("paragraph")]
                elif how == 2:
                    kids.insert(1, r.choice([{"type": "paragraph"}, {"type": "paragraph", "content": []}, g.media_group(),
                                             {"type": "expand", "content": []}]))
                out.append({"doc": gen.wrap("doc", kids)})
    for a in adf.DOC_CHILDREN:
        for b in adf.DOC_CHILDREN:
            for c in adf.DOC_CHILDREN:
                g = gen.Safe(r, budget=2, max_depth=2)
                g.big = False
                out.append({"doc": gen.wrap("doc", [g.block(a), g.block(b), g.block(c)])})
    for n in (1, 50, 400):
        g = gen.Safe(r, budget=n * 3)
        out.append({"doc": gen.wrap("doc", [g.block(r.choice(adf.DOC_CHILDREN)) for _ in range(n)])})
    return out


def generate(rng, i):
    f = {"empties"} if rng.random() < 0.5 else set()
    g = gen.Safe(rng, budget=rng.choice([3, 10, 30, 80]), max_depth=rng.choice([1, 2, 4, 6]), features=f)
    x = rng.random()
    if x < 0.6:
        return {"doc": g.doc()}
    if x < 0.8:
        return {"doc": g.doc(rng.sample(adf.DOC_CHILDREN, rng.choice([1, 2, 3])), n=rng.choice([2, 5, 10]))}
    inner = {"type": rng.choice(["expand", "expand", "nestedExpand"]), "attrs": {"title": "EXPANDTITLE"},
             "content": g.blocks(adf.NESTED_EXPAND_CHILDREN, 1)}
    return {"doc": gen.wrap("doc", [g.block("paragraph"), inner, g.block(rng.choice(adf.DOC_CHILDREN))])}


def check(api, case, mon):
    tree.compare(api, case["doc"], mon)
    mon.seen(adf.shape(case["doc"]))
