"""Shared by the checks that read the Markdown back with a standard parser."""
import copy

from .. import expect, mdtree


def convert(api, doc):
    return api.NodeDoc.from_dict(copy.deepcopy(doc)).to_markdown()


def compare(api, doc, mon, md=None):
    """The blocks of the document against the blocks a Markdown parser sees."""
    md = convert(api, doc) if md is None else md
    want = expect.doc(doc)
    got = expect.merge(mdtree.parse(md))
    mon.hit("blocks compared", count(want, mon))
    d = mdtree.diff(want, got)
    if d:
        mon.fail(f"read back, the Markdown differs from the document at {d}")
    return md, want, got


NAME = {"p": "paragraphs", "h": "headings", "hr": "rules", "code": "code blocks", "quote": "quotes", "ul": "bullet and task lists",
        "ol": "ordered lists", "table": "tables"}


def count(blocks, mon):
    n = 0
    for b in blocks:
        n += 1
        mon.hit(NAME[b[0]])
        if b[0] == "quote":
            n += count(b[1], mon)
        elif b[0] in ("ul", "ol"):
            for i in b[-1]:
                n += count(i, mon)
    return n
