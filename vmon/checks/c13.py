"""C13: tables keep rows, cells and cell content."""
import copy
import random
import re

from .. import adf, expect, gen, harvest, mdtree
from .common import parse
from . import tree

ID = "C13"
QUICK, THOROUGH = 60000, 400000
GIANTS = ["rows", "columns", "tableCell", "long cell"]
DECORATE = True
RULE = ("tables with any rows, columns, header places, empty cells and cells with any blocks, pipes and leading spaces; monitors: the GFM "
        "reading of text tables, the lines and cells of any table against the renderings of the cells' own blocks, header and ordinary "
        "cells against each other; distinct by skeleton")
ESSENTIAL = ["blocks compared", "rows compared", "cells compared", "delimiter rows", "tables without header", "header columns", "escaped pipes",
             "leading spaces", "cells with several blocks", "empty cells", "one-cell tables", "ragged tables", "rows without cells", "header twin cells", "backslashes"]
CELLTEXT = ["|", "||", "a|b", "| a", "a |", " a", "  a", "   |x", "a\nb", "a\n  b", "a\n\n  |b", "    ", "", " ", "é|漢", "- a", "# a", "| --- |",
            "a  b", "<br>", "&nbsp;", "\u2028", "a\u2028 b", "\u00a0", "\ta", "|\n|", "  \n a"]


PUNCT = "".join(chr(c) for c in range(33, 127) if not chr(c).isalnum())


def directed():
    out = []
    r = random.Random(13)
    for style in ("row", "col", "both", "none"):
        for rows in (1, 2, 3, 10):
            for cols in (1, 2, 3, 10):
                out.append({"doc": table(gen.Safe(r, budget=5), style, rows, cols, simple_cell)})
    for n in (40, 200):
        out.append({"doc": table(gen.Safe(r, budget=5), "row", n, 2, simple_cell)})
        out.append({"doc": table(gen.Safe(r, budget=5), "row", 2, n, simple_cell)})
    for t in CELLTEXT:
        for kind in ("tableHeader", "tableCell"):
            c = [{"type": "paragraph", "content": [{"type": "text", "text": t}]}] if t else [{"type": "paragraph"}]
            out.append({"cells": [{"type": kind, "content": c}, {"type": kind, "content": c + c}], "seed": 0})
    for c in map(chr, range(32, 127)):
        for t in (c, c + "a", "a" + c, c * 3 + " b", f"  {c}a", f"a{c}b\n{c}c"):
            if c == "\\" or c == "`":
                continue
            para = {"type": "paragraph", "content": [{"type": "text", "text": t}]}
            out.append({"cells": [{"type": "tableCell", "content": [para]}, {"type": "tableHeader", "content": [para, para]}], "seed": 0})
    for n in (5, 10, 11, 12, 16, 20, 33, 64, 100):
        g = gen.Safe(r, budget=1)
        out.append({"cells": [{"type": "tableCell", "content": [g.paragraph() for _ in range(n)]},
                              {"type": "tableHeader", "content": [{"type": "paragraph", "content": [{"type": "text", "text": "|\n" * n + "x"}]}]}], "seed": 0})
    for a in adf.CELL_CHILDREN:
        for b in adf.CELL_CHILDREN:
            g = gen.Safe(r, budget=3, max_depth=2, features={"richcells"})
            out.append({"cells": [{"type": "tableCell", "content": [g.block(a, 1), g.block(b, 1)]}], "seed": 0})
    return out


def simple_cell(g, t):
    r = g.r
    if r.random() < 0.1:
        kids = [{"type": "paragraph"}] if r.random() < 0.7 else []
    else:
        kids = [g.paragraph(breaks=False) for _ in range(r.choice([1, 1, 1, 2]))]
    el = {"type": t, "content": kids}
    if r.random() < 0.1:
        el["attrs"] = r.choice([{}, {"colwidth": [100]}, {"background": "#fff"}])
    return el


def rich_cell(g, t):
    r = g.r
    kids = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        if r.random() < 0.4:
            kids.append({"type": "paragraph", "content": [{"type": "text", "text": hostile(r)}]})
        else:
            kids.append(g.block(r.choice(adf.CELL_CHILDREN), g.max_depth - 1))
    return {"type": t, "content": kids}


def hostile(r):
    s = r.choice(CELLTEXT)
    while r.random() < 0.5:
        s += r.choice(CELLTEXT + gen.WORDS)
    return s.replace("\\", "/") or "x"


def table(g, style, rows, cols, cell, ragged=False):
    out = []
    for i in range(rows):
        cells = []
        n = cols if not ragged else g.r.randrange(1 if not i else 0, cols + 1)
        for j in range(n):
            h = (style in ("row", "both") and i == 0) or (style in ("col", "both") and j == 0)
            cells.append(cell(g, "tableHeader" if h else "tableCell"))
        row = {"type": "tableRow", "content": cells}
        if g.r.random() < 0.1:
            row["attrs"] = {"localId": "r"}
        out.append(row)
    return gen.wrap("doc", [{"type": "table", "content": out}])


def generate(rng, i):
    x = rng.random()
    g = gen.Safe(rng, budget=rng.choice([3, 8, 20]), max_depth=rng.choice([2, 3, 4]), features={"richcells"})
    style = rng.choice(["row", "row", "col", "both", "none"])
    size = (g.few(1, 4), g.few(1, 4))
    if x < 0.4:
        d = table(g, style, *size, simple_cell)
        k = rng.random()
        if k < 0.3:
            d["content"].insert(0, g.block(rng.choice(["paragraph", "bulletList", "heading", "codeBlock"])))
            d["content"].append(g.block(rng.choice(["paragraph", "bulletList", "heading", "blockquote"])))
        elif k < 0.4:
            d = gen.wrap("doc", [gen.wrap("expand", d["content"])])
        return {"doc": d}
    if x < 0.5:
        kids = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = "".join(rng.choice(["\\", "\\\\", "|", "\\|", "|\\", "a", " ", "``", "`"] + CELLTEXT + ["".join(map(rng.choice, [PUNCT] * 3))])
                        for _ in range(rng.choice([1, 2, 3, 6])))
            el = {"type": "paragraph", "content": [{"type": "text", "text": t}]}
            if rng.random() < 0.2 and "\n" not in t:
                el["content"][0]["marks"] = [{"type": rng.choice(["code", "strong"])}]
            elif rng.random() < 0.2:
                el = {"type": "codeBlock", "content": [{"type": "text", "text": t}]}
            elif rng.random() < 0.2:
                el = g.block(rng.choice(adf.CELL_CHILDREN), g.max_depth - 1)
            kids.append(el)
        return {"twin": kids}
    if x < 0.9:
        return {"doc": table(g, style, *size, rich_cell, ragged=rng.random() < 0.3)}
    return {"cells": [rich_cell(g, rng.choice(["tableCell", "tableHeader"])) for _ in range(3)], "seed": i}


def lines_of(api, cell, mon):
    """The non-blank lines a cell has to show, from the renderings of its blocks alone."""
    out = []
    for b in cell["content"]:
        md = parse(api, b).to_markdown()
        for line in md.split("\n"):
            if not line.strip(" "):
                continue
            if "|" in line:
                mon.hit("escaped pipes")
            s = line.lstrip(" ")
            if s != line:
                mon.hit("leading spaces")
            out.append(("&nbsp;" * (len(line) - len(s)) + s.replace("|", "\\|")).rstrip(" "))
    if len(cell["content"]) > 1:
        mon.hit("cells with several blocks")
    if not out:
        mon.hit("empty cells")
    return out


def segments(text):
    return [s for s in (x.rstrip(" ") for x in text.split("<br>")) if s.replace("&nbsp;", "").strip(" ")]


def split_row(line, mon):
    """Cells of one table line."""
    if not (line.startswith("|") and line.endswith("|")):
        mon.fail(f"a table line does not begin and end with a pipe: {line!r:.200}")
    cells = re.split(r"(?<!\\)\|", line)[1:-1]
    return cells


def flat(seg):
    # a text may itself hold a line-break tag
    return [y for x in seg for y in (s.rstrip(" ") for s in x.split("<br>")) if y.replace("&nbsp;", "").strip(" ")]


def check_cell(api, cell, text, mon, where):
    want = flat(lines_of(api, cell, mon))
    got = segments(text)
    mon.hit("cells compared")
    if "\n" in text:
        mon.fail(f"{where} has a line break: {text!r:.200}")
    # the blanks around a cell belong to the row
    for x in (got, want):
        if x:
            x[0] = x[0].lstrip(" ")
    if want != got:
        k = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
        mon.fail(f"{where}: line {k} is {got[k:k + 2]!r:.250}, its blocks give {want[k:k + 2]!r:.250}")


def check(api, case, mon):
    if "twin" in case:
        a, b = (parse(api, {"type": t, "content": copy.deepcopy(case["twin"])}).to_markdown() for t in ("tableHeader", "tableCell"))
        if a != b:
            mon.fail(f"as header and as ordinary cell the same content gives {a!r:.200} and {b!r:.200}")
        blocks = "".join(parse(api, copy.deepcopy(x)).to_markdown() for x in case["twin"])
        n = blocks.count("|")
        if len(re.findall(r"\\\|", a)) != n or a.count("|") != n:
            mon.fail(f"{n} pipes in a cell come out as {a!r:.200}")
        if a.count("\\") != blocks.count("\\") + n:
            mon.fail(f"backslashes of a cell come out as {a!r:.200}, its blocks give {blocks!r:.200}")
        mon.hit("backslashes", blocks.count("\\"))
        mon.hit("header twin cells")
        mon.seen(a)
        return
    if "cells" in case:
        for k, c in enumerate(case["cells"]):
            twin = {**c, "type": "tableHeader" if c["type"] == "tableCell" else "tableCell"}
            a, b = parse(api, copy.deepcopy(c)).to_markdown(), parse(api, copy.deepcopy(twin)).to_markdown()
            if a != b:
                mon.fail(f"as header and as ordinary cell the same content gives {a!r:.200} and {b!r:.200}")
            mon.hit("header twin cells")
            check_cell(api, c, a, mon, "a cell")
            if re.search(r"(?<!\\)\|", a):
                mon.fail(f"a pipe in a cell is not escaped: {a!r:.200}")
            mon.seen(adf.shape(c))
        return
    doc = case["doc"]
    for _, el, _c in adf.walk(doc):
        if el.get("type") == "table":
            check_table(api, el, mon)
    rectangular = all(len({len(r["content"]) for r in el["content"]}) == 1 for _, el, _c in adf.walk(doc) if el.get("type") == "table")
    plain = all(k["type"] == "paragraph" for _, el, _c in adf.walk(doc) if el.get("type") in ("tableCell", "tableHeader")
                for k in el["content"])
    if rectangular and plain and headed(doc):
        tree.compare(api, doc, mon)
    mon.seen(adf.shape(doc))


def headed(doc):
    """Every table has a header line, and every text is plain words."""
    return all(el["content"][0]["content"][0]["type"] == "tableHeader" for _, el, _c in adf.walk(doc) if el.get("type") == "table") and all(
        t["text"] == " " or re.fullmatch(r"[A-Za-z0-9]+( [A-Za-z0-9]+)*", t["text"])
        for _, t, _c in adf.walk(doc) if t.get("type") == "text")


def check_table(api, el, mon):
    rows = el["content"]
    md = parse(api, copy.deepcopy(el)).to_markdown()
    lines = [x for x in md.strip("\n").split("\n")]
    has_header = any(c["type"] == "tableHeader" for r in rows for c in r["content"])
    first = rows[0]["content"][0]["type"] == "tableHeader"
    if len({len(r["content"]) for r in rows}) > 1:
        mon.hit("ragged tables")
    if len(rows) == 1 and len(rows[0]["content"]) == 1:
        mon.hit("one-cell tables")
    if first and len(rows) > 1 and rows[1]["content"] and rows[1]["content"][0]["type"] == "tableHeader":
        mon.hit("header columns")
    if first:
        want = len(rows) + 1
        mon.hit("delimiter rows")
        if len(lines) != want:
            mon.fail(f"a table of {len(rows)} rows with a header has {len(lines)} lines, expected {want}: {lines[:4]!r:.300}")
        d = [c.strip() for c in split_row(lines.pop(1), mon)]
        if len(d) != len(rows[0]["content"]) or any(not re.fullmatch(r":?-{1,}:?", c) for c in d):
            mon.fail(f"the delimiter line of a table with {len(rows[0]['content'])} columns has {d!r:.200}")
    elif not has_header:
        mon.hit("tables without header")
        if len(lines) != len(rows):
            mon.fail(f"a table of {len(rows)} rows without header has {len(lines)} lines: {lines[:4]!r:.300}")
    else:
        return
    for i, (line, row) in enumerate(zip(lines, rows)):
        mon.hit("rows compared")
        if not row["content"]:
            mon.hit("rows without cells")
            if line.strip("| "):
                mon.fail(f"a row without cells shows {line!r:.200}")
            continue
        cells = split_row(line, mon)
        if len(cells) != len(row["content"]):
            mon.fail(f"row {i} has {len(cells)} cells, the document has {len(row['content'])}: {line!r:.300}")
        for j, (text, c) in enumerate(zip(cells, row["content"])):
            check_cell(api, c, text, mon, f"cell {i},{j} ({c['type']})")
