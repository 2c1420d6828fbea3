"""C25: every part of a document is rendered independently of its neighbours."""
import copy
import random
import re

from .. import adf, gen
from .common import corpus, full_case, full_directed, minimal, parse

ID = "C25"
QUICK, THOROUGH = 12000, 300000
GIANTS = "all"
DECORATE = True
RULE = ("hostile and well-formed documents, and small neighbours whose texts begin and end like Markdown; every container is cut in two at random places (and, for small ones, everywhere) and the lines, cells or "
        "text of the whole compared with those of the two halves, errors included; distinct by container type, child types around the cut "
        "and skeleton")
BLOCKS = ["doc", "expand", "nestedExpand", "panel", "blockquote", "bulletList", "orderedList", "taskList", "decisionList", "table", "tableCell",
          "tableHeader", "listItem"]
INLINE = ["tableRow", "paragraph", "taskItem", "heading"]
ESSENTIAL = [f"cut {t}" for t in BLOCKS + INLINE] + ["inline parts compared one by one", "hostile documents", "well-formed documents", "lenient cuts", "repeated parts", "cuts with errors", "parts compared with themselves alone",
                                                                                   "real documents", "neighbours with odd texts", "parts compared one by one"]


def directed():
    out = [{**c, "seed": k} for k, c in enumerate(full_directed()) if c["cat"] == "node" and adf.depth(c["doc"]) <= 60]
    # every pair of neighbours under every container
    r = random.Random(25)
    for t in BLOCKS[:5]:
        kids = adf.NODES[t].content
        for a in kids:
            for b in kids:
                g = gen.Safe(r, budget=2, max_depth=2)
                out.append({"doc": {"type": t, **({"attrs": {"panelType": "note"}} if t == "panel" else {"attrs": {"title": "x"}} if t == "nestedExpand" else {"version": 1} if t == "doc" else {}),
                                    "content": [block(g, a), block(g, b), block(g, a)]}, "cat": "node", "seed": len(out), "safe": True})
    # the same part again and again, in every container
    for t in BLOCKS + INLINE:
        spec = adf.NODES[t]
        for a in spec.content:
            g = gen.Safe(r, budget=2, max_depth=2)
            for kid in (part(g, a), minimal(adf.NODES[a])):
                m = {**minimal(spec), "content": [kid] * 3}
                out.append({"doc": m, "cat": "node", "seed": len(out), "safe": True})
    out += list(pairs()) + list(inline_pairs()) + list(crowds())
    out += [{"doc": d, "cat": "node", "seed": k, "real": True} for k, d in enumerate(corpus())]
    return out


def block(g, t):
    return g.block(t) if t != "nestedExpand" else {"type": t, "attrs": {"title": g.word()}, "content": [g.paragraph()]}


def part(g, t):
    """A well-formed element of any type."""
    for _ in range(200):
        d = g.doc()
        found = [el for p, el, c in adf.walk(d) if c == "node" and el["type"] == t]
        if found:
            return found[0]
    return minimal(adf.NODES[t])


STARTS = ["|", "| ", "||", "-", "- ", "+ ", "* ", "*", "**", ">", "> ", "#", "# ", "`", "```", "~~~", "1. ", "2) ", " ", "  ", "    ", "\t", "[", "[ ] ", "- [x] ",
          "![", "=", "===", "---", "<", "<br>", "&", "&nbsp;", "\\", "_", ":", "|---|", "> > ", "", "", "\u00a0", "Extension: ", "(", "a|b "]


def odd(r, b):
    """The same block, its first and last text runs (if any) begin and end like Markdown."""
    runs = [el for p, el, c in adf.walk(b) if el.get("type") == "text"]
    if runs:
        runs[0]["text"] = r.choice(STARTS) + runs[0]["text"]
        runs[-1]["text"] += r.choice(STARTS)[::-1]
        for x in (runs[0], runs[-1]):
            if r.random() < 0.7:
                x.pop("marks", None)
    return b


def pairs():
    """Every block next to every other in every container, with every start of the text of the second and end of that of the first."""
    r = random.Random(2500)
    for t in BLOCKS[:5]:
        kids = [k for k in adf.NODES[t].content if k not in ("rule", "mediaGroup")]
        for a in kids:
            for b in kids:
                if a > b:
                    continue
                out = []
                for st in STARTS:
                    for k in (a, b) if a != b else (a,):
                        g = gen.Safe(r, budget=1, max_depth=1)
                        x = copy.deepcopy(block(g, k))
                        for c in [el for p, el, c in adf.walk(x) if el.get("type") == "tableHeader"][:1] if r.random() < 0.5 else []:
                            c["type"] = "tableCell"
                        runs = [el for p, el, c in adf.walk(x) if el.get("type") == "text"]
                        if runs:
                            for q in (runs[0], runs[-1]):
                                q.pop("marks", None)
                            runs[0]["text"] = st + runs[0]["text"]
                            runs[-1]["text"] += r.choice(STARTS)[::-1]
                        out.append(x)
                yield {"doc": {**minimal(adf.NODES[t]), "content": out}, "cat": "node", "seed": len(out), "odd": True, "pieces": True}


def inline_pairs():
    """Every inline element next to every other, with every start and end of text."""
    r = random.Random(2501)
    for t in ("paragraph", "heading", "taskItem"):
        kinds = [k for k in adf.NODES[t].content if k in adf.NODES]
        for a in kinds:
            for b in kinds:
                for _ in range(6 if (a, b) == ("text", "text") else 1):
                    out = []
                    for k, st in enumerate(r.sample(STARTS, len(STARTS))):
                        g = gen.Safe(r, budget=1, max_depth=1)
                        x = copy.deepcopy(part(g, a if k % 2 else b))
                        if x["type"] == "text":
                            x["text"] = st + x["text"] + r.choice(STARTS)[::-1] if r.random() < 0.9 else st
                            if r.random() < 0.4:
                                x.pop("marks", None)
                        out.append(x)
                    yield {"doc": {**minimal(adf.NODES[t]), "content": out}, "cat": "node", "seed": len(out), "odd": True, "pieces": True}


def crowds():
    """Very many odd neighbours of every kind in every container."""
    r = random.Random(2502)
    for t in BLOCKS + INLINE:
        for n in (150, 1500):
            g = gen.Safe(r, budget=1, max_depth=1)
            kinds = [k for k in adf.NODES[t].content if k in adf.NODES]
            stock = [part(g, k) if t not in BLOCKS[:5] else block(g, k) for k in kinds for _ in range(4)]
            out = []
            for _ in range(n):
                x = odd(r, copy.deepcopy(r.choice(stock)))
                if t in INLINE and x["type"] == "text" and r.random() < 0.8:
                    x.pop("marks", None)
                out.append(x)
            yield {"doc": {**minimal(adf.NODES[t]), "content": out}, "cat": "node", "seed": n + len(t), "odd": True, "pieces": True}


    for t in INLINE[1:]:
        for st in STARTS:
            g = gen.Safe(r)
            yield {"doc": {**minimal(adf.NODES[t]), "content": [{"type": "text", "text": st + g.word() + st[::-1]} for _ in range(130)]},
                   "cat": "node", "seed": len(t), "odd": True, "pieces": True}
    for t in BLOCKS:
        for k in adf.NODES[t].content:
            if k in adf.NODES:
                for st in r.sample(STARTS, 4):
                    g = gen.Safe(r, budget=1, max_depth=1)
                    out = []
                    for _ in range(40):
                        x = copy.deepcopy(part(g, k) if t not in BLOCKS[:5] else block(g, k))
                        runs = [el for p, el, c in adf.walk(x) if el.get("type") == "text"]
                        for q in runs:
                            q.pop("marks", None)
                        if runs:
                            runs[0]["text"] = st + runs[0]["text"]
                            runs[-1]["text"] += st[::-1]
                        out.append(x)
                    yield {"doc": {**minimal(adf.NODES[t]), "content": out}, "cat": "node", "seed": len(out), "odd": True, "pieces": True}


def neighbours(r, i):
    """Small blocks side by side whose texts look like the Markdown of their neighbours."""
    t = r.choice(BLOCKS[:5] + ["tableCell", "listItem"])
    kids = list(adf.NODES[t].content)
    some = r.sample(kids, min(len(kids), r.choice([2, 3, 5])))
    g = gen.Safe(r, budget=2, max_depth=2)
    out = []
    for _ in range(r.choice([3, 6, 9])):
        k = r.choice(some + ["paragraph"] * (r.random() < 0.5))
        if k not in adf.NODES[t].content:
            k = r.choice(some)
        if k == "table" and r.random() < 0.5:
            out.append({"type": k, "content": [{"type": "tableRow", "content": [{"type": "tableCell", "content": [g.paragraph()]}]}]})
        else:
            out.append(block(g, k) if t in BLOCKS[:5] else part(g, k))
        out[-1] = odd(r, copy.deepcopy(out[-1]))
    return {"doc": {**minimal(adf.NODES[t]), "content": out}, "cat": "node", "seed": i, "odd": True}


def generate(rng, i):
    if rng.random() < 0.25:
        return neighbours(rng, i)
    if rng.random() < 0.45:
        c = full_case(rng, i)
        while c["cat"] != "node":
            c = full_case(rng, i)
        return c
    s = gen.Safe(rng, budget=rng.choice([6, 20, 50]), max_depth=rng.choice([3, 5]), features={"richcells"} | (
        {"empties"} if rng.random() < 0.4 else set()))
    return {"doc": s.doc(), "cat": "node", "seed": i, "safe": True}


DELIMITER = re.compile(r"\|(?: --- \|)+")


def lines(t, md):
    """The lines that carry something."""
    if t in ("tableCell", "tableHeader"):
        out = md.split("<br>")
    else:
        out = md.split("\n")
    if t == "table":
        out = [l for l in out if not DELIMITER.fullmatch(l)]
    return [l for l in out if l.strip("> ")]


def convert(api, el, mon, **kw):
    o = parse(api, el)
    try:
        md = o.to_markdown(**kw)
    except Exception as e:
        return "raise", type(e).__name__, str(e)
    if type(md) is not str:
        mon.fail(f"a {el['type']} is rendered as {md!r:.80}, not as text")
    return "ok", md


def halves(el, k):
    a, b = copy.copy(el), copy.copy(el)
    a["content"], b["content"] = el["content"][:k], el["content"][k:]
    if el["type"] == "orderedList":
        attrs = el.get("attrs") or {}
        first = attrs.get("order", 1)
        if not isinstance(first, int):
            first = 1
        b["attrs"] = {**attrs, "order": first + sum(c.get("type") == "listItem" for c in a["content"])}
    return a, b


def cut(api, el, k, soft, mon):
    t = el["type"]
    kw = {"ignore_error": True} if soft else {}
    whole = convert(api, el, mon, **kw)
    a, b = halves(el, k)
    x, y = convert(api, a, mon, **kw), convert(api, b, mon, **kw)
    what = f"a {t} of {len(el['content'])} cut at {k}{', lenient' if soft else ''}"
    mon.hit(f"cut {t}")
    mon.hit("lenient cuts" if soft else "strict cuts")
    bad = x if x[0] == "raise" else y if y[0] == "raise" else None
    if bad:
        mon.hit("cuts with errors")
        mon.equal(whole, bad, f"{what}: the error")
        return
    if whole[0] != "ok":
        mon.fail(f"{what}: both halves can be converted, the whole gives {whole!r:.200}")
    w, x, y = whole[1], x[1], y[1]
    if t == "tableRow":
        if a["content"] and b["content"]:
            mon.equal(w, x[:-1] + y, what)
    elif t == "paragraph":
        mon.equal(w, x[:-1] + y, what)
    elif t == "taskItem":
        mon.equal(w, x + y, what)
    elif t == "heading":
        mon.equal(inner(el, w, mon), inner(el, x, mon) + inner(el, y, mon), what)
    else:
        lx, ly = lines(t, x), lines(t, y)
        if t == "panel" and ly and lx:
            # the heading of the panel, which both halves have
            if lx[0] != ly[0]:
                mon.fail(f"{what}: the headings are {lx[0]!r} and {ly[0]!r}")
            ly = ly[1:]
        got, want = lines(t, w), lx + ly
        if got != want:
            n = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))
            mon.fail(f"{what}: line {n} is {got[n:n + 2]!r:.200}, in the halves {want[n:n + 2]!r:.200} ({len(got)} and {len(want)} lines)")
        mon.hit("lines compared", len(got))
    mon.hit("comparisons")


def inner(el, md, mon):
    """The Markdown of the parts of a row, paragraph, heading or task."""
    t = el["type"]
    head, tail = {"paragraph": ("", "\n"), "taskItem": ("", ""), "tableRow": ("| ", " |")}.get(t) or (
        "\n\n" + "#" * el["attrs"]["level"] + " ", "\n\n")
    if not (md.startswith(head) and md.endswith(tail) and len(md) >= len(head) + len(tail)):
        mon.fail(f"a {t} renders as {md!r:.200}")
    return md[len(head):len(md) - len(tail)]


def inline_pieces(api, el, kw, whole, what, mon):
    got = []
    for kid in el["content"]:
        one = {**el, "content": [kid]}
        x = convert(api, one, mon, **kw)
        if x[0] == "raise":
            mon.equal(whole, x, f"{what}: the error")
            return
        got.append(inner(one, x[1], mon))
    if whole[0] != "ok":
        mon.fail(f"{what}: the parts can be converted, the whole gives {whole!r:.200}")
    mon.hit("inline parts compared one by one", len(got))
    w = inner(el, whole[1], mon)
    sep = " | " if el["type"] == "tableRow" else ""
    i = 0
    for k, x in enumerate(got):
        x = (sep if k else "") + x
        if w[i:i + len(x)] != x:
            mon.fail(f"{what}: part {k} ({el['content'][k].get('type')}) gives {w[i:i + len(x)]!r:.200}, alone {x!r:.200}")
        i += len(x)
    if w[i:]:
        mon.fail(f"{what}: text of no part: {w[i:]!r:.200}")


def pieces(api, el, soft, mon):
    """The whole against every part of it in a container of its own."""
    t, n = el["type"], len(el["content"])
    kw = {"ignore_error": True} if soft else {}
    whole = convert(api, el, mon, **kw)
    what = f"a {t} of {n} against its parts one by one{', lenient' if soft else ''}"
    if t not in BLOCKS:
        return inline_pieces(api, el, kw, whole, what, mon)
    want, rest = [], el
    for k in range(n):
        one, rest = halves(rest, 1)
        x = convert(api, one, mon, **kw)
        if x[0] == "raise":
            mon.equal(whole, x, f"{what}: the error")
            return
        ls = lines(t, x[1])
        want.append(ls[1:] if t == "panel" and k and ls else ls)
    if whole[0] != "ok":
        mon.fail(f"{what}: the parts can be converted, the whole gives {whole!r:.200}")
    got = lines(t, whole[1])
    mon.hit("parts compared one by one", n)
    i = 0
    for k, ls in enumerate(want):
        if got[i:i + len(ls)] != ls:
            mon.fail(f"{what}: part {k} ({el['content'][k].get('type')}) gives {got[i:i + len(ls)]!r:.200}, alone {ls!r:.200}")
        i += len(ls)
    if got[i:]:
        mon.fail(f"{what}: lines of no part: {got[i:]!r:.200}")


def alone(api, doc, r, mon):
    """A part is parsed and serialised as if it were alone."""
    doc = adf.project(doc)              # without elements of unimplemented types
    every = [(p, el, c) for p, el, c in adf.walk(doc) if p]
    if not every:
        return
    whole = parse(api, doc)
    data = whole.to_dict()
    for p, el, c in r.sample(every, min(len(every), 4)):
        o, d = whole, data
        for k in p:
            o = getattr(o, k) if isinstance(k, str) else o[k]
            d = d[k]
        q = parse(api, el, c)
        mon.hit("parts compared with themselves alone")
        if not (o == q and type(o) is type(q)):
            mon.fail(f"the {el.get('type')} at {p} is not equal to the same element parsed alone")
        for what, got in (("alone", q.to_dict()), ("as a part", o.to_dict())):
            if not adf.strict_eq(got, d):
                mon.fail(f"the {el.get('type')} at {p}: serialised {what}: {adf.first_diff(got, d)}")


def check(api, case, mon):
    doc = case["doc"]
    r = random.Random(f"c25:{case['seed']}")
    mon.hit("real documents" if case.get("real") else "neighbours with odd texts" if case.get("odd") else "well-formed documents" if case.get("safe") else "hostile documents")
    where = [(p, el) for p, el, c in adf.walk(doc) if c == "node" and (el["type"] in BLOCKS or el["type"] in INLINE)
             and el.get("content")]
    alone(api, doc, r, mon)
    if not where:
        return
    if case.get("pieces"):
        el = where[0][1]
        pieces(api, el, r.random() < 0.3, mon)
        mon.seen(("pieces", doc["type"], [c["type"] for c in el["content"][:2]]))
        return
    root = case.get("odd")
    for p, el in ([where[0]] if case.get("real") or root else []) + r.sample(where, min(len(where), 3)):
        if not all(isinstance(c, dict) and c.get("type") in adf.NODES for c in el["content"]):
            continue
        if "marks" in el:            # marks apply to the whole
            el = {k: v for k, v in el.items() if k != "marks"}
        if r.random() < 0.3:
            # the same part twice or more in a row
            i = r.randrange(len(el["content"]))
            twins = [copy.deepcopy(el["content"][i]) for _ in range(r.choice([1, 1, 2]))]
            el = {**el, "content": el["content"][:i] + twins + el["content"][i:]}
            mon.hit("repeated parts")
        n = len(el["content"])
        ks = range(0, n + 1) if n <= 3 or el is where[0][1] and case.get("odd") else r.sample(range(n + 1), 3)
        for k in ks:
            cut(api, el, k, r.random() < 0.3, mon)
            mon.seen((el["type"], [c["type"] for c in el["content"][max(0, k - 2):k + 2]], adf.shape(el) if n < 6 else n))
