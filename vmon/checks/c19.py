"""C19: the work for a document grows at most linearly with siblings, quadratically with depth and text length."""
import copy
import itertools
import logging
import random
import sys
import time

from .. import adf, gen
from .common import minimal, parse

ID = "C19"
QUICK, THOROUGH = 480, 12000
CPU_LIMIT = 150.0
LINES = False
RULE = ("families of documents growing in one direction (siblings of every container, nesting of random cycles of containers, marks "
        "per run, text length and shape in every text position, blank runs); the executed lines and calls of all Python code "
        "are counted with sys.monitoring and the CPU time of large members measured; the monitor checks the growth from one member to "
        "the next; distinct by family")
OPS = ["parse", "serialise", "convert", "convert leniently", "compare"]
ESSENTIAL = ["siblings family", "depth family", "marks family", "text family", "large siblings family", "large text family", "large marks family", "huge siblings family",
             "failing leaf", "skipped leaf", "members measured", "lines and calls counted"] + ["op " + o for o in OPS]

TOOL = 4


class Count:
    """Counts the lines and calls that run."""

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "vmon-count")
        self.n = 0

        def line(code, no):
            self.n += 1

        def start(code, off):
            self.n += 1
        m.register_callback(TOOL, m.events.LINE, line)
        m.register_callback(TOOL, m.events.PY_START, start)
        m.register_callback(TOOL, m.events.PY_RESUME, start)
        m.set_events(TOOL, m.events.LINE | m.events.PY_START | m.events.PY_RESUME)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for e in (m.events.LINE, m.events.PY_START, m.events.PY_RESUME):
            m.register_callback(TOOL, e, None)
        m.free_tool_id(TOOL)


P = {"type": "paragraph", "content": [{"type": "text", "text": "alpha"}]}
T = {"type": "text", "text": "beta "}
EMPTY = {"type": "paragraph"}
BAD = {"type": "paragraph", "content": [{"type": "inlineCard", "attrs": {"data": {}}}]}
SKIPPED = {"type": "paragraph", "content": [{"type": "text", "text": "s"}, {"type": "placeholderX"}]}

CHAIN = {     # container -> what it takes to put one block in it
    "doc": None, "expand": "blocks", "nestedExpand": "blocks", "blockquote": "blocks", "panel": "blocks",
    "bulletList": "item", "orderedList": "item", "table": "cell", "tableH": "header", "taskList": "task",
}


def put(kind, child):
    if kind in ("bulletList", "orderedList"):
        item = {"type": "listItem", "content": [P, child] if child.get("type") in ("bulletList", "orderedList") else [child]}
        return {"type": kind, "content": [item], **({"attrs": {"order": 1}} if kind == "orderedList" else {})}
    if kind in ("table", "tableH"):
        cell = {"type": "tableCell" if kind == "table" else "tableHeader", "content": [child]}
        return {"type": "table", "content": [{"type": "tableRow", "content": [cell]}]}
    if kind == "taskList":
        item = {"type": "taskItem", "attrs": {"localId": "i", "state": "TODO"}, "content": [T]}
        return {"type": "taskList", "attrs": {"localId": "l"}, "content": [item, child] if child.get("type") == "taskList" else [item]}
    el = {"type": kind, "content": [child]}
    if kind == "panel":
        el["attrs"] = {"panelType": "info"}
    if kind == "nestedExpand":
        el["attrs"] = {"title": "t"}
    return el


def nest(cycle, depth, leaf):
    x = leaf
    for i in range(depth):
        x = put(cycle[(depth - 1 - i) % len(cycle)], x)
    return {"type": "doc", "version": 1, "content": [x]}


WIDE = ["doc", "paragraph", "heading", "expand", "nestedExpand", "blockquote", "panel", "bulletList", "orderedList", "listItem", "table",
        "tableRow", "tableCell", "tableHeader", "taskList", "taskItem", "decisionList", "decisionItem", "codeBlock", "mediaGroup",
        "mediaSingle", "caption"]
FILL = {
    "block": [P, EMPTY, {"type": "rule"}, {"type": "heading", "attrs": {"level": 2}, "content": [T]},
              {"type": "codeBlock", "content": [{"type": "text", "text": "a\n\n\nb"}]},
              {"type": "codeBlock"}, {"type": "expand", "content": []}, {"type": "bulletList", "content": [{"type": "listItem", "content": [P]}]},
              {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableHeader", "content": [P]}]}]}, SKIPPED, BAD],
    "inline": [T, {"type": "hardBreak"}, {"type": "date", "attrs": {"timestamp": "1586361600000"}},
               {"type": "text", "text": "`a``b", "marks": [{"type": "code"}]}, {"type": "text", "text": "x", "marks": [{"type": "strong"}, {"type": "em"}]},
               {"type": "status", "attrs": {"text": "s", "color": "red"}}, {"type": "inlineCard", "attrs": {"data": {}}}, {"type": "nope"}],
}


def wide(kind, fill, n):
    """A document with n siblings in one container."""
    if kind == "doc":
        return {"type": "doc", "version": 1, "content": [fill] * n}
    if kind in ("paragraph", "heading", "caption"):
        el = {"type": kind, "content": [fill] * n}
        if kind == "heading":
            el["attrs"] = {"level": 1}
        if kind == "caption":
            el = {"type": "mediaSingle", "content": [{"type": "media", "attrs": {"type": "external", "url": "u"}}, el]}
    elif kind in ("bulletList", "orderedList"):
        el = {"type": kind, "content": [{"type": "listItem", "content": [fill]}] * n}
        if kind == "orderedList":
            el["attrs"] = {"order": 3}
    elif kind == "listItem":
        el = {"type": "bulletList", "content": [{"type": "listItem", "content": [fill] * n}]}
    elif kind == "table":
        el = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableCell", "content": [fill]}] * 2}] * n}
    elif kind == "tableRow":
        el = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableHeader", "content": [fill]}] * n}]}
    elif kind in ("tableCell", "tableHeader"):
        el = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": kind, "content": [fill] * n}]}]}
    elif kind in ("taskList", "decisionList"):
        item = {"type": kind.replace("List", "Item"), "attrs": {"localId": "i", "state": "DONE"}, "content": [fill]}
        el = {"type": kind, "attrs": {"localId": "l"}, "content": [item] * n}
    elif kind in ("taskItem", "decisionItem"):
        item = {"type": kind, "attrs": {"localId": "i", "state": "DONE"}, "content": [fill] * n}
        el = {"type": kind.replace("Item", "List"), "attrs": {"localId": "l"}, "content": [item]}
    elif kind == "codeBlock":
        el = {"type": kind, "content": [{"type": "text", "text": "line\n\n"}] * n}
    elif kind in ("mediaGroup", "mediaSingle"):
        el = {"type": kind, "attrs": {"layout": "center"}, "content": [{"type": "media", "attrs": {"type": "external", "url": "u"}}] * n}
        if kind == "mediaGroup":
            del el["attrs"]
    else:
        el = put(kind, P)
        el["content"] = [fill] * n
    return {"type": "doc", "version": 1, "content": [el]}


TEXTS = {
    "letters": lambda n: "a" * n, "backticks": lambda n: "`" * n, "newlines": lambda n: "\n" * n, "spaces": lambda n: " " * n,
    "pipes": lambda n: "|" * n, "lines": lambda n: "ab\n" * (n // 3), "blank lines": lambda n: "a\n\n\n" * (n // 4), "stars": lambda n: "* " * (n // 2),
    "backslashes": lambda n: "\\" * n, "brackets": lambda n: "[" * n, "fences": lambda n: "```\n" * (n // 4), "tabs": lambda n: "\t" * n,
    "rising runs": lambda n: "x".join("`" * k for k in range(int((2 * n) ** 0.5) + 1)), "spaces then x": lambda n: " " * n + "x",
    "quotes": lambda n: "> " * (n // 2), "breaks": lambda n: "<br>" * (n // 4), "returns": lambda n: "\r\n" * (n // 2),
    "spaces and newlines": lambda n: " \n" * (n // 2), "numbers": lambda n: "1. " * (n // 3), "bangs": lambda n: "\n!" * (n // 2),
}
PLACES = ["plain", "code", "strong", "strike", "link", "codeBlock", "cell", "header cell", "heading", "quote", "panel", "list", "nested list",
          "task", "decision", "status", "title", "language", "alt", "indented", "expand"]


def texted(place, s):
    t = {"type": "text", "text": s}
    p = {"type": "paragraph", "content": [t]}
    if place in ("code", "strong", "strike"):
        t["marks"] = [{"type": place}]
        if place == "code":
            t["text"] = s.replace("\n", " ").replace("\r", " ")
        el = p
    elif place == "link":
        t["marks"] = [{"type": "link", "attrs": {"href": s}}]
        el = p
    elif place == "title":
        t["text"] = "x"
        t["marks"] = [{"type": "link", "attrs": {"href": "h", "title": s}}]
        el = p
    elif place == "indented":
        p["marks"] = [{"type": "indentation", "attrs": {"level": 6}}]
        el = p
    elif place == "codeBlock":
        el = {"type": place, "attrs": {"language": "x"}, "content": [t]}
    elif place == "language":
        el = {"type": "codeBlock", "attrs": {"language": s}, "content": [{"type": "text", "text": "x"}]}
    elif place in ("cell", "header cell"):
        el = put("table" if place == "cell" else "tableH", p)
    elif place == "heading":
        el = {"type": place, "attrs": {"level": 3}, "content": [t]}
    elif place == "quote":
        el = put("blockquote", p)
    elif place == "panel":
        el = put("panel", p)
    elif place == "expand":
        el = put("expand", p)
    elif place == "list":
        el = put("bulletList", p)
    elif place == "nested list":
        el = put("bulletList", put("orderedList", put("bulletList", p)))
    elif place in ("task", "decision"):
        el = {"type": place + "List", "attrs": {"localId": "l"}, "content": [
            {"type": place + "Item", "attrs": {"localId": "l", "state": "TODO"}, "content": [t]}]}
    elif place == "status":
        el = {"type": "paragraph", "content": [{"type": "status", "attrs": {"text": s, "color": "red"}}]}
    elif place == "alt":
        el = {"type": "mediaSingle", "attrs": {"layout": "center"}, "content": [{"type": "media", "attrs": {"type": "external", "url": s, "alt": s}}]}
    else:
        el = p
    return {"type": "doc", "version": 1, "content": [el, P]}


def distinct(doc, fill):
    """The same document with every sibling different from the others."""
    count = itertools.count()

    def number(v, k):
        if isinstance(v, list):
            return [number(x, k) for x in v]
        if isinstance(v, dict):
            v = {a: number(x, k) for a, x in v.items()}
            t = v.get("type")
            if t == "text":
                v["text"] = f"{v['text']}{k}"
            elif "attrs" in v:
                v["attrs"] = {a: f"{x}{k}" if a in ("localId", "url", "text", "title") else x for a, x in v["attrs"].items()}
            return v
        return v

    def go(el):
        c = el.get("content")
        if isinstance(c, list):
            if len(c) > 20:
                return {**el, "content": [number(x, next(count)) for x in c]}
            return {**el, "content": [go(x) for x in c]}
        return el
    return go(doc)


def member(f, n):
    if f["family"] in ("siblings", "large siblings", "huge siblings"):
        doc = wide(f["kind"], f["fill"], n)
        return distinct(doc, f["fill"]) if f.get("distinct") else doc
    if f["family"] == "depth":
        return nest(f["cycle"], n, f["leaf"])
    if f["family"] in ("marks", "large marks"):
        ms = list(itertools.islice(itertools.cycle(f["marks"]), n))
        return {"type": "doc", "version": 1, "content": [{"type": "paragraph", "content": [{"type": "text", "text": "x y", "marks": ms}]}]}
    if isinstance(f["shape"], (list, tuple)):
        a, unit, b = f["shape"]
        return texted(f["place"], a + unit * (n // len(unit)) + b)
    return texted(f["place"], TEXTS[f["shape"]](n))


def accepts(kind):
    return "inline" if kind in ("paragraph", "heading", "caption", "taskItem", "decisionItem", "taskList", "decisionList") else "block"


def directed():
    out = []
    for k in WIDE:
        for fill in FILL[accepts(k)][:3]:
            out.append({"family": "siblings", "kind": k, "fill": fill})
        out.append({"family": "siblings", "kind": k, "fill": FILL[accepts(k)][0], "distinct": True})
        out.append({"family": "large siblings", "kind": k, "fill": FILL[accepts(k)][0]})
        out.append({"family": "large siblings", "kind": k, "fill": FILL[accepts(k)][0], "distinct": True})
    for k in ("doc", "paragraph", "bulletList", "tableRow", "table", "codeBlock", "mediaGroup", "taskList"):
        fill = T if k in ("paragraph", "taskList") else {"type": "rule"}
        out.append({"family": "huge siblings", "kind": k, "fill": fill})
    for k in CHAIN:
        if k != "doc":
            for leaf in (P, BAD, SKIPPED, EMPTY, {"type": "expand", "content": []}):
                out.append({"family": "depth", "cycle": [k], "leaf": leaf})
    out.append({"family": "depth", "cycle": ["bulletList", "orderedList"], "leaf": P})
    out.append({"family": "depth", "cycle": ["table", "nestedExpand"], "leaf": P})
    out.append({"family": "depth", "cycle": ["panel", "bulletList", "blockquote"], "leaf": P})
    for m in adf.MARKS:
        if m != "indentation":
            out.append({"family": "marks", "marks": [minimal(adf.MARKS[m])]})
            if m != "code":
                out.append({"family": "large marks", "marks": [minimal(adf.MARKS[m])]})
    out.append({"family": "large marks", "marks": [minimal(adf.MARKS[m]) for m in adf.MARKS if m not in ("indentation", "code")]})
    for p in PLACES:
        for s in list(TEXTS) + [("", c, "") for c in "-_#~()<>&=+.:\"'\u00a0\u3000"] + [
                ("", "ab ", ""), ("x", " ", "x"), ("x", " ", ""), ("x", "\n", "x"), ("", "a", "!"), ("", "a ", "!"), ("", "1", "-x\n"), ("!", "ab", "!")]:
            out.append({"family": "text", "place": p, "shape": s})
    for s in TEXTS:
        out.append({"family": "large text", "place": "plain", "shape": s})
        out.append({"family": "large text", "place": "codeBlock", "shape": s})
    return out


def generate(rng, i):
    x = rng.random()
    if x < 0.3:
        k = rng.choice(WIDE)
        return {"family": "siblings" if rng.random() < 0.8 else "large siblings", "kind": k, "fill": rng.choice(FILL[accepts(k)]),
                "distinct": rng.random() < 0.5}
    if x < 0.6:
        kinds = [k for k in CHAIN if k != "doc"]
        cyc = [rng.choice(kinds) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        return {"family": "depth", "cycle": cyc, "leaf": rng.choice([P, P, BAD, SKIPPED, EMPTY, {"type": "expand", "content": []}, FILL["block"][4], FILL["block"][8]])}
    if x < 0.68:
        g = gen.Gen(rng)
        return {"family": "marks", "marks": [g.mark([rng.choice([m for m in adf.MARKS if m != "indentation"])]) for _ in range(rng.choice([1, 2, 3]))]}
    shape = rng.choice(list(TEXTS))
    if rng.random() < 0.6:      # any short unit again and again
        chars = "ab1 \n\t|`*_-#>.<&[]()!~\\\"'=:/@ \u00a0\u2028\r"
        unit = "".join(rng.choice(chars) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        shape = [rng.choice(["", "", "x", "\n", " "]), unit, rng.choice(["", "", "x", "\n", " "])]
    return {"family": "text" if rng.random() < 0.7 else "large text", "place": rng.choice(PLACES), "shape": shape}


def operations(api, doc):
    """Each operation as a function of what it needs."""
    o = parse(api, doc)
    o2 = parse(api, doc)

    def conv():
        try:
            o.to_markdown()
        except Exception:
            pass
    return [("parse", lambda: parse(api, doc)), ("serialise", o.to_dict), ("convert", conv),
            ("convert leniently", lambda: o.to_markdown(ignore_error=True)), ("compare", lambda: o == o2)]


def check(api, f, mon):
    log = logging.getLogger("atlas_doc_parser")
    was = log.disabled
    log.disabled = True
    try:
        fam = f["family"]
        mon.hit(fam + " family")
        if f.get("leaf") == BAD or f.get("fill") == BAD:
            mon.hit("failing leaf")
        if f.get("leaf") == SKIPPED or f.get("fill") == SKIPPED:
            mon.hit("skipped leaf")
        if fam.startswith(("large", "huge")):
            timed(api, f, mon)
        else:
            counted(api, f, mon)
        mon.seen(repr(f))
    finally:
        log.disabled = was


def counted(api, f, mon):
    fam = f["family"]
    sizes = {"siblings": [25, 50, 100, 200], "depth": [4, 8, 16, 32], "marks": [8, 16, 32, 64, 128], "text": [100, 200, 400, 800, 1600]}[fam]
    limit = 2.45 if fam in ("siblings", "marks") else 4.6
    prev = {}
    for n in sizes:
        doc = member(f, n)
        ops = operations(api, doc)
        for name, op in ops:
            op()            # per-class caches are filled by now
            with Count() as c:
                op()
            mon.hit("op " + name)
            mon.hit("members measured")
            mon.hit("lines and calls counted", c.n)
            p = prev.get(name)
            if p and c.n > 400 and c.n > limit * p:
                mon.fail(f"to {name}: {c.n} lines and calls for a member of size {n} of the family {fam} {describe(f)}, but {p} for "
                         f"size {n // 2}: more than {'linear' if limit < 3 else 'quadratic'} growth")
            prev[name] = c.n


def timed(api, f, mon):
    fam = f["family"]
    sizes = {"large text": [8000, 32000, 128000], "huge siblings": [16000, 64000]}.get(fam, [1000, 4000, 16000])
    limit = 30 if fam == "large text" else 11
    names = OPS
    prev = {}
    for n in sizes:
        doc = member(f, n)
        for (name, op) in operations(api, doc):
            t = cpu(op)
            mon.hit("op " + name)
            mon.hit("members measured")
            p = prev.get(name)
            if p and t > 0.8 and t > limit * p:
                # measured again before judging: the smaller member must be cheap and the larger one dear, every time
                small = dict(operations(api, member(f, n // 4)))[name]
                if all(cpu(op) > limit * max(cpu(small) for _ in range(3)) for _ in range(2)):
                    mon.fail(f"to {name}: {t:.2f} s of CPU time for a member of size {n} of the family {fam} {describe(f)}, but {p:.3f} s for "
                             f"size {n // 4}: more than {'linear' if limit < 12 else 'quadratic'} growth")
            prev[name] = max(t, 1e-6)
    assert names


def cpu(op):
    t = time.process_time()
    op()
    return time.process_time() - t


def describe(f):
    return {k: (v if not isinstance(v, dict) else v.get("type")) for k, v in f.items() if k != "family"}
