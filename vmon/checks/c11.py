"""C11: code is verbatim."""
import random

from .. import adf, gen, harvest, mdtree
from . import tree

ID = "C11"
QUICK, THOROUGH = 200000, 1200000
RULE = ("documents with code blocks of hostile lines (backtick and tilde runs, Markdown syntax, blank lines, indentation, trailing "
        "blanks, exotic characters, up to hundreds of lines) in every container, and inline code of hostile texts; read back with "
        "markdown-it, every code text and label must be exactly that of the document; distinct by code texts and containers")
ESSENTIAL = ["code blocks compared", "inline code compared", "in doc", "in expand", "in blockquote", "in panel", "in list item",
             "in nested list item", "blank line runs", "backtick runs", "no label", "label", "label none", "several text nodes"]
LINES_ = ["", "", " ", "    ", "\t", "x = 1", "    indented", "\tindented", "trailing  ", "trailing\t", "# not a heading", "- item", "* item",
          "1. item", "> quote", "---", "***", "===", "| a | b |", "| --- | --- |", "`", "``", "```", "````", "`````", "```python", "a ``` b",
          "  ```", "    ```", "~~~", "~~~~", "~~~ python", "[a](b)", "![a](b)", "<br>", "<div>", "</pre>", "<!-- c -->", "&nbsp;", "&lt;",
          "\\", "\\`", "\\n", "**bold**", "*em*", "~~s~~", "é漢👍", "a\u00a0b", "\u2028", "a\u2028b", "a\u2029b", "\u0085", "a\x0bb", "a\x0cb",
          "\x1c", "\ufeff", "\u200b", "%s", "{0}", "\\1", "\\g<0>", "$&", "None", "none", "```none", "OPT", "[x]", "[ ] a", "> ", ">", "-", "1.",
          "    - deep", "        code", "text", "\u3000", "end ", "> ```", ">```", "> > ```", "- ```", "* ```", "+ ```", "1. ```", "1) ```", "12. ```", "- - ```", "\t```", " \t```",
          "```\t", "``` ", "```````", "x ```", "| ```", "# ```", "\u00a0```", "\u3000```", "[ ] ```", "- [ ] ```", "> ~~~", "- ~~~", "```>", "````x"]
LANGS = ["python", "java", "c++", "c#", "objective-c", "none", "none", None, "", "text", "plaintext", "NONE", "None", "json", "shell session",
         "actionscript", "x" * 40, "1", "jsx.tsx", "none-such", "nonesuch", "x-none"]
INLINE = ["a", "x=1", "`", "``", "```", "a`b", "`a`", "``a``", "a``b`c```d", "````", "*a*", "**b**", "[x](y)", "<br>", "&amp;", "\\", "a\\", "\\`",
          " a", "a ", "  a  ", "a  b", "~~a~~", "_", "é漢", "a\u00a0b", "$x$", "{a}", "None", "|", "a|b", "# a", "![i](u)", "http://e.x", "'", '"', "a" * 80]


def directed():
    out = []
    for t in LINES_ + ["\n".join(LINES_)]:
        for lang in (None, "none", "python"):
            out.append({"codes": [[lang, [t]]], "where": "doc", "seed": 1})
            out.append({"codes": [[lang, [f"a\n{t}\nb"]]], "where": "listItem", "seed": 1})
    for t in LINES_:
        # blank lines before and after it, which stay
        for where in WHERE:
            out.append({"codes": [["python", [f"a\n\n\n\n{t}\n\n\n\nb"]], [None, ["c"]]], "where": where, "seed": 1})
    for n in (0, 1, 2, 3, 4, 5, 10, 30, 200):
        for where in WHERE:
            out.append({"codes": [["python", ["a" + "\n" * n + "b"]]], "where": where, "seed": 1})
            out.append({"codes": [["", ["\n" * n]]], "where": where, "seed": 1})
            out.append({"codes": [["java", ["`" * n]], ["java", ["x\n" + "`" * n + "\ny"]]], "where": where, "seed": 1})
    for where in WHERE:
        many = [f"{' ' * (k % 5)}line {k}\n" for k in range(6000)]
        out.append({"codes": [["python", ["".join(many) + "end"]]], "where": where, "seed": 1})
        out.append({"codes": [["python", many]], "where": where, "seed": 1})
        out.append({"codes": [["python", ["wide " * 15000]]], "where": where, "seed": 1})
        out.append({"codes": [[None, [f"c{k}\n"]] for k in range(700)], "where": where, "seed": 1})
    for t in ("x" * 70000, "a`b" * 20000, "`" * 3000, "a " * 20000):
        for where in ("paragraph", "heading", "taskItem", "listItem"):
            out.append({"inline": [t], "where": where, "seed": 1})
    for t in INLINE:
        for where in ("paragraph", "heading", "taskItem", "decisionItem", "listItem", "blockquote"):
            out.append({"inline": [t], "where": where, "seed": 1})
            out.append({"inline": [t, "z" + t], "where": where, "seed": 1})
    return out


WHERE = ["doc", "expand", "blockquote", "panel", "listItem", "nestedItem", "panelInExpand", "listInPanel", "listInQuote", "firstInItem"]


def text(r):
    x = r.random()
    if x < 0.7:
        n = r.choice([0, 1, 2, 3, 5, 8])
    elif x < 0.97:
        n = r.choice(harvest.near(40))
    else:
        n = r.choice(harvest.near(1200))
    lines = []
    for _ in range(n):
        s = r.choice(LINES_)
        k = r.random()
        if k < 0.15:
            s = r.choice(["", "", "> ", "- ", "1. ", ">", "\t", "    ", " ", "> - ", "* "]) + "`" * r.choice([1, 2, 3, 3, 4, 5, 6, 7, 12, 40]) \
                + r.choice(["", "a", " a", " ", "\t"])
        elif k < 0.25:
            s = r.choice(["", " ", "  ", "\t", "    "]) + s + r.choice(["", " ", "  "])
        elif k < 0.3:
            s = gen.Gen(r).string()
        s = "".join(c for c in s if c not in "\r\n\x00" and not 0xD800 <= ord(c) < 0xE000)
        lines.append(s)
        if r.random() < 0.15:
            lines += [""] * r.choice([1, 2, 3, 4, 7])
    return "\n".join(lines)


def generate(rng, i):
    if rng.random() < 0.25:
        return {"inline": [inline_text(rng) for _ in range(rng.choice([1, 1, 2, 4]))],
                "where": rng.choice(["paragraph", "heading", "taskItem", "decisionItem", "listItem", "blockquote", "panel", "cell"]),
                "seed": i}
    return {"codes": [[rng.choice(LANGS) if rng.random() < 0.9 else (rng.choice(harvest.words() or ["x"])), split(text(rng), rng)]
                      for _ in range(rng.choice([1, 1, 1, 2, 3]))],
            "where": rng.choice(WHERE), "seed": i}


def split(s, r):
    """ADF may hold the code in one text node, none (if empty) or several."""
    if not s:
        return r.choice([[], [""]])
    if r.random() < 0.75 or len(s) < 2:
        return [s]
    k = r.randrange(1, len(s))
    return [s[:k], s[k:]]


def inline_text(r):
    s = r.choice(INLINE)
    while r.random() < 0.3:
        s += r.choice(INLINE)
    return s


def block(lang, texts, r):
    el = {"type": "codeBlock"}
    if texts or r.random() < 0.5:
        el["content"] = [{"type": "text", "text": t} for t in texts]
    if lang is not None:
        el["attrs"] = {"language": lang}
    elif r.random() < 0.5:
        el["attrs"] = r.choice([{}, {"language": None}, {"localId": "x"}])
    return el


def check(api, case, mon):
    r = random.Random(f"c11:{case['seed']}")
    if "inline" in case:
        return check_inline(api, case, mon, r)
    blocks = [block(lang, ts, r) for lang, ts in case["codes"]]
    para = lambda t: {"type": "paragraph", "content": [{"type": "text", "text": t}]}     # noqa: E731
    kids = []
    for k, b in enumerate(blocks):
        kids += [b] if r.random() < 0.5 else [para(f"before{k}"), b]
    if r.random() < 0.5:
        kids.append(para("after"))
    w = case["where"]
    lst = lambda items, t="bulletList": {"type": t, "content": items}                    # noqa: E731
    item = lambda c: {"type": "listItem", "content": c}                                  # noqa: E731
    t = r.choice(["bulletList", "orderedList"])
    base = lst([item([para("item")] + kids), item([para("last")])], t)
    if t == "orderedList" and r.random() < 0.5:
        base["attrs"] = {"order": r.choice([0, 1, 9, 10, 99, 100, 999, 12345, 99999, 100000, 999998, 123456789])}
    if w == "doc":
        content = kids
    elif w == "expand":
        content = [{"type": r.choice(["expand", "nestedExpand"]), "attrs": {"title": "t"}, "content": kids}, para("z")]
    elif w == "blockquote":
        content = [gen.wrap("blockquote", kids)]
    elif w == "panel":
        content = [gen.wrap("panel", kids)]
    elif w == "panelInExpand":
        content = [gen.wrap("expand", [gen.wrap("panel", kids)])]
    elif w == "listInPanel":
        content = [gen.wrap("panel", [base])]
    elif w == "listInQuote":
        content = [gen.wrap("blockquote", [base])]
    elif w == "listItem":
        content = [base]
    elif w == "firstInItem":
        content = [lst([item([b]) for b in blocks], t)]
    else:
        content = [lst([item([para("outer"), lst([item([para("mid"), base])], r.choice(["bulletList", "orderedList"]))])],
                       r.choice(["bulletList", "orderedList"]))]
    if r.random() < 0.3:
        content = [para("first")] + content + [para("final")]
    doc = gen.wrap("doc", content)
    md = tree.convert(api, doc)
    got = [[b[1], b[2]] for b in codes(mdtree.parse(md))]
    want = []
    for lang, ts in case["codes"]:
        s = "".join(ts)
        # an absent language, or "none", gives no label
        want.append([lang if lang and lang != "none" else "", s])
        mon.hit("label" if lang and lang != "none" else "label none" if lang == "none" else "no label")
        if "\n\n\n" in s:
            mon.hit("blank line runs")
        if "```" in s:
            mon.hit("backtick runs")
        if len(ts) > 1:
            mon.hit("several text nodes")
    name = {"listItem": "in list item", "firstInItem": "in list item", "nestedItem": "in nested list item", "listInPanel": "in panel",
            "listInQuote": "in blockquote", "panelInExpand": "in panel"}.get(w, "in " + w)
    mon.hit(name)
    mon.hit("code blocks compared", len(want))
    if got != want:
        if len(got) != len(want):
            mon.fail(f"{len(want)} code block(s) in {w} read back as {len(got)}: {want!r:.300} -> {got!r:.300}")
        for a, b in zip(want, got):
            if a[0] != b[0]:
                mon.fail(f"code label in {w} reads back as {b[0]!r}, the document has {a[0]!r}")
            if a[1] != b[1]:
                i = next((i for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
                mon.fail(f"code in {w} differs at character {i}: {a[1][max(0, i - 20):i + 40]!r} reads back as "
                         f"{b[1][max(0, i - 20):i + 40]!r}")
    mon.seen((w, t, tuple(map(str, want))))
    if len(mon.samples) < 2:
        mon.sample(repr(want)[:500])


def codes(blocks):
    for b in blocks:
        if b[0] == "code":
            yield b
        elif b[0] == "indented":
            yield ["code", "<indented>", b[1]]
        elif b[0] == "quote":
            yield from codes(b[1])
        elif b[0] in ("ul", "ol"):
            for i in b[-1]:
                yield from codes(i)


def check_inline(api, case, mon, r):
    texts, w = case["inline"], case["where"]
    if w == "cell":
        texts = [t.replace("\\", "/") for t in texts]
    kids = []
    for k, t in enumerate(texts):
        kids += [{"type": "text", "text": f"w{k} "}, {"type": "text", "text": t, "marks": [{"type": "code"}]}, {"type": "text", "text": " "}]
        if r.random() < 0.2:
            kids[-2]["marks"].append({"type": "link", "attrs": {"href": "http://e.x/l"}})
    kids.append({"type": "text", "text": "end"})
    p = {"type": "paragraph", "content": kids}
    if w == "paragraph":
        el = p
    elif w in ("heading",):
        el = {**gen.wrap("heading", kids)}
    elif w == "taskItem":
        el = gen.wrap("taskList", gen.wrap("taskItem", kids))
    elif w == "decisionItem":
        el = gen.wrap("decisionList", gen.wrap("decisionItem", kids))
    elif w == "listItem":
        el = gen.wrap("bulletList", gen.wrap("listItem", p))
    elif w == "cell":
        el = gen.wrap("table", gen.wrap("tableRow", {"type": "tableHeader", "content": [p]}))
    else:
        el = gen.wrap(w, p)
    md = tree.convert(api, gen.wrap("doc", el))
    got = [x[1] for x in inlines(mdtree.parse(md)) if x[0] == "code"]
    mon.hit("inline code compared", len(texts))
    if got != texts:
        mon.fail(f"inline code {texts!r:.200} in a {w} reads back as {got!r:.200}")
    mon.seen((w, tuple(texts)))


def inlines(blocks):
    for b in blocks:
        if b[0] == "p":
            yield from b[1]
        elif b[0] == "h":
            yield from b[2]
        elif b[0] == "quote":
            yield from inlines(b[1])
        elif b[0] in ("ul", "ol"):
            for i in b[-1]:
                yield from inlines(i)
        elif b[0] == "table":
            for row in b[1]:
                for c in row:
                    yield from c
