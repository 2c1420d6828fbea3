"""
What a standard Markdown parser sees in an output: markdown-it-py (CommonMark plus
GFM tables and strike-through) reduced to a small tree of blocks and inline runs.

Blocks:   ["h", level, inline] ["p", inline] ["hr"] ["code", info, text] ["quote", [..]]
          ["ul", [[..item blocks..], ..]] ["ol", start, [..]] ["table", [[inline, ..], ..]]
Inline:   list of ["t", text, [marks], href|None] ["code", text, [marks], href|None]
          ["img", src, alt, href|None] ["br"] ["sb"]      (br: hard, sb: soft line break)
"""
from markdown_it import MarkdownIt

_MD = MarkdownIt("commonmark", {"maxNesting": 200}).enable(["table", "strikethrough"])


def parse(text):
    toks = _MD.parse(text)
    blocks, i = _blocks(toks, 0, None)
    return blocks


def _blocks(toks, i, close):
    out = []
    while i < len(toks):
        t = toks[i]
        if t.type == close:
            return out, i + 1
        if t.type == "heading_open":
            out.append(["h", int(t.tag[1]), inline(toks[i + 1].children)])
            i += 3
        elif t.type == "paragraph_open":
            out.append(["p", inline(toks[i + 1].children)])
            i += 3
        elif t.type == "hr":
            out.append(["hr"])
            i += 1
        elif t.type == "fence":
            c = t.content
            # every code line ends with a newline; an empty fence has none
            out.append(["code", t.info.strip(), c[:-1] if c.endswith("\n") else c])
            i += 1
        elif t.type == "code_block":
            out.append(["indented", t.content])
            i += 1
        elif t.type == "html_block":
            out.append(["html", t.content])
            i += 1
        elif t.type == "blockquote_open":
            kids, i = _blocks(toks, i + 1, "blockquote_close")
            out.append(["quote", kids])
        elif t.type in ("bullet_list_open", "ordered_list_open"):
            close_t = t.type.replace("open", "close")
            items, j = [], i + 1
            while toks[j].type != close_t:
                assert toks[j].type == "list_item_open"
                kids, j = _blocks(toks, j + 1, "list_item_close")
                items.append(kids)
            if t.type == "bullet_list_open":
                out.append(["ul", items])
            else:
                start = t.attrGet("start")
                out.append(["ol", 1 if start is None else int(start), items])
            i = j + 1
        elif t.type == "table_open":
            rows, i = _table(toks, i + 1)
            out.append(["table", rows])
        else:
            raise AssertionError(t.type)
    return out, i


def _table(toks, i):
    rows = []
    while toks[i].type != "table_close":
        t = toks[i]
        if t.type == "tr_open":
            rows.append([])
        elif t.type in ("th_open", "td_open"):
            c = inline(toks[i + 1].children)
            # a blank cell may be filled with a no-break space
            rows[-1].append(c if plain(c).strip() else [])
            i += 2
        i += 1
    return rows, i + 1


MARK = {"strong_open": "strong", "em_open": "em", "s_open": "strike"}


def inline(children):
    out, marks, href = [], [], []
    for t in children or []:
        h = href[-1] if href else None
        if t.type == "text":
            if t.content:
                add(out, ["t", t.content, sorted(set(marks)), h])
        elif t.type == "text_special":
            add(out, ["t", t.content, sorted(set(marks)), h])
        elif t.type == "softbreak":
            out.append(["sb"])
        elif t.type == "hardbreak":
            out.append(["br"])
        elif t.type == "code_inline":
            out.append(["code", t.content, sorted(set(marks)), h])
        elif t.type in MARK:
            marks.append(MARK[t.type])
        elif t.type.replace("close", "open") in MARK:
            marks.remove(MARK[t.type.replace("close", "open")])
        elif t.type == "link_open":
            href.append(t.attrGet("href"))
        elif t.type == "link_close":
            href.pop()
        elif t.type == "image":
            out.append(["img", t.attrGet("src"), t.content, h])
        elif t.type == "html_inline":
            if t.content.replace(" ", "").replace("/", "").lower() == "<br>":
                out.append(["br"])
            else:
                add(out, ["t", t.content, sorted(set(marks)), h])
        else:
            raise AssertionError(t.type)
    return norm(out)


def add(out, run):
    """Append a text run, joined to an equal-looking predecessor."""
    if out and out[-1][0] == "t" and out[-1][2:] == run[2:]:
        out[-1] = ["t", out[-1][1] + run[1], *run[2:]]
    else:
        out.append(run)


def norm(out):
    """Trim the blanks and breaks at both ends, and around breaks, as Markdown does."""
    runs = []
    for x in out:
        if x[0] == "t":
            add(runs, list(x))
        else:
            runs.append(list(x))
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(runs):
            if x[0] == "t":
                s = x[1]
                if i == 0 or runs[i - 1][0] in ("br", "sb", "any"):
                    s = s.lstrip(" \t")
                if i == len(runs) - 1 or runs[i + 1][0] in ("br", "sb", "any"):
                    s = s.rstrip(" \t")
                if s != x[1]:
                    changed = True
                    x[1] = s
                if not s:
                    del runs[i]
                    changed = True
                    break
            elif x[0] in ("br", "sb", "any") and (i == 0 or i == len(runs) - 1):
                del runs[i]
                changed = True
                break
    return runs


def plain(inl):
    """The text of an inline sequence, breaks as blanks."""
    out = []
    for x in inl:
        if x[0] in ("t", "code"):
            out.append(x[1])
        elif x[0] == "img":
            out.append(x[2])
        else:
            out.append(" ")
    return "".join(out)


BREAKS = ("br", "sb", "any")


def inline_eq(exp, got):
    if len(exp) != len(got):
        return False
    for a, b in zip(exp, got):
        if a[0] == "any":
            if b[0] not in BREAKS:
                return False
        elif a != b:
            return False
    return True


def diff(exp, got, path="blocks"):
    """None if the trees are equal, else a description of the first difference."""
    for i in range(max(len(exp), len(got))):
        here = f"{path}[{i}]"
        if i >= len(exp):
            return f"{here}: unexpected block {short(got[i])}"
        if i >= len(got):
            return f"{here}: missing block {short(exp[i])}"
        a, b = exp[i], got[i]
        if a[0] != b[0]:
            return f"{here}: expected {short(a)}, the Markdown has {short(b)}"
        k = a[0]
        if k == "h":
            if a[1] != b[1] or not inline_eq(a[2], b[2]):
                return f"{here}: expected {short(a)}, the Markdown has {short(b)}"
        elif k == "p":
            if not inline_eq(a[1], b[1]):
                return f"{here}: expected {short(a)}, the Markdown has {short(b)}"
        elif k == "code":
            if a != b:
                return f"{here}: expected {short(a)}, the Markdown has {short(b)}"
        elif k == "quote":
            d = diff(a[1], b[1], here + ".quote")
            if d:
                return d
        elif k in ("ul", "ol"):
            if k == "ol" and a[1] != b[1]:
                return f"{here}: list starts at {b[1]}, expected {a[1]}"
            if len(a[-1]) != len(b[-1]):
                return f"{here}: list has {len(b[-1])} items, expected {len(a[-1])}"
            for j, (x, y) in enumerate(zip(a[-1], b[-1])):
                d = diff(x, y, f"{here}.item[{j}]")
                if d:
                    return d
        elif k == "table":
            if len(a[1]) != len(b[1]):
                return f"{here}: table has {len(b[1])} rows, expected {len(a[1])}"
            for r, (x, y) in enumerate(zip(a[1], b[1])):
                if len(x) != len(y):
                    return f"{here}: row {r} has {len(y)} cells, expected {len(x)}"
                for c, (u, v) in enumerate(zip(x, y)):
                    if not inline_eq(u, v):
                        return f"{here}: cell {r},{c} is {short(v)}, expected {short(u)}"
    return None


def short(x, n=260):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
