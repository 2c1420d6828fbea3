"""
The block tree a document means, derived from its ADF alone (for the documents of
gen.Safe): the oracle for what mdtree.parse must see in the Markdown.
"""
import datetime

from .mdtree import norm


def utc_date(ms):
    """Proleptic Gregorian date of a millisecond timestamp, by integer arithmetic only."""
    days = ms // 86400000
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (1 if m <= 2 else 0)
    return f"{y:04d}-{m:02d}-{d:02d}"


def inline(nodes, br="br"):
    out = []
    for n in nodes or []:
        t = n["type"]
        a = n.get("attrs") or {}
        if t == "text":
            out.append(text_run(n))
        elif t == "hardBreak":
            out.append([br])
        elif t == "emoji":
            out.append(["t", a["text"] if isinstance(a.get("text"), str) else a["shortName"], [], None])
        elif t == "mention":
            out.append(["t", a["text"] if isinstance(a.get("text"), str) else "@Unknown", [], None])
        elif t == "date":
            out.append(["t", utc_date(int(a["timestamp"])), [], None])
        elif t == "status":
            out.append(["code", a["text"], [], None])
        elif t == "inlineCard":
            out.append(["t", a["url"], [], a["url"]])
        elif t == "mediaInline":
            pass
        else:
            raise AssertionError(t)
    return norm(out)


def text_run(n):
    text, marks, href, code = n["text"], set(), None, False
    for m in n.get("marks") or []:
        t = m["type"]
        if t in ("strong", "em", "strike"):
            if text.strip():
                marks.add(t)
        elif t == "code":
            if text.strip():
                code = True
        elif t == "link":
            title = m["attrs"].get("title")
            if isinstance(title, str) and title:
                # the title stands in for the text, marks applied so far included
                text, marks, code = title, set(), False
            href = m["attrs"]["href"]
    return ["code" if code else "t", text, sorted(marks), href]


def media(n):
    a = n["attrs"]
    href = None
    for m in n.get("marks") or []:
        if m["type"] == "link":
            title = m["attrs"].get("title")
            if isinstance(title, str) and title:
                return ["t", title, [], m["attrs"]["href"]]
            href = m["attrs"]["href"]
    if a["type"] == "link":
        return ["t", "[media]", [], None]
    alt = a["alt"] if isinstance(a.get("alt"), str) else "media"
    src = a["url"] if a["type"] == "external" else "media:" + a["id"]
    return ["img", src, alt, href]


def merge(blocks):
    """
    Neighbouring lists of one kind may join in Markdown: join them on both sides.
    A quote that shows nothing may or may not leave a trace: drop it on both sides.
    """
    out = []
    for b in blocks:
        if b[0] == "quote":
            b = ["quote", merge(b[1])]
            if not b[1]:
                continue
        elif b[0] in ("ul", "ol"):
            b = b[:-1] + [[merge(i) for i in b[-1]]]
        if out and b[0] in ("ul", "ol") and out[-1][0] == b[0]:
            out[-1] = out[-1][:-1] + [out[-1][-1] + b[-1]]
        else:
            out.append(b)
    return out


def blocks(nodes, level=0):
    out = []
    for n in nodes or []:
        out.extend(block(n, level))
    return merge(out)


def para(inl):
    return [["p", inl]] if inl else []


def block(n, level=0):
    t = n["type"]
    a = n.get("attrs") or {}
    c = n.get("content")
    if t == "paragraph":
        return para(inline(c))
    if t == "heading":
        return [["h", a["level"], inline(c)]]
    if t == "rule":
        return [["hr"]]
    if t == "codeBlock":
        lang = a.get("language")
        lang = lang if isinstance(lang, str) and lang != "none" else ""
        return [["code", lang, "".join(x["text"] for x in c or [])]]
    if t == "bulletList":
        return [["ul", [blocks(i["content"], level + 1) for i in c]]]
    if t == "orderedList":
        start = a.get("order")
        if level or not isinstance(start, int) or isinstance(start, bool):
            start = 1
        return [["ol", start, [blocks(i["content"], level + 1) for i in c]]]
    if t == "taskList":
        items = []
        for i in c:
            if i["type"] == "taskList":
                sub = block(i, level + 1)[0]
                if items and items[-1] and items[-1][-1][0] == "ul":
                    items[-1][-1] = ["ul", items[-1][-1][1] + sub[1]]
                elif items:
                    items[-1].append(sub)
                else:
                    items.append([sub])
            else:
                box = "[x] " if i["attrs"]["state"] == "DONE" else "[ ] "
                items.append(para(norm([["t", box, [], None]] + inline(i.get("content")))))
        return [["ul", items]]
    if t == "decisionList":
        return [q for i in c for q in [["quote", para(inline(i.get("content"), "any"))]] if q[1]]
    if t == "mediaSingle":
        return para(norm([media(m) for m in c or [] if m["type"] == "media"]))
    if t in ("mediaGroup", "caption"):
        return []
    if t == "extension":
        if isinstance(a.get("text"), str) and a["text"]:
            return para(norm([["t", f"[Extension: {a['extensionKey']}] {a['text']}", [], None]]))
        return para([["t", f"[Extension: {a['extensionType']}/{a['extensionKey']}]", [], None]])
    if t in ("blockCard", "embedCard"):
        return para([["t", a["url"], [], a["url"]]])
    if t == "table":
        return [["table", [[cell(x) for x in r["content"]] for r in c]]]
    if t == "blockquote":
        kids = blocks(c)
        return [["quote", kids]] if kids else []
    if t == "panel":
        return [["quote", merge([["p", [["t", a["panelType"].upper(), ["strong"], None]]]] + blocks(c))]]
    if t in ("expand", "nestedExpand"):
        return blocks(c)
    raise AssertionError(t)


def cell(n):
    """A cell with paragraphs of text only."""
    out = []
    for p in n["content"]:
        if out:
            out.append(["br"])
        out += inline(p.get("content"))
    return norm(out)


def doc(d):
    return blocks(d["content"])
