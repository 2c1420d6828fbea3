"""C08: every visible piece of text reaches the Markdown exactly as often as in the document, in order."""
import copy
import random
import re

from .. import adf, expect, gen
from .common import corpus

ID = "C08"
QUICK, THOROUGH = 60000, 600000
GIANTS = "all"
DECORATE = True
RULE = ("documents whose every visible value is a unique token, in every nesting of blocks (cells with blocks, lists in lists, quotes, "
        "panels, expands) with elements that render to nothing in between, half of them with hostile text between the tokens; the "
        "monitor compares the exact token sequence of the output with that of the document; distinct by skeleton")
ESSENTIAL = ["tokens", "hostile text", "in table cells", "in list items", "in task items", "in decision items", "in expands", "titled links",
             "media", "extensions", "runs of punctuation", "cards", "dates", "code blocks", "blocks that render to nothing"]
SILENT = ["CAPTION", "GROUP", "EXPANDTITLE"]
TOKEN = re.compile(r"(?<![A-Za-z0-9])[A-Za-z][A-Za-z0-9]*?\d+z(?![A-Za-z0-9])|(?<!\d)\d{4}-\d\d-\d\d(?!\d)")
JUNK = [s for s in gen.HOSTILE if s and not any(c.isalnum() and c.isascii() for c in s)] + [
    "|", "*", "**", "~~", "`", "```", "# ", "- ", "> ", "1. ", "\\", "[", "](", "<br>", "&nbsp;", "&amp;", "\n", "\n\n", "\n\n\n\n", "\n```\n",
    "\n---\n", "\n# ", "\n- ", "\n> ", "\n    ", "  \n", "\u2028", "\x0b", "\x0c", "\x1c", "OPT", "None", "%s", "{}", "{0}", "\\1", "\\g<0>", "$1"]


def directed():
    out = []
    # every block type in every container, alone and as a neighbour of everything else
    r = random.Random(8)
    for c, spec in adf.NODES.items():
        if not spec.content or c in ("caption", "mediaGroup", "mediaSingle", "codeBlock") or "text" in spec.content:
            continue
        if c in ("table", "tableRow", "bulletList", "orderedList", "taskList", "decisionList", "doc"):
            continue
        for a in spec.content:
            for b in spec.content:
                g = gen.Safe(r, budget=3, max_depth=3, features={"richcells"})
                el = gen.wrap(c, [g.block(a, 1), g.block(b, 1)])
                if c == "listItem":
                    if NESTING[a]:
                        continue
                    el = gen.wrap("bulletList", el)
                elif c in ("tableCell", "tableHeader"):
                    el = gen.wrap("table", gen.wrap("tableRow", el))
                out.append({"doc": gen.wrap("doc", [el]), "seed": 0})
    for a in adf.DOC_CHILDREN:
        for b in adf.DOC_CHILDREN:
            g = gen.Safe(r, budget=3, max_depth=3, features={"richcells"})
            out.append({"doc": gen.wrap("doc", [g.block(a), g.block(b)]), "seed": 0})
    return out


NESTING = {t: t in ("bulletList", "orderedList", "taskList") for t in adf.NODES}


def generate(rng, i):
    f = set(rng.sample(["empties", "richcells", "richcells"], 2))
    g = gen.Safe(rng, budget=rng.choice([4, 15, 30, 60]), max_depth=rng.choice([2, 4, 6]), features=f)
    x = rng.random()
    if x < 0.7:
        allowed = None
    else:
        allowed = rng.sample(adf.DOC_CHILDREN, rng.choice([1, 2, 3]))
    doc = g.doc(allowed)
    if rng.random() < 0.3:
        doc = repeated(doc, rng)
    if rng.random() < 0.35:
        probe(doc, rng)
    return {"doc": doc, "seed": i if rng.random() < 0.5 else 0}


def repeated(doc, r):
    """The same document with very few different tokens, and with some elements twice in a row."""
    k = r.choice([1, 2, 3])
    table = {}

    def sub(v):
        if isinstance(v, str):
            return TOKEN.sub(lambda m: table.setdefault(m.group(), f"w{r.randrange(k)}z"), v)
        if isinstance(v, list):
            return [sub(x) for x in v]
        return {a: sub(x) for a, x in v.items()} if isinstance(v, dict) else v

    doc = sub(doc)
    for _, el, _ in list(adf.walk(doc)):
        c = el.get("content")
        if c and r.random() < 0.15 and el["type"] not in ("mediaSingle", "codeBlock") and not (c and c[0]["type"] in INLINE):
            i = r.randrange(len(c))
            c[i:i] = [copy.deepcopy(c[i]) for _ in range(r.choice([1, 1, 2, 5]))]
        elif c and r.random() < 0.3 and c[0]["type"] in INLINE and el["type"] != "codeBlock":
            # the same run several times next to each other
            i = r.randrange(len(c))
            if c[i]["type"] == "text":
                c[i]["text"] += " "
            if c[i]["type"] in ("text", "status", "inlineCard"):
                c[i:i] = [copy.deepcopy(c[i]) for _ in range(r.choice([1, 1, 2, 5]))]
    return doc


INLINE = {t for t, n in adf.NODES.items() if t in adf.NODES["paragraph"].content}
PUNCT = "-*_~#>=.[]!+:;\"'(){}^/\\?,@%&$`<"
PROBES = ["-", "--", "---", "----", "- - -", "*", "**", "***", "_", "__", "___", "*-_", "~~", "~~~", "#", "##", ">", ">>", "> >", "=", "==", "...", ".",
          "[]", "[ ]", "[x]", "``", "```", "+", "1.", "10.", "!", "?", "''", ":", "::", "\\", "\\\\", "0", "<>", "&", "@", "/", "//", "%", "$", "()", "{}",
          "None", "False", "0", "nan", "null", "TODO", "x", "<!-- x -->", "<!---->", "<b>", "</b>", "<br>", "<br/>", "<x y>", "&amp;", "&nbsp;", "&#32;",
          "%20", "a+b", "e\u0301", "\u1100\u1161", "\ufb01", "\u212b", "\u00bd", "\u017f", "\u0130", "\u00df", "\u200b", "\ufeff", "\u00ad", "\u202e",
          "[a](b)", "![a](b)", "[a]: b", "[^1]", "{{x}}", "${x}", "{% x %}", "http://x", "https://x.y/?a=b&c#d", "www.x.y", "a@b.c", ":x:", "@x", "#1",
          "\x1b[0m", "\x00", "\x07", "\x08", "\x7f", "--x", "//x", "/*x*/", "\"x\"", "\u201cx\u201d", "\u2018", "\u2026", "\u2013", "\u2014", "1/2", "(c)",
          "->", "<-", "=>", "...x", "x...", "\ud83d\udc4d\ud83c\udffd".encode("utf-16", "surrogatepass").decode("utf-16"), "\U0001f3f3\ufe0f\u200d\U0001f308",
          "\u6f22\u5b57", "\u05d0\u05d1", "\u0e01\u0e33", "true", "undefined", "N/A", "TBD", "lorem ipsum", "Untitled", "password", "x" * 200, "a-b_c.d"]


def probe(doc, r):
    """Runs without any token: punctuation and words that code likes to treat specially; marked "probe" here, not in what is parsed."""
    for _, el, _ in list(adf.walk(doc)):
        c = el.get("content")
        if el["type"] not in ("paragraph", "heading", "taskItem", "decisionItem") or not c or r.random() < 0.5:
            continue
        x = r.random()
        if x < 0.7:
            p = r.choice(PROBES)
        elif x < 0.85:
            p = "".join(r.choice(PUNCT) for _ in range(r.randrange(1, 7)))
        else:
            p = "".join(chr(r.choice([r.randrange(33, 127), r.randrange(0xa1, 0x530), r.randrange(0x300, 0x370), r.randrange(0x2010, 0x2027),
                                      r.randrange(0x20a0, 0x2fff), r.randrange(0x4e00, 0x9fff), r.randrange(0x1f300, 0x1f700)]))
                        for _ in range(r.randrange(1, 8))).replace("|", "!")
        node = {"type": "text", "text": p, "probe": True}
        x = r.random()
        if x < 0.15:
            el["content"] = [node]
            continue
        sep = {"type": "hardBreak"} if r.random() < 0.6 and el["type"] != "heading" else {"type": "text", "text": " "}
        if x < 0.4:
            el["content"] = [node, sep] + c
        elif x < 0.65:
            el["content"] = c + [sep, node]
        else:
            i = r.randrange(len(c) + 1)
            el["content"] = c[:i] + [sep, node, dict(sep)] + c[i:]


def junk(doc, r):
    """Hostile text between the tokens of text runs (no line break where code or a status forbids it)."""
    doc = copy.deepcopy(doc)
    for _, el, c in adf.walk(doc):
        if el.get("type") == "text" and not el.get("probe") and r.random() < 0.5:
            code = any(m["type"] == "code" for m in el.get("marks") or [])
            words = el["text"].split(" ")
            out = words[0]
            if r.random() < 0.2:
                out = " " + pick(r, code) + " " + out
            for w in words[1:]:
                out += " " + pick(r, code) + " " + w
            if r.random() < 0.4:
                out += " " + pick(r, code) + " "
            el["text"] = out
    return doc


def pick(r, code):
    for _ in range(20):
        s = "".join(r.choice(JUNK) for _ in range(r.choice([1, 1, 2, 4])))
        if not (code and "\n" in s) and not TOKEN.search(f" {s} "):
            return s
    return "~"


def words(s):
    return TOKEN.findall(s)


def text_tokens(n):
    toks = words(n["text"])
    for m in n.get("marks") or []:
        if m["type"] == "link":
            t = m["attrs"].get("title")
            if isinstance(t, str) and t:
                toks = words(t)
            toks = toks + words(m["attrs"]["href"])
    return toks


class Probe(str):
    pass


def tokens(n, mon):
    t, a, c = n["type"], n.get("attrs") or {}, n.get("content") or []
    if n.get("probe"):
        return [Probe(n["text"])]
    if t == "text":
        if any(m["type"] == "link" and m["attrs"].get("title") for m in n.get("marks") or []):
            mon.hit("titled links")
        return text_tokens(n)
    if t == "emoji":
        return words(a["text"] if isinstance(a.get("text"), str) else a["shortName"])
    if t == "mention":
        return words(a["text"])
    if t == "date":
        mon.hit("dates")
        return [expect.utc_date(int(a["timestamp"]))]
    if t == "status":
        return words(a["text"])
    if t in ("inlineCard", "blockCard", "embedCard"):
        mon.hit("cards")
        return words(a["url"]) * 2
    if t == "extension":
        mon.hit("extensions")
        if isinstance(a.get("text"), str) and a["text"]:
            return words(a["extensionKey"]) + words(a["text"])
        return words(a["extensionType"]) + words(a["extensionKey"])
    if t == "media":
        mon.hit("media")
        toks = words(a.get("alt") or "") + words(a["url"] if a["type"] == "external" else a["id"])
        return text_tokens({"text": " ".join(toks), "marks": n.get("marks")})
    if t in ("mediaGroup", "mediaInline", "caption"):
        mon.hit("blocks that render to nothing")
        return []
    name = {"tableCell": "in table cells", "tableHeader": "in table cells", "listItem": "in list items", "taskItem": "in task items",
            "decisionItem": "in decision items", "expand": "in expands", "nestedExpand": "in expands", "codeBlock": "code blocks"}.get(t)
    if name:
        mon.hit(name)
    if t == "paragraph" and not c:
        mon.hit("blocks that render to nothing")
    return [x for k in c for x in tokens(k, mon)]


def check(api, case, mon):
    doc = case["doc"]
    if case["seed"]:
        doc = junk(doc, random.Random(f"c08:{case['seed']}"))
        mon.hit("hostile text")
    full = tokens(doc, mon)
    want = [x for x in full if not isinstance(x, Probe)]
    given = copy.deepcopy(doc)
    for _, el, _ in adf.walk(given):
        el.pop("probe", None)
    md = api.NodeDoc.from_dict(given).to_markdown()
    found = list(TOKEN.finditer(md))
    got = [m.group() for m in found]
    mon.hit("tokens", len(want))
    if got != want:
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        mon.fail(f"visible text differs at token {k} of {len(want)}: the document has {want[k:k + 4]}, the Markdown has {got[k:k + 4]}")
    if len(full) > len(want):
        mon.hit("runs of punctuation", len(full) - len(want))
        k, at = 0, 0
        for x in full:
            if isinstance(x, Probe):
                end = found[k].start() if k < len(found) else len(md)
                hit = md.find(x, at, end)
                if hit < 0:
                    mon.fail(f"the run {x!r} does not appear between {want[k - 1] if k else 'the start'} and "
                             f"{want[k] if k < len(want) else 'the end'}: {md[found[k - 1].end() if k else 0:end]!r}")
                at = hit + len(x)
            else:
                at = found[k].end()
                k += 1
    for s in SILENT:
        if s in md:
            mon.fail(f"the Markdown contains {s}, which shows no text")
    mon.seen(adf.shape(doc))
