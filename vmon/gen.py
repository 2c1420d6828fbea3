"""Generators of ADF documents. All of them are deterministic in the given rng."""
import string

from . import adf, harvest
from .adf import NODES, MARKS

WS = ["", " ", "  ", "\t", "\n", " \n ", "\u00a0", "\u3000"]
WORDS = ["alpha", "Bravo", "charlie", "delta9", "Echo", "foxtrot", "golf", "hotel", "India", "juliet"]
HOSTILE = WS + ["a", "0", "1", "False", "None", "null", "nil", "OPT", "REQ", "undefined", "{}", "[]", "|", "||", "a|b",
                "`", "``", "```", "````", "**", "*", "~~", "_", "# x", "- x", "1. x", "> x", "---", "<br>", "&nbsp;",
                "a\nb", "a\n\nb", "a\n\n\n\nb", "\r\n", "\\", "\\|", "x" * 64, "é", "ß", "漢字", "👍🏽", "🏳️‍🌈", "\u2028",
                "\u200b", "\ufeff", "\x00", "\x1f", "\x85", "type", "content", "attrs", "marks", "text", "doc", "%s", "%d",
                "{0}", "{x}", "$a", "@me", ":smile:", "http://e.x/?a=b&c=d#e", "mailto:a@b.c", " lead", "trail ",
                "e\u0301", "\u212b", "\ufb01", "\u0130i", "\u1100\u1161", "<!-- x -->", "<b>x</b>", "&amp;", "%20", "a+b", "\u00ad", "\x0b", "\x0c", "\x1c", "\u2029", "\r",
           "\x1b[0m", "[a](b)", "![a](b)", "${x}", "{{x}}", "none", "plain", "TODO", "DONE", "done", "1586361600000", "1.0", "1e5", "-1", "true", "\ud83d", "\u202e"]
KEYS = ["type", "content", "attrs", "marks", "text", "version", "id", "url", "title", "localId", "level", "order",
        "", " ", "a", "b", "é", "__class__", "__dict__", "self", "cls", "None", "data", "parameters", "macroParams",
        "to_dict", "from_dict", "to_markdown", "is_type_of", "0"]


class Gen:
    """Any valid document, with hostile values: for the properties about parsing and serialising."""

    novel = ()

    def __init__(self, rng, max_depth=6, budget=40, surrogates=True, own_marks=False):
        self.r = rng
        self.max_depth = max_depth
        self.left = budget
        self.near = harvest.near(60)
        self.hstr = harvest.strs()
        self.novel = harvest.novel_strs()
        self.surrogates = surrogates
        self.own_marks = own_marks
        # how often optional things are present in this document
        self.p_opt = rng.choice([0.0, 0.15, 0.5, 0.5, 0.85, 1.0])
        self.p_null = rng.choice([0.0, 0.0, 0.1, 0.3])

    # ---- values
    def string(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            s = r.choice(WORDS) + str(r.randrange(100))
        elif x < 0.75:
            s = r.choice(HOSTILE)
        elif x < 0.87 and self.hstr:
            s = r.choice(self.hstr)
        elif x < 0.92:
            s = "".join(r.choice(string.printable) for _ in range(r.choice(self.near)))
        elif x < 0.95:
            s = r.choice("ab ") * r.choice(harvest.near(3000))
        else:
            s = "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0xa0, 0x2fff), r.randrange(0x1f300, 0x1f700)]))
                        for _ in range(r.randrange(1, 12)))
        if not self.surrogates:
            s = s.encode("utf-8", "ignore").decode("utf-8")
        return s

    def integer(self):
        r = self.r
        return r.choice([0, 1, 2, 3, -1, 6, 10, 100, 255, 2 ** 31, -2 ** 63, 10 ** 30, r.randrange(1000),
                         r.choice(harvest.ints() or [0]), r.choice(harvest.ints() or [0]) + 1])

    def number(self):
        r = self.r
        return r.choice([self.integer(), 0, 0.0, -0.0, 0.5, -1.5, 100.0, 1e300, 1e16, 2 ** 53 + 1, 0.1 + 0.2, 33.33, 1e-9, r.random() * 1000])

    def json(self, d=0):
        r = self.r
        x = r.random()
        if x < 0.02 and d < 2:      # many members
            n = r.choice(self.near + [25, 40, 70])
            if r.random() < 0.5:
                return {f"k{i}": [i] if i % 3 == 0 else i for i in range(n)}
            return [{"i": i} if i % 3 == 0 else i for i in range(n)]
        if d > 3 or x < 0.45:
            return r.choice([None, True, False, 0, 1, 0.0, 1.0, "", [], {}, self.string(), self.integer(), self.number()])
        if x < 0.7:
            return [self.json(d + 1) for _ in range(r.randrange(4))]
        return {self.key(): self.json(d + 1) for _ in range(r.randrange(5))}

    def key(self):
        if self.novel and self.r.random() < 0.3:
            return self.r.choice(self.novel)
        return self.r.choice(KEYS) if self.r.random() < 0.7 else self.string()

    def obj(self):
        v = self.json()
        return v if isinstance(v, dict) else {self.key(): v}

    def timestamp(self):
        r = self.r
        return str(r.choice([0, 1586361600000, r.randrange(-10 ** 12, 4 * 10 ** 12), r.randrange(10 ** r.randrange(1, 19))]))

    def value(self, kind):
        r = self.r
        if isinstance(kind, tuple):
            return r.choice(kind[1])
        if kind == "str":
            return self.string()
        if kind == "int":
            return self.integer()
        if kind == "num":
            return self.number()
        if kind == "bool":
            return r.random() < 0.5
        if kind == "json":
            return self.json()
        if kind == "object":
            return self.obj()
        if kind == "datasource":
            if r.random() < 0.3:
                return self.obj()
            d = {"id": self.string(), "parameters": self.json(), "views": [
                {"type": self.string(), "properties": self.obj()} for _ in range(r.randrange(3))]}
            for k in list(d):
                if r.random() < 0.2:
                    del d[k]
            return d
        if kind == "liststr":
            return [self.string() for _ in range(self.some())]
        if kind == "listint":
            return [self.integer() for _ in range(self.some())]
        if kind == "timestamp":
            return self.timestamp()
        raise ValueError(kind)

    def attrs(self, spec):
        out = {}
        names = list(spec.attrs)
        if self.r.random() < 0.3:
            self.r.shuffle(names)
        for n in names:
            req, kind = spec.attrs[n]
            if req:
                out[n] = self.value(kind)
            elif self.r.random() < self.p_opt:
                out[n] = None if self.r.random() < self.p_null else self.value(kind)
        return out

    def mark(self, types=None):
        spec = MARKS[self.r.choice(types or list(MARKS))]
        m = {"type": spec.type}
        if spec.attrs is not None:
            m["attrs"] = self.attrs(spec)
        return self.shuffled(m)

    def shuffled(self, d):
        if self.r.random() < 0.3:
            ks = list(d)
            self.r.shuffle(ks)
            d = {k: d[k] for k in ks}
        return d

    def some(self):
        """How many marks or values of an attribute; sometimes many, sometimes the same one repeatedly."""
        r = self.r
        return r.choice([0, 1, 1, 1, 2, 3, 5]) if r.random() < 0.97 else r.choice(self.near)

    def count(self):
        r = self.r
        x = r.random()
        if x < 0.06:
            return 0
        if x < 0.9:
            return r.randrange(1, 4)
        if x < 0.97:
            return r.randrange(3, 9)
        return r.choice(self.near)

    def node(self, type=None, depth=0):
        r = self.r
        self.left -= 1
        spec = NODES[type or r.choice(list(NODES))]
        el = {"type": spec.type}
        for n, (req, kind) in spec.extra.items():
            if n == "version":
                el[n] = 1 if r.random() < 0.9 else self.integer()
            else:
                el[n] = self.value(kind)
        if spec.attrs is not None and (spec.attrs_required or r.random() < self.p_opt):
            el["attrs"] = self.attrs(spec)
        if spec.content is not None:
            if spec.content_required or r.random() < 0.9:
                kids = []
                if depth < self.max_depth:
                    n = self.count()
                    leaves = [t for t in spec.content if NODES[t].content is None]
                    for _ in range(n):
                        if self.left <= 0 and not (leaves and len(kids) < 2):
                            break
                        pool = spec.content
                        if self.left <= 0 or (depth >= self.max_depth - 1 and leaves):
                            pool = leaves or pool
                        kids.append(self.node(r.choice(pool), depth + 1))
                el["content"] = kids
        if spec.marks is not None and r.random() < (0.15 + 0.5 * self.p_opt):
            types = spec.marks if self.own_marks or r.random() < 0.8 else None
            el["marks"] = [self.mark(types) for _ in range(self.some())]
        return self.shuffled(el)

    def doc(self):
        return self.node("doc")


def chain(types, leaf):
    """Nest the given container types around a leaf element."""
    el = leaf
    for t in reversed(types):
        el = wrap(t, el)
    return el


def wrap(t, child):
    base = {
        "heading": {"attrs": {"level": 2}}, "taskList": {"attrs": {"localId": "l"}},
        "taskItem": {"attrs": {"localId": "l", "state": "TODO"}},
        "decisionList": {"attrs": {"localId": "l"}}, "decisionItem": {"attrs": {"localId": "l", "state": "DECIDED"}},
        "panel": {"attrs": {"panelType": "info"}}, "nestedExpand": {"attrs": {"title": "t"}},
        "doc": {"version": 1},
    }.get(t, {})
    return {"type": t, **base, "content": [child] if not isinstance(child, list) else child}


# ----------------------------------------------------------------------------- rendering
# attributes that do show in the Markdown
SHOWN = {"emoji": {"text"}, "mention": {"text"}, "extension": {"text"}, "codeBlock": {"language"}, "orderedList": {"order"},
         "media": {"alt", "url", "id", "type"}, "link": {"title"}, "inlineCard": {"url"}, "blockCard": {"url"}}


def decorate(doc, r):
    """Adds optional attributes that do not show, in place."""
    g = Gen(r, surrogates=False)
    p = r.choice([0.05, 0.3, 0.8])
    for _, el, cat in list(adf.walk(doc)):
        spec = (NODES if cat == "node" else MARKS)[el["type"]]
        if not spec.attrs or r.random() > p:
            continue
        for n, (req, kind) in spec.attrs.items():
            if req or n in SHOWN.get(el["type"], ()) or n in (el.get("attrs") or {}) or r.random() < 0.5:
                continue
            el.setdefault("attrs", {})[n] = g.value(kind)
    return doc


ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class Safe:
    """
    Documents whose texts are plain words, for the properties about Markdown.
    Every token is unique, so that its position in the output is unambiguous.
    """

    def __init__(self, rng, budget=30, max_depth=5, features=()):
        self.r = rng
        self.left = budget
        self.max_depth = max_depth
        self.n = 0
        self.f = set(features)
        self.near = harvest.near(60)
        self.big = rng.random() < 0.25   # this document has one big dimension somewhere
        self.hwords = harvest.words()

    def word(self):
        self.n += 1
        r = self.r
        stem = r.choice(["w", "Qx", "tok", "Zed", "k"]) if r.random() < 0.9 or not self.hwords else r.choice(self.hwords)
        return f"{stem}{self.n}z"

    def text(self):
        r = self.r
        n = 1 if r.random() < 0.5 else r.randrange(1, 5)
        if self.big and r.random() < 0.02:
            n = r.choice(harvest.near(400))
        ws = [self.word() for _ in range(max(1, n))]
        if r.random() < 0.12:       # begins or ends with any letter or digit
            k = r.randrange(3)
            if k != 1:
                ws.append(r.choice(ALNUM) * r.choice([1, 1, 1, 2]))
            if k != 0:
                ws.insert(0, r.choice(ALNUM) * r.choice([1, 1, 1, 2]))
        return " ".join(ws)

    def url(self):
        return f"https://ex.com/{self.word()}"

    def few(self, lo=1, hi=3):
        r = self.r
        if self.big and r.random() < 0.25:
            self.big = False
            n = r.choice(self.near)
            self.left += n
            return max(lo, n)
        return r.randrange(lo, hi + 1)

    # ---- inline
    def marks(self):
        r = self.r
        pool = ["strong", "em", "strike", "underline", "textColor", "backgroundColor", "subsup", "annotation", "link"]
        ms = r.sample(pool, r.choice([0, 0, 1, 1, 2, 3]))
        out = [self.mark(t) for t in ms]
        return out

    def mark(self, t):
        r = self.r
        a = {"textColor": lambda: {"color": "#ff0000"}, "backgroundColor": lambda: {"color": "#00ff00"},
             "subsup": lambda: {"type": r.choice(["sub", "sup"])},
             "annotation": lambda: {"id": "x", "annotationType": "inlineComment"},
             "link": self.link_attrs, "border": lambda: {"size": 1, "color": "#000000"},
             "alignment": lambda: {"align": r.choice(["center", "end"])},
             "indentation": lambda: {"level": r.randrange(1, 7)},
             "breakout": lambda: {"mode": "wide"}, "dataConsumer": lambda: {"sources": ["s"]},
             "fragment": lambda: {"localId": "f"}}.get(t)
        return {"type": t, "attrs": a()} if a else {"type": t}

    def link_attrs(self):
        a = {"href": self.url()}
        x = self.r.random()
        if x < 0.12:
            a["title"] = self.word()
        elif x < 0.2:
            a["title"] = self.r.choice(["", None])
        return a

    def text_node(self, marks=True):
        n = {"type": "text", "text": self.text()}
        if marks and self.r.random() < 0.45:
            n["marks"] = self.marks()
        return n

    def code_text(self):
        n = {"type": "text", "text": self.text(), "marks": [{"type": "code"}]}
        if self.r.random() < 0.2:
            n["marks"].append(self.mark("link"))
        return n

    def atom(self):
        r = self.r
        t = r.choice(["text"] * 8 + ["code", "emoji", "mention", "date", "status", "inlineCard", "mediaInline", "plain"])
        if t == "text":
            return self.text_node()
        if t == "plain":
            return self.text_node(False)
        if t == "code":
            return self.code_text()
        if t == "emoji":
            a = {"shortName": f":{self.word()}:"}
            if r.random() < 0.5:
                a["text"] = self.word()
            return {"type": "emoji", "attrs": a}
        if t == "mention":
            return {"type": "mention", "attrs": {"id": "1", "text": "@" + self.word()}}
        if t == "date":
            return {"type": "date", "attrs": {"timestamp": str(r.randrange(0, 4 * 10 ** 12))}}
        if t == "status":
            return {"type": "status", "attrs": {"text": self.text(), "color": "blue"}}
        if t == "inlineCard":
            return {"type": "inlineCard", "attrs": {"url": self.url()}}
        if t == "mediaInline":
            return {"type": "mediaInline", "attrs": {"id": "i", "collection": "c"}}

    def inline(self, breaks=True, lo=1):
        """Inline content; runs are kept apart by blanks so that Markdown delimiters are unambiguous."""
        r = self.r
        out = []
        n = self.few(lo, 4)
        for i in range(n):
            if out:
                if breaks and r.random() < 0.15 and out[-1]["type"] != "hardBreak":
                    out.append({"type": "hardBreak"})
                else:
                    out.append({"type": "text", "text": " "})
            out.append(self.atom())
        # what is at either end or next to a break is visible text
        for i, x in enumerate(out):
            if x["type"] == "mediaInline" and (i in (0, len(out) - 1) or "hardBreak" in (
                    out[i - 1]["type"], out[i + 1]["type"])):
                out[i] = self.text_node()
        return out

    # ---- blocks
    def paragraph(self, **k):
        p = {"type": "paragraph", "content": self.inline(**k)}
        if self.r.random() < 0.1:
            p["attrs"] = {"localId": "p"}
        if self.r.random() < 0.08:
            p["marks"] = [self.mark("alignment")]
        return p

    def empty_paragraph(self):
        kinds = [{"type": "paragraph"}, {"type": "paragraph", "content": []},
                 {"type": "paragraph", "content": [{"type": "text", "text": " "}]}]
        return dict(self.r.choice(kinds[:2] if "strictblank" in self.f else kinds))

    def code(self):
        r = self.r
        lines = []
        for _ in range(self.few(1, 4)):
            x = r.random()
            lines.append("" if x < 0.2 and "solidcode" not in self.f else r.choice(["", "  ", "    ", "\t"]) + self.text())
        el = {"type": "codeBlock"}
        text = "\n".join(lines)
        if text:
            el["content"] = [{"type": "text", "text": text}]
        if r.random() < 0.7:
            el["attrs"] = {"language": r.choice(["python", "java", "none", "text", "cpp", "none"])}
        return el

    def heading(self):
        return {"type": "heading", "attrs": {"level": self.r.randrange(1, 7)}, "content": self.inline(breaks=False)}

    def media(self):
        r = self.r
        if r.random() < 0.5:
            a = {"type": "external", "url": self.url()}
        else:
            a = {"type": "file", "id": self.word(), "collection": "c"}
        if r.random() < 0.5:
            a["alt"] = self.word()
        m = {"type": "media", "attrs": a}
        if r.random() < 0.15:
            m["marks"] = [self.mark(r.choice(["link", "border", "annotation"]))]
        return m

    def media_single(self):
        el = {"type": "mediaSingle", "content": [self.media()]}
        if self.r.random() < 0.6:
            el["attrs"] = {"layout": "center"}
        if self.r.random() < 0.2:
            el["content"].append({"type": "caption", "content": [{"type": "text", "text": "CAPTION"}]})
        return el

    def media_group(self):
        return {"type": "mediaGroup", "content": [
            {"type": "media", "attrs": {"type": "file", "id": "GROUP", "collection": "c"}}]}

    def extension(self):
        a = {"extensionKey": self.word(), "extensionType": "com.ext." + self.word()}
        x = self.r.random()
        if x < 0.5:
            a["text"] = self.text()
        elif x < 0.6:
            a["text"] = ""
        return {"type": "extension", "attrs": a}

    def card(self, t):
        a = {"url": self.url()}
        if t == "embedCard":
            a["layout"] = "center"
        return {"type": t, "attrs": a}

    def list_item(self, depth):
        r = self.r
        x = r.random()
        if x < 0.04:
            first = self.empty_paragraph()
        elif x < 0.8:
            first = self.paragraph()
        elif x < 0.87:
            first = self.code()
        elif x < 0.94:
            first = self.media_single()
        else:
            first = self.extension()
        kids = [first]
        if depth < self.max_depth and self.left > 0:
            k = r.choice([0, 0, 0, 1, 1, 2])
            if self.big and r.random() < 0.15:      # an item of many blocks
                self.big = False
                k = r.choice(self.near)
                self.left += k
            for _ in range(k):
                t = r.choice(["bulletList", "orderedList", "taskList", "bulletList", "orderedList",
                              "paragraph", "codeBlock", "mediaSingle", "extension"])
                kids.append(self.block(t, depth + 1))
        return {"type": "listItem", "content": kids}

    def list(self, t, depth):
        r = self.r
        el = {"type": t, "content": [self.list_item(depth) for _ in range(self.few(1, 3))]}
        if t == "orderedList" and r.random() < 0.5:
            el["attrs"] = {}
            if r.random() < 0.8:
                el["attrs"]["order"] = r.choice([0, 1, 2, 3, 5, 8, 9, 10, 95, 98, 99, 100, 101, 998, 1000,
                                                 r.choice(harvest.near(5000))])
        return el

    def task_list(self, depth):
        r = self.r
        kids = []
        for i in range(self.few(1, 3)):
            kids.append(self.task_item())
            if depth < self.max_depth and self.left > 0 and r.random() < 0.25:
                kids.append(self.block("taskList", depth + 1))
        return {"type": "taskList", "attrs": {"localId": "t"}, "content": kids}

    def task_item(self):
        r = self.r
        el = {"type": "taskItem", "attrs": {"localId": "i", "state": r.choice(["TODO", "DONE"])}}
        if r.random() < 0.95:
            el["content"] = self.inline()
        elif r.random() < 0.5:
            el["content"] = []
        return el

    def decision_list(self):
        return {"type": "decisionList", "attrs": {"localId": "d"}, "content": [
            {"type": "decisionItem", "attrs": {"localId": "i", "state": "DECIDED"}, "content": self.inline()}
            for _ in range(self.few(1, 3))]}

    def cell(self, t, depth, simple=True):
        if simple:
            kids = [self.paragraph(breaks=False)]
            if self.r.random() < 0.1:
                kids = [self.empty_paragraph()]
        else:
            kids = [self.block(self.r.choice([c for c in adf.CELL_CHILDREN]), depth + 1)
                    for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        return {"type": t, "content": kids}

    def table(self, depth, simple=True, header=True):
        r = self.r
        cols = self.few(1, 3)
        rows = self.few(1, 3)
        style = r.choice(["row", "row", "col", "both"]) if header else "none"
        out = []
        for i in range(rows):
            cells = []
            for j in range(cols):
                h = (style in ("row", "both") and i == 0) or (style in ("col", "both") and j == 0)
                cells.append(self.cell("tableHeader" if h else "tableCell", depth, simple))
            out.append({"type": "tableRow", "content": cells})
        el = {"type": "table", "content": out}
        if r.random() < 0.3:
            el["attrs"] = {"isNumberColumnEnabled": False, "layout": "default"}
        return el

    def container(self, t, allowed, depth, **attrs):
        kids = self.blocks(allowed, depth + 1)
        el = {"type": t, "content": kids}
        if attrs:
            el["attrs"] = attrs
        return el

    def blocks(self, allowed, depth, n=None):
        r = self.r
        out = []
        n = n or self.few(1, 4)
        for _ in range(n):
            if self.left <= 0 and out:
                break
            t = r.choice(allowed)
            if depth >= self.max_depth and NODES[t].content and t not in ("paragraph", "heading", "codeBlock"):
                t = "paragraph"
            out.append(self.block(t, depth))
            if "empties" in self.f and r.random() < 0.15:
                k = r.choice([1, 1, 2, 3, r.choice(harvest.near(30))])
                for _ in range(k):
                    out.append(r.choice([self.empty_paragraph, self.empty_paragraph, self.media_group])())
        return out

    def block(self, t, depth=0):
        self.left -= 1
        r = self.r
        if t == "paragraph":
            return self.paragraph()
        if t == "heading":
            return self.heading()
        if t == "rule":
            return {"type": "rule"}
        if t == "codeBlock":
            return self.code()
        if t in ("bulletList", "orderedList"):
            return self.list(t, depth)
        if t == "taskList":
            return self.task_list(depth)
        if t == "decisionList":
            return self.decision_list()
        if t == "mediaSingle":
            return self.media_single()
        if t == "mediaGroup":
            return self.media_group()
        if t == "extension":
            return self.extension()
        if t in ("blockCard", "embedCard"):
            return self.card(t)
        if t == "table":
            return self.table(depth, simple="richcells" not in self.f or r.random() < 0.3)
        if t == "blockquote":
            return self.container(t, adf.QUOTE_CHILDREN, depth)
        if t == "panel":
            return self.container(t, adf.PANEL_CHILDREN, depth, panelType=r.choice(
                ["info", "note", "tip", "warning", "error", "success", "custom"]))
        if t == "expand":
            el = self.container(t, adf.EXPAND_CHILDREN, depth)
            if r.random() < 0.5:
                el["attrs"] = {"title": "EXPANDTITLE"}
            return el
        if t == "nestedExpand":
            return self.container(t, adf.NESTED_EXPAND_CHILDREN, depth, title="EXPANDTITLE")
        raise ValueError(t)

    def doc(self, allowed=None, n=None):
        return {"type": "doc", "version": 1, "content": self.blocks(allowed or adf.DOC_CHILDREN, 0, n)}
