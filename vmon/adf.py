"""
An independent model of the part of ADF the library implements.

Hand-written from the ADF documentation and the library's documented classes;
nothing here is read from the code under test, so a change to the code cannot
change what the checks expect of it.
"""

# kind of an attribute value, used by the generators only
S, I, N, B, J, LS, LI, O, TS = "str", "int", "num", "bool", "json", "liststr", "listint", "object", "timestamp"


class Spec:
    def __init__(self, type, cls, attrs=None, attrs_required=False, content=None,
                 content_required=False, marks=None, extra=None, category="node"):
        self.type = type
        self.cls = cls
        self.attrs = attrs          # None: no attrs modelled; else {name: (required, kind)}
        self.attrs_required = attrs_required
        self.content = content      # None: no content modelled; else list of child types
        self.content_required = content_required
        self.marks = marks          # None: no marks modelled; else list of mark types
        self.extra = extra or {}    # other fields {name: (required, kind)}
        self.category = category

    @property
    def fields(self):
        f = {"type"} | set(self.extra)
        if self.attrs is not None:
            f.add("attrs")
        if self.content is not None:
            f.add("content")
        if self.marks is not None:
            f.add("marks")
        return f


def E(*vals):
    return ("enum", vals)


L = (False, S)
INLINE = ["text", "date", "emoji", "hardBreak", "inlineCard", "mention", "status", "mediaInline"]
BLOCK_MARKS = ["alignment", "indentation"]
MEDIA_MARKS = ["link", "annotation", "border"]
TEXT_MARKS = ["link", "em", "strong", "strike", "subsup", "underline", "textColor",
              "annotation", "backgroundColor", "code"]
QUOTE_CHILDREN = ["paragraph", "orderedList", "bulletList", "codeBlock", "mediaSingle", "mediaGroup", "extension"]
PANEL_CHILDREN = ["paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaGroup",
                  "mediaSingle", "codeBlock", "taskList", "rule", "decisionList", "extension"]
CELL_CHILDREN = ["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading",
                 "codeBlock", "mediaSingle", "mediaGroup", "decisionList", "taskList", "blockCard",
                 "embedCard", "extension", "nestedExpand"]
NESTED_EXPAND_CHILDREN = ["paragraph", "heading", "mediaSingle", "mediaGroup", "codeBlock", "bulletList",
                          "orderedList", "taskList", "decisionList", "rule", "panel", "blockquote", "extension"]
EXPAND_CHILDREN = ["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading",
                   "codeBlock", "mediaGroup", "mediaSingle", "decisionList", "taskList", "table",
                   "blockCard", "embedCard", "extension", "nestedExpand"]
DOC_CHILDREN = ["blockCard", "codeBlock", "mediaSingle", "paragraph", "taskList", "orderedList", "bulletList",
                "blockquote", "decisionList", "embedCard", "extension", "heading", "mediaGroup", "rule",
                "panel", "table", "expand"]
LAYOUT = E("wide", "full-width", "center", "wrap-right", "wrap-left", "align-end", "align-start")
CELL_ATTRS = dict(colspan=(False, I), rowspan=(False, I), colwidth=(False, LI), background=L, localId=L)

NODES = {s.type: s for s in [
    Spec("doc", "NodeDoc", content=DOC_CHILDREN, content_required=True, extra={"version": (False, I)}),
    Spec("text", "NodeText", marks=TEXT_MARKS, extra={"text": (True, S)}),
    Spec("paragraph", "NodeParagraph", attrs=dict(localId=L), content=INLINE, marks=BLOCK_MARKS),
    Spec("heading", "NodeHeading", attrs=dict(level=(True, E(1, 2, 3, 4, 5, 6)), localId=L), attrs_required=True,
         content=INLINE, marks=BLOCK_MARKS),
    Spec("bulletList", "NodeBulletList", content=["listItem"], content_required=True),
    Spec("orderedList", "NodeOrderedList", attrs=dict(order=(False, I), localId=L), content=["listItem"],
         content_required=True),
    Spec("listItem", "NodeListItem", attrs=dict(localId=L), content_required=True,
         content=["paragraph", "codeBlock", "bulletList", "orderedList", "taskList", "mediaSingle", "extension"]),
    Spec("taskList", "NodeTaskList", attrs=dict(localId=(True, S)), attrs_required=True,
         content=["taskItem", "taskList"], content_required=True),
    Spec("taskItem", "NodeTaskItem", attrs=dict(localId=(True, S), state=(True, E("TODO", "DONE"))),
         attrs_required=True, content=INLINE),
    Spec("decisionList", "NodeDecisionList", attrs=dict(localId=(True, S)), attrs_required=True,
         content=["decisionItem"], content_required=True),
    Spec("decisionItem", "NodeDecisionItem", attrs=dict(localId=(True, S), state=(True, S)),
         attrs_required=True, content=INLINE),
    Spec("blockquote", "NodeBlockquote", attrs=dict(localId=L), content=QUOTE_CHILDREN, content_required=True),
    Spec("panel", "NodePanel", attrs=dict(
        panelType=(True, E("info", "note", "tip", "warning", "error", "success", "custom")),
        panelIcon=L, panelIconId=L, panelIconText=L, panelColor=L, localId=L), attrs_required=True,
        content=PANEL_CHILDREN, content_required=True),
    Spec("expand", "NodeExpand", attrs=dict(title=L, localId=L), content=EXPAND_CHILDREN, content_required=True),
    Spec("nestedExpand", "NodeNestedExpand", attrs=dict(title=L, localId=L), attrs_required=True,
         content=NESTED_EXPAND_CHILDREN, content_required=True),
    Spec("rule", "NodeRule", attrs=dict(localId=L)),
    Spec("hardBreak", "NodeHardBreak", attrs=dict(text=(False, E("\n")), localId=L)),
    Spec("codeBlock", "NodeCodeBlock", attrs=dict(language=L, uniqueId=L, localId=L), content=["text"]),
    Spec("date", "NodeDate", attrs=dict(timestamp=(True, TS), localId=L), attrs_required=True),
    Spec("emoji", "NodeEmoji", attrs=dict(shortName=(True, S), id=L, text=L, localId=L), attrs_required=True),
    Spec("mention", "NodeMention", attrs=dict(id=(True, S), localId=L, text=L, accessLevel=L,
                                              userType=(False, E("DEFAULT", "SPECIAL", "APP"))), attrs_required=True),
    Spec("status", "NodeStatus", attrs=dict(
        text=(True, S), color=(True, E("neutral", "purple", "blue", "red", "yellow", "green")),
        localId=L, style=L), attrs_required=True),
    Spec("inlineCard", "NodeInlineCard", attrs=dict(url=L, data=(False, J), localId=L), attrs_required=True),
    Spec("blockCard", "NodeBlockCard", attrs=dict(url=L, localId=L, datasource=(False, "datasource"),
                                                  width=(False, N), layout=L, data=(False, O)), attrs_required=True),
    Spec("embedCard", "NodeEmbedCard", attrs=dict(
        url=(True, S), layout=(True, LAYOUT), width=(False, N), originalHeight=(False, N),
        originalWidth=(False, N), localId=L), attrs_required=True),
    Spec("extension", "NodeExtension", attrs=dict(
        extensionKey=(True, S), extensionType=(True, S), parameters=(False, J), text=L,
        layout=(False, E("wide", "full-width", "default")), localId=L), attrs_required=True,
        marks=["dataConsumer", "fragment"]),
    Spec("media", "NodeMedia", attrs=dict(
        type=(True, E("file", "link", "external")), id=L, collection=L, url=L, localId=L, alt=L,
        width=(False, N), height=(False, N), occurrenceKey=L), attrs_required=True, marks=MEDIA_MARKS),
    Spec("mediaInline", "NodeMediaInline", attrs=dict(
        id=(True, S), collection=(True, S), type=(False, E("link", "file", "image")), localId=L, alt=L,
        occurrenceKey=L, width=(False, N), height=(False, N), data=(False, J)), attrs_required=True,
        marks=MEDIA_MARKS),
    Spec("mediaSingle", "NodeMediaSingle", attrs=dict(
        layout=(False, LAYOUT), width=(False, N), widthType=(False, E("percentage", "pixel")), localId=L),
        content=["media", "caption"], marks=["link"]),
    Spec("mediaGroup", "NodeMediaGroup", content=["media"], content_required=True),
    Spec("caption", "NodeCaption", attrs=dict(localId=L),
         content=["hardBreak", "mention", "emoji", "date", "inlineCard", "status", "text"]),
    Spec("table", "NodeTable", attrs=dict(
        displayMode=(False, E("default", "fixed")), isNumberColumnEnabled=(False, B),
        layout=(False, E("wide", "full-width", "center", "align-end", "align-start", "default")),
        localId=L, width=(False, N)), content=["tableRow"], content_required=True, marks=["fragment"]),
    Spec("tableRow", "NodeTableRow", attrs=dict(localId=L), content=["tableCell", "tableHeader"],
         content_required=True),
    Spec("tableCell", "NodeTableCell", attrs=CELL_ATTRS, content=CELL_CHILDREN, content_required=True),
    Spec("tableHeader", "NodeTableHeader", attrs=CELL_ATTRS, content=CELL_CHILDREN, content_required=True),
]}

MARKS = {s.type: s for s in [
    Spec("alignment", "MarkAlignment", attrs=dict(align=(True, E("center", "end"))), attrs_required=True),
    Spec("annotation", "MarkAnnotation", attrs=dict(id=(True, S), annotationType=(True, E("inlineComment"))),
         attrs_required=True),
    Spec("backgroundColor", "MarkBackgroundColor", attrs=dict(color=(True, S)), attrs_required=True),
    Spec("border", "MarkBorder", attrs=dict(size=(True, I), color=(True, S)), attrs_required=True),
    Spec("breakout", "MarkBreakout", attrs=dict(mode=(True, E("wide", "full-width")), width=(False, N)),
         attrs_required=True),
    Spec("code", "MarkCode"),
    Spec("dataConsumer", "MarkDataConsumer", attrs=dict(sources=(True, LS)), attrs_required=True),
    Spec("em", "MarkEm"),
    Spec("fragment", "MarkFragment", attrs=dict(localId=(True, S), name=L), attrs_required=True),
    Spec("indentation", "MarkIndentation", attrs=dict(level=(True, E(1, 2, 3, 4, 5, 6))), attrs_required=True),
    Spec("link", "MarkLink", attrs=dict(href=(True, S), title=L, id=L, collection=L, occurrenceKey=L),
         attrs_required=True),
    Spec("strike", "MarkStrike"),
    Spec("strong", "MarkStrong"),
    Spec("subsup", "MarkSubsup", attrs=dict(type=(True, E("sub", "sup"))), attrs_required=True),
    Spec("textColor", "MarkTextColor", attrs=dict(color=(True, S)), attrs_required=True),
    Spec("underline", "MarkUnderline"),
]}
for s in MARKS.values():
    s.category = "mark"

# Types of the ADF schema the library documents but does not implement
UNIMPLEMENTED_NODES = ["layoutSection", "layoutColumn", "placeholder", "bodiedExtension", "inlineExtension",
                       "syncBlock", "bodiedSyncBlock", "blockTaskItem", "image", "sub", "sup", "external", "file"]
# Every member of the type enumeration
TYPE_ENUM = sorted(set(NODES) | set(MARKS) | set(UNIMPLEMENTED_NODES))

ATTR_CLASS = {**{s.type: s.cls + "Attrs" for s in NODES.values() if s.attrs is not None},
              **{s.type: s.cls + "Attrs" for s in MARKS.values() if s.attrs is not None}}
EXTRA_CLASSES = ["NodeBlockCardAttrsDatasource", "NodeBlockCardAttrsDatasourceView"]


def spec_of(el, category):
    return (NODES if category == "node" else MARKS).get(el.get("type"))


def walk(el, category="node", path=()):
    """All (path, element, category) of a document, in document order (content before marks)."""
    yield path, el, category
    if category == "node":
        for key, cat in (("content", "node"), ("marks", "mark")):
            v = el.get(key)
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, dict):
                        yield from walk(c, cat, path + (key, i))


def at(el, path):
    for p in path:
        el = el[p]
    return el


def project(el, category="node"):
    """The element restricted to modelled fields (unimplemented children removed)."""
    s = spec_of(el, category)
    out = {}
    for k, v in el.items():
        if k not in s.fields:
            continue
        if k == "attrs" and isinstance(v, dict) and s.attrs is not None:
            v = {a: x for a, x in v.items() if a in s.attrs}
        elif k == "content" and isinstance(v, list):
            v = [project(c, "node") for c in v if spec_of(c, "node")]
        elif k == "marks" and isinstance(v, list):
            v = [project(c, "mark") for c in v if spec_of(c, "mark")]
        out[k] = v
    return out


def strict_eq(a, b):
    """Equality of JSON data that tells True from 1 and 1 from 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict_eq, a, b))
    if type(a) is float:
        return repr(a) == repr(b)
    return a == b


def first_diff(a, b, path="$"):
    if type(a) is not type(b):
        return f"{path}: {a!r:.120} != {b!r:.120}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing on the right ({a[k]!r:.80})"
        for k in b:
            if k not in a:
                return f"{path}.{k}: missing on the left ({b[k]!r:.80})"
        for k in a:
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items != {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if strict_eq(a, b) else f"{path}: {a!r:.120} != {b!r:.120}"


def size(el):
    return sum(1 for _ in walk(el))


def depth(el):
    return max(len(p) // 2 for p, _, _ in walk(el)) + 1


def shape(el, category="node"):
    """Skeleton used to count distinct cases."""
    out = [el.get("type")]
    if isinstance(el.get("attrs"), dict):
        out.append(tuple(sorted(el["attrs"])))
    if category == "node":
        for k in ("content", "marks"):
            if isinstance(el.get(k), list):
                out.append((k, tuple(shape(c, "node" if k == "content" else "mark")
                                     if isinstance(c, dict) else "?" for c in el[k])))
    return tuple(out)
