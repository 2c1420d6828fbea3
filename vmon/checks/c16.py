"""C16: inline formatting wraps exactly the marked run, marks in order."""
import copy
import random

from .. import adf, gen
from .common import parse

ID = "C16"
QUICK, THOROUGH = 300000, 1800000
RULE = ("hostile texts under random sequences of all 16 marks (repeated ones too), compared character for character with an independent "
        "fold of the mark rules; sequences of inline elements in paragraphs, headings, task and decision items compared with the "
        "concatenation of their own renderings; distinct by text and marks, or by skeleton")
ESSENTIAL = ["runs compared", "sequences compared", "white-space runs", "repeated marks", "titled links", "empty titles", "indentation",
             "backticks in code", "in paragraph", "in heading", "in taskItem", "in decisionItem", "in caption-free cells"] + [
                 f"mark {t}" for t in adf.MARKS]


def fold(text, marks):
    """The rule for each mark, from the property's text; None where it says conversion fails."""
    for m in marks:
        t, a = m["type"], m.get("attrs") or {}
        if t in ("strong", "em", "strike"):
            w = {"strong": "**", "em": "*", "strike": "~~"}[t]
            if text.strip():
                text = w + text + w
        elif t == "code":
            if "\n" in text:
                return None
            if text.strip():
                n = 2
                while "`" * n in text:
                    n += 1
                text = "`" * n + " " + text + " " + "`" * n
        elif t == "link":
            title = a.get("title")
            text = "[" + (title if isinstance(title, str) and title != "" else text) + "](" + a["href"] + ")"
        elif t == "indentation":
            text = "\t" * a["level"] + text
    return text


def directed():
    out = []
    texts = gen.HOSTILE
    for t in adf.MARKS:
        for s in texts:
            out.append({"text": s, "marks": [mark(random.Random(f"{t}{s!r}"), t)]})
    for a in adf.MARKS:
        for b in adf.MARKS:
            r = random.Random(a + b)
            for s in ("x", " x ", " ", "", "a*b", "a`b"):
                out.append({"text": s, "marks": [mark(r, a), mark(r, b)]})
    r = random.Random(16)
    for t in adf.MARKS:
        for s in (" " * 70000, "\t " * 6000, "x" * 70000, "*a " * 25000, "`" * 5000, "\u3000" * 11000):
            out.append({"text": s, "marks": [mark(r, t)]})
    for n in (10, 20, 40, 100, 300):
        for _ in range(8):
            out.append({"text": r.choice(["x", "a b", " ", ""]), "marks": [mark(r, r.choice(list(adf.MARKS))) for _ in range(n)]})
    for n in (100, 3000, 11000):
        g = gen.Safe(r)
        out.append({"kids": [{"type": "text", "text": f"{g.word()} ", "marks": [{"type": r.choice(["strong", "em", "code"])}]} if k % 3 else g.atom()
                             for k in range(n)], "seed": n})
    for k in range(1, 7):
        out.append({"text": "x\ny", "marks": [{"type": "indentation", "attrs": {"level": k}}]})
    return out


def mark(r, t):
    g = gen.Gen(r)
    m = g.mark([t])
    if t == "link":
        m["attrs"] = {"href": g.string()}
        k = r.random()
        if k < 0.4:
            m["attrs"]["title"] = r.choice(["", None, " ", "Title", "0", "a]b", g.string()])
    if t == "code":
        m = {"type": "code"}
    return m


def generate(rng, i):
    if rng.random() < 0.65:
        g = gen.Gen(rng)
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        pool = list(adf.MARKS) if rng.random() < 0.5 else ["strong", "em", "strike", "code", "link", "underline", "indentation"]
        ms = [mark(rng, rng.choice(pool)) for _ in range(k)]
        s = g.string()
        if any(m["type"] == "code" for m in ms) and rng.random() < 0.8:
            s = s.replace("\n", " ")
        return {"text": s, "marks": ms}
    g = gen.Gen(rng, max_depth=1, budget=30, own_marks=True)
    s = gen.Safe(rng)
    kids = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 12])):
        kids.append(s.atom() if rng.random() < 0.5 else g.node(rng.choice(adf.INLINE), 5))
    return {"kids": kids, "seed": i}


def check(api, case, mon):
    if "kids" in case:
        return sequence(api, case["kids"], random.Random(f"c16:{case['seed']}"), mon)
    text, marks = case["text"], case["marks"]
    want = fold(text, marks)
    el = {"type": "text", "text": text, "marks": marks}
    for m in marks:
        mon.hit("mark " + m["type"])
        if m["type"] == "link":
            t = m["attrs"].get("title")
            mon.hit("titled links" if t else "empty titles" if t == "" else "untitled links")
        if m["type"] == "indentation":
            mon.hit("indentation")
        if m["type"] == "code" and "`" in text:
            mon.hit("backticks in code")
    if not text.strip():
        mon.hit("white-space runs")
    if len({m["type"] for m in marks}) < len(marks):
        mon.hit("repeated marks")
    o = parse(api, copy.deepcopy(el))
    try:
        got = o.to_markdown()
    except Exception as e:
        got = None
        if want is not None:
            mon.fail(f"a run {text!r:.100} with marks {[m['type'] for m in marks]} raises {type(e).__name__}: {str(e)[:100]}")
    mon.hit("runs compared")
    if want is None and got is not None:
        mon.fail(f"code with a line break is converted to {got!r:.200}")
    if want is not None:
        if got != want:
            mon.fail(f"a run {text!r:.100} with marks {[(m['type'], m.get('attrs')) for m in marks]!r:.200} renders as {got!r:.200}, "
                     f"expected {want!r:.200}")
        # each mark alone, applied to a text
        step = text
        for m in marks:
            x = fold(step, [m])
            y = parse(api, copy.deepcopy(m), "mark").to_markdown(step)
            if x != y:
                mon.fail(f"mark {m!r:.150} turns {step!r:.100} into {y!r:.150}, expected {x!r:.150}")
            step = x
    if not marks:
        bare = parse(api, {"type": "text", "text": text}).to_markdown()
        if bare != text:
            mon.fail(f"an unmarked run {text!r:.100} renders as {bare!r:.100}")
    mon.seen((text, str(marks)))


def own(api, kids):
    try:
        return "".join(parse(api, copy.deepcopy(k)).to_markdown() for k in kids)
    except Exception:
        return None


def sequence(api, kids, r, mon):
    want = own(api, kids)
    if want is None:
        return          # strict and lenient errors: C09
    mon.hit("sequences compared")
    for t in ("paragraph", "heading", "taskItem", "decisionItem", "cell"):
        k = copy.deepcopy(kids)
        if t == "paragraph":
            el = {"type": t, "content": k}
            if r.random() < 0.3:
                lvl = r.randrange(1, 7)
                el["marks"] = r.choice([[{"type": "indentation", "attrs": {"level": lvl}}], [{"type": "alignment", "attrs": {"align": "end"}}]])
            md = parse(api, el).to_markdown()
            w = fold(want, el.get("marks", []))
            mon.hit("in paragraph")
            if md.rstrip("\n") != w.rstrip("\n"):
                mon.fail(f"a paragraph renders as {md!r:.250}, its inline elements alone as {w!r:.250}")
        elif t == "heading":
            lvl = r.randrange(1, 7)
            md = parse(api, {"type": t, "attrs": {"level": lvl}, "content": k}).to_markdown()
            mon.hit("in heading")
            w = "#" * lvl + " " + want.replace("\n", " ")
            if md.strip("\n").rstrip() != w.rstrip():
                mon.fail(f"a heading renders as {md!r:.250}, expected {w!r:.250}")
        elif t == "taskItem":
            state = r.choice(["TODO", "DONE"])
            md = parse(api, {"type": "taskList", "attrs": {"localId": "l"}, "content": [
                {"type": t, "attrs": {"localId": "i", "state": state}, "content": k}]}).to_markdown()
            mon.hit("in taskItem")
            w = ("- [x] " if state == "DONE" else "- [ ] ") + want
            if md.rstrip() != w.rstrip():
                mon.fail(f"a task renders as {md!r:.250}, expected {w!r:.250}")
        elif t == "decisionItem":
            md = parse(api, {"type": "decisionList", "attrs": {"localId": "l"}, "content": [
                {"type": t, "attrs": {"localId": "i", "state": "DECIDED"}, "content": k}]}).to_markdown()
            mon.hit("in decisionItem")
            got = [x[1:].strip() for x in md.split("\n") if x[1:].strip()]
            w = [x.strip() for x in want.split("\n") if x.strip()]
            if got != w:
                mon.fail(f"a decision renders as {md!r:.250}, its inline elements as {want!r:.250}")
        else:
            md = parse(api, {"type": "tableCell", "content": [{"type": "paragraph", "content": k}]}).to_markdown()
            mon.hit("in caption-free cells")
            def bare(x):
                # the escapes of a cell (breaks, padding, pipes) are C13's; here only what is written counts
                return x.replace("<br>", "").replace("&nbsp;", "").replace("\\", "").replace("\n", "").replace(" ", "")

            got, w = bare(md), bare(want)
            if got != w:
                mon.fail(f"a cell renders as {md!r:.250}, its inline elements as {want!r:.250}")
    mon.seen([adf.shape(k) for k in kids])
