"""C24: the outcome depends on the JSON value only, not on how it is written or held."""
import collections
import copy
import json
import logging
import random
import re
import sys

from .. import adf
from ..runner import Monitor
from . import c02
from .common import full_case, full_directed, known_types, md_or_error, parse

ID = "C24"
QUICK, THOROUGH = 12000, 200000
RULE = ("valid, failing and partly unimplemented documents, each observed in its plain form and in forms with permuted keys, other JSON spellings, "
        "strings and keys that are equal but not identical objects, equal parts held by one shared object or by separate ones, ordered and "
        "subclassed dictionaries; object, serialised form, Markdown, errors and warnings compared; distinct by skeleton")
ESSENTIAL = ["permuted", "reversed", "spelled", "fresh strings", "shared parts", "ordered dict", "dict subclass", "failing documents",
             "unimplemented documents", "parsed documents", "warnings compared"]


def directed():
    return [{**c, "seed": k} for k, c in enumerate(full_directed()) if adf.depth(c["doc"]) <= 60]


def generate(rng, i):
    c = full_case(rng, i)
    if c["cat"] == "node" and rng.random() < 0.4:
        els = [(p, e) for p, e, k in adf.walk(c["doc"]) if p]
        for p, e in rng.sample(els, min(len(els), rng.choice([1, 2, 3]))):
            x = rng.random()
            if x < 0.2:
                e.pop("type", None)
            elif x < 0.5:
                e["type"] = rng.choice(["nope", "layoutSection", "Paragraph", "bodiedExtension", "mark"])
            elif x < 0.58:
                e.pop("attrs", None)
            elif x < 0.65:
                for n in rng.sample(sorted(set(e) | {"attrs", "marks", "content", "text"}), rng.choice([1, 1, 2])):
                    if n != "type":
                        e[n] = rng.choice([None, None, 0, "", "x", [], {}, [None], [[]], True, {"x": None}])
            elif x < 0.8:
                e["attrs"] = {}
            elif e.get("type") == "text":
                e["text"], e["marks"] = "a\nb", [{"type": "code"}]
            else:
                e["unknown"] = {"type": "text", "text": "x", "attrs": {}, "content": [{}]}
    if rng.random() < 0.4:
        c["doc"] = c02.inject(c["doc"], c["cat"], rng, Monitor())[0]
    return c


class D(dict):
    pass


def fresh(s):
    """An equal string that is another object."""
    return s if len(s) < 2 else "".join([s[:1], s[1:]])


def remake(x, key_order, mapping, strings):
    if isinstance(x, dict):
        ks = key_order(list(x))
        return mapping((strings(k), remake(x[k], key_order, mapping, strings)) for k in ks)
    if isinstance(x, list):
        return [remake(v, key_order, mapping, strings) for v in x]
    if isinstance(x, str):
        return strings(x)
    if type(x) is int:
        return int(str(x))
    if type(x) is float:
        return float(repr(x))
    return x


def share(x, memo):
    """Equal parts become one object."""
    if isinstance(x, dict):
        y = {k: share(v, memo) for k, v in x.items()}
    elif isinstance(x, list):
        y = [share(v, memo) for v in x]
    else:
        return x
    return memo.setdefault((type(x).__name__, repr(y)), y)


def spell(x, r):
    """Another JSON text of the same value, read back."""
    s = json.dumps(x, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1, "\t"]), separators=r.choice([None, (",", ":"), (" , ", " : ")]))
    if r.random() < 0.4:
        # escape letters
        out, instr, i = [], False, 0
        while i < len(s):
            ch = s[i]
            if instr and ch == "\\":
                n = 6 if s[i + 1] == "u" else 2
                out.append(s[i:i + n])
                i += n
                continue
            if ch == '"':
                instr = not instr
            elif instr and ch.isascii() and r.random() < 0.3:
                ch = "\\u%04x" % ord(ch)
            out.append(ch)
            i += 1
        s = "".join(out)
    y = json.loads(s)
    return y if y == x else json.loads(json.dumps(x, ensure_ascii=False))       # two halves of a pair in a row


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append((record.name, record.levelno, record.getMessage()))


def words(x):
    """Messages of errors may show the given dictionaries: their words in any order, and the dictionaries' class not."""
    if isinstance(x, tuple) and x[0] != "ok" and isinstance(x[-1], str):
        return (*x[:-1], sorted(w for w in re.findall(r"\w+", x[-1]) if w not in ("D", "dict", "OrderedDict", "collections")))
    return x


def observe(api, el, cat):
    h = Records()
    log = logging.getLogger()
    log.addHandler(h)
    out = {}
    o = None
    try:
        o = parse(api, el, cat)
    except Exception as e:
        out["error"] = (type(e).__name__, str(e))
    finally:
        log.removeHandler(h)
    out["warnings"] = h.seen
    if o is not None:
        try:
            out["dict"] = o.to_dict()
        except Exception as e:
            out["dict error"] = (type(e).__name__, str(e))
        out["md"] = md_or_error(o, **({"text": "abc"} if cat == "mark" else {}))
        if cat != "mark":
            out["soft"] = md_or_error(o, ignore_error=True)
    return o, out


def check(api, case, mon):
    doc, cat = case["doc"], case.get("cat", "node")
    r = random.Random(f"c24:{case['seed']}")
    known_types(doc, mon, cat)
    ident = lambda ks: ks                       # noqa: E731
    keep = lambda s: s                          # noqa: E731
    o, want = observe(api, copy.deepcopy(doc), cat)
    mon.hit("parsed documents" if o is not None else "failing documents")
    if want["warnings"]:
        mon.hit("unimplemented documents")
    forms = {
        "permuted": lambda: remake(doc, lambda ks: r.sample(ks, len(ks)), dict, keep),
        "reversed": lambda: remake(doc, lambda ks: ks[::-1], dict, keep),
        "sorted": lambda: remake(doc, sorted, dict, keep),
        "fresh strings": lambda: remake(doc, ident, dict, fresh),
        "interned strings": lambda: remake(doc, ident, dict, sys.intern),
        "spelled": lambda: spell(doc, r),
        "shared parts": lambda: share(doc, {}),
        "ordered dict": lambda: remake(doc, lambda ks: r.sample(ks, len(ks)), collections.OrderedDict, fresh),
        "dict subclass": lambda: remake(doc, ident, D, keep),
    }
    for name in r.sample(sorted(forms), 4):
        form = forms[name]()
        if form != doc:
            raise RuntimeError(f"{name} is not the same JSON value")
        q, got = observe(api, form, cat)
        mon.hit(name)
        for k in {**want, **got}:
            if k not in got or k not in want:
                mon.fail(f"{name}: {k} is {got.get(k, 'absent')!r:.200}, in the plain form {want.get(k, 'absent')!r:.200}")
            if k == "dict":
                a, b = json.loads(json.dumps(got[k])), json.loads(json.dumps(want[k]))
                if not adf.strict_eq(a, b):
                    mon.fail(f"{name}: serialised {adf.first_diff(a, b)}")
                mon.hit("comparisons")
            else:
                mon.equal(words(got[k]), words(want[k]), f"{name}: {k}")
        mon.hit("warnings compared", len(want["warnings"]))
        if o is not None and not (o == q and q == o):
            mon.fail(f"{name}: the object is not equal to that of the plain form")
    mon.seen(adf.shape(doc, cat) if isinstance(doc.get("type"), str) else "?")
