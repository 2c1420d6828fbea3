"""C17: inline and media atoms render the value they carry."""
import copy
import os
import random
import time

from .. import adf, expect, gen, harvest
from .common import parse

ID = "C17"
QUICK, THOROUGH = 600000, 3600000
SHRINK = False
RULE = ("atoms with hostile values in every combination of present, absent, null and empty attributes, compared with exact expected "
        "strings; dates of all years 1 to 9999 against an integer calendar computation, under switched time zones; distinct by element")
ESSENTIAL = ["dates around today", "dates", "dates before 1970", "last milliseconds of a day", "time zones", "leap days", "emoji", "mention", "status", "hardBreak", "inlineCard",
             "blockCard", "embedCard", "extension", "media", "mediaInline", "linked media", "null attributes", "empty attributes"]
DAY = 86400000
LO, HI = -62135596800000, 253402300799999      # 0001-01-01 and the last millisecond of 9999
ZONES = ["UTC", "Asia/Tokyo", "America/Los_Angeles", "XYZ+23:30", "XYZ-14", "Europe/London", "Pacific/Kiritimati", "Asia/Kolkata"]


def directed():
    out = []
    for t in [LO, LO + 1, HI, HI - 1, HI - DAY, 0, -1, 1, DAY - 1, DAY, -DAY, -DAY - 1, 1586361600000, 951782400000, 951868799999, 951868800000,
              -2208988800000, 4102444800000, 1e12.__int__(), 2 ** 31 * 1000, 2 ** 31 * 1000 - 1, -2 ** 31 * 1000, 2 ** 32 * 1000]:
        for z in ZONES:
            out.append({"el": {"type": "date", "attrs": {"timestamp": str(t)}}, "tz": z})
    for y in range(1, 10000, 37):
        for md in ((1, 1), (2, 28), (3, 1), (12, 31)):
            t = days(y, *md) * DAY
            out.append({"el": {"type": "date", "attrs": {"timestamp": str(t)}}, "tz": None})
            out.append({"el": {"type": "date", "attrs": {"timestamp": str(min(HI, t + DAY - 1))}}, "tz": None})
    vals = ["<absent>", None, "", " ", "x", "0", "a|b", "a\nb", "None", ":smile:", "@me", "é👍"]
    for v in vals:
        for w in vals:
            out.append({"el": el("emoji", shortName=w if isinstance(w, str) and w != "<absent>" else "s", text=v, id=w)})
            out.append({"el": el("mention", id="i", text=v, userType=None if w is None else "<absent>", accessLevel=w)})
            out.append({"el": el("extension", extensionKey="k", extensionType="t", text=v, layout="<absent>", parameters=w)})
            for k in ("external", "file", "link"):
                out.append({"el": el("media", type=k, url=v, alt=w, id="<absent>", collection="c")})
                out.append({"el": el("media", type=k, id=v, alt=w, collection="c")})
        out.append({"el": el("status", text=v if isinstance(v, str) and v != "<absent>" else "s", color="red")})
        if v is None or v != "<absent>":
            out.append({"el": el("inlineCard", url=v)})
            out.append({"el": el("blockCard", url=v)})
    return out


def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def el(t, **attrs):
    return {"type": t, "attrs": {k: v for k, v in attrs.items() if v != "<absent>"}}


def generate(rng, i):
    t = rng.choice(["date"] * 4 + ["emoji", "mention", "status", "hardBreak", "inlineCard", "blockCard", "embedCard", "extension", "media",
                                   "media", "mediaInline"])
    if t == "date":
        k = rng.random()
        if k < 0.4:
            ts = rng.randrange(LO, HI + 1)
        elif k < 0.7:
            ts = rng.randrange(0, 4 * 10 ** 12)
        elif k < 0.9:
            ts = rng.randrange(LO // DAY, HI // DAY) * DAY + rng.choice([0, -1, 1, 999, DAY - 1, DAY - 1000, DAY // 2])
        elif k < 0.92:
            # around the time of the run
            return {"now": rng.choice([0, 0, DAY, -DAY, 7 * DAY, -7 * DAY, 30 * DAY, -30 * DAY, 365 * DAY, -365 * DAY])
                    + rng.choice([0, rng.randrange(-DAY, DAY), rng.randrange(-1000, 1000)])}
        else:
            ts = rng.choice(harvest.ints() or [0]) * rng.choice([1, 1000]) + rng.choice([0, -1, 1])
        ts = max(LO, min(HI, ts))
        s = str(ts)
        if rng.random() < 0.03:     # the same number with zeros before it
            s = ("-" if ts < 0 else "") + "0" * rng.choice([1, 2, 5, 12, 40]) + str(abs(ts))
        return {"el": {"type": "date", "attrs": {"timestamp": s, **({"localId": "x"} if rng.random() < 0.3 else {})}},
                "tz": rng.choice(ZONES) if rng.random() < 0.3 else None}
    g = gen.Gen(rng, budget=1, max_depth=0, own_marks=True)
    x = g.node(t)
    a = x.get("attrs") or {}
    if t == "media" and rng.random() < 0.5:
        x["marks"] = [m for m in [link(rng, g)] if rng.random() < 0.7]
    return {"el": x, "tz": None}


def link(r, g):
    a = {"href": g.string()}
    if r.random() < 0.5:
        a["title"] = r.choice(["", None, g.string()])
    return {"type": "link", "attrs": a}


def expected(x):
    """('ok', text), ('raise',) or None where the property does not say."""
    t, a = x["type"], x.get("attrs") or {}
    s = lambda n: a.get(n) if isinstance(a.get(n), str) else None       # noqa: E731
    if t == "date":
        return ("ok", expect.utc_date(int(a["timestamp"])))
    if t == "emoji":
        return ("ok", s("text") if s("text") is not None else a["shortName"])
    if t == "mention":
        return ("ok", s("text") if s("text") is not None else "@Unknown")
    if t == "status":
        return ("ok", "`" + a["text"] + "`")
    if t == "hardBreak":
        return ("ok", "  \n")
    if t in ("inlineCard", "blockCard", "embedCard"):
        return ("ok", f"[{a['url']}]({a['url']})") if s("url") is not None else ("raise",)
    if t == "extension":
        return ("ok", f"[Extension: {a['extensionKey']}] {a['text']}" if s("text") else f"[Extension: {a['extensionType']}/{a['extensionKey']}]")
    if t == "mediaInline":
        return ("ok", "")
    if t == "media":
        alt = s("alt") if s("alt") is not None else "media"
        if a["type"] == "external":
            if s("url") is None:
                return ("raise",)
            md = f"![{alt}]({a['url']})"
        elif a["type"] == "file":
            if s("id") is None:
                return None
            md = f"![{alt}](media:{a['id']})"
        else:
            return ("ok", "[media]") if not x.get("marks") else None
        for m in x.get("marks") or []:
            if m["type"] == "link":
                title = m["attrs"].get("title")
                md = f"[{title if isinstance(title, str) and title else md}]({m['attrs']['href']})"
        return ("ok", md)


def check(api, case, mon):
    if "now" in case:
        mon.hit("dates around today")
        case = {"el": {"type": "date", "attrs": {"timestamp": str(int(time.time() * 1000) + case["now"])}}}
    x, tz = case["el"], case.get("tz")
    want = expected(x)
    if want is None:
        return
    t = x["type"]
    keep = os.environ.get("TZ")
    if tz:
        os.environ["TZ"] = tz
        time.tzset()
        mon.hit("time zones")
    try:
        o = parse(api, copy.deepcopy(x))
        try:
            got = ("ok", o.to_markdown())
        except Exception as e:
            got = ("raise", type(e).__name__, str(e)[:200])
    finally:
        if tz:
            if keep is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = keep
            time.tzset()
    a = x.get("attrs") or {}
    mon.hit("dates" if t == "date" else t)
    if t == "date":
        ts = int(a["timestamp"])
        if ts < 0:
            mon.hit("dates before 1970")
        if ts % DAY == DAY - 1:
            mon.hit("last milliseconds of a day")
        if want[1].endswith("-02-29"):
            mon.hit("leap days")
    if None in a.values():
        mon.hit("null attributes")
    if "" in a.values():
        mon.hit("empty attributes")
    if t == "media" and any(m["type"] == "link" for m in x.get("marks") or []):
        mon.hit("linked media")
    if got[0] != want[0]:
        mon.fail(f"{x!r:.250}: {got!r:.200}, expected {want!r:.200}")
    if want[0] == "ok":
        g, w = got[1], want[1]
        if t in ("blockCard", "embedCard", "extension"):
            g, w = g.strip("\n"), w.strip("\n")
        if g != w:
            mon.fail(f"{x!r:.250}{' in time zone ' + tz if tz else ''} renders as {g!r:.200}, expected {w!r:.200}")
    mon.seen(str(x))
