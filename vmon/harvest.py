"""
Constants of the code under test, used as a dictionary by the generators (as a
fuzzer does): thresholds and special values somebody compares against are likely
to be written in the source. Only reach depends on this, never a verdict.
"""
import ast
import functools
import json
import os
import re

from .env import REPO, PKG

SKIP = {"vendor", "tests", "docs"}


@functools.lru_cache(None)
def constants():
    ints, strs = set(), set()
    root = os.path.join(REPO, PKG)
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in SKIP)
        for f in sorted(fn):
            if not f.endswith(".py") or f == "api.py":
                continue
            try:
                tree = ast.parse(open(os.path.join(dp, f), encoding="utf-8").read())
            except (SyntaxError, OSError):
                continue
            doc = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body:
                    b = n.body[0]
                    if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                        doc.add(id(b.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in doc:
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float) and v == int(v):
                        ints.add(int(v))
                    elif isinstance(v, str) and 0 < len(v) <= 40:
                        strs.add(v)
    return sorted(ints), sorted(strs)


@functools.lru_cache(None)
def novel():
    """Constants that the tree this was written for does not have: worth trying first."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harvest_base.json"), encoding="utf-8") as f:
        base = json.load(f)
    return [v for v in constants()[0] if v not in base["ints"]], [v for v in constants()[1] if v not in base["strs"]]


def weighted(all_, new):
    """The new ones make up about half of the list."""
    return all_ + new * max(0, len(all_) // len(new) - 1) if new else all_


def ints():
    return weighted(constants()[0], novel()[0])


def strs():
    return weighted(constants()[1], novel_strs())


@functools.lru_cache(None)
def novel_strs():
    """Also the words that longer ones (messages, patterns) are made of."""
    out = {}
    for s in novel()[1]:
        for w in [s] + re.findall(r"[A-Za-z]\w+", s):
            out[w] = None
    return list(out)


@functools.lru_cache(None)
def near(limit):
    """Integers at and around the constants, up to a limit."""
    def around(vs):
        return sorted({w for v in vs for w in (v - 1, v, v + 1, v + 2) if 0 <= w <= limit})
    return weighted(around(constants()[0]), around(novel()[0])) or [0, 1, 2]


@functools.lru_cache(None)
def words():
    """Harvested strings that are plain words."""
    def plain(ss):
        return [s for s in ss if s.isalnum() and s.isascii() and s[0].isalpha() and len(s) <= 20]
    return weighted(plain(constants()[1]), plain(novel_strs()))
