"""C22: parsing, serialising and converting touch nothing outside the objects they return."""
import builtins
import collections
import contextlib
import copy
import decimal
import gc
import json
import locale
import logging
import os
import pickle
import random
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from .. import adf, env, gen, giants
from .common import corpus, full_case, full_directed, known_types, parse

ID = "C22"
QUICK, THOROUGH = 12000, 150000
SHRINK = True
RULE = ("valid documents, documents that fail to parse or to convert and documents with unimplemented types, each parsed, serialised and "
        "converted (strict and lenient, sometimes in a thread) between two snapshots of the process state, under an audit hook that sees every file, "
        "process, network, thread and interpreter-setting operation, with both output streams captured; imports in fresh processes "
        ""
        "and the first operations of fresh processes likewise, there with every attribute of every foreign module and class and the "
        "contents of their containers compared; distinct by skeleton and outcome")
ESSENTIAL = ["snapshots compared", "operations audited", "audit events seen", "parse failures", "conversion failures", "lenient conversions",
             "unimplemented types", "imports observed", "self tests of the monitor", "operations in a thread", "warnings through logging", "logging not configured", "deep documents", "late troubles", "first operations of a process"]


def directed():
    out = [{"mode": "selftest"}]
    out += [{"mode": "import", "k": k} for k in range(len(IMPORTS))]
    out += [{"mode": "fresh", "seed": k} for k in range(10)]
    out += [{**c, "mode": "ops", "seed": k} for k, c in enumerate(full_directed())]
    # large ones that meet trouble late
    for name in sorted(giants.BUILD):
        for n in (50, 400):
            for how in (None, 0, 1, 3) if not name.startswith("deep") else (0, 1):
                out.append({"mode": "ops", "giant": [name, 40 if name.startswith("deep") else n], "late": how, "cat": "node", "seed": len(out)})
    # deeper than the interpreter allows
    for n in (60, 100, 150, 200, 300, 500, 1000, 3000):
        for t in ("blockquote", "expand", "bulletList", "taskList"):
            out.append({"mode": "ops", "deep": [n, t], "doc": {"type": "rule"}, "cat": "node", "seed": len(out)})
    return out


def generate(rng, i):
    if rng.random() < 0.002:
        return {"mode": "fresh", "seed": rng.randrange(10 ** 9)}
    c = {**full_case(rng, i), "mode": "ops"}
    if rng.random() < 0.3:
        for _, e, k in list(adf.walk(c["doc"], c["cat"])):
            if isinstance(e, dict) and rng.random() < 0.3:
                for n in rng.sample(["x", "zz", "id", "key", "$schema", "version", "content", "attrs", "marks", "text", "class", "data-x"], rng.choice([1, 2, 5])):
                    e.setdefault(n, rng.choice([None, 1, "y", ["z"], {"t": 1}])) if n[0] in "xzi$d" or n in ("key", "class") else None
    if c["cat"] == "node" and rng.random() < 0.5:
        spoil(rng, [e for p, e, k in adf.walk(c["doc"]) if p], rng.choice([1, 1, 3]))
    return c


def spoil(rng, els, n, p_unknown=0.3):
    for e in rng.sample(els, min(len(els), n)):
        x = rng.random()
        if x < p_unknown:
            e["type"] = rng.choice(["nope", "layoutSection", "Paragraph", "bodiedExtension"])
        elif x < p_unknown + 0.2:
            e.pop("type", None)
        elif x < 0.7:
            e.pop("attrs", None)
        elif x < 0.85:
            e["attrs"] = {}
        elif e.get("type") == "text":
            e["text"], e["marks"] = "a\nb", [{"type": "code"}]


def spoil_last(rng, doc, how):
    """The last element of the widest list, or more of its later ones."""
    els = max((e[f] for _, e, c in adf.walk(doc) if isinstance(e, dict) for f in ("content", "marks") if isinstance(e.get(f), list)), key=len)
    if how == 0:
        els[-1]["type"] = "nope"
    else:
        spoil(rng, els[-(len(els) // 3 or 1):], how, 0.5)


# ---------------------------------------------------------------- the audit hook
HARMLESS = {"import", "object.__getattr__", "object.__setattr__", "object.__delattr__", "builtins.id", "code.__new__", "function.__new__",
            "sys._getframe", "sys._getframemodulename", "marshal.loads", "marshal.load", "compile", "exec", "pickle.find_class",
            "gc.get_objects", "gc.get_referrers", "gc.get_referents", "array.__new__", "time.sleep"}


class Audit:
    def __init__(self):
        self.on = False
        self.bad = []
        self.n = 0
        self.busy = False
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on or self.busy:
            return
        self.n += 1
        if event in HARMLESS:
            return
        self.busy = True
        try:
            if event in ("open", "os.listdir", "os.scandir") and importing():
                mode = args[1] if event == "open" else "r"
                if mode is None or not set(str(mode)) & set("wax+"):
                    return
            self.bad.append((event, repr(args)[:200]))
        finally:
            self.busy = False


def importing():
    """The operation is the import system's (or the compiled regex cache's and the like: only imports read files)."""
    f = sys._getframe(2)
    while f is not None:
        if "importlib._bootstrap" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


_audit = {}


def audit():
    if os.getpid() not in _audit:
        _audit[os.getpid()] = Audit()
    return _audit[os.getpid()]


# ---------------------------------------------------------------- snapshots
WATCHED = ["copy", "json", "json.encoder", "json.decoder", "dataclasses", "logging", "textwrap", "html", "datetime", "re", "enum", "typing",
           "collections", "functools", "itertools", "string", "os", "os.path", "sys", "warnings", "time", "types", "abc", "copyreg", "inspect",
           "func_args.api", "func_args.arg", "func_args.exc", "func_args.dataclass", "pickle", "threading", "weakref", "random", "math", "io"]
VOLATILE = {"warnings": {"_filters_version", "filters", "_onceregistry", "onceregistry"}, "re": {"_cache", "_cache2"}, "sys": {"last_exc", "last_type", "last_value", "last_traceback", "stdout", "stderr"},
            "random": set(), "threading": {"_active", "_limbo", "_counter", "_dangling"}, "logging": set(), "time": set()}


def modules():
    out = {}
    for m in WATCHED:
        mod = sys.modules.get(m)
        if mod is not None:
            skip = VOLATILE.get(m, set())
            out[m] = {k: id(v) for k, v in list(vars(mod).items())
                      if k not in skip and not k.startswith("__") and (callable(v) or isinstance(v, (int, str, bool, float)))
                      and not type(v).__name__ == "module"}
    return out


def loggers():
    out = {"root": log_state(logging.getLogger())}
    for n, l in list(logging.Logger.manager.loggerDict.items()):
        if isinstance(l, logging.Logger):
            out[n] = log_state(l)
    return out


def log_state(l):
    return (l.level, l.disabled, l.propagate, [(id(h), h.level, id(h.formatter)) for h in l.handlers], list(map(id, l.filters)))


def snapshot(api):
    settings = sys.modules[env.PKG + ".settings"]
    old = os.umask(0o22)
    os.umask(old)
    return {
        "environment": dict(os.environ), "working directory": os.getcwd(), "umask": old,
        "locale": locale.setlocale(locale.LC_ALL), "time zone": (time.tzname, time.timezone),
        "recursion limit": sys.getrecursionlimit(), "random state": hash(random.getstate()),
        "warning filters": [tuple(map(str, f)) for f in warnings.filters], "loggers": loggers(),
        "logging switches": (logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.getLogRecordFactory()),
                             id(logging.lastResort), logging.getLevelName(30)),
        "signal handlers": [str(signal.getsignal(s)) for s in range(1, 65) if s != signal.SIGVTALRM],
        "threads": sorted(t.name for t in threading.enumerate()),
        "sys.path": list(sys.path), "import hooks": (list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))),
        "sys settings": (sys.getswitchinterval(), sys.get_int_max_str_digits(), id(sys.excepthook), id(sys.displayhook),
                         id(sys.unraisablehook), id(threading.excepthook), sys.gettrace() is None, sys.getprofile() is None,
                         sys.dont_write_bytecode, sys.getdlopenflags(), sys.flags.dev_mode),
        "standard streams": (id(sys.stdin), id(sys.__stdout__), id(sys.stdout), id(sys.stderr)),
        "decimal context": repr(decimal.getcontext()), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug()),
        "settings": {k: (v if isinstance(v, (bool, int, str)) else id(v)) for k, v in vars(settings).items() if not k.startswith("__")},
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "socket timeout": socket.getdefaulttimeout(), "modules": modules(), "exit hooks": exit_hooks(),
        "open files": sorted(os.listdir("/proc/self/fd"), key=int), "children": children(),
        "api": {k: id(v) for k, v in vars(api).items()},
    }


def exit_hooks():
    import atexit
    return atexit._ncallbacks()


def children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return []


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for n in list(a[k]) + list(b[k]):
                    if a[k].get(n, "absent") != b[k].get(n, "absent"):
                        x, y = a[k].get(n, "absent"), b[k].get(n, "absent")
                        if isinstance(x, dict) and isinstance(y, dict):
                            n2 = next(m for m in [*x, *y] if x.get(m, "absent") != y.get(m, "absent"))
                            return f"{k}: {n}.{n2}"
                        if k == "loggers" and (x == "absent"):
                            continue            # asking for a logger by name creates it, unconfigured
                        return f"{k}: {n}: {x!r:.150} became {y!r:.150}"
                continue
            return f"{k}: {a[k]!r:.200} became {b[k]!r:.200}"
    return None


@contextlib.contextmanager
def captured():
    """Everything written to the two output streams, at both levels."""
    fds = [(n, os.dup(n)) for n in (1, 2)]
    f = os.memfd_create("vmon-out")
    res = {}
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for n, _ in fds:
            os.dup2(f, n)
        yield res
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        for n, keep in fds:
            os.dup2(keep, n)
            os.close(keep)
        res["text"] = os.pread(f, 10000, 0).decode("utf-8", "replace")
        os.close(f)


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage()))


def watched(api, body, mon, what, unconfigured=False):
    """Run body under all the monitors; unconfigured: as in a program that has not set logging up."""
    a = audit()
    h = Records()
    root = logging.getLogger()
    keep, last = list(root.handlers), logging.lastResort
    if unconfigured:
        root.handlers[:] = []
        logging.lastResort = h
        mon.hit("logging not configured")
    else:
        root.addHandler(h)
    try:
        before = snapshot(api)
        with captured() as out:
            a.bad, a.n, a.on = [], 0, True
            try:
                body()
            finally:
                a.on = False
        after = snapshot(api)
    finally:
        root.handlers[:] = keep
        logging.lastResort = last
    mon.hit("audit events seen", a.n)
    mon.hit("operations audited")
    mon.hit("snapshots compared")
    if a.bad:
        return f"{what}: {a.bad[0][0]} {a.bad[0][1]}"
    if out["text"]:
        return f"{what}: wrote {out['text']!r:.200} to the standard streams"
    d = diff(before, after)
    if d:
        return f"{what}: changed {d}"
    for name, level, msg in h.records:
        if not name.startswith(env.PKG) and name != "root":
            return f"{what}: logged to {name}: {msg!r:.100}"
    mon.hit("warnings through logging", sum(l == logging.WARNING for _, l, _ in h.records))
    return None


def operations(api, doc, cat, r, mon):
    """The three operations, whatever comes of them."""
    try:
        o = parse(api, doc, cat)
    except Exception:
        mon.hit("parse failures")
        return "unparsed"
    out = []
    for k in r.sample(["dict", "md", "soft", "misc"], 4):
        try:
            if k == "dict":
                o.to_dict()
            elif k == "misc":
                repr(o), o == o, copy.deepcopy(o), o.is_type_of([api.TypeEnum.paragraph] if hasattr(api, "TypeEnum") else [])
            elif cat == "mark":
                o.to_markdown("text")
            elif k == "soft":
                o.to_markdown(ignore_error=True)
                mon.hit("lenient conversions")
            else:
                o.to_markdown()
        except Exception as e:
            if k == "md":
                mon.hit("conversion failures")
            out.append((k, type(e).__name__))
    return tuple(sorted(out))


def check(api, case, mon):
    {"ops": ops, "import": imports, "fresh": fresh, "selftest": selftest}[case["mode"]](api, case, mon)


_warm = set()


def ops(api, case, mon):
    r = random.Random(f"c22:{case['seed']}")
    doc, cat = case["doc"], case.get("cat", "node")
    if case.get("late") is not None:
        doc = copy.deepcopy(doc)
        spoil_last(r, doc, case["late"])
        mon.hit("late troubles")
    if os.getpid() not in _warm:
        # what is imported late is imported now
        for d in corpus()[:3]:
            with contextlib.suppress(Exception):
                parse(api, d).to_markdown(ignore_error=True)
        operations(api, {"type": "doc", "version": 1, "content": [{"type": "nope"}]}, "node", r, mon)
        snapshot(api)
        _warm.add(os.getpid())
    if any(c == "node" and isinstance(e, dict) and e.get("type") not in adf.NODES for _, e, c in adf.walk(doc, cat)):
        mon.hit("unimplemented types")
    if case.get("deep"):
        n, t = case["deep"]
        doc = {"type": "paragraph", "content": [{"type": "text", "text": "x"}]}
        for k in range(n):
            if t == "bulletList":
                doc = {"type": "listItem", "content": [doc]}
            doc = {"type": t, "content": [doc]}
            if t == "taskList":
                doc["attrs"] = {"localId": "x"}
        given, doc = doc, {"type": "rule"}
        mon.hit("deep documents")
    else:
        given = copy.deepcopy(doc)
    threaded = r.random() < 0.05
    res = []

    def body():
        res.append(operations(api, given, cat, r, mon))

    if threaded:
        mon.hit("operations in a thread")
        go, done = threading.Event(), threading.Event()

        def run():
            go.wait()
            try:
                body()
            finally:
                done.set()
                fin.wait()
        fin = threading.Event()
        t = threading.Thread(target=run)
        t.start()
        time.sleep(0)
        try:
            msg = watched(api, lambda: (go.set(), done.wait()), mon, "in a thread")
        finally:
            go.set()
            fin.set()
            t.join()
    else:
        bare = r.random() < 0.3
        msg = watched(api, body, mon, "parsing, serialising and converting" + (" without logging set up" if bare else ""), bare)
    if msg:
        mon.fail(msg)
    mon.seen((adf.shape(doc, cat) if isinstance(doc.get("type"), str) else "?", res))


# ---------------------------------------------------------------- the monitor sees what it should
def selftest(api, case, mon):
    d = tempfile.mkdtemp(prefix="vmon-c22-")
    name = os.path.join(d, "f")
    settings = sys.modules[env.PKG + ".settings"]
    keep = dict(lim=sys.getrecursionlimit(), st=random.getstate(), warn=settings.WARN_UNIMPLEMENTED_TYPE, filters=list(warnings.filters),
                cwd=os.getcwd(), gc=gc.isenabled(), esc=json.encoder.ESCAPE_ASCII, hash=logging.getLogger(env.PKG).level)
    faults = {
        "open": (lambda: open(name, "w").close(), lambda: os.unlink(name)),
        "read": (lambda: open("/etc/hostname" if os.path.exists("/etc/hostname") else "/etc/passwd").close(), None),
        "list": (lambda: os.listdir(d), None), "mkdir": (lambda: os.mkdir(name), lambda: os.rmdir(name)),
        "print": (lambda: print("x"), None), "stderr": (lambda: os.write(2, b"x"), None),
        "environ": (lambda: os.environ.__setitem__("VMON_C22", "1"), lambda: os.environ.pop("VMON_C22")),
        "cwd": (lambda: os.chdir(d), lambda: os.chdir(keep["cwd"])), "limit": (lambda: sys.setrecursionlimit(5000), lambda: sys.setrecursionlimit(keep["lim"])),
        "random": (lambda: random.random(), lambda: random.setstate(keep["st"])),
        "filters": (lambda: warnings.simplefilter("ignore"), lambda: warnings.filters.__setitem__(slice(None), keep["filters"])),
        "log": (lambda: logging.getLogger().addHandler(faults_handler), lambda: logging.getLogger().removeHandler(faults_handler)),
        "level": (lambda: logging.getLogger(env.PKG).setLevel(7), lambda: logging.getLogger(env.PKG).setLevel(keep["hash"])),
        "gc": (gc.disable if keep["gc"] else gc.enable, gc.enable if keep["gc"] else gc.disable),
        "setting": (lambda: setattr(settings, "WARN_UNIMPLEMENTED_TYPE", "no"), lambda: setattr(settings, "WARN_UNIMPLEMENTED_TYPE", keep["warn"])),
        "socket": (lambda: socket.socket().close(), None), "patch": (lambda: setattr(json.encoder, "ESCAPE_ASCII", len), lambda: setattr(json.encoder, "ESCAPE_ASCII", keep["esc"])),
        "signal": (lambda: signal.signal(signal.SIGUSR1, signal.SIG_IGN), lambda: signal.signal(signal.SIGUSR1, signal.SIG_DFL)),
    }
    faults_handler = logging.NullHandler()
    try:
        if watched(api, lambda: None, mon, "nothing"):
            raise RuntimeError("the monitor reports nothing as something")
        for n, (do, undo) in faults.items():
            try:
                msg = watched(api, do, mon, n)
            finally:
                if undo:
                    undo()
            if not msg:
                raise RuntimeError(f"the monitor does not see {n}")
            mon.hit("self tests of the monitor")
    finally:
        os.rmdir(d)


# ---------------------------------------------------------------- the whole process
# what Python itself fills in when asked
LAZY = {"__annotations__", "__signature__", "__abstractmethods__", "_abc_impl", "__weakref__", "__warningregistry__", "__protocol_attrs__",
        "__non_callable_proto_members__", "__doc__", "__spec__", "__loader__", "__cached__", "__path__", "__static_attributes__", "__dict__",
        "__module__", "__builtins__", "__subclasshook__", "__parameters__", "__match_args__"}
LAZY_IN = {"warnings": {"_filters_version"}, "sys": {"last_exc", "last_type", "last_value", "last_traceback", "stdout", "stderr", "modules",
                                                      "path_importer_cache"},
           "threading": {"_active", "_limbo", "_counter", "_dangling", "_shutdown_locks"}, "inspect": {"modulesbyfile", "_filesbymodname"},
           "typing": {"_cleanups"}, "encodings": set(), "atexit": set(), "logging": {"_handlers", "_handlerList"},
           "_frozen_importlib": None, "_frozen_importlib_external": None, "importlib._bootstrap": None, "importlib._bootstrap_external": None,
           "linecache": None, "tokenize": None, "vmon.checks.c22": None, "__main__": None, "__mp_main__": None, "importlib": None}


def lazy_name(n):
    low = n.lower()
    return n in LAZY or any(w in low for w in ("cache", "registry", "memo", "_lock", "member", "_values_"))


def contents(v):
    if type(v) in (dict, collections.defaultdict, collections.OrderedDict) and len(v) < 3000:
        return list(v.items())
    if type(v) in (list, set, collections.deque) and len(v) < 3000:
        return list(v)
    return None


def same(a, b):
    if (a is None) != (b is None):
        return False
    return a is None or len(a) == len(b) and all(
        x is y or (type(x) is tuple and type(y) is tuple and len(x) == len(y) and all(p is q for p, q in zip(x, y)))
        or (type(x) in (str, int, float) and type(x) is type(y) and x == y) for x, y in zip(a, b))


def wide():
    """Every attribute of every foreign module, of its classes and in its containers: the objects, so that none is reused."""
    out = {}
    for m, mod in list(sys.modules.items()):
        if not isinstance(mod, type(sys)) or m == env.PKG or m.startswith((env.PKG + ".", "vmon")) or LAZY_IN.get(m, 0) is None:
            continue
        out[m] = mod, None
        for k, v in list(vars(mod).items()):
            if lazy_name(k) or k in LAZY_IN.get(m, ()) or (isinstance(v, type(sys)) and k not in ("__self__",)):
                continue
            out[f"{m}.{k}"] = v, contents(v)
            if isinstance(v, type) and v.__module__.split(".")[0] != env.PKG:
                for n, w in list(vars(v).items()):
                    if not lazy_name(n):
                        out[f"{m}.{k}.{n}"] = w, contents(w)
    return out


def wide_diff(a, b):
    for k, (v, c) in a.items():
        if k not in b:
            return f"{k} is gone"
        w, d = b[k]
        if v is not w and not (type(v) in (str, int, float, bool) and type(v) is type(w) and v == w):
            return f"{k}: {v!r:.100} became {w!r:.100}"
        if not same(c, d):
            return f"contents of {k}"
    new = [k for k in b if k not in a and k.rsplit(".", 1)[0] in a]
    new = [k for k in new if k not in sys.modules]
    return f"{new[0]} is new" if new else None


REGISTRARS = ["codecs.register_error", "codecs.register", "codecs.unregister", "os.register_at_fork", "faulthandler.enable", "tracemalloc.start",
              "time.tzset", "os.nice", "os.setpriority", "os.sched_setaffinity", "signal.pthread_sigmask", "signal.alarm", "signal.setitimer",
              "signal.siginterrupt", "signal.set_wakeup_fd", "sys.set_asyncgen_hooks", "sys.set_coroutine_origin_tracking_depth",
              "sys.activate_stack_trampoline", "sys._clear_type_cache", "re.purge", "linecache.clearcache", "importlib.invalidate_caches",
              "gc.freeze", "gc.unfreeze", "gc.set_debug", "gc.set_threshold", "atexit.register", "atexit.unregister", "locale.setlocale",
              "os.sync", "weakref.finalize", "random.seed", "socket.setdefaulttimeout", "threading.stack_size", "sys.setswitchinterval",
              "decimal.setcontext", "csv.field_size_limit", "csv.register_dialect", "ctypes.set_errno", "resource.setrlimit", "mimetypes.init",
              "mimetypes.add_type", "shutil.register_archive_format", "asyncio.set_event_loop_policy", "multiprocessing.set_start_method",
              "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "logging.addLevelName", "logging.disable",
              "logging.captureWarnings", "logging.basicConfig", "logging.shutdown", "logging.setLoggerClass", "copyreg.pickle",
              "copyreg.add_extension", "unittest.mock.patch", "doctest.set_unittest_reportflags", "builtins.input"]


def registrars(calls):
    """Calls of functions whose effects no snapshot shows are recorded (and let through)."""
    import importlib

    def wrap(name, f):
        def call(*a, **k):
            calls.append(name)
            return f(*a, **k)
        return call
    for name in REGISTRARS:
        m, n = name.rsplit(".", 1)
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        f = getattr(mod, n, None)
        if f is None or isinstance(f, type):
            continue
        w = wrap(name, f)
        for x in {m, "_" + m, "posix" if m == "os" else m, "_socket", "_signal", "_ctypes"}:
            mod = sys.modules.get(x)
            if mod is not None and getattr(mod, n, None) is f:
                setattr(mod, n, w)


PRELUDE = """
import sys, os, json, pickle, random, logging, socket, warnings, decimal, locale, gc, signal, threading, time, tempfile, subprocess, copy
sys.dont_write_bytecode = True
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
import vmon.checks.c22 as c
from vmon import env
env.REPO = {repo!r}
import func_args.api, enum, html, textwrap, typing, dataclasses, datetime, pathlib, functools, inspect, re, string, itertools, io, math, json.encoder
import codecs, copyreg, atexit, contextvars, types, abc, collections.abc, operator, ast, urllib.parse, uuid, hashlib, base64, traceback, html.parser
import unicodedata, csv, pprint, reprlib, weakref, struct, heapq, bisect, fractions, numbers, statistics, concurrent.futures, asyncio, calendar, zoneinfo
import reprlib, mimetypes, ctypes, resource, shutil, glob, fnmatch, encodings.idna, encodings.latin_1, encodings.ascii, difflib, optparse, argparse
datetime.datetime.strptime("2020", "%Y")
calls = []
c.registrars(calls)
"""
FRESH = PRELUDE + """
env.load()
env.quiet_logging()
import atlas_doc_parser.api as api
"x".encode("latin-1"), "x".encode("ascii"), json.dumps([1]), json.loads("[1]"), copy.deepcopy([1])
docs = json.load(open({docs!r}))
class Mon:
    def hit(self, *a): pass
mon = Mon()
r = random.Random({seed})
a = c.Audit()
res = []
first = c.snapshot(api)
w1 = c.wide()
cv = dict(contextvars.copy_context())
pri = os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0), signal.pthread_sigmask(signal.SIG_BLOCK, []), signal.getitimer(signal.ITIMER_REAL)
del calls[:]
with c.captured() as out:
    a.on = True
    try:
        for doc, cat in docs:
            res.append(c.operations(api, doc, cat, r, mon))
    finally:
        a.on = False
made = calls[:]
pri2 = os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0), signal.pthread_sigmask(signal.SIG_BLOCK, []), signal.getitimer(signal.ITIMER_REAL)
d = (c.diff(first, c.snapshot(api)) or c.wide_diff(w1, c.wide()) or (made and "called " + made[0]) or (pri != pri2 and "scheduling or signal masks")
     or (cv != dict(contextvars.copy_context()) and "context variables") or None)
json.dump([a.bad[:1], out["text"][:300], d, a.n, len(res), len(w1)], open({res!r}, "w"))
"""


def fresh(api, case, mon):
    """The first operations of a process."""
    r = random.Random(f"c22:fresh:{case['seed']}")
    docs = [[d, "node"] for d in r.sample(corpus(), min(4, len(corpus())))]
    while len(docs) < 25:
        c = generate(r, r.randrange(10 ** 6))
        if c["mode"] == "ops":
            docs.append([c["doc"], c.get("cat", "node")])
    r.shuffle(docs)
    d = tempfile.mkdtemp(prefix="vmon-c22-")
    try:
        f, res = os.path.join(d, "docs"), os.path.join(d, "res")
        with open(f, "w") as h:
            json.dump(docs, h)
        p = subprocess.run([sys.executable, "-B", "-c", FRESH.format(verif=env.VERIF, repo=env.REPO, res=res, docs=f, seed=case["seed"])],
                           capture_output=True, cwd=d, timeout=200)
        if not os.path.exists(res):
            raise RuntimeError("the fresh process says nothing: " + p.stderr.decode("utf-8", "replace")[-800:])
        with open(res) as h:
            bad, text, changed, n, done, attrs = json.load(h)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    mon.hit("first operations of a process", done)
    mon.hit("audit events seen", n)
    mon.hit("attributes of foreign modules compared", attrs)
    what = "the first operations of a process"
    if bad:
        mon.fail(f"{what}: {bad[0]}")
    if text:
        mon.fail(f"{what}: wrote {text!r}")
    if changed:
        mon.fail(f"{what}: changed {changed}")
    mon.seen(("fresh", done, case["seed"]))


# ---------------------------------------------------------------- import
CHILD = PRELUDE + """
class Fake: pass
fake = sys.modules["atlas_doc_parser.settings"] = type(sys)("fake")
first = c.snapshot(Fake)
w1 = c.wide()
del calls[:]
del sys.modules["atlas_doc_parser.settings"]
class A(c.Audit):
    pass
a = A()
with c.captured() as out:
    a.on = True
    try:
        {stmt}
    finally:
        a.on = False
made = calls[:]
w2 = c.wide()
sys.modules["atlas_doc_parser.settings"] = fake
last = c.snapshot(Fake)
d = c.diff({{k: v for k, v in first.items() if k not in ("modules",)}}, last) or c.diff({{"modules": first["modules"]}}, {{"modules": last["modules"]}}) or c.wide_diff(w1, w2) or (made and "called " + made[0]) or None
json.dump([a.bad[:1], out["text"][:300], d, a.n], open({res!r}, "w"))
"""
IMPORTS = ["import atlas_doc_parser", "import atlas_doc_parser.api", "from atlas_doc_parser.api import *",
           "import atlas_doc_parser.settings", "import atlas_doc_parser.exc"]


def imports(api, case, mon):
    import shutil
    stmt = IMPORTS[case["k"]]
    d = tempfile.mkdtemp(prefix="vmon-c22-")
    try:
        res = os.path.join(d, "res")
        p = subprocess.run([sys.executable, "-B", "-c", CHILD.format(verif=env.VERIF, repo=env.REPO, res=res, stmt=stmt)], capture_output=True,
                           cwd=d, timeout=200)
        if not os.path.exists(res):
            mon.fail(f"{stmt} in a fresh process: {p.stderr.decode('utf-8', 'replace')[-600:]}")
        bad, text, changed, n = json.load(open(res))
        left = sorted(os.listdir(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.hit("imports observed")
    mon.hit("audit events seen", n)
    if bad:
        mon.fail(f"{stmt}: {bad[0]}")
    if text:
        mon.fail(f"{stmt}: wrote {text!r}")
    if changed:
        mon.fail(f"{stmt}: changed {changed}")
    if left != ["res"]:
        mon.fail(f"{stmt}: left {left}")
