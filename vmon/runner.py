"""
Runs one check: a fixed number of deterministic cases over a pool of processes,
each case being one or more executions of the real code watched by the check's
monitor. Writes the evidence, the replay files and the verdict.
"""
import collections
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import signal
import struct
import sys
import threading
import time
import traceback

from . import env, gen, giants

CPU_LIMIT = 60.0        # CPU seconds one case may take


class Violation(Exception):
    """The monitor saw the property broken."""


class Overtime(BaseException):
    """One case used more CPU time than any terminating conversion can need."""


class Monitor:
    """What a check reports to: events it saw, distinct non-trivial cases, violations."""

    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []

    def hit(self, name, n=1):
        self.events[name] += n

    def seen(self, key):
        """Count a distinct non-trivial case."""
        self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text if len(text) < 1200 else text[:1200] + "...")

    def fail(self, msg):
        raise Violation(msg)

    def equal(self, got, want, what):
        self.hit("comparisons")
        if got != want:
            self.fail(f"{what}: got {cut(got)}, expected {cut(want)}")


def cut(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    s = repr(s) if isinstance(x, str) else s
    return s if len(s) <= n else s[:n] + "..."


class Lines:
    """Lines of the code under test that ran, counted once each."""

    def __init__(self):
        self.hits = set()
        self.on = False

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(3, "vmon")
        except (AttributeError, ValueError):
            return
        root = os.path.join(env.REPO, env.PKG) + os.sep
        hits = self.hits

        def line(code, n):
            f = code.co_filename
            if f.startswith(root):
                hits.add((f[len(root):], n))
            return m.DISABLE

        m.register_callback(3, m.events.LINE, line)
        m.set_events(3, m.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
            self.on = False


def rng(*parts):
    return random.Random(":".join(map(str, parts)))


def run_case(mod, api, case, mon):
    """None, or the message of the violation."""
    def over(sig, frame):
        raise Overtime()
    if "giant" in case:
        case = {**case, "doc": giants.build(case)}
        mon.hit("giant documents")
    main = threading.current_thread() is threading.main_thread()
    limit = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
    if main:
        signal.signal(signal.SIGVTALRM, over)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.check(api, case, mon)
        return None
    except Violation as e:
        return str(e)
    except Overtime:
        return f"still running after {limit:g} s of CPU time"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # in the code under test, or in the constructor that dataclasses and func_args make for its classes
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(env.REPO)
                      or "/func_args/" in f.filename or f.filename == "<string>"), None)
        if where is None and not isinstance(e, (RecursionError, MemoryError)):
            raise        # a fault of the check itself: never a verdict about the code
        return f"unexpected {type(e).__name__}: {cut(str(e), 200)} at {where}"
    finally:
        if main:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(mod, api, case, limit=25.0):
    """Delete blocks while the case still fails."""
    if not getattr(mod, "SHRINK", True) or not isinstance(case.get("doc"), dict):
        return case
    end = time.monotonic() + limit

    def bad(c):
        try:
            return run_case(mod, api, c, Monitor()) is not None
        except Exception:
            return False

    def candidates(doc):
        def go(el, path):
            kids = el.get("content")
            if isinstance(kids, list):
                blocky = not any(isinstance(k, dict) and k.get("type") in (
                    "text", "hardBreak", "emoji", "mention", "date", "status", "inlineCard", "mediaInline")
                    for k in kids)
                if blocky and len(kids) > 1:
                    n = len(kids)
                    size = n // 2
                    while size:
                        for lo in range(0, n, size):
                            if n - min(size, n - lo) >= 1:
                                yield path, lo, lo + size
                        size //= 2
                for i, k in enumerate(kids):
                    if isinstance(k, dict):
                        yield from go(k, path + [i])
        yield from go(doc, [])

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for path, lo, hi in candidates(case["doc"]):
            if time.monotonic() > end:
                break
            d = json.loads(json.dumps(case["doc"]))
            el = d
            for i in path:
                el = el["content"][i]
            del el["content"][lo:hi]
            c = {**case, "doc": d}
            if bad(c):
                case, progress = c, True
                break
    return case


def worker(mod, w, W, todo, out, cell):
    api = env.load()
    env.quiet_logging()
    mon = Monitor()
    lines = Lines()
    if getattr(mod, "LINES", True):
        lines.start()
    res = {"n": 0, "bad": None, "error": None, "slow": 0.0}
    try:
        for k in range(w, len(todo), W):
            kind, i = todo[k]
            cell[w * 8:w * 8 + 8] = struct.pack("q", k)
            t = time.process_time()
            case = make(mod, kind, i)
            msg = run_case(mod, api, case, mon)
            res["slow"] = max(res["slow"], time.process_time() - t)
            res["n"] += 1
            if msg is None and len(mon.samples) < 2 and kind == "random":
                mon.sample(json.dumps(case, ensure_ascii=True)[:700])
            if msg is not None:
                small = shrink(mod, api, case)
                res["bad"] = (k, kind, i, msg, case, small)
                break
    except BaseException as e:
        res["error"] = f"{kind} case {i}: " + "".join(traceback.format_exception(e))[-3000:]
    lines.stop()
    res.update(events=mon.events, distinct=mon.distinct, samples=mon.samples, lines=lines.hits)
    with os.fdopen(out, "wb") as f:
        pickle.dump(res, f)


_directed = {}


def directed(mod):
    # the biggest first: they take the longest
    return giants.cases(mod) + list(mod.directed())


def make(mod, kind, i):
    if kind == "directed":
        if mod.ID not in _directed:
            _directed[mod.ID] = directed(mod)
        return _directed[mod.ID][i]
    case = mod.generate(rng(env.SEED, mod.ID, i), i)
    if getattr(mod, "DECORATE", False) and "doc" in case:
        r = rng(env.SEED, mod.ID + " decorate", i)
        if r.random() < 0.25:
            gen.decorate(case["doc"], r)
    return case


def main(pid, replay=None):
    t0 = time.monotonic()
    mod = importlib.import_module(f"vmon.checks.{pid.lower()}")
    if replay:
        return do_replay(mod, replay)
    n = mod.QUICK if env.TIER == "quick" else mod.THOROUGH
    n = max(8, int(n * env.SCALE))
    todo = [("directed", i) for i in range(len(directed(mod)))] + [("random", i) for i in range(n)]
    W = min(getattr(mod, "WORKERS", env.WORKERS), len(todo))
    cell = mmap.mmap(-1, 8 * W)
    kids = []
    for w in range(W):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            code = 1
            try:
                os.close(r)
                worker(mod, w, W, todo, wr, cell)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid_, r))
    results = [None] * W

    def collect(w, p, r):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(p, 0)
        if data:
            results[w] = pickle.loads(data)
        else:
            k = struct.unpack("q", cell[w * 8:w * 8 + 8])[0]
            results[w] = {"died": status, "k": k}

    ts = [threading.Thread(target=collect, args=(w, p, r)) for w, (p, r) in enumerate(kids)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    bad, errors = [], []
    events, distinct, samples, lines, evals, slow = collections.Counter(), set(), [], set(), 0, 0.0
    for w, r in enumerate(results):
        if "died" in r:
            kind, i = todo[r["k"]]
            sig = os.WTERMSIG(r["died"]) if os.WIFSIGNALED(r["died"]) else None
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
                bad.append((r["k"], kind, i, f"the process died of signal {sig} while running this case",
                            make(mod, kind, i), None))
            else:
                errors.append(f"worker {w} ended with status {r['died']} in {kind} case {i}")
            continue
        evals += r["n"]
        slow = max(slow, r["slow"])
        events.update(r["events"])
        distinct |= r["distinct"]
        samples += r["samples"]
        lines |= r["lines"]
        if r["bad"]:
            bad.append(r["bad"])
        if r["error"]:
            errors.append(r["error"])
    findings = known_findings(mod)
    missing = [e for e in [*mod.ESSENTIAL, *(["giant documents"] if giants.cases(mod) else [])] if not events[e]]
    evidence = {
        "property": mod.ID, "tier": env.TIER, "seed": env.SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE + ("; and documents of thousands of children, or of great depth or length, in one place at a time"
                                if giants.cases(mod) else ""),
            "samples": sorted(samples)[:4] or ["(none: stopped by a violation)"],
            "observed": dict(sorted(events.items())),
            "code_lines_run": len(lines),
            "files_run": dict(sorted(collections.Counter(f for f, _ in lines).items())),
            "slowest_case_cpu_s": round(slow, 3),
            "processes": W,
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "violations": len(bad), "wall_s": round(time.monotonic() - t0, 2),
    }
    path = os.path.join(env.VERIF, "evidence", f"{mod.ID}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    for what in findings:
        print(f"KNOWN-FINDING: property={mod.ID} {what}")
    if bad:
        k, kind, i, msg, case, small = min(bad, key=lambda b: b[0])
        rp = save(mod, kind, i, msg, case, small)
        print(f"{mod.ID}: {msg}")
        print(f"VIOLATION property={mod.ID} replay={rp}")
        return 1
    if errors or missing:
        for e in errors[:2]:
            print(f"ERROR of the check: {e}")
        if missing:
            print(f"INCONCLUSIVE: never observed {missing}")
        return 2
    print(f"OK {mod.ID}: {evals} cases, {len(distinct)} distinct, {sum(events.values())} events observed, "
          f"{len(lines)} code lines run, {evidence['wall_s']} s")
    return 0


def save(mod, kind, i, msg, case, small):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": mod.ID, "kind": kind, "index": i, "seed": env.SEED, "message": msg,
            "case": case, "shrunk": small}
    text = json.dumps(body, indent=1)
    rp = os.path.join(d, f"{mod.ID}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(rp, "w") as f:
        f.write(text)
    return rp


def do_replay(mod, path):
    api = env.load()
    env.quiet_logging()
    body = json.load(open(path))
    for name in ("shrunk", "case"):
        if body.get(name) is not None:
            msg = run_case(mod, api, body[name], Monitor())
            print(f"{name}: {json.dumps(body[name])[:3000]}")
            print(f"{name}: {'held' if msg is None else msg}")
            if msg is not None:
                print(f"VIOLATION property={mod.ID} replay={path}")
                return 1
    return 0


def known_findings(mod):
    """
    The listed findings of this property that still fail. Each one names its exact
    case; it suppresses nothing else (the generators stay off these inputs only).
    """
    path = os.path.join(env.VERIF, "known_findings.json")
    out = []
    try:
        entries = json.load(open(path))
    except OSError:
        return out
    api = None
    for e in entries:
        if e.get("property") == mod.ID and e.get("status") == "known":
            if api is None:
                api = env.load()
                env.quiet_logging()
            if run_case(mod, api, e["case"], Monitor()) is not None:
                out.append(e["what"])
    return out
