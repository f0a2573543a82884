"""Evidence, violation lines, replay files, known findings, parallel chunks."""
import collections
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import loader

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")

class Hang(BaseException):
    pass

class Violation(Exception):
    """key: stable identity of the failing input/site; what: one line."""
    def __init__(self, key, what, replay=None):
        super().__init__(what)
        self.key = str(key)
        self.what = what
        self.replay = replay

    def __reduce__(self):
        return (Violation, (self.key, self.what, self.replay))

def describe(exc):
    return "".join(traceback.format_exception_only(type(exc), exc)).strip()

def jobs():
    return max(1, int(os.environ.get("MC_JOBS", os.cpu_count() or 1)))

class Check:
    def __init__(self, pid, level):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.monotonic()
        self.budget = 420.0 if self.tier == "quick" else 6 * 3600.0
        self.found = []
        self.keys = set()
        self.coverage = {}
        self.assumptions = []
        self.caps = []
        self.quick = self.tier == "quick"

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    def violation(self, v):
        if v.key not in self.keys:
            self.keys.add(v.key)
            self.found.append(v)

    def finish(self):
        wall = round(time.monotonic() - self.t0, 2)
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN))["findings"]
        listed = {k["key"]: k for k in known
            if k["property"] == self.id and k["status"] == "known"}
        new = []
        for v in self.found:
            if v.key in listed:
                print(f"KNOWN-FINDING: property={self.id} {listed[v.key]['what']}")
            else:
                new.append(v)
        cov = dict(self.coverage)
        if self.caps:
            cov["caps"] = self.caps
            cov["exhaustive"] = False
        os.makedirs(EVIDENCE, exist_ok=True)
        out = {
            "property": self.id, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": wall,
            "violations": len(new),
        }
        path = os.path.join(EVIDENCE, f"{self.id}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
        brief = {k: v for k, v in cov.items()
            if isinstance(v, (int, float, bool, str)) and k != "rule"}
        print(f"{self.id} {self.tier}: {brief} wall={wall}s")
        for cap in self.caps:
            print(f"{self.id} capped: {cap}")
        for i, v in enumerate(new[:20]):
            rp = os.path.join(EVIDENCE, f"{self.id}.violation.{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.id, "key": v.key, "what": v.what,
                    "replay": v.replay}, f, indent=1, default=repr)
            print(f"  [{v.key}] {v.what}"[:2000])
            print(f"VIOLATION property={self.id} replay={rp}")
        return 1 if new else 0

# ------------------------------------------------------------ parallel chunks

class Tally:
    """What one chunk of an enumeration covered."""
    def __init__(self):
        self.evals = 0
        self.nontrivial = 0
        self.labels = collections.Counter()
        self.violations = []
        self.samples = []
        self.current = None
        self.extra = collections.Counter()
        self.keys = set()

    def case(self, label="case", n=1, nontrivial=True):
        self.evals += n
        if nontrivial:
            self.nontrivial += n
        self.labels[label] += n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def fail(self, key, what, replay=None):
        """Record a violation; the first of each key, 20 keys per chunk."""
        if key not in self.keys and len(self.keys) < 20:
            self.keys.add(key)
            self.violations.append(Violation(key, what, replay))

def crash(t, exc, what, key="crash"):
    """An exception escaped: the library's fault, or the harness's?"""
    if isinstance(exc, Violation):
        t.violations.append(exc)
        return
    if loader.in_library(exc.__traceback__):
        where = traceback.extract_tb(exc.__traceback__)[-1]
        t.fail(f"{key}:{type(exc).__name__}:{where.name}",
            f"unexpected {describe(exc)} in {where.name} ({what})",
            repr(t.current))
        return
    raise exc

_work = None
_limit = None

def _alarm(sig, frame):
    raise Hang()

def _run(chunk):
    t = Tally()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, _limit)
    try:
        try:
            _work(t, chunk)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        t.fail("hang", f"no result within {_limit:g} s on {t.current!r}",
            repr(t.current))
    except Violation as v:
        t.violations.append(v)
    except Exception as e:
        api = isinstance(e, (AttributeError, ImportError, NameError))
        if (api and "NoneType" not in str(e)
        and not loader.in_library(e.__traceback__)):
            return ("harness", traceback.format_exc(), repr(t.current)[:2000])
        where = traceback.extract_tb(e.__traceback__)[-1]
        t.fail(f"crash:{type(e).__name__}:{where.name}",
            f"unexpected {describe(e)} in {where.name}"
            f" ({repr(t.current)[:300]})", repr(t.current))
    return ("ok", t)

class HarnessError(Exception):
    pass

def enumerate_chunks(ck, work, chunks, limit=240.0):
    """Run work(tally, chunk) for every chunk, in parallel; merge the tallies."""
    global _work, _limit
    _work, _limit = work, limit
    total = Tally()
    chunks = list(chunks)
    n = min(jobs(), len(chunks)) or 1
    ctx = mp.get_context("fork")
    pool = ctx.Pool(n)
    done = 0
    try:
        it = pool.imap_unordered(_run, chunks, 1)
        for _ in chunks:
            try:
                res = it.next(timeout=max(1.0, ck.left() + 30))
            except mp.TimeoutError:
                ck.caps.append(f"wall budget: {done} of {len(chunks)} chunks")
                break
            if res[0] == "harness":
                raise HarnessError(res[1] + "\non " + res[2])
            done += 1
            t = res[1]
            total.evals += t.evals
            total.nontrivial += t.nontrivial
            total.labels.update(t.labels)
            total.extra.update(t.extra)
            for s in t.samples:
                total.sample(s, 12)
            for v in t.violations:
                total.violations.append(v)
                ck.violation(v)
    finally:
        pool.terminate()
        pool.join()
    return total

def exploration(ck, total, rule):
    cov = ck.coverage
    cov["evaluations"] = cov.get("evaluations", 0) + total.evals
    cov["distinct_nontrivial"] = (cov.get("distinct_nontrivial", 0)
        + total.nontrivial)
    cov["rule"] = rule
    cov.setdefault("samples", []).extend(total.samples)
    cov.setdefault("by_class", {}).update(total.labels)
    cov["exhaustive"] = True
