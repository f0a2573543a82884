"""Exhaustive stateless exploration: enumerate every list of choices.

A scenario's execute(prefix) runs the real code once, following the recorded
choices of `prefix` and taking option 0 afterwards, and returns the World.
Starting from the empty prefix, every untaken option after the prefix of every
execution becomes a new prefix, unless it would exceed the scenario's budget
for its kind of deviation; each choice list within the budget is therefore
executed exactly once.
"""
import multiprocessing as mp
import os
import time
import traceback

import loader
import report
import sched

class Scenario:
    """name: unique; budget: kind -> number of non-default choices allowed
    ("*": total over all budgeted kinds); kinds not named are unlimited."""
    def __init__(self, name, execute, budget=None, cap=None):
        self.name = name
        self.execute = execute
        self.budget = budget or {}
        self.cap = cap

class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0
        self.steps = 0
        self.deviating = 0
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self.depth = 0
        self.left = []          # unexplored prefixes
        self.dropped = 0

def spend(trace, budget):
    used = dict.fromkeys(budget, 0)
    for kind, n, c in trace:
        if c and kind in used:
            used[kind] += 1
            if "*" in used:
                used["*"] += 1
    return used

def children(trace, start, budget, sink):
    used = spend(trace[:start], budget)
    for i in range(start, len(trace)):
        kind, n, c = trace[i]
        if kind not in used or (used[kind] < budget[kind]
                and ("*" not in used or used["*"] < budget["*"])):
            for alt in range(1, n):
                if alt != c:
                    sink.append((trace, i, alt))
        # taken choices after the prefix are all zero: nothing is spent here

def build(item):
    trace, i, alt = item
    kind, n, _ = trace[i]
    return trace[:i] + ((kind, n, alt),)

_scenarios = None

def run_one(sc, prefix, st):
    sched.BUDGET = sc.budget
    w = sc.execute(prefix)
    trace = tuple(w.trace)
    st.executions += 1
    st.nodes += len(trace) - len(prefix) + 1
    st.steps += w.steps
    st.depth = max(st.depth, len(trace))
    if any(c for _, _, c in trace):
        st.deviating += 1
    out = repr(w.outcome) if hasattr(w, "outcome") else repr(w.log)
    h = hash((sc.name, out))
    if h not in st.outcomes:
        st.outcomes.add(h)
        if len(st.samples) < 2:
            st.samples.append({"scenario": sc.name,
                "choices": "".join(str(c) for _, _, c in trace)[:200],
                "outcome": out[:400]})
    for key, text in w.problems:
        if len(st.violations) < 40:
            st.violations.append(report.Violation(f"{sc.name}/{key}",
                f"{sc.name}: {text}", {"scenario": sc.name,
                    "budget": sc.budget,
                    "prefix": [list(c) for c in trace]}))
    problems = bool(w.problems)
    w.log = w.threads = w.net = None
    return trace, problems

def _task(args):
    """Explore below some prefixes for a while; return what is left."""
    index, prefixes, quota, seconds = args
    sc = _scenarios[index]
    st = Stats()
    t0 = time.monotonic()
    stack = []
    todo = list(prefixes)
    n = 0
    try:
        while (todo or stack) and n < quota and time.monotonic() - t0 < seconds:
            prefix = todo.pop() if todo else build(stack.pop())
            trace, bad = run_one(sc, prefix, st)
            n += 1
            if n % 64 == 0:
                sched.cleanup()
            if not bad:
                children(trace, len(prefix), sc.budget, stack)
        # hand back the shallowest work first, in few big subtrees
        st.left = todo + [build(s) for s in stack]
        sched.cleanup()
        return ("ok", index, st)
    except BaseException:
        return ("error", index, traceback.format_exc())

def merge(a, b):
    a.executions += b.executions
    a.nodes += b.nodes
    a.steps += b.steps
    a.deviating += b.deviating
    a.outcomes |= b.outcomes
    a.depth = max(a.depth, b.depth)
    for s in b.samples:
        if len(a.samples) < 12:
            a.samples.append(s)

def explore(ck, scenarios, seconds=None, quota=None):
    """Explore all scenarios; record evidence and violations on the check."""
    global _scenarios
    only = os.environ.get("MC_ONLY")
    if only:                            # for development
        scenarios = [s for s in scenarios if only in s.name]
        ck.caps.append("only scenarios matching " + only)
    _scenarios = scenarios
    limit = min(ck.left(), seconds or 1e9)
    deadline = time.monotonic() + limit
    total = Stats()
    trace_out = os.environ.get("MC_VERBOSE")
    per = {s.name: [0, 0] for s in scenarios}
    queue = [(i, [()]) for i in range(len(scenarios))]
    ctx = mp.get_context("fork")
    n = report.jobs()
    pool = ctx.Pool(n)
    alive = list(pool._pool)
    crashes = 0
    running = {}
    failed = 0
    try:
        while queue or running:
            now = time.monotonic()
            if now > deadline:
                total.dropped += sum(len(p) for _, p in queue)
                queue.clear()
            while queue and len(running) < 2 * n:
                index, prefixes = queue.pop(0)
                quota_n = 40 if len(queue) < 4 * n else 400
                args = (index, prefixes, quota_n, 8.0)
                running[pool.apply_async(_task, (args,))] = args
            if not running:
                break
            done = [r for r in running if r.ready()]
            if not done:
                next(iter(running)).wait(0.005)
                if any(p.exitcode is not None for p in alive):
                    # the interpreter crashed (it does, with many tracers):
                    # do again what was being done
                    crashes += 1
                    if crashes > 4:
                        raise report.HarnessError("worker processes crash")
                    pool.terminate()
                    pool = ctx.Pool(n)
                    alive = list(pool._pool)
                    running = {pool.apply_async(_task, (a,)): a
                        for a in running.values()}
                continue
            for r in done:
                del running[r]
                status, index, st = r.get()
                if status == "error":
                    raise report.HarnessError(
                        f"in scenario {scenarios[index].name}\n{st}")
                merge(total, st)
                per[scenarios[index].name][0] += st.executions
                per[scenarios[index].name][1] += st.nodes
                for v in st.violations:
                    if len(ck.found) < 60:
                        ck.violation(v)
                    failed += 25 if v.key.endswith("/hang") else 1
                left = st.left
                cap = scenarios[index].cap
                if failed > 200 or (cap and per[scenarios[index].name][0] >= cap):
                    total.dropped += len(left)
                    continue
                # split so that every worker gets something
                if left:
                    step = max(1, min(200, (len(left) + n - 1) // n))
                    for k in range(0, len(left), step):
                        queue.append((index, left[k:k + step]))
    finally:
        pool.terminate()
        pool.join()
    record(ck, total, per)
    if trace_out:
        for k, v in sorted(per.items(), key=lambda x: -x[1][0])[:25]:
            print("   ", v[0], k)
    return total

def record(ck, total, per):
    cov = ck.coverage
    def add(k, v):
        cov[k] = cov.get(k, 0) + v
    if ck.level == "model_checking":
        add("states", total.nodes)
        add("transitions", total.steps)
        add("traces_validated_against_impl", total.executions)
    else:
        add("evaluations", total.executions)
        add("distinct_nontrivial", total.deviating)
        add("choice_points", total.nodes)
        add("steps", total.steps)
    add("distinct_outcomes", len(total.outcomes))
    cov["max_choices"] = max(cov.get("max_choices", 0), total.depth)
    cov.setdefault("per_scenario", {}).update(
        {k: {"executions": v[0], "choice_points": v[1]}
            for k, v in per.items()})
    cov.setdefault("samples", []).extend(total.samples)
    cov.setdefault("exhaustive", True)
    if total.dropped:
        ck.caps.append(f"{total.dropped} prefixes left unexplored at the"
            f" wall budget")

def replay(scenarios, data):
    """Re-execute one recorded execution and print it."""
    sc = {s.name: s for s in scenarios}[data["scenario"]]
    sched.BUDGET = data.get("budget", {})
    w = sc.execute(tuple(tuple(c) for c in data["prefix"]))
    for e in w.log:
        print("  %10.4f  %s" % (e[0], " ".join(str(x) for x in e[1:])))
    print("  outcome:", getattr(w, "outcome", None))
    for key, text in w.problems:
        print(f"  [{key}] {text}")
    print("reproduced" if w.problems else "no violation on this execution")
    return 1 if w.problems else 0

MODEL_NOTE = ("states: choice points (nodes of the execution tree) visited;"
    " transitions: scheduling, network and timer steps executed; every trace"
    " is an execution of the real code")
