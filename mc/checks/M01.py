"""M01: v1/v2c requests end with what the network actually did."""
import itertools
import agent as ag
import client
import env
import explore

LEVEL = "model_checking"
FATES = ("ok", "lost", "slow", "dup", "exact", "late")
OPTIONS = dict(slow=(1.25,), dup=(0.125, 0.25), exact=(1.0,), late=(7.0,))

def judge(c):
    c.judge_outcomes()

def scenarios(ck):
    out = []
    def add(version, name, script, budget, fates=FATES, **kw):
        out.append(explore.Scenario(f"v{version + 1}:{name}",
            client.community(version, script, fates, OPTIONS,
                judge=(judge,), **kw), budget))
    deep = not ck.quick
    for v in (0, 1):
        for T, p in itertools.product((0.5, 1.0, 2.0, 2.5, 3.0),
                (0.5, 0.75, 1.0, 4.0)):
            kw = dict(timeout=T, refreshPeriod=p)
            n = 4 if deep else 3
            add(v, f"one T={T} p={p}", [("send", 1, kw), ("wait", 1)],
                {"fate": n})
            add(v, f"sync T={T} p={p}", [("sync", 1, kw)], {"fate": 2})
        for T, gap in itertools.product((1.5, 2.0), (0.5, 1.0, 1.75, 2.0, 3.0)):
            kw = dict(timeout=T)
            add(v, f"sleep {gap} T={T}", [("send", 1, kw), ("sleep", gap),
                ("wait", 1)], {"fate": 3})
        a, b = dict(timeout=3.0), dict(timeout=2.25, refreshPeriod=0.75)
        for x, y in ((a, b), (b, a), (a, a)):
            for order in itertools.permutations((1, 2)):
                s = [("send", 1, x), ("send", 2, y)]
                s += [("wait", k) for k in order]
                add(v, f"two {x}{y}{order}", s, {"fate": 4 if deep else 2})
        add(v, "overlap", [("send", 1, a), ("sleep", 0.5), ("send", 2, b),
            ("wait", 2), ("send", 3, a), ("wait", 1), ("wait", 3)],
            {"fate": 4 if deep else 2})
        add(v, "late neighbour", [("send", 1, dict(timeout=1.0)), ("wait", 1),
            ("send", 2, a), ("wait", 2)], {"fate": 4})
        add(v, "dropped", [("send", 1, a), ("drop", 1), ("send", 2, a),
            ("wait", 2)], {"fate": 4 if deep else 3})
        add(v, "dropped after", [("send", 1, b), ("send", 2, a), ("sleep", 0.5),
            ("drop", 1), ("wait", 2)], {"fate": 4 if deep else 3})
        c3 = [("send", 1, a), ("send", 2, b), ("send", 3, dict(timeout=1.5))]
        for order in itertools.permutations((1, 2, 3)):
            add(v, f"three {order}", c3 + [("wait", k) for k in order],
                {"fate": 3 if deep else 2})
        for n in (5, 12) if not deep else (4, 5, 6, 8, 12, 20):
            for name, script in client.crowd(n):
                few = {"fate": 1, "sched": 0, "tie": 1 if deep else 0}
                add(v, name, script, few, ("ok", "lost", "slow"))
                add(v, name + " silent", script, few, ("lost", "ok"))
        for status in range(1, 19):
            for place in range(3):
                k = 900 + 100 * place + status
                add(v, f"status {status}/{place}", [("send", k, a),
                    ("wait", k)], {"fate": 1})
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "one application thread; the interleavings are the subject of M06",
        "network fates per transmission: " + ", ".join(FATES)
            + "; at most the stated number differ from `ok`",
        "virtual time: code takes no time between two blocking operations",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
