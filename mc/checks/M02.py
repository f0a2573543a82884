"""M02: retransmissions happen exactly on schedule, and never too late."""
import itertools
import client
import env
import explore

LEVEL = "model_checking"
FATES = ("ok", "lost", "slow", "exact")
OPTIONS = dict(slow=(1.3125,), exact=(1.0,))
def judge(c):
    c.judge_cadence()
    for k, r in c.recs.items():
        if r.got == ("Timeout",):
            end = max(r.wait0, r.t0 + r.timeout)
            if abs(r.wait1 - end) > client.EPS:
                c.w.problem("deadline", f"request {k} raised Timeout at"
                    f" {r.wait1}, its deadline was {end}")

PERIODS = (0.25, 0.375, 0.5, 0.75, 1.0, 1.5, 4.0)

SILENT = ("lost", "ok", "slow", "exact")

def scenarios(ck):
    out = []
    deep = not ck.quick
    def variants(name, script, budget, fates=FATES):
        for v in (0, 1):
            out.append(explore.Scenario(f"v{v + 1}:{name}",
                client.community(v, script, fates, OPTIONS, judge=(judge,)),
                budget))
        for user, level in (("plain", 0), ("signer", 1), ("hider", 3)):
            out.append(explore.Scenario(f"v3/{level}:{name}",
                client.v3(script, user, level, fates, OPTIONS, (judge,),
                    warmup=True), budget))
    def both(name, script, near, far):
        """up to `near` losses/delays; and up to `far` answers in silence"""
        variants(name, script, {"fate": near})
        variants(name + " silent", script, {"fate": far}, SILENT)
    for T, p in itertools.product((0.5, 1.0, 2.0, 2.25, 3.0, 5.0), PERIODS):
        kw = dict(timeout=T, refreshPeriod=p)
        s = [("send", 1, kw), ("wait", 1)]
        if T / p <= 2.5:
            variants(f"one T={T} p={p}", s, {})
        else:
            both(f"one T={T} p={p}", s, 4 if deep else 2, 2 if deep else 1)
    for p in PERIODS[:5]:
        both(f"sync p={p}", [("sync", 1, dict(timeout=2.0, refreshPeriod=p))],
            1, 1)
    # the application pauses: missed transmissions are made up for once
    for gap in (0.5, 1.0, 1.5, 2.0, 2.75, 3.0, 4.0):
        both(f"pause {gap}", [("send", 1, dict(timeout=3.0)), ("sleep", gap),
            ("wait", 1)], 2, 1)
        both(f"pause {gap} p=0.75", [("send", 1, dict(timeout=3.0,
            refreshPeriod=0.75)), ("sleep", gap), ("wait", 1)], 2, 1)
    a = dict(timeout=3.0)
    b = dict(timeout=2.25, refreshPeriod=0.75)
    c = dict(timeout=4.0, refreshPeriod=1.5)
    n = 3 if deep else 1
    for (x, y), gap in itertools.product(((a, b), (b, a), (a, c), (a, a)),
            (0.0, 0.25, 1.0)):
        for order in itertools.permutations((1, 2)):
            both(f"two {x}{y} gap {gap} {order}", [("send", 1, x),
                ("sleep", gap), ("send", 2, y)]
                + [("wait", k) for k in order], n, n)
    both("dropped", [("send", 1, b), ("send", 2, a), ("sleep", 1.0),
        ("drop", 1), ("wait", 2)], n, n)
    for order in itertools.permutations((1, 2, 3)):
        both(f"three {order}", [("send", 1, a), ("send", 2, b), ("send", 3, c)]
            + [("wait", k) for k in order], n, n)
    few = {"fate": 1 if deep else 0, "sched": 0, "tie": 0}
    # many periods, many missed ones, many requests
    for p in (0.25, 1.0, 3.0):
        kw = dict(timeout=48.0, refreshPeriod=p)
        variants(f"long p={p} silent", [("send", 1, kw), ("wait", 1)], few,
            SILENT)
        for gap in (4.25, 5.0, 6.5, 9.0, 17.5, 33.0):
            variants(f"long pause {gap} p={p} silent", [("send", 1, kw),
                ("sleep", gap), ("wait", 1)], few, SILENT)
    for n in (5, 12) if not deep else (4, 5, 6, 8, 12, 20):
        for name, script in client.crowd(n):
            if deep or "00" not in name:
                variants(name, script, few)
                variants(name + " silent", script, few, SILENT)
    # one of them is answered with a report: no other one is late
    for user, level in (("signer", 1), ("hider", 3)):
        for (x, y), gap in itertools.product(((a, b), (b, a), (a, c), (c, b),
                (a, a)), (0.0, 0.25)):
            for order in itertools.permutations((1, 2, 3)):
                script = [("send", 1, x), ("sleep", gap), ("send", 2, y),
                    ("send", 3, b)] + [("wait", k) for k in order]
                out.append(explore.Scenario(f"v3/{level}:reported {x}{y} gap"
                    f" {gap} {order}", client.v3(script, user, level, ("lost",
                    "ok", "slow"), OPTIONS, (reported,), warmup=True,
                    setup=reboot), {"fate": 3 if deep else 2, "sched": 1,
                    "tie": 1}))
    return out

def reboot(w, e, m, agent):
    agent.boots += 1
    agent.clock = 0

def reported(c):
    """Until its first report a request keeps its schedule; after it, it is
    never silent for longer than a period while somebody waits."""
    tags = {}
    for a in c.agents:
        tags.update(a.tags)
    ids = {}
    for a in c.agents:
        for t, req in a.received:
            if "pdu" in req and req["pdu"][4]:
                ids[req["msgid"]] = req["pdu"][4][0][0][-2]
    for k, r in c.recs.items():
        told = [t for t, fd, data, src in c.w.net.delivered
            if tags.get(data, ("",))[0] == "report"
            and ids.get(tags[data][3]) == k]
        if not told:
            c.cadence(k, r)
            continue
        first = min(told)
        end = min([r.t0 + r.timeout, r.wait1, *r.arrivals])
        points = [t for t in r.sends if t < end]
        busy = sorted((s, e) for s, e in c.service)
        last = points[0]
        for t in points[1:] + [end]:
            begin = min(s for s, e in busy)
            if t - max(last, begin) > r.period + client.EPS and t > begin:
                c.w.problem("silent", f"request {k} (sent {r.t0}, period"
                    f" {r.period}, reported at {told}) was sent at {r.sends} only;"
                    f" serviced {busy}, ended {end}")
            last = t
        once(c, k, r, tags, ids)

def once(c, k, r, tags, ids):
    """Several reports about transmissions that were all made before the
    request was sent again ask for the same adjustment: only the first of them
    makes it be sent again at once."""
    made = {}               # message ID -> when that transmission was made
    for a in c.agents:
        for t, req in a.received:
            if ids.get(req["msgid"]) == k:
                made[req["msgid"]] = t
    if not made:
        return
    reports = sorted((t, made[tags[data][3]]) for t, fd, data, src
        in c.w.net.delivered if tags.get(data, ("",))[0] == "report"
        and tags[data][3] in made)
    since = r.sends[0]      # when the current round began
    stale = []
    for t, about in reports:
        if about >= since - client.EPS and any(abs(x - t) < client.EPS
                for x in r.sends):
            since = t
        elif about < since - client.EPS:
            stale.append((t, since))
    starts = [s for s, e in c.service]
    for t, anchor in stale:
        off = (t - anchor) / r.period
        grid = abs(off - round(off)) * r.period < client.EPS
        if not grid and not any(abs(s - t) < client.EPS for s in starts) and any(
                abs(x - t) < client.EPS for x in r.sends) and not any(
                abs(t - t2) < client.EPS for t2, about in reports
                if about >= anchor - client.EPS):
            c.w.problem("again", f"request {k} was sent again at {t} because of"
                f" a report about a transmission made before it was last sent"
                f" again because of one ({anchor}); sent at {r.sends}, reports"
                f" (time, about) {reports}")

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "one application thread, and code takes no (virtual) time",
        "SNMPv3: on a manager that has already synchronized (M03: before)",
        "a waiting application services all requests of its manager; while no"
        " one waits, nothing is retransmitted, and one overdue transmission"
        " per request is made up for when somebody does",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
