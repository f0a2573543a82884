"""M08: a request that cannot be sent fails by itself, and alone."""
import itertools
import agent as ag
import client
import env
import explore

LEVEL = "model_checking"
EPS = client.EPS
FATES = ("ok", "fail", "lost")
SLOW = ("ok", "fail", "lost", "slow")
SILENT = ("lost", "fail", "ok")     # nothing arrives unless it is so chosen
OPTIONS = dict(slow=(1.25,))
REFUSED = ("OSError",)

def op_bad(self, m, k, kw, what):
    """A request that can never be sent, and what its error must be."""
    if what == "user":
        kw = dict(kw, user=b"nobody", securityLevel=client.level_of(1))
    elif what == "level":
        kw = dict(kw, user=b"plain", securityLevel=client.level_of(3))
    if what == "big":
        snmp = env.snmp
        r = self.rec(k, kw)
        try:
            self.handles[k] = m.set((env.name(k),
                snmp.smi.OctetString(bytes(65500))), wait=False, **kw)
        except Exception as e:
            r.got = env.classify(e)
            r.wait0 = r.wait1 = self.t()
    else:
        self.op_send(m, k, kw)
    self.recs[k].bad = {"user": (("InvalidUserName",),),
        "level": (("InvalidSecurityLevel",),),
        "big": (REFUSED, ("ValueError",))}[what]

client.Client.op_bad = op_bad

def number(req):
    pdu = req[1] if isinstance(req, tuple) else req.get("pdu")
    return pdu[4][0][0][-2] if pdu and pdu[4] else None

def failures(c):
    """-> {k: time}: every refusal ends the request concerned, and at once."""
    p = c.w.problem
    out = {}
    unknown = []
    for t, name, req in c.w.refused:
        k = number(req)
        if k is None:
            unknown.append(t)
        elif c.recs[k].dropped is None:
            out.setdefault(k, t)
    ended = [r for r in c.recs.values() if r.got == REFUSED]
    for r in sorted(ended, key=lambda r: (hasattr(r, "bad"), r.wait1)):
        if r.k not in out:
            before = [t for t in unknown if t <= r.wait1 + EPS]
            if before:              # a probe on behalf of this request
                out[r.k] = max(before)
                unknown.remove(out[r.k])
            elif REFUSED not in getattr(r, "bad", ()):
                p("phantom-error", f"request {r.k} ended with {r.got} at"
                    f" {r.wait1}; refusals: {brief(c)}")
    dropped = any(r.dropped is not None for r in c.recs.values())
    if unknown and not dropped:
        p("no-error", f"nobody has heard of the refusals at {unknown}")
    for k, t in out.items():
        r = c.recs[k]
        if r.got is None:
            continue
        if r.got == REFUSED:
            if abs(r.wait1 - max(r.wait0, t)) > EPS:
                p("error-time", f"request {k}, refused at {t}, is told so at"
                    f" {r.wait1}; its wait() began at {r.wait0}")
        elif not [a for a in r.arrivals if t - EPS <= a <= r.wait1 + EPS]:
            p("no-error", f"request {k}, refused at {t}, ended with {r.got} at"
                f" {r.wait1}")
        for s in r.sends:
            if s > t + EPS:
                p("sent-again", f"request {k}, refused at {t}, was sent again"
                    f" at {s}")
    return out

def brief(c):
    return [(t, name, number(req)) for t, name, req in c.w.refused]

def outcomes(c):
    failed = failures(c)
    for k in list(c.recs):
        r = c.recs[k]
        if r.got == REFUSED or hasattr(r, "bad") or k in failed:
            r.exempt = True
    rest = {k: r for k, r in c.recs.items() if not hasattr(r, "exempt")}
    whole, c.recs = c.recs, rest
    c.judge_outcomes()
    c.recs = whole
    return failed, rest

def steady(c):
    failed, rest = outcomes(c)
    for k, r in c.recs.items():
        if k in rest or (k in failed and not hasattr(r, "bad")):
            c.cadence(k, r, failed.get(k, float("inf")))
    bad(c, None)

def bad(c, release):
    """release: when queued requests are sent at the latest, if it is known"""
    p = c.w.problem
    for k, r in c.recs.items():
        if not hasattr(r, "bad") or r.got is None:
            continue
        if r.got == REFUSED and c.w.refused:
            continue                # see failures()
        if r.got not in r.bad:
            p("bad-outcome", f"request {k}, which cannot be sent, ended with"
                f" {r.got} at {r.wait1}, not with one of {r.bad}")
            continue
        by = r.t0 if release is None else max(r.t0, release)
        if r.wait1 > max(r.wait0, by) + EPS:
            p("bad-late", f"request {k}, which cannot be sent, ended with"
                f" {r.got} at {r.wait1}, not at {max(r.wait0, by)}")

def discovering(c):
    """Nobody else is forgotten, or waits longer than losses explain."""
    failed, rest = outcomes(c)
    p = c.w.problem
    faults = sum(1 for k, n, x in c.w.trace if k == "fate" and x)
    faults += getattr(c.w, "outages", 0)
    for k, r in rest.items():
        if r.got is None or r.dropped is not None:
            continue
        if not c.serviced(r.t0, r.wait1):
            continue
        latest = r.t0 + (faults + 1) * r.period + 1.0 * faults + 0.5
        if latest < r.t0 + r.timeout - EPS and r.wait1 > max(
                latest, r.wait0) + EPS:
            p("forgotten", f"request {k}, issued at {r.t0}, ended with {r.got}"
                f" at {r.wait1} after {faults} faults; sent at {r.sends};"
                f" refused {brief(c)}")
    replies = [t for t, fd, data, src in c.w.net.delivered
        if data in c.agents[0].tags]
    bad(c, min(replies, default=float("inf")))

class Outages:
    """One of several plans for what happens to which of the datagrams"""
    def __init__(self, plans):
        self.plans = plans

    def __call__(self, w):
        if not hasattr(w, "outage"):
            w.outage = self.plans[w.choose("outage", len(self.plans))]
            w.sentcount = w.outages = 0
        n = w.sentcount
        w.sentcount += 1
        fate = w.outage(n)
        if fate != "ok":
            w.outages += 1
        return fate

def between(first, last, fate, step=1):
    return lambda n: fate if first <= n < last and not (n - first) % step \
        else "ok"

def crowds(ck, out):
    """Many requests at once, many of which fail."""
    deep = not ck.quick
    L = dict(timeout=200.0)
    def scenario(name, execute):
        out.append(explore.Scenario(name, execute, {"sched": 0, "tie": 0,
            "hash": 0}))
    def outages(n):
        ends = sorted({0, 1, 2, 3, n // 2, n - 1, n})
        plans = [lambda n: "ok"]
        plans += [between(i, j, f) for f in ("fail", "lost")
            for i in (ends if deep or n < 20 else ends[:4])
            for j in sorted({i + 1, i + 4, i + 5, n, n + 3}) if i < j <= n + 3]
        plans += [between(0, 2 * n, "fail", 2), between(1, 2 * n, "fail", 2),
            between(0, 2 * n, "fail", 3), between(0, n, "lost", 2)]
        return Outages(plans)
    def run(name, n, script, users=(("plain", 0), ("signer", 1), ("hider", 3)),
            synced=True, community=True):
        for user, level in users:
            for known in (False, True):
                scenario(f"crowd {name} {user}/{level} known={known}",
                    client.v3(script, user, level, outages(n), OPTIONS,
                        (discovering,), known=known, users=(user, "plain")))
            if synced:
                scenario(f"crowd {name} {user}/{level} synced",
                    client.v3(script, user, level, outages(n), OPTIONS,
                        (steady,), warmup=True, users=(user, "plain")))
        for v in (0, 1) if community else ():
            scenario(f"crowd {name} v{v + 1}",
                client.community(v, script, outages(n), OPTIONS,
                    judge=(steady,)))
    for n in (6, 12, 30) + (100,) * deep:
        ks = range(1, n + 1)
        for order in (ks, reversed(ks)):
            order = list(order)
            run(f"{n} {order[0]}", n, [("send", k, L) for k in ks]
                + [("wait", k) for k in order], **({} if deep or n < 20
                else dict(users=(("signer", 1),))))
        one = (("signer", 1),) if not deep or n > 50 else (("plain", 0),
            ("signer", 1), ("hider", 3))
        for what in ("user", "level", "big"):
            for picked in (lambda k: k % 2, lambda k: not k % 2,
                    lambda k: k % 3, lambda k: k > 1, lambda k: k < n,
                    lambda k: 1 < k < n, lambda k: 4 < k):
                script = [("bad", k, L, what) if picked(k) else ("send", k, L)
                    for k in ks]
                for T in (0.5, 1.5) if deep else (0.5,) if n < 20 else ():
                    # the first request expires before anything is known
                    late = [("send", 1, dict(timeout=T))] + script[1:]
                    run(f"{n} short {T} bad {what}"
                        f" {[k for k in ks if picked(k)]}", 3, late + [("wait",
                        k) for k in (*ks[1:], 1)], one, False, False)
                run(f"{n} bad {what} {[k for k in ks if picked(k)]}", 3,
                    script + [("wait", k) for k in ks], one, n < 20,
                    what == "big" and n < 20)

def scenarios(ck):
    out = []
    crowds(ck, out)
    deep = not ck.quick
    more = 1 if deep else 0
    def community(name, script, budget, fates=FATES):
        for v in (0, 1):
            out.append(explore.Scenario(f"v{v + 1}:{name}",
                client.community(v, script, fates, OPTIONS, judge=(steady,)),
                {"fate": budget}))
    def synced(name, script, budget, fates=FATES):
        for user, level in (("plain", 0), ("signer", 1), ("hider", 3)):
            b = budget if deep or level == 1 else min(budget, 1)
            out.append(explore.Scenario(f"{user}/{level} synced {name}",
                client.v3(script, user, level, fates, OPTIONS, (steady,),
                    warmup=True, users=(user, "plain")), {"fate": b}))
    def fresh(name, script, budget, fates=FATES):
        for (user, level), known in itertools.product(
                (("plain", 0), ("signer", 1), ("hider", 3)), (False, True)):
            b = budget
            if not deep and (user, known) not in (("plain", False),
                    ("signer", True), ("hider", False)):
                b = min(b, 1)
            out.append(explore.Scenario(f"{user}/{level} known={known} {name}",
                client.v3(script, user, level, fates, OPTIONS, (discovering,),
                    known=known, users=(user, "plain")), {"fate": b}))
    def all(name, script, budget, fates=FATES):
        community(name, script, budget + more, fates)
        synced(name, script, budget + more, fates)
        fresh(name, script, budget + more, fates)
    def silent(name, script, budget):
        community(name + " silent", script, budget + more, SILENT)
        synced(name + " silent", script, budget + more, SILENT)
    a = dict(timeout=4.0)
    b = dict(timeout=3.25, refreshPeriod=0.75)
    c = dict(timeout=6.0, refreshPeriod=2.5)
    s = dict(timeout=1.5)
    for x in (a, b, c):
        all(f"one {x}", [("send", 1, x), ("wait", 1)], 3)
        all(f"sync {x}", [("sync", 1, x), ("sync", 2, x)], 3)
        all(f"sync then two {x}", [("sync", 1, x), ("send", 2, x),
            ("send", 3, x), ("wait", 2), ("wait", 3)], 2)
    for (x, y), order in itertools.product(((a, a), (a, b), (b, a), (a, c),
            (c, a), (s, a), (a, s)), itertools.permutations((1, 2))):
        all(f"two {x}{y} {order}", [("send", 1, x), ("send", 2, y)]
            + [("wait", k) for k in order], 2)
        silent(f"two {x}{y} {order}", [("send", 1, x), ("send", 2, y)]
            + [("wait", k) for k in order], 2)
        if (x, y) != (a, a) and not deep:
            continue
        all(f"two {x}{y} {order} and another", [("send", 1, x), ("sleep", 0.5),
            ("send", 2, y)] + [("wait", k) for k in order]
            + [("send", 3, a), ("wait", 3)], 2)
    for order in itertools.permutations((1, 2, 3)):
        for xs in ((a, a, a), (a, b, c), (c, b, a)):
            silent(f"three {xs} {order}", [("send", k, x)
                for k, x in zip((1, 2, 3), xs)]
                + [("wait", k) for k in order], 2 if deep else 1)
            if xs[0] is c and not deep:
                continue
            all(f"three {xs} {order}", [("send", k, x)
                for k, x in zip((1, 2, 3), xs)]
                + [("wait", k) for k in order], 2)
    L = dict(timeout=16.0)
    for order in ((1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3))[:3 if deep else 1]:
        all(f"four {order}", [("send", k, L) for k in (1, 2, 3, 4)]
            + [("wait", k) for k in order], 2)
    for T, order in itertools.product((0.5, 1.5),
            itertools.permutations((1, 2, 3))):
        if not deep and T > 1 and order[0] == 1:
            continue
        fresh(f"short prober {T} {order}", [("send", 1, dict(timeout=T)),
            ("send", 2, L), ("send", 3, L)] + [("wait", k) for k in order],
            (2 if T < 1 else 3) + more)
        fresh(f"dropped prober {T} {order}", [("send", 1, L), ("send", 2, L),
            ("send", 3, L), ("send", 4, L), ("sleep", T), ("drop", 1)]
            + [("wait", k + 1) for k in order], 2 + more)
    # requests that can never be sent, queued or not
    for what in ("user", "level", "big"):
        for pos in (1, 2, 3):
            for order in itertools.permutations((1, 2, 3)):
                if not deep and order[0] == 1 and what != "user":
                    continue
                script = [("bad", k, L, what) if k == pos else ("send", k, L)
                    for k in (1, 2, 3)] + [("wait", k) for k in order]
                name = f"bad {what} {pos} {order}"
                fresh(name, script, 1 + more)
                synced(name, script, 1)
                if what == "big":
                    community(name, script, 1)
        fresh(f"bad {what} everywhere", [("bad", 1, L, what),
            ("bad", 2, L, what), ("send", 3, L), ("bad", 4, L, what),
            ("wait", 3), ("wait", 4), ("wait", 2), ("wait", 1)], 1 + more)
        fresh(f"bad {what} only", [("bad", 1, L, what),
            ("bad", 2, L, what), ("wait", 2), ("wait", 1), ("sync", 3, L)],
            1 + more)
        fresh(f"bad {what} after a short prober", [("send", 1,
            dict(timeout=0.5)), ("bad", 2, L, what), ("send", 3, L),
            ("wait", 3), ("wait", 2)], 1 + more)
    all("dropped", [("send", 1, a), ("send", 2, a), ("drop", 1), ("wait", 2),
        ("sync", 3, a)], 2)
    all("slow", [("send", 1, L), ("send", 2, L), ("wait", 2), ("wait", 1)], 2,
        SLOW)
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "one application thread; the system refuses single transmissions"
        " (OSError from sendto), in any combination up to the budget",
        "a response may still arrive for an earlier transmission of a refused"
        " request; its wait() may then return either",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
