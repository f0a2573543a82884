"""M05: requests issued during discovery are held, then all sent, in order."""
import itertools
import agent as ag
import client
import env
import explore

LEVEL = "model_checking"
FATES = ("ok", "lost", "slow", "dup", "late")
OPTIONS = dict(slow=(1.25,), dup=(0.125, 0.1875), late=(2.5,))
EPS = client.EPS

def judge(prober_lives, held):
    """held: does this manager hold requests back until it is synchronized?"""
    def j(c):
        p = c.w.problem
        faults = sum(1 for k, n, x in c.w.trace if k == "fate" and x)
        recs = [r for r in c.recs.values() if r.k < 500]
        issued = sorted(recs, key=lambda r: (r.t0, r.seq))
        a = c.agents[0]
        end = c.sync_time(a)
        for r in issued:
            if r.dropped is not None:
                continue
            if r.timeout >= 12.0:
                if r.got != env.expected(r.k):
                    p("lost-request", f"request {r.k} ended with {r.got} after"
                        f" {faults} faults; sent at {r.sends}")
            elif r.got == ("Timeout",):
                if abs(r.wait1 - max(r.wait0, r.t0 + r.timeout)) > EPS:
                    p("queued-deadline", f"request {r.k} timed out at"
                        f" {r.wait1}, its deadline was {r.t0 + r.timeout}")
            elif r.got != env.expected(r.k):
                p("wrong-outcome", f"request {r.k} ended with {r.got}")
            for t in r.sends:
                if t > r.t0 + r.timeout - EPS:
                    p("sent-expired", f"request {r.k} was sent at {t}, its"
                        f" deadline was {r.t0 + r.timeout}")
        if not prober_lives or end is None:
            return
        for i, r in enumerate(issued):
            if r.dropped is not None and r.dropped <= end:
                if r.sends and held:
                    p("sent-dropped", f"request {r.k} was dropped at"
                        f" {r.dropped} and sent at {r.sends}")
                continue
            if r.t0 + r.timeout <= end + EPS:
                continue
            probes = held and (i == 0 or r.t0 < end - EPS)
            first = max(end, r.t0) if probes else r.t0
            if held and i == 0 and c.known:
                first = r.t0        # the request itself is the probe
            if held and i and r.t0 > end - EPS:
                continue            # may have to probe by itself
            if not r.sends or abs(r.sends[0] - first) > EPS:
                p("not-sent-at-once", f"request {r.k}, issued at {r.t0}, was"
                    f" first sent at {r.sends[:1]}, synchronized at {end}")
        order = []
        for t, req in a.received:
            vbs = req["pdu"][4] if "pdu" in req else ()
            k = vbs[0][0][-2] if vbs else None
            if k is not None and k < 500 and k not in order:
                order.append(k)
        waited = [r.k for r in issued if r.t0 < end - EPS]
        order = [k for k in order if k in waited]
        want = [k for k in waited if k in order]
        if held and order != want:
            p("order", f"issued {want}, first sent in the order {order}")
        # nobody is sent twice at the moment of release
        for r in issued:
            if sum(1 for t in r.sends if abs(t - end) < EPS) > 1 and not (
                    c.known and r is issued[0]):
                p("sent-twice", f"request {r.k} sent twice at {end}")
    return j

class Held(client.Client):
    pass

def sync_time(self, a):
    """When the first discovery/synchronization reply was delivered."""
    for t, fd, data, src in self.w.net.delivered:
        if data in a.tags:
            return t
    return None

def op_sendlevel(self, m, k, kw, level):
    self.op_send(m, k, dict(kw, securityLevel=client.level_of(level)))

client.Client.sync_time = sync_time
client.Client.op_sendlevel = op_sendlevel

MAIN = (("plain", False), ("signer", True), ("hider", False))

def scenarios(ck):
    out = []
    deep = not ck.quick
    ties = 2 if deep else 1
    L = dict(timeout=16.0)
    def add(name, script, user, level, budget, lives=True, known=False, **kw):
        held = not known or level > 0
        if not deep and (user, known) not in MAIN:
            budget = min(budget, 1)
        j = judge(lives, held)
        def judged(c):
            c.known = known
            j(c)
        out.append(explore.Scenario(f"{user}/{level} known={known} {name}",
            client.v3(script, user, level, FATES, OPTIONS, (judged,),
                known=known, **kw), {"fate": budget, "sched": ties, "tie": ties,
                "*": budget + (1 if deep else 0)}))
    for (user, level), known in itertools.product(
            (("plain", 0), ("signer", 1), ("hider", 3)), (False, True)):
        more = 1 if deep else 0
        for n in (2, 3, 4):
            ks = range(1, n + 1)
            send = [("send", k, L) for k in ks]
            orders = list(itertools.permutations(ks)) if n < 4 else [
                (1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)]
            for order in orders:
                add(f"{n} waits {order}", send + [("wait", k) for k in order],
                    user, level, (2 if n < 3 else 1) + more, known=known)
        for hints in (True, False):
            add(f"hints={hints}", [("send", 1, L), ("send", 2, L), ("wait", 2),
                ("wait", 1)], user, level, 2 + more, known=known,
                agent_kw=dict(hints=hints))
        for n in (6, 12) if not deep else (5, 6, 8, 12, 20):
            for name, script in client.crowd(n, True):
                add(name, script, user, level, more, known=known)
            drops = [("drop", k) for k in range(2, n, 3)]
            name, script = client.crowd(n, True)[0]
            add(name + ", some dropped", script[:n] + drops + script[n:], user,
                level, 1 + more, known=known)
        # issued while the discovery is under way
        for gap in (0.0625, 0.125, 0.25, 1.0, 1.5):
            add(f"gap {gap}", [("send", 1, L), ("sleep", gap), ("send", 2, L),
                ("send", 3, L), ("wait", 1), ("wait", 2), ("wait", 3)], user,
                level, 1 + more, known=known)
        # short-lived ones in the queue, or doing the discovery
        for t in (0.5, 1.0, 1.125, 1.5, 2.0):
            S = dict(timeout=t)
            add(f"short queued {t}", [("send", 1, L), ("send", 2, S),
                ("send", 3, L), ("wait", 2), ("wait", 1), ("wait", 3)], user,
                level, 2 + more, known=known)
            add(f"short queued last {t}", [("send", 1, L), ("send", 2, L),
                ("send", 3, S), ("wait", 3), ("wait", 1), ("wait", 2)], user,
                level, 2 + more, known=known)
            add(f"short prober {t}", [("send", 1, S), ("send", 2, L),
                ("send", 3, L), ("wait", 1), ("wait", 2), ("wait", 3)], user,
                level, 2 + more, lives=False, known=known)
            add(f"short prober, other waits {t}", [("send", 1, S),
                ("send", 2, L), ("send", 3, L), ("wait", 3), ("wait", 2),
                ("wait", 1)], user, level, 3, lives=False, known=known)
            add(f"all short {t}", [("send", 1, S), ("send", 2, S),
                ("wait", 2), ("wait", 1), ("send", 3, L), ("wait", 3)], user,
                level, 2 + more, lives=False, known=known)
        add("prober dropped", [("send", 1, L), ("send", 2, L), ("send", 3, L),
            ("drop", 1), ("wait", 2), ("wait", 3)], user, level, 2 + more,
            lives=False, known=known)
        add("prober dropped later", [("send", 1, L), ("send", 2, L),
            ("sleep", 0.5), ("drop", 1), ("wait", 2)], user, level, 2 + more,
            lives=False, known=known)
        add("queued dropped", [("send", 1, L), ("send", 2, L), ("send", 3, L),
            ("drop", 2), ("wait", 1), ("wait", 3)], user, level, 2 + more,
            known=known)
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "one application thread that waits for its requests in any order;"
        " concurrent callers are the subject of M06",
        "network fates: " + ", ".join(FATES) + "; a bounded number per run",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
