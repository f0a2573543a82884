"""Scripts of client operations on one manager, and what must come of them.

A script is a list of operations of one application thread:
    ("send", k, {timeout, refreshPeriod, ...})   request number k (asks oid(k))
    ("wait", k)      ("sleep", seconds)      ("drop", k)      ("sync", k, {...})
The recorder keeps when each was sent, when answers arrived and what the
operations produced; the judges compare that with the specification.
"""
import agent as ag
import env
import refber as rb
import sched
import vnet

EPS = 1e-6

class Rec:
    def __init__(self, k, timeout, period):
        self.k = k
        self.timeout = timeout
        self.period = period
        self.t0 = None
        self.sends = []         # times a datagram asking oid(k) was sent
        self.arrivals = []      # times a valid answer was delivered
        self.wait0 = None
        self.wait1 = None
        self.got = None
        self.dropped = None

class Client:
    def __init__(self, w):
        self.w = w
        self.recs = {}
        self.service = []       # [start, end] of waits: manager is serviced
        self.handles = {}

    def t(self):
        return self.w.now - sched.START

    def run(self, manager, script):
        for op in script:
            getattr(self, "op_" + op[0])(manager, *op[1:])

    def rec(self, k, kw):
        r = self.recs[k] = Rec(k, kw.get("timeout", 10.0),
            kw.get("refreshPeriod", 1.0))
        r.t0 = self.t()
        r.seq = len(self.recs)
        return r

    def op_send(self, m, k, kw, verb="get"):
        r = self.rec(k, kw)
        self.w.note("send", k, kw)
        try:
            if verb == "set":
                self.handles[k] = m.set((env.name(k), env.snmp.smi.Integer32(5)),
                    wait=False, **kw)
            else:
                self.handles[k] = getattr(m, verb)(env.name(k), wait=False, **kw)
        except Exception as e:
            r.got = env.classify(e)
            r.wait0 = r.wait1 = self.t()
            self.w.note("send-failed", k, r.got)

    def op_wait(self, m, k):
        r = self.recs[k]
        if k not in self.handles:
            return
        r.wait0 = self.t()
        self.service.append([r.wait0, None])
        self.w.note("wait", k)
        r.got = env.attempt(self.handles[k].wait)
        r.wait1 = self.t()
        self.service[-1][1] = r.wait1
        del self.handles[k]
        self.w.note("outcome", k, r.got)

    def op_sync(self, m, k, kw):
        """send and wait in one call"""
        r = self.rec(k, kw)
        r.wait0 = r.t0
        self.service.append([r.wait0, None])
        r.got = env.attempt(m.get, env.name(k), wait=True, **kw)
        r.wait1 = self.t()
        self.service[-1][1] = r.wait1
        self.w.note("outcome", k, r.got)

    def op_sleep(self, m, s):
        self.w.block(lambda: False, self.w.now + s, "sleep")

    def op_drop(self, m, k):
        if k in self.handles:
            self.recs[k].dropped = self.t()
        self.w.note("drop", k)
        self.handles.pop(k, None)

    # ------------------------------------------------------------- gathering
    def gather_community(self, net):
        for t, src, dst, data in net.sent:
            _, _, pdu = rb.dec_community_msg(data)
            k = pdu[4][0][0][-2]
            if k in self.recs:
                self.recs[k].sends.append(t)
        for t, fd, data, src in net.delivered:
            try:
                _, _, pdu = rb.dec_community_msg(data)
                k = pdu[4][0][0][-2]
            except (rb.RefError, IndexError):
                continue
            if k in self.recs and pdu[0] == rb.RESPONSE:
                self.recs[k].arrivals.append(t)

    def gather_v3(self, net, agents):
        tags = {}
        for a in agents:
            tags.update(a.tags)
            for t, req in a.received:
                vbs = req["pdu"][4] if "pdu" in req else ()
                k = vbs[0][0][-2] if vbs and len(vbs[0][0]) > 1 else None
                if k in self.recs and not k is None:
                    self.recs[k].sends.append(t)
        for t, fd, data, src in net.delivered:
            tag = tags.get(data)
            if tag and tag[0] == "response" and tag[1] in self.recs:
                self.recs[tag[1]].arrivals.append(t)

    # --------------------------------------------------------------- judging
    def serviced(self, a, b):
        """Is [a, b] entirely within contiguous waits?"""
        for s, e in sorted(self.service):
            e = float("inf") if e is None else e
            if s <= a + EPS and a <= e + EPS:
                a = max(a, e)
                if a >= b - EPS:
                    return True
        return a >= b - EPS and any(True for _ in self.service)

    def judge_outcomes(self, expect=None):
        """M01: the answer that arrived, and otherwise Timeout on time."""
        p = self.w.problem
        for k, r in self.recs.items():
            if r.got is None or r.wait0 is None:
                continue
            if r.got[0] == "OSError":
                continue
            want = expect(k) if expect else env.expected(k)
            deadline = r.t0 + r.timeout
            valid = [a for a in r.arrivals if a <= r.wait1 + EPS]
            first = min(valid) if valid else None
            answered = r.got == want
            if r.got == ("Timeout",):
                if first is not None and first < deadline - EPS:
                    p("lost-response", f"request {k}: Timeout although its"
                        f" response arrived at {first} (deadline {deadline})")
                end = max(r.wait0, deadline)
                if abs(r.wait1 - end) > EPS:
                    p("timeout-time", f"request {k}: Timeout at {r.wait1},"
                        f" not at its deadline {end}")
            elif answered:
                if first is None:
                    p("phantom", f"request {k} got {r.got} from nowhere")
                else:
                    end = max(r.wait0, first)
                    if abs(r.wait1 - end) > EPS:
                        p("late-return", f"request {k}: response arrived at"
                            f" {first}, wait() began at {r.wait0} and returned"
                            f" at {r.wait1}")
                    if first > deadline + EPS and r.wait0 < first - EPS:
                        p("after-deadline", f"request {k} was still waited for"
                            f" at {first}, after its deadline {deadline}")
            else:
                p("wrong-outcome", f"request {k}: {r.got}, expected {want}"
                    f" or Timeout")

    def judge_cadence(self):
        """M02: on schedule while serviced; never once answered or expired."""
        for k, r in self.recs.items():
            if r.got is not None and r.got[0] not in ("ok", "error", "Timeout"):
                continue
            self.cadence(k, r)

    def cadence(self, k, r, ended=float("inf")):
        """ended: when something else than its answer ended the request"""
        p = self.w.problem
        deadline = r.t0 + r.timeout
        first = min([*r.arrivals, ended])
        stop = min(deadline, first, self.t() if r.dropped is None else r.dropped)
        sends = list(r.sends)
        if not sends or abs(sends[0] - r.t0) > EPS:
            p("first-send", f"request {k} issued at {r.t0} was first sent at"
                f" {sends[:1]}")
            return
        for t in sends[1:]:
            if t > deadline - EPS:
                p("send-after-deadline", f"request {k} was sent at {t}, its"
                    f" deadline was {deadline}")
            if t > first + EPS:
                p("send-after-answer", f"request {k} was sent at {t}, answered"
                    f" at {first}")
            if r.dropped is not None and t > r.dropped + EPS:
                p("send-after-drop", f"request {k} was sent at {t}, dropped at"
                    f" {r.dropped}")
        # the schedule: one transmission per missed or met grid point
        services = [(s, float("inf") if e is None else e)
            for s, e in self.service]
        i = 1
        tick = r.t0 + r.period
        want = []
        while True:
            due = None
            for s, e in services:
                if e >= tick - EPS:
                    due = max(s, tick)
                    if due <= e + EPS:
                        break
                    due = None
            if due is None or due >= stop - EPS:
                break
            want.append(due)
            n = int((due - r.t0 + EPS) / r.period) + 1
            tick = r.t0 + n * r.period
        got = [t for t in sends[1:] if t < stop - EPS]
        if len(got) != len(want) or any(
                abs(a - b) > EPS for a, b in zip(got, want)):
            p("cadence", f"request {k} (sent {r.t0}, period {r.period},"
                f" deadline {deadline}, answered {first}) was resent at {got},"
                f" not {want}; serviced {services}")

    def outcome(self):
        return tuple((k, r.got, len(r.sends), len(r.arrivals),
            None if r.wait1 is None else round(r.wait1 - r.t0, 4))
            for k, r in sorted(self.recs.items()))

def community(version, script, fates, options=None, extra=None, judge=(),
        agent_cls=ag.CommunityAgent, budget=None):
    """-> execute(prefix) for one v1/v2c manager running a script."""
    snmp = env.snmp
    proto = (snmp.SNMPv1, snmp.SNMPv2c)[version]

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        c = Client(w)
        def main():
            net = vnet.net()
            agent = agent_cls(w, version, fates=fates, options=options)
            net.agents[agent.addr] = agent
            with snmp.Engine(defaultVersion=proto,
                    defaultCommunity=b"public") as e:
                m = e.Manager("10.0.0.1", autowait=False)
                if extra:
                    extra(w, e, m, agent)
                c.run(m, script)
                c.handles.clear()
        w.run(main)
        finish(w, c)
        if not w.problems:
            c.gather_community(w.net)
            for j in judge:
                j(c)
        w.outcome = c.outcome()
        return w
    return execute

def finish(w, c):
    if w.leftover:
        w.problem("leftover-thread", "after shutdown: "
            + ", ".join(f"{t.name} in {t.label}" for t in w.leftover))

def v3(script, user="hider", level=None, fates=("ok",), options=None, judge=(),
        agent=None, agent_kw=None, known=False, setup=None, users=None,
        manager_kw=None, warmup=False):
    """-> execute(prefix) for one SNMPv3 manager running a script.

    known: pass the engine ID (or this other one); warmup: one answered request first, so that the
    manager is synchronized before the script (and its clock) begins."""
    snmp = env.snmp
    cls = agent or ag.V3Agent
    users = users or (user,)

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        c = Client(w)
        agents = []
        def main():
            net = vnet.net()
            a = cls(w, users=[env.USERS[u] for u in users],
                fates=("ok",) if warmup else fates, options=options,
                **(agent_kw or {}))
            agents.append(a)
            net.agents[a.addr] = a
            with snmp.Engine() as e:
                for u in users:
                    env.add_user(e, u)
                kw = dict(manager_kw or {})
                if known:
                    kw["engineID"] = a.engine if known is True else known
                if level is not None:
                    kw["defaultSecurityLevel"] = level_of(level)
                m = e.Manager("10.0.0.1", autowait=False, **kw)
                if warmup:
                    got = env.attempt(m.get, env.name(500), wait=True)
                    if got != env.expected(500):
                        w.problem("warmup", f"a plain request ended with {got}")
                    a.received.clear()
                    a.served.clear()
                    a.fates = fates
                    net.delivered.clear()
                if setup:
                    setup(w, e, m, a)
                c.run(m, script)
                c.handles.clear()
                del m
        w.run(main)
        finish(w, c)
        c.agents = agents
        if not w.problems:
            c.gather_v3(w.net, agents)
            for j in judge:
                j(c)
        w.outcome = c.outcome()
        return w
    return execute

def level_of(n):
    return (env.snmp.noAuthNoPriv, env.snmp.authNoPriv, None,
        env.snmp.authPriv)[n]

def crowd(n, long=False):
    """-> [(how it is called, script)]: n requests at once with all kinds of
    timeouts and periods, waited for in several orders"""
    kinds = [dict(timeout=3.0), dict(timeout=2.25, refreshPeriod=0.75),
        dict(timeout=4.0, refreshPeriod=1.5), dict(timeout=1.5),
        dict(timeout=5.0, refreshPeriod=0.5), dict(timeout=3.75,
        refreshPeriod=1.25), dict(timeout=2.0, refreshPeriod=4.0)]
    ks = list(range(1, n + 1))
    out = []
    for shift in (0, 3):
        for back in (False, True):
            send = []
            for i, k in enumerate(ks):
                kw = kinds[(shift + (-i if back else i)) % len(kinds)]
                if long:
                    kw = dict(kw, timeout=16.0)
                send.append(("send", k, kw))
                if i % 3 == 2 and shift:
                    send.append(("sleep", 0.125))
            for name, order in (("first to last", ks), ("last to first",
                    ks[::-1]), ("inside out", ks[n // 2:] + ks[:n // 2][::-1])):
                if shift and name == "last to first":
                    continue
                out.append((f"crowd of {n}, {name}, {shift}{back}",
                    send + [("wait", k) for k in order]))
    return out
