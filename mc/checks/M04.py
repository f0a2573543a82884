"""M04: unauthenticated reports never end a request; authenticated ones do."""
import itertools
import agent as ag
import client
import env
import explore
import refber as rb

LEVEL = "model_checking"
EPS = client.EPS
NAMES = {
    "unsupportedSecLevel": "UnsupportedSecurityLevelReport",
    "unknownUserName": "UnknownUserNameReport",
    "wrongDigest": "WrongDigestReport",
    "decryptionError": "DecryptionErrorReport",
    "mystery": "UnrecognizedReport",
}
NEUTRAL = ("notInTimeWindow", "unknownEngineID")

class Liar(ag.V3Agent):
    """Adds reports of every kind, with and without valid authentication."""
    def __init__(self, w, **kw):
        super().__init__(w, **kw)
        self.told = []          # (raw, msgid's request k, kind, genuine)

    def tell(self, req, kind, flags, **over):
        oid = (ag.USM_STATS + (ag.STATS[kind], 0) if kind in ag.STATS
            else ag.BASE + (77, 0))
        vbs = req["pdu"][4] if "pdu" in req else ()
        k = vbs[0][0][-2] if vbs else None
        if k is None:               # encrypted for some other engine
            return self.process(req)[0], None
        pdu = rb.enc_pdu(rb.REPORT, req["pdu"][1], 0, 0, [(oid, ("c32", 9))])
        raw = self.message(req, pdu, flags, **over)
        return raw, k

    def fate_forged(self, req, kind):
        """an unauthenticated report first, the real answer after it"""
        raw, k = self.tell(req, kind, 0)
        self.told.append((raw, k, kind, False))
        return [(0.125, raw)] + [(0.25, r) for r in self.process(req)]

    def fate_after(self, req, kind):
        """the real answer, then an unauthenticated report"""
        raw, k = self.tell(req, kind, 0)
        self.told.append((raw, k, kind, False))
        return [(0.25, raw)] + [(0.125, r) for r in self.process(req)]

    def fate_many(self, req, kind):
        """a dozen unauthenticated reports, and then the answer"""
        kinds = [kind] if kind != "mixed" else list(NAMES)
        out = []
        for i in range(12):
            raw, k = self.tell(req, kinds[i % len(kinds)], 0)
            self.told.append((raw, k, kinds[i % len(kinds)], False))
            out.append((0.125 + i / 16, raw))
        return out + [(1.0, r) for r in self.process(req)]

    def fate_flood(self, req, kind):
        """forty of them, and no answer"""
        kinds = [kind] if kind != "mixed" else list(NAMES)
        out = []
        for i in range(40):
            raw, k = self.tell(req, kinds[i % len(kinds)], 0)
            self.told.append((raw, k, kinds[i % len(kinds)], False))
            out.append((0.125 + i / 64, raw))
        return out

    def fate_only(self, req, kind):
        raw, k = self.tell(req, kind, 0)
        self.told.append((raw, k, kind, False))
        return [(0.125, raw)]

    def fate_bogus(self, req):
        """an unauthenticated report that names another engine"""
        raw, k = self.tell(req, "unknownEngineID", 0, engine=b"\x80\0bogus")
        self.told.append((raw, k, "unknownEngineID", False))
        return [(0.125, raw)] + [(0.25, r) for r in self.process(req)]

    def fate_auth(self, req, kind):
        """an authenticated report, the answer after it"""
        raw, k = self.tell(req, kind, req["flags"] & 3)
        self.told.append((raw, k, kind, bool(req["flags"] & 1)))
        return [(0.125, raw)] + [(0.25, r) for r in self.process(req)]

    def fate_authafter(self, req, kind):
        raw, k = self.tell(req, kind, 1)
        self.told.append((raw, k, kind, True))
        return [(0.25, raw)] + [(0.125, r) for r in self.process(req)]

    def fate_badsig(self, req, kind):
        """a report that claims authentication, with one MAC bit wrong"""
        raw, k = self.tell(req, kind, req["flags"] & 3)
        m = rb.dec_v3(raw)
        i = m["authoff"] + 3
        raw = raw[:i] + bytes([raw[i] ^ 0x10]) + raw[i + 1:]
        return [(0.125, raw)] + [(0.25, r) for r in self.process(req)]

    def fate_unsigned(self, req, kind):
        """claims authentication, but carries an empty MAC"""
        raw, k = self.tell(req, kind, 0)
        m = rb.dec_v3(raw)
        raw = rb.enc_v3(rb.enc_header(m["msgid"], m["maxsize"], 1, 3),
            rb.enc_usm(m["engine"], m["boots"], m["time"], m["user"], b"", b""),
            m["payload"])
        return [(0.125, raw)]

def judge(c):
    p = c.w.problem
    a = c.agents[0]
    told = {}
    for raw, k, kind, genuine in a.told:
        told.setdefault(raw, (k, kind, genuine))
    for k, r in c.recs.items():
        if r.got is None:
            continue
        deadline = r.t0 + r.timeout
        events = []             # (time, what)
        neutral = False
        for t, fd, data, src in c.w.net.delivered:
            if data in told and told[data][0] == k:
                _, kind, genuine = told[data]
                if kind in NAMES:
                    events.append((t, NAMES[kind], genuine))
                else:
                    neutral = True
        first = min(r.arrivals, default=None)
        ending = sorted(t for t, n, g in events if g)
        ends = [t for t in ([first] if first is not None else []) + ending
            if t < deadline + EPS]
        at = min(ends, default=deadline)
        hints = {n for t, n, g in events if t <= at + EPS}
        ok = env.expected(k)
        if first is not None and first <= at + EPS and first < deadline + EPS:
            allowed = {ok}
            if ending and abs(ending[0] - first) < EPS:
                allowed |= {(n,) for t, n, g in events if g}
            if abs(first - deadline) < EPS:
                allowed |= {(n,) for n in hints} or {("Timeout",)}
        elif ends:
            allowed = {(n,) for t, n, g in events if g and t <= at + EPS}
            # an earlier unauthenticated report may name the problem
        else:
            allowed = {(n,) for n in hints} or {("Timeout",)}
        if r.got not in allowed:
            what = "ended by an unauthenticated report" if (
                r.got[0] in NAMES.values() and r.wait1 < deadline - EPS
                and not ending) else "wrong outcome"
            p("outcome:" + r.got[0], f"{what}: request {k} got {r.got} at"
                f" {r.wait1}; reports {events}, answers {r.arrivals}, deadline"
                f" {deadline}; expected one of {sorted(allowed, key=repr)}")
        elif abs(r.wait1 - max(r.wait0, at)) > EPS:
            p("time", f"request {k} got {r.got} at {r.wait1}, not at {at};"
                f" reports {events}, answers {r.arrivals}")
        # neither does a report that is not authenticated keep the request from
        # being sent again, nor is it sent again after an authenticated one
        if not neutral:
            c.cadence(k, r, min(ending, default=float("inf")))
    # reports cannot make the manager flood the network
    n = len(a.received)
    most = sum(int(r.timeout / r.period) + 2 for r in c.recs.values())
    reports = sum(1 for d in c.w.net.delivered)
    if n > most + reports + 4:
        p("storm", f"{n} requests sent for {reports} replies in all")

def scenarios(ck):
    out = []
    deep = not ck.quick
    kinds = tuple(NAMES)
    for user, level in (("plain", 0), ("signer", 1), ("signer", 0),
            ("hider", 3)):
        fates = ["ok", "lost", "bogus"]
        for k in kinds + NEUTRAL:
            fates.append("forged:" + k)
            fates.append("only:" + k)
            if level:
                fates.append("badsig:" + k)
        for k in kinds:
            fates.append("after:" + k)
            if level:
                fates += ["auth:" + k, "authafter:" + k]
            fates.append("unsigned:" + k)
        for T in (0.5, 2.5, 3.0):
            kw = dict(timeout=T)
            s = [("send", 1, kw), ("wait", 1)]
            out.append(explore.Scenario(f"{user}/{level} T={T}",
                client.v3(s, user, level, tuple(fates), {}, (judge,),
                    agent=Liar, warmup=True),
                {"fate": 3 if deep and T > 2.5 else 2, "tie": 1, "sched": 1}))
        floods = ["ok", "lost"]
        for k in kinds + ("mixed",) + NEUTRAL:
            floods += ["many:" + k, "flood:" + k]
        for T in (0.5, 3.0):
            for s in ([("send", 1, dict(timeout=T)), ("wait", 1)],
                    [("send", 1, dict(timeout=T)), ("send", 2, dict(timeout=2.0)),
                    ("wait", 2), ("wait", 1)]):
                out.append(explore.Scenario(f"{user}/{level} floods T={T} {len(s)}",
                    client.v3(s, user, level, tuple(floods), {}, (judge,),
                        agent=Liar, warmup=True),
                    {"fate": 2 if deep else 1, "tie": 0, "sched": 0}))
        kw = dict(timeout=2.0)
        s = [("send", 1, kw), ("send", 2, kw), ("wait", 2), ("wait", 1)]
        out.append(explore.Scenario(f"{user}/{level} two",
            client.v3(s, user, level, tuple(fates), {}, (judge,),
                agent=Liar, warmup=True),
            {"fate": 2, "tie": 1, "sched": 1, "*": 3 if deep else 2}))
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "on a synchronized manager; one application thread",
        "at most the stated number of fates per run differ from `ok`",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
