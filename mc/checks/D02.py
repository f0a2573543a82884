"""D02: an SNMPv3 response reaches only the request it answers."""
import functools
import itertools
import agent as ag
import client
import env
import explore
import lib_usm
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
EPS = 1e-6
GAP = 0.125
EVIL = ("int", 666)
HOSTS = ("10.0.0.1", "10.0.0.2")
ENGINES = (b"\x80\0\0\0\5agent", b"\x80\0\0\0\5other!")
NAMES = ("plain", "signer", "hider", "desman")

class Capturing(ag.V3Agent):
    """Answers like a conforming agent until told to keep quiet."""
    quiet = False

    def process(self, req):
        if self.quiet:
            return []
        return super().process(req)

class Req:
    def __init__(self, k, spec):
        self.k = k
        user, level, agent, kw = spec + (0, {})[len(spec) - 2:]
        self.user, self.level, self.agent, self.kw = user, level, agent, dict(kw)
        self.timeout = self.kw.get("timeout", 8.0)
        self.m = (agent, self.kw.pop("m", 0))       # which manager
        self.ids = []
        self.t0 = self.handle = self.got = None
        self.wait0 = self.wait1 = None
        self.gone = None
        self.sock = None
        self.reqid = None

    def fields(self, **over):
        f = dict(version=3, msgid=self.ids[0], flags=(0, 1, 3)[self.level],
            engine=ENGINES[self.agent], user=env.USERS[self.user].name,
            keys=self.user, ctxengine=ENGINES[self.agent], context=b"",
            tag=rb.RESPONSE, reqid=self.reqid, es=0, ei=0, model=3, boots=0,
            time=0, mac=None,
            vbs=((ag.oid(self.k), ag.value(ag.oid(self.k))),))
        f.update(over)
        return f

def evil(r, **over):
    over.setdefault("vbs", ((ag.oid(r.k), EVIL),))
    return r.fields(**over)

def encode(f, agents, now):
    """f["boots"], f["time"]: relative to the engine's own."""
    a = agents[ENGINES.index(f["engine"]) if f["engine"] in ENGINES else 0]
    pdu = rb.enc_pdu(f["tag"], f["reqid"], f["es"], f["ei"], list(f["vbs"]))
    raw = ag.build_v3(f["msgid"], f["flags"], f["engine"], a.boots + f["boots"],
        max(0, a.time() + f["time"]), f["user"], pdu, env.USERS[f["keys"]],
        f["context"], f["ctxengine"], model=f["model"])
    if f["mac"] is not None and f["flags"] & 1:
        m = rb.dec_v3(raw)
        i = m["authoff"]
        n = len(m["auth"])
        if f["mac"] == "cut":
            # an empty MAC field, everything else unchanged
            raw = rb.enc_v3(rb.enc_header(m["msgid"], m["maxsize"], f["flags"],
                f["model"]), rb.enc_usm(m["engine"], m["boots"], m["time"],
                m["user"], b"", m["priv"]), m["payload"])
        else:
            j = i + f["mac"] % n
            raw = raw[:j] + bytes([raw[j] ^ 1]) + raw[j + 1:]
    if f["version"] != 3:
        assert raw[0] == 0x30
        m = bytearray(raw)
        i = raw.index(b"\x02\x01\x03")
        m[i + 2] = f["version"]
        raw = bytes(m)
    return raw

def genuine(f):
    """Would RFC 3414 accept it as coming from that user at that engine?"""
    u = env.USERS[f["keys"]]
    if f["flags"] == 2 or f["model"] != 3 or f["version"] != 3:
        return False
    if not f["flags"] & 1:
        return True
    return (f["user"] == u.name and u.auth is not None and f["mac"] is None
        and f["engine"] in ENGINES and f["boots"] == 0 and f["time"] > -150
        and (not f["flags"] & 2 or u.priv is not None))

def owner(f, reqs):
    if f["tag"] != rb.RESPONSE or not genuine(f) or f["context"]:
        return None
    for r in reqs:
        if (f["msgid"] in r.ids and f["user"] == env.USERS[r.user].name
                and f["engine"] == f["ctxengine"] == ENGINES[r.agent]
                and f["flags"] & 3 >= (0, 1, 3)[r.level]):
            return r
    return None

def outcome(f, r):
    if f["es"]:
        return env.error(f["es"], f["ei"], [ag.oid(r.k)])
    return ("ok", tuple((tuple(n), v[1]) for n, v in f["vbs"]))

# --------------------------------------------------------------- the deviations

def d(**over):
    return lambda r, rs: evil(r, **over)

def d_id(fn):
    return lambda r, rs: evil(r, msgid=fn(r.ids[0]) & 0x7fffffff)

def others(r, level):
    return [u for u in NAMES if u != r.user and (level < 1
        or env.USERS[u].auth) and (level < 2 or env.USERS[u].priv)]

def d_user(i):
    def f(r, rs):
        c = others(r, r.level)
        u = c[i % len(c)] if c else r.user
        if not c:
            return evil(r, msgid=r.ids[0] ^ 4)
        return evil(r, user=env.USERS[u].name, keys=u)
    return f

def d_forged(r, rs):
    """signed with another user's keys"""
    c = others(r, max(r.level, 1)) or others(r, 1)
    return evil(r, keys=c[0], mac=1) if r.level else evil(r, user=b"nobody")

DEVIATIONS = {
    "id+1": d_id(lambda i: i + 1), "id-1": d_id(lambda i: i - 1),
    "id0": d_id(lambda i: 0), "idflip": d_id(lambda i: i ^ 0x40000000),
    "id16": d_id(lambda i: i & 0xffff),
    "reqid": lambda r, rs: evil(r, msgid=r.reqid & 0x7fffffff),
    "level0": lambda r, rs: evil(r, flags=0, mac=None)
        if r.level > 0 else evil(r, flags=2, keys="hider"),
    "level1": lambda r, rs: evil(r, flags=1) if r.level > 1
        else evil(r, msgid=r.ids[0] ^ 8),
    "user0": d_user(0), "user1": d_user(1), "user2": d_user(2),
    "nouser": d(user=b"", mac=0), "caseuser": lambda r, rs: evil(r,
        user=env.USERS[r.user].name.upper(), mac=0),
    "shortuser": lambda r, rs: evil(r, user=env.USERS[r.user].name[:-1], mac=0),
    "forged": d_forged,
    "mac0": lambda r, rs: evil(r, mac=0) if r.level else evil(r, user=b"x"),
    "maclast": lambda r, rs: evil(r, mac=-1) if r.level else evil(r, user=b"x"),
    "nomac": lambda r, rs: evil(r, mac="cut") if r.level else evil(r, user=b"x"),
    "otherengine": lambda r, rs: evil(r, engine=ENGINES[1 - r.agent]),
    "otherboth": lambda r, rs: evil(r, engine=ENGINES[1 - r.agent],
        ctxengine=ENGINES[1 - r.agent]),
    "unknownengine": d(engine=b"\x80\0\0\0\5agenu", ctxengine=b"\x80\0\0\0\5agenu"),
    "emptyengine": d(engine=b"", ctxengine=b""),
    "emptyengine2": d(engine=b""),
    "ctxother": lambda r, rs: evil(r, ctxengine=ENGINES[1 - r.agent]),
    "ctxempty": d(ctxengine=b""),
    "ctxlonger": lambda r, rs: evil(r, ctxengine=ENGINES[r.agent] + b"\0"),
    "context": d(context=b"x"), "context0": d(context=b"\0"),
    "model1": d(model=1), "model2": d(model=2),
    "version1": d(version=1), "version2": d(version=2), "version0": d(version=0),
    "oldboots": lambda r, rs: evil(r, boots=-1) if r.level else evil(r, context=b"y"),
    "oldtime": lambda r, rs: evil(r, time=-200) if r.level else evil(r, context=b"z"),
    "err-id": lambda r, rs: evil(r, msgid=r.ids[0] ^ 16, es=5, ei=1),
    "err-user": lambda r, rs: evil(r, user=b"root", mac=0, es=5, ei=0),
}
TAGS = {"get": rb.GET, "getnext": rb.GETNEXT, "set": rb.SET, "trapv1": 0xa4,
    "getbulk": rb.GETBULK, "inform": 0xa6, "trap": 0xa7, "unknown": 0xa9}
for name, tag in TAGS.items():
    DEVIATIONS["tag-" + name] = d(tag=tag)
GENUINE = {
    "answer": lambda r, rs: r.fields(),
    "last": lambda r, rs: r.fields(msgid=r.ids[-1]),
    "nosuchname": lambda r, rs: r.fields(es=2, ei=1),
    "generr": lambda r, rs: r.fields(es=5, ei=0),
    "beyond": lambda r, rs: r.fields(es=13, ei=2, vbs=((ag.oid(77),
        ("str", b"x")), (ag.oid(78), ("c32", 9)))),
    "other": lambda r, rs: r.fields(vbs=((ag.oid(77), ("str", b"x")),
        (ag.oid(78), ("c32", 9)))),
}
def _next(r, rs):
    return rs[(rs.index(r) + 1) % len(rs)]
CROSS = {       # the answer to one request with a field of another request's
    "crossid": lambda r, rs: evil(r, msgid=_next(r, rs).ids[0]),
    "crossuser": lambda r, rs: evil(r, user=env.USERS[_next(r, rs).user].name,
        keys=_next(r, rs).user, flags=(0, 1, 3)[_next(r, rs).level]),
    "crossengine": lambda r, rs: evil(r, engine=ENGINES[_next(r, rs).agent],
        ctxengine=ENGINES[_next(r, rs).agent]),
    "crosslevel": lambda r, rs: evil(r, flags=(0, 1, 3)[_next(r, rs).level])
        if _next(r, rs).level < r.level else evil(r, context=b"c"),
}
KINDS = {**DEVIATIONS, **GENUINE, **CROSS}

# ----------------------------------------------------------------- the scenario

def scenario(specs, palette, count, waits=None, spaced=True, before=(),
        replace=True, least=0, known=False, plans=None):
    snmp = env.snmp

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        reqs = [Req(i + 1, s) for i, s in enumerate(specs)]
        delivered = []

        def main():
            net = vnet.net()
            agents = []
            for i, host in enumerate(HOSTS):
                a = Capturing(w, addr=(host, 161), engine=ENGINES[i],
                    users=[env.USERS[u] for u in NAMES], boots=5 + i,
                    clock=1000 + 500 * i)
                agents.append(a)
                net.agents[a.addr] = a
            with snmp.Engine(autowait=False) as e:
                for u in NAMES:
                    env.add_user(e, u)
                managers = {}
                for r in reqs:
                    if r.m not in managers:
                        kw = {"engineID": ENGINES[r.agent]} if known else {}
                        m = managers[r.m] = e.Manager(HOSTS[r.agent], **kw)
                        got = env.attempt(m.get(env.name(500), user=b"signer",
                            securityLevel=client.level_of(1)).wait)
                        if got != env.expected(500):
                            w.problem("warmup", f"the first request got {got}")
                for a in agents:
                    a.quiet = True
                    a.received.clear()
                for r in reqs:
                    a = agents[r.agent]
                    before_n = len(a.received)
                    r.t0 = w.now
                    m = managers[r.m]
                    r.handle = m.get(env.name(r.k),
                        user=env.USERS[r.user].name,
                        securityLevel=client.level_of((0, 1, 3)[r.level]),
                        **dict(dict(refreshPeriod=64.0), **dict(r.kw,
                            timeout=r.timeout)))
                    if len(a.received) != before_n + 1:
                        w.problem("request", f"request {r.k} was not sent")
                        return
                    r.sock = list(net.bound.values())[0]
                def collect():
                    for a in agents:
                        for t, req in a.received:
                            k = req["pdu"][4][0][0][-2]
                            for r in reqs:
                                if r.k == k:
                                    if req["msgid"] not in r.ids:
                                        r.ids.append(req["msgid"])
                                    r.reqid = req["pdu"][1]
                for op, k in before:
                    r = reqs[k - 1]
                    r.gone = w.now
                    if op == "expire":
                        r.wait0 = w.now
                        r.got = env.attempt(r.handle.wait)
                        r.wait1 = w.now
                    r.handle = None
                collect()
                left = list(palette)
                plan = []
                if plans:
                    plan = list(plans[w.choose("plan", len(plans))])
                while not plans and len(plan) < count and left:
                    n = w.choose("deliver", len(left) + (len(plan) >= least))
                    if len(plan) >= least:
                        if n == 0:
                            break
                        n -= 1
                    plan.append(left[n])
                    if not replace:
                        left.pop(n)
                for i, (kind, k) in enumerate(plan):
                    r = reqs[k - 1]
                    f = KINDS[kind](r, reqs)
                    at = w.now + ((i + 1) * GAP if spaced else 0)
                    delivered.append((at, kind, f))
                    w.note("plan", at - sched.START, kind, k, f)
                    net.deliver_later(at - w.now, r.sock, encode(f, agents,
                        w.now), (HOSTS[r.agent], 161))
                for k in waits or [r.k for r in reqs]:
                    r = reqs[k - 1]
                    if r.handle is None:
                        continue
                    r.wait0 = w.now
                    r.got = env.attempt(r.handle.wait)
                    r.wait1 = w.now
                    w.note("outcome", k, r.got)
                    r.handle = None
                for a in agents:
                    a.quiet = False
                for key, m in managers.items():
                    got = env.attempt(m.get(env.name(9), user=b"signer",
                        securityLevel=client.level_of(1)).wait)
                    if got != env.expected(9):
                        w.problem("afterwards", f"a later request got {got}"
                            f" after {[k for _, k, f in delivered]}")
                managers.clear()
                del m
        w.run(main)
        if w.leftover:
            w.problem("leftover", "threads left over after shutdown")
        for r in reqs if not w.problems else ():
            if r.got is None:
                continue
            mine = [(at, outcome(f, r)) for at, kind, f in delivered
                if owner(f, reqs) is r]
            deadline = r.t0 + r.timeout
            intime = [(at, o) for at, o in mine if at < deadline]
            if r.gone is not None:
                want, end = {("Timeout",)}, max(r.wait0, deadline)
            elif intime:
                end = max(r.wait0, intime[0][0])
                want = {intime[0][1]}
                if r.wait0 > intime[0][0]:
                    want = {o for at, o in intime if at <= end + EPS}
            else:
                want, end = {("Timeout",)}, max(r.wait0, deadline)
            said = [(at - sched.START, k, f) for at, k, f in delivered]
            if r.got not in want:
                w.problem(f"outcome:{r.got[0]}", f"request {r.k} ({r.user}, level"
                    f" {r.level}, engine {ENGINES[r.agent]}, IDs {r.ids}) got"
                    f" {r.got}, not {sorted(want, key=repr)}; delivered: {said}")
            elif abs(r.wait1 - end) > EPS:
                w.problem("time", f"request {r.k} ended at"
                    f" {r.wait1 - sched.START}, not {end - sched.START};"
                    f" delivered: {said}")
        w.outcome = (len(delivered), tuple(r.got for r in reqs))
        return w
    return execute

def scenarios(ck):
    out = []
    deep = not ck.quick
    def add(name, *a, **k):
        out.append(explore.Scenario(name, scenario(*a, **k),
            {"sched": 1, "tie": 1}))
    devs = list(DEVIATIONS)
    ones = (("plain", 0), ("signer", 0), ("signer", 1), ("hider", 0), ("hider", 1),
        ("hider", 2), ("desman", 2))
    for user, level in ones:
        for known in (False, True):
            pal = [(x, 1) for x in devs + list(GENUINE)]
            main = (user, level) in (("plain", 0), ("signer", 1), ("hider", 2))
            add(f"{user}/{level} known={known}", [(user, level)], pal,
                3 if deep and main else 2 if (main and not known) or deep else 1,
                known=known)
            if deep:
                add(f"{user}/{level} known={known}, at once", [(user, level)],
                    pal, 2, known=known, spaced=False)
    few = ("answer", "crossid", "crossuser", "crossengine", "crosslevel", "nosuchname")
    pairs = [(("plain", 0), ("signer", 1)), (("signer", 1), ("signer", 1)),
        (("hider", 2), ("hider", 1)), (("hider", 2), ("desman", 2)),
        (("signer", 1), ("signer", 1, 1, {})), (("plain", 0), ("plain", 0, 1, {})),
        (("hider", 2), ("hider", 2, 1, {})), (("signer", 1), ("signer", 1, 0, {"m": 1})),
        (("hider", 1), ("hider", 0)), (("plain", 0), ("plain", 0))]
    for a, b in pairs:
        tag = f"{a} and {b}"
        pal = [(x, k) for k in (1, 2) for x in devs + list(CROSS) + ["answer"]]
        add(f"{tag}: all", [a, b], pal, 2 if deep else 1, waits=(2, 1))
        pal = [(x, k) for k in (1, 2) for x in few]
        for waits in ((1, 2), (2, 1)):
            add(f"{tag}: few {waits}", [a, b], pal, 3 if deep else 2, waits=waits,
                least=1)
    mixes = [[("signer", 1)] * 3, [("plain", 0), ("signer", 1), ("hider", 2)],
        [("signer", 1), ("signer", 1, 1, {}), ("desman", 2)],
        [("hider", 2), ("hider", 2, 0, {"m": 1}), ("hider", 2, 1, {})]]
    for i, mix in enumerate(mixes):
        for waits in itertools.permutations((1, 2, 3)):
            if not deep and waits not in ((1, 2, 3), (3, 1, 2)):
                continue
            pal = [("answer", 1), ("answer", 2), ("answer", 3), ("crossid", 1),
                ("nosuchname", 2)]
            add(f"three requests {i} {waits}", mix, pal, 5, waits=waits,
                replace=False, least=3)
    # crowds
    for n in (12, 40, 120) if deep else (12, 40):
        for mix in ([("signer", 1)], [("plain", 0)], [("hider", 2), ("hider", 2, 1,
                {}), ("signer", 1, 0, {"m": 1}), ("plain", 0), ("desman", 2, 1, {})]):
            many = [(mix[i % len(mix)] + (0, {}))[:3] + (dict((mix[i % len(mix)]
                + (0, {}))[3] if len(mix[i % len(mix)]) > 3 else {}, timeout=64.0),)
                for i in range(n)]
            ks = list(range(1, n + 1))
            orders = [ks, ks[::-1], ks[1::2] + ks[::2],
                [(7 * k) % n + 1 for k in ks]]
            plans = [[("answer", k) for k in o] for o in orders]
            plans += [[x for k in o for x in (("crossid", k), ("crossuser", k),
                ("answer", k), ("nosuchname", k))] for o in orders[:2]]
            plans += [[("answer", k) for k in o if k % 3] for o in orders[:2]]
            for waits in (ks, ks[::-1]):
                add(f"{n} requests of {mix[0]}..., waits {waits[:2]}", many, [], 0,
                    waits=waits, plans=plans, spaced=n < 50)
    # several transmissions; late and abandoned requests
    for user, level in (("plain", 0), ("signer", 1), ("hider", 2)):
        R = {"refreshPeriod": 0.5}
        two = [(user, level, 0, R), (user, level, 0, {"timeout": 1.25, **R})]
        pal = [(x, k) for k in (1, 2) for x in ("answer", "last", "crossid",
            "nosuchname", "id+1")]
        add(f"{user}/{level} resent", two, pal, 3 if deep else 2,
            before=(("expire", 2),))
        for op in ("drop", "expire"):
            for which in (1, 2):
                two = [(user, level, 0, {"timeout": 0.5} if which == n else {})
                    for n in (1, 2)]
                pal = [(x, k) for k in (1, 2) for x in ("answer", "nosuchname",
                    "crossid", "user0")]
                add(f"{user}/{level} {op} {which}", two, pal, 3 if deep else 2,
                    before=((op, which),))
    out += [explore.Scenario(f"probe {user}/{level} known={known}",
        probing(user, level, known, 3 if deep else 2), {"sched": 1, "tie": 1})
        for user, level in (("plain", 0), ("signer", 1), ("hider", 2))
        for known in (False, True)]
    out += [explore.Scenario(f"processor {user}/{level}, engine {engine}, {ctx}",
        processor((user, level, engine, ctx)), {"sched": 0, "tie": 0})
        for user, level in WHO for engine in (0, 1) for ctx in CONTEXTS
        if deep or engine == 0 and ctx != b"other"]
    return out

# ------------------------------------------------- before anything is known yet

PROBE = ("resp", "resp-engine", "resp-user", "report-id", "report-user",
    "get", "report-ctx", "report-signed", "inform", "resp-user-engine")

def probing(user, level, known, count):
    """Messages that answer nothing, while the manager discovers the engine."""
    snmp = env.snmp

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        box = {}
        def main():
            net = vnet.net()
            a = Capturing(w, users=[env.USERS[u] for u in NAMES])
            net.agents[a.addr] = a
            a.quiet = True
            with snmp.Engine(autowait=False) as e:
                for u in NAMES:
                    env.add_user(e, u)
                kw = {"engineID": a.engine} if known else {}
                m = e.Manager(HOSTS[0], **kw)
                h = m.get(env.name(1), user=env.USERS[user].name,
                    securityLevel=client.level_of((0, 1, 3)[level]))
                req = a.received[0][1]
                sock = list(net.bound.values())[0]
                plan = []
                while len(plan) < count:
                    n = w.choose("deliver", len(PROBE) + 1)
                    if n == 0:
                        break
                    plan.append(PROBE[n - 1])
                box["plan"] = plan
                oid = ag.USM_STATS + (4, 0)
                for i, kind in enumerate(plan):
                    tag = {"r": rb.RESPONSE, "g": rb.GET, "i": 0xa6}[kind[0]]
                    f = dict(msgid=req["msgid"], flags=0, engine=req["engine"],
                        boots=0, time=0, user=req["user"], ctxengine=req["engine"])
                    vbs = [(ag.oid(1), EVIL)]
                    if kind == "resp" and known and level == 0:
                        f["user"] = b"nobody"      # else it would be genuine
                    if kind.startswith("report"):
                        tag = rb.REPORT
                        vbs = [(oid, ("c32", 1))]
                        f.update(engine=b"\x80\0\0\0\5bogus")
                    if kind.endswith("-id"):
                        f["msgid"] = req["msgid"] ^ 1
                    if "-user" in kind:
                        f["user"] = b"root"
                    if kind.endswith("-engine"):
                        f.update(engine=a.engine, ctxengine=a.engine)
                        if known and level == 0:
                            f["msgid"] ^= 2
                    if kind == "report-ctx":
                        f.update(context=b"x")
                    if kind == "report-signed":
                        f.update(flags=1, keys=env.USERS["signer"],
                            user=b"signer")
                    raw = ag.build_v3(pdu=rb.enc_pdu(tag, 0, 0, 0, vbs), **f)
                    w.note("plan", kind, f)
                    net.deliver_later((i + 1) * GAP, sock, raw, a.addr)
                w.at(w.now + 0.75, lambda: setattr(a, "quiet", False))
                box["got"] = env.attempt(h.wait)
                box["at"] = w.now - sched.START
                h = None
                box["engines"] = {req["engine"] for t, req in a.received}
                box["carried"] = [req["engine"] for t, req in a.received
                    if req.get("pdu", (0, 0, 0, 0, ()))[4]]
                del m
        w.run(main)
        if w.leftover:
            w.problem("leftover", "threads left over after shutdown")
        if not w.problems:
            what = f"after {box['plan']}"
            if box["got"] != env.expected(1):
                w.problem(f"outcome:{box['got'][0]}", f"the request got"
                    f" {box['got']} {what}")
            elif box["at"] > 1.0 + 4 * GAP:
                w.problem("time", f"the request ended at {box['at']} {what}")
            if box["engines"] - {b"", ENGINES[0]}:
                w.problem("engine", f"a request was sent to the engine"
                    f" {box['engines']} {what}")
        w.outcome = (box.get("got"), box.get("at"))
        return w
    return execute

# --------------------------------- the message processor, with context names

CONTEXTS = (b"", b"ctx", b"other")
WHO = (("plain", 0), ("signer", 0), ("signer", 1), ("hider", 1), ("hider", 2))

@functools.lru_cache(None)
def response(_, **f):
    return ag.build_v3(boots=5, time=1000, keys=env.USERS[_], pdu=RESPONSE,
        **f)

def processor(first, contexts=CONTEXTS):
    """Two outstanding requests, and every response with fields of either."""
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        box = {"n": 0, "ok": 0}

        def judge(st, reqs, f, raw, level, owner):
            box["n"] += 1
            got = st.receive(raw)
            if got[0] == "ok":
                box["ok"] += 1
            elif not lib_usm.refused(st.L, got[1]):
                w.problem("exception", f"{got[1]!r} for {f} at {reqs}")
            took = got[2] if got[0] == "ok" else None
            if took is not owner:
                w.problem("took", f"{f} (level {level}) is taken for"
                    f" {'no request' if took is None else 'a request'} instead"
                    f" of {'none' if owner is None else 'its own'}; requests:"
                    f" {reqs}; {got}")

        def main():
            L = lib_usm.wrap(env.snmp)
            users = [env.USERS[u] for u in ("plain", "signer", "hider")]
            st = lib_usm.Station(L, users, ENGINES)
            peers = [ag.V3Agent(w, engine=e, users=users) for e in ENGINES]
            def ask(user, level, engine, context):
                h, raw = st.send(ENGINES[engine], env.USERS[user].name, level,
                    context=context)
                m = peers[engine].decode(raw)
                want = (ENGINES[engine], ENGINES[engine], context,
                    env.USERS[user].name, (0, 1, 3)[level] | 4)
                said = (m["engine"], m.get("ctxengine"), m.get("context"),
                    m["user"], m["flags"])
                bad = peers[engine].process(m) and peers[engine].reports
                if said != want or bad:
                    w.problem("request", f"the request {want} went out as {said},"
                        f" which is answered with {bad}")
                return [h, m["msgid"], user, level, engine, context, True]
            for e in ENGINES:       # the clocks
                st.receive(ag.build_v3(1, 1, e, 5, 1000, b"signer", rb.enc_pdu(
                    rb.REPORT, 0, 0, 0, [(ag.USM_STATS + (2, 0), ("c32", 1))]),
                    env.USERS["signer"]))
            user, level = WHO[w.choose("user", len(WHO))]
            second = (user, level, w.choose("engine", 2),
                CONTEXTS[w.choose("context", len(CONTEXTS))])
            reqs = [ask(*first), ask(*second)]
            gone = w.choose("gone", 3) if first[3] == second[3] else 0
            if gone:
                reqs[1][6] = False
                if gone == 1:
                    reqs[1][0].close()
                reqs[1][0] = None
            ids = [r[1] for r in reqs]
            ids.append(next(i for i in range(1, 9) if i not in ids))
            names = sorted({r[2] for r in reqs} | {"plain", "signer", "hider"})
            shown = [r[1:] for r in reqs]
            w.note("requests", shown)
            def all():
                for i, user, engine, ctxengine, context, level in \
                        itertools.product(ids, names, (0, 1), (0, 1, 2), contexts,
                            (0, 1, 2)):
                    u = env.USERS[user]
                    if level > (u.auth is not None) + (u.priv is not None):
                        continue
                    f = dict(msgid=i, flags=(0, 1, 3)[level],
                        engine=ENGINES[engine], user=u.name, context=context,
                        ctxengine=(ENGINES + (b"",))[ctxengine])
                    owner = None
                    for r in reqs:
                        if (r[6] and i == r[1] and user == r[2]
                                and engine == ctxengine == r[4]
                                and context == r[5] and level >= r[3]):
                            owner = r[0]
                    raw = response(user, **f)
                    judge(st, shown, f, raw, level, owner)
            all()
            for r in reqs:
                if r[6]:
                    r[0].close()
                    r[6] = False
            f = dict(msgid=ids[0], flags=0, engine=ENGINES[first[2]],
                user=env.USERS[first[0]].name, context=first[3])
            if first[1] == 0:
                judge(st, shown, f, response(first[0], **f), 0, None)
        w.run(main)
        w.outcome = (box["n"], box["ok"])
        return w
    return execute

RESPONSE = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, [((1, 3, 6, 1, 2, 1), ("int", 1))])

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = ["one application thread; two genuine answers to the same"
        " request may be reported in either of their outcomes when both have"
        " arrived before wait() looks", "the request ID inside the PDU is not"
        " among the deviations: SNMPv3 matches by message ID",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
