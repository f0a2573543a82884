"""D01: a v1/v2c response reaches only the request it answers."""
import itertools
import agent as ag
import env
import explore
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
EPS = 1e-6
GAP = 0.125
EVIL = ("int", 666)

class Req:
    """One outstanding request: what was sent, and how to answer it."""
    def __init__(self, k, version, community, kw):
        self.k, self.version, self.community = k, version, community
        self.kw = kw
        self.timeout = kw.get("timeout", 8.0)
        self.t0 = self.id = self.handle = self.got = None
        self.wait0 = self.wait1 = None
        self.gone = None                # when it was closed or abandoned
        self.sock = None

    def fields(self, **over):
        f = dict(version=self.version, community=self.community,
            tag=rb.RESPONSE, id=self.id, es=0, ei=0,
            vbs=((ag.oid(self.k), ag.value(ag.oid(self.k))),))
        f.update(over)
        return f

def encode(f):
    return rb.enc_community_msg(f["version"], f["community"],
        rb.enc_pdu(f["tag"], f["id"], f["es"], f["ei"], list(f["vbs"])))

def outcome(f, r):
    if f["es"]:
        return env.error(f["es"], f["ei"], [ag.oid(r.k)])
    return ("ok", tuple((tuple(n), v[1]) for n, v in f["vbs"]))

# ------------------------------------------------------- what can be delivered

TAGS = {"get": rb.GET, "getnext": rb.GETNEXT, "set": rb.SET,
    "trapv1": 0xa4, "getbulk": rb.GETBULK, "inform": 0xa6, "trap": 0xa7,
    "report": rb.REPORT, "unknown": 0xa9}

def evil(r, **over):
    over.setdefault("vbs", ((ag.oid(r.k), EVIL),))
    return r.fields(**over)

def dev_version(v):
    return lambda r, rs: evil(r, version=v(r.version))

def dev_community(fn):
    return lambda r, rs: evil(r, community=fn(r.community))

def dev_id(fn):
    return lambda r, rs: evil(r, id=fn(r.id))

def dev_tag(tag):
    return lambda r, rs: evil(r, tag=tag)

def clip(i):
    """Into the legal range (a request ID is 32 bits wide)."""
    return (i + (1 << 31)) % (1 << 32) - (1 << 31)

DEVIATIONS = {
    "othercommunity": dev_community(lambda c: b"private"),
    "nocommunity": dev_community(lambda c: b""),
    "shortcommunity": dev_community(lambda c: c[:-1]),
    "longcommunity": dev_community(lambda c: c + b"\0"),
    "casecommunity": dev_community(lambda c: c.upper()),
    "otherversion": dev_version(lambda v: 1 - v),
    "version3": dev_version(lambda v: 3),
    "version2": dev_version(lambda v: 2),
    "id+1": dev_id(lambda i: clip(i + 1)),
    "id-1": dev_id(lambda i: clip(i - 1)),
    "-id": dev_id(lambda i: clip(-i)),
    "id0": dev_id(lambda i: 0),
    "idflip": dev_id(lambda i: clip(i ^ (1 << 31))),
    "id16": dev_id(lambda i: ((i + 0x8000) & 0xffff) - 0x8000),
    "err+1": lambda r, rs: evil(r, id=clip(r.id + 1), es=5, ei=1),
    "errcommunity": lambda r, rs: evil(r, community=b"x", es=2, ei=0),
}
for name, tag in TAGS.items():
    DEVIATIONS["tag-" + name] = dev_tag(tag)
GENUINE = {
    "answer": lambda r, rs: r.fields(),
    "nosuchname": lambda r, rs: r.fields(es=2, ei=1),
    "generr": lambda r, rs: r.fields(es=5, ei=0),
    "beyond": lambda r, rs: r.fields(es=13, ei=2, vbs=((ag.oid(77),
        ("str", b"x")), (ag.oid(78), ("c32", 9)))),
    "empty": lambda r, rs: r.fields(vbs=()),
    "other": lambda r, rs: r.fields(vbs=((ag.oid(77), ("str", b"x")),
        (ag.oid(78), ("c32", 9)))),
}
CROSS = {       # the answer to one request under the identity of another
    "crossid": lambda r, rs: evil(r, id=rs[(rs.index(r) + 1) % len(rs)].id),
    "crosscommunity": lambda r, rs: evil(r,
        community=rs[(rs.index(r) + 1) % len(rs)].community),
    "crossversion": lambda r, rs: evil(r,
        version=rs[(rs.index(r) + 1) % len(rs)].version),
}
KINDS = {**DEVIATIONS, **GENUINE, **CROSS}

def owner(f, reqs):
    """The specification: which request does this message answer?"""
    if f["tag"] != rb.RESPONSE:
        return None
    for r in reqs:
        if (r.version, r.community, r.id) == (
                f["version"], f["community"], f["id"]):
            return r
    return None

# ---------------------------------------------------------------- the scenario

def scenario(specs, palette, count, waits=None, spaced=True, before=(),
        replace=True, least=0, plans=None):
    """specs: (version, community, options) of each request, in order.
    palette: (kind, index) that may be delivered; every sequence of up to
    `count` of them is (distinct ones only unless replace).
    before: operations ("drop", k) / ("expire", k) before the deliveries."""
    snmp = env.snmp

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        reqs = [Req(k + 1, v, c, dict(kw)) for k, (v, c, kw) in enumerate(specs)]
        delivered = []              # (time, kind, fields)

        def main():
            net = vnet.net()
            queue = []
            def silent(data, src, sock):
                queue.append((data, sock))
            net.agents[("10.0.0.1", 161)] = silent
            with snmp.Engine(defaultDomain=snmp.transport.TransportDomain.UDP_IPv4,
                    autowait=False) as e:
                managers = {}
                for r in reqs:
                    key = (r.version, r.kw.pop("m", 0))
                    if key not in managers:
                        managers[key] = e.Manager("10.0.0.1",
                            version=(snmp.SNMPv1, snmp.SNMPv2c)[r.version],
                            community=r.community)
                    r.t0 = w.now
                    r.handle = managers[key].get(env.name(r.k),
                        community=r.community, refreshPeriod=64.0,
                        **dict(r.kw, timeout=r.timeout))
                    data, r.sock = queue.pop()
                    v, c, pdu = rb.dec_community_msg(data)
                    if (v, c) != (r.version, r.community):
                        w.problem("request", f"request {r.k} left as version"
                            f" {v}, community {c}")
                    r.id = pdu[1]
                for op, k in before:
                    r = reqs[k - 1]
                    if op == "drop":
                        r.handle = None
                        r.gone = w.now
                    else:
                        r.wait0 = w.now
                        r.got = env.attempt(r.handle.wait)
                        r.wait1 = w.now
                        r.handle = None
                        r.gone = w.now
                # choose what arrives, then let it arrive
                left = list(palette)
                plan = []
                if plans:
                    plan = list(plans[w.choose("plan", len(plans))])
                while not plans and len(plan) < count and left:
                    n = w.choose("deliver", len(left) + (len(plan) >= least))
                    if len(plan) >= least:
                        if n == 0:
                            break
                        n -= 1
                    plan.append(left[n])
                    if not replace:
                        left.pop(n)
                for i, (kind, k) in enumerate(plan):
                    r = reqs[k - 1]
                    f = KINDS[kind](r, reqs)
                    at = w.now + ((i + 1) * GAP if spaced else 0)
                    delivered.append((at, kind, f))
                    w.note("plan", at - sched.START, kind, k, f)
                    net.deliver_later(at - w.now, r.sock, encode(f),
                        ("10.0.0.1", 161))
                for k in waits or [r.k for r in reqs]:
                    r = reqs[k - 1]
                    if r.handle is None:
                        continue
                    r.wait0 = w.now
                    r.got = env.attempt(r.handle.wait)
                    r.wait1 = w.now
                    w.note("outcome", k, r.got)
                    r.handle = None
                # the library must still work afterwards
                last = Req(9, reqs[0].version, reqs[0].community, {})
                h = managers[(last.version, 0)].get(env.name(9),
                    community=last.community)
                data, sock = queue.pop()
                last.id = rb.dec_community_msg(data)[2][1]
                net.deliver_later(GAP, sock, encode(last.fields()),
                    ("10.0.0.1", 161))
                got = env.attempt(h.wait)
                if got != env.expected(9):
                    w.problem("afterwards", f"a later request got {got} after"
                        f" {[(k, f) for _, k, f in delivered]}")
                h = None
                managers.clear()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "threads left over after shutdown")
        for r in reqs if not w.fatal and not w.problems else ():
            if r.got is None:
                continue
            mine = [(at, outcome(f, r)) for at, kind, f in delivered
                if owner(f, reqs) is r]
            deadline = r.t0 + r.timeout
            intime = [(at, o) for at, o in mine if at < deadline]
            if r.gone is not None:
                want, end = {("Timeout",)}, max(r.wait0, deadline)
            elif intime:
                end = max(r.wait0, intime[0][0])
                want = {o for at, o in intime if at <= end + EPS}
                if not r.wait0 > intime[0][0]:
                    want = {o for at, o in intime if at == intime[0][0]}
            else:
                want, end = {("Timeout",)}, max(r.wait0, deadline)
            if r.got not in want:
                w.problem(f"outcome:{r.got[0]}", f"request {r.k} (version"
                    f" {r.version}, community {r.community}, ID {r.id}) got"
                    f" {r.got}, not {sorted(want, key=repr)}; delivered:"
                    f" {[(at - sched.START, k, f) for at, k, f in delivered]}")
            elif abs(r.wait1 - end) > EPS:
                w.problem("time", f"request {r.k} ended at"
                    f" {r.wait1 - sched.START}, not {end - sched.START};"
                    f" delivered: {[(at - sched.START, k) for at, k, _ in delivered]}")
        w.outcome = (len(delivered), tuple(r.got for r in reqs))
        return w
    return execute

P, Q = b"public", b"secret"

def kinds_of(p, q):
    return ((0, p, {}), (1, p, {}), (0, q, {}), (1, q, {"m": 1}))

def scenarios(ck):
    out = []
    deep = not ck.quick
    def add(name, *a, **k):
        out.append(explore.Scenario(name, scenario(*a, **k),
            {"sched": 1, "tie": 1}))
    devs = list(DEVIATIONS)
    for v in (0, 1):
        one = [(v, P, {})]
        # every deviation by itself, twice, and around every genuine answer
        palette = [(d, 1) for d in devs + list(GENUINE)]
        add(f"v{v} one request", one, palette, 2)
        add(f"v{v} one request, at once", one, palette, 2, spaced=False)
        if deep:
            add(f"v{v} one request, three messages", one, palette, 3)
        # two requests: every deviation of either, then the answers
        for other in ((v, P, {}), (v, Q, {}), (1 - v, P, {}), (v, P, {"m": 1})):
            two = [(v, P, {}), other]
            tag = f"v{v} and v{other[0]} {other[1].decode()} {other[2]}"
            pal = [(d, k) for k in (1, 2) for d in devs + list(CROSS)
                + ["answer"]]
            add(f"{tag}: two messages", two, pal, 2, waits=(2, 1))
            pal = [(d, k) for k in (1, 2) for d in ("answer", "nosuchname",
                "crossid", "othercommunity", "otherversion", "tag-get")
                + (("id+1", "crosscommunity", "crossversion") if deep else ())]
            for waits in ((1, 2), (2, 1)):
                add(f"{tag}: three messages {waits}", two, pal, 3, waits=waits,
                    least=2)
    # three requests, every order of answers, duplicates and cross answers
    kinds = [(0, P), (0, Q), (1, P)]
    mixes = [[kinds[0]] * 3, [kinds[2]] * 3, [kinds[0], kinds[1], kinds[2]],
        [kinds[0], kinds[2], kinds[0]]]
    for i, mix in enumerate(mixes):
        three = [(v, c, {}) for v, c in mix]
        for waits in itertools.permutations((1, 2, 3)):
            if not deep and waits not in ((1, 2, 3), (3, 1, 2), (2, 3, 1)):
                continue
            pal = [("answer", 1), ("answer", 2), ("answer", 3), ("nosuchname", 2),
                ("crossid", 1), ("othercommunity", 3)]
            add(f"three requests {i}, waits {waits}", three, pal, 6 if deep else 5,
                waits=waits, replace=False, least=3)
            add(f"three requests {i}, waits {waits}, at once", three, pal[:5], 5,
                waits=waits, replace=False, spaced=False, least=3)
    # crowds
    for n in (12, 40, 150) if deep else (12, 40):
        for mix in (((0, P, {}),), ((1, P, {}),), kinds_of(P, Q)):
            many = [mix[i % len(mix)][:2] + (dict(mix[i % len(mix)][2], timeout=64.0),)
                for i in range(n)]
            ks = list(range(1, n + 1))
            orders = [ks, ks[::-1], ks[1::2] + ks[::2], ks[n // 2:] + ks[:n // 2],
                [(7 * k) % n + 1 for k in ks] if n % 7 else ks]
            plans = [[("answer", k) for k in o] for o in orders]
            plans += [[x for k in o for x in (("crossid", k), ("othercommunity", k),
                ("answer", k), ("nosuchname", k))] for o in orders[:3]]
            plans += [[("answer", k) for k in o if k % 3] for o in orders[:2]]
            for waits in (ks, ks[::-1]):
                add(f"{n} requests {[m[:2] for m in mix]}, waits {waits[:2]}", many,
                    [], 0, waits=waits, plans=plans, spaced=n < 50)
    # late and abandoned: the response finds nobody
    for v in (0, 1):
        for op in ("drop", "expire"):
            for which in (1, 2):
                two = [(v, P, {"timeout": 0.5} if which == 1 else {}),
                    (v, P, {"timeout": 0.5} if which == 2 else {})]
                pal = [(d, k) for k in (1, 2) for d in ("answer", "nosuchname",
                    "crossid", "othercommunity", "generr")]
                add(f"v{v} {op} {which}", two, pal, 3 if deep else 2,
                    before=((op, which),))
        for ops in ((("drop", 1), ("drop", 2)), (("expire", 1), ("drop", 2)),
                (("expire", 2), ("expire", 1))):
            three = [(v, P, {"timeout": 0.5}), (v, P, {"timeout": 0.5}),
                (v, P, {})]
            pal = [(d, k) for k in (1, 2, 3) for d in ("answer", "nosuchname")]
            add(f"v{v} {ops}", three, pal, 3, before=ops)
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = ["one application thread; two genuine answers to the same"
        " request may be reported in either of their outcomes when both have"
        " arrived before wait() looks", explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
