"""M09: what a call asks for is what is sent; what is answered is what it gives."""
import itertools
import agent as ag
import client
import env
import explore
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
TAGS = {"get": rb.GET, "getNext": rb.GETNEXT, "getBulk": rb.GETBULK, "set": rb.SET}
CLASSES = {"int": "Integer32", "str": "OctetString", "null": "Null",
    "ip": "IpAddress", "c32": "Counter32", "g32": "Gauge32", "tt": "TimeTicks",
    "opq": "Opaque", "c64": "Counter64", "oid": "OID", "nso": "NoSuchObject",
    "nsi": "NoSuchInstance", "eomv": "EndOfMibView"}

A, B, C = (1, 3, 6, 1, 2, 1, 1, 1, 0), (1, 3, 6, 1, 4, 1, 9, 7, 0), (0, 0)
NAMES = (A, B, C, (1, 3), (2, 39, 0), (2, 5, 4294967295, 0, 128, 16384),
    (1, 3) + tuple(range(126)), (0, 39, 2097152, 127, 268435456))
VALUES = (("int", 5), ("int", 0), ("int", -1), ("int", (1 << 31) - 1),
    ("int", -(1 << 31)), ("str", b""), ("str", b"\0text\xff"), ("str", b"x" * 300),
    ("null",), ("oid", A), ("oid", (2, 39, 4294967295)), ("ip", b"\x0a\0\0\xff"),
    ("c32", 0), ("c32", 128), ("c32", (1 << 32) - 1), ("g32", (1 << 31)),
    ("g32", 1), ("tt", (1 << 32) - 1), ("opq", b""), ("opq", b"\x9f\x78\x04abcd"))
V2ONLY = (("c64", 0), ("c64", (1 << 63)), ("c64", (1 << 64) - 1))
EXCEPTIONS = (("nso",), ("nsi",), ("eomv",))

def cls_of(kind):
    s = env.snmp
    return getattr(s.smi, CLASSES[kind], None) or getattr(s.pdu, CLASSES[kind])

def lib_value(v):
    cls = cls_of(v[0])
    if v[0] == "oid":
        return cls(*v[1])
    if v[0] == "ip":
        return cls(".".join(map(str, v[1])))
    return cls(*v[1:])

def ref_value(x):
    kind = next((k for k in CLASSES if type(x) is cls_of(k)), None)
    if kind is None:
        return ("?", repr(x))
    if kind == "oid":
        return ("oid", tuple(x))
    if kind in ("str", "opq", "ip"):
        return (kind, bytes(x.data))
    if kind in rb.RANGES:
        return (kind, x.value)
    return (kind,)

class Call:
    """verb; names; what an agent answers; how the names are given"""
    def __init__(self, verb, names, reply=None, values=None, form="str", nr=0,
            mr=0, fate=0):
        self.verb, self.names, self.values = verb, tuple(names), values
        self.form, self.nr, self.mr, self.fate = form, nr, mr, fate
        if reply is None:
            reply = [(n, ("int", i + 1)) for i, n in enumerate(names)]
        self.reply = list(reply)
        self.handle = self.got = None

    def __repr__(self):
        n = ("0", self.nr, self.mr) if self.verb == "getBulk" else ()
        return (f"{self.verb}({', '.join(map(ag.dotted, self.names))}"
            f"{n or ''}{self.values or ''}) as {self.form}"
            + (f", {self.fate} lost" if self.fate else ""))

    def want(self):
        values = self.values or (("null",),) * len(self.names)
        return (TAGS[self.verb], self.nr, self.mr, list(zip(self.names, values)))

class Mixin:
    """answers each question with what its call says"""
    def __call__(self, data, src, sock):
        self.sock = sock
        return super().__call__(data, src, sock)

    def answer(self, pdu):
        c = self.calls.get(pdu[1])
        return 0, 0, c.reply if c else [(n, ("int", 1)) for n, _ in pdu[4]]

class Community(Mixin, ag.CommunityAgent):
    def process(self, req):
        return self.hear(req[1], req[0], lambda: super(Community, self).process(req))

class V3(Mixin, ag.V3Agent):
    def serve(self, req):
        return self.hear(req["pdu"], (req["user"], req["flags"] & 3, req["context"],
            req["ctxengine"] == self.engine), lambda: super(V3, self).serve(req))

    def report(self, req, which, flags=0, **over):
        # what is refused asks for the same thing, or for nothing at all
        if req["engine"]:
            self.hear(req["pdu"], (req["user"], req["flags"] & 3, req["context"],
                req["ctxengine"] == self.engine), None)
        elif req["pdu"][4] or req["pdu"][0] != rb.GET:
            self.world.problem("early", f"sent {req['pdu']} to nobody")
        return super().report(req, which, flags, **over)

def hear(self, pdu, who, answer):
    new = pdu[1] not in self.calls
    if new:
        if not self.expected:
            self.world.problem("unasked", f"sent {pdu}, which nobody asked for")
            return []
        self.calls[pdu[1]] = self.expected.pop(0)
    c = self.calls[pdu[1]]
    if pdu[0:1] + pdu[2:] != c.want():
        self.world.problem("asked", f"{c} was sent as {pdu}")
    if who != self.who:
        self.world.problem("terms", f"{c} was sent by {who}, not {self.who}")
    if answer is None:
        return []
    c.heard = getattr(c, "heard", 0) + 1
    if c.heard <= c.fate:
        return []
    return answer()

Mixin.hear = hear

class Bench:
    """One manager; calls are made with objects that are used again and again."""
    def __init__(self, w, setup):
        self.w = w
        s = env.snmp
        kind, level = setup
        net = vnet.net()
        if kind in ("v1", "v2c"):
            self.agent = Community(w, int(kind != "v1"))
            self.agent.who = b"public"
        else:
            self.agent = V3(w, users=[env.USERS[kind]])
            self.agent.who = (kind.encode(), level, b"", True)
        self.agent.calls, self.agent.expected = {}, []
        net.agents[self.agent.addr] = self.agent
        self.objects = {}
        self.kept = []

    def manager(self, e, setup):
        s = env.snmp
        kind, level = setup
        if kind in ("v1", "v2c"):
            return e.Manager("10.0.0.1", s.SNMPv1 if kind == "v1" else s.SNMPv2c,
                community=b"public", autowait=False)
        env.add_user(e, kind)
        return e.Manager("10.0.0.1", autowait=False, defaultUserName=kind,
            defaultSecurityLevel=client.level_of(level))

    def object(self, key, make):
        if key not in self.objects:
            self.objects[key] = make()
        return self.objects[key]

    def name(self, n, form):
        if form == "str":
            return ag.dotted(n)
        if form == "dot":
            return "." + ag.dotted(n)
        return self.object(n, lambda: env.snmp.smi.OID(*n))

    def arguments(self, c):
        s = env.snmp
        names = [self.name(n, "oid" if c.form in ("varbind", "list") else c.form)
            for n in c.names]
        if c.verb != "set":
            return names
        out = []
        for n, name, v in zip(c.names, names, c.values):
            value = self.object(v, lambda: lib_value(v))
            if c.form == "varbind":
                out.append(self.object((n, v),
                    lambda: s.pdu.VarBind(name, value)))
            elif c.form == "list":
                out.append([name, value])
            else:
                out.append((name, value))
        return out

    def send(self, m, c, wait):
        kw = dict(nonRepeaters=c.nr, maxRepetitions=c.mr) \
            if c.verb == "getBulk" else {}
        self.agent.expected.append(c)
        args = self.arguments(c)
        try:
            r = getattr(m, c.verb)(*args, wait=wait, timeout=4.5, **kw)
        except Exception as e:
            self.w.problem("call", f"{c} raised {e!r}")
            return
        if wait:
            self.finish(c, r)
        else:
            c.handle = r

    def wait(self, c):
        if c.handle is None:
            return
        try:
            r = c.handle.wait()
        except Exception as e:
            self.w.problem("wait", f"{c} raised {e!r}")
        else:
            self.finish(c, r)
        c.handle = None

    def finish(self, c, r):
        self.kept.append((c, r))
        self.inspect(c, r, "")

    def inspect(self, c, r, when):
        p = self.w.problem
        s = env.snmp
        if type(r) is not s.pdu.VarBindList:
            p("result", f"{c} gave {r!r}{when}")
            return
        read = lambda vbs: [(tuple(vb.name), ref_value(vb.value)) for vb in vbs]
        if read(r) != c.reply:
            p("result", f"{c}, answered with {c.reply}, gave {read(r)}{when}")
        elif (len(r), bool(r)) != (len(c.reply), bool(c.reply)):
            p("length", f"{c} has a length of {len(r)}, truth {bool(r)}")
        elif [read([r[i]])[0] for i in range(-len(r), len(r))] != c.reply * 2 or (
                read(r[1:]) != c.reply[1:] or read(r[:1]) != c.reply[:1]):
            p("items", f"{c}: items are not those of the sequence")
        else:
            for name, value in r:
                if type(name).__name__ != "OID":
                    p("name type", f"{c} has a name of type {type(name)}")

    def again(self):
        for c, r in self.kept:
            self.inspect(c, r, ", when later calls had been made")

def body(setup, run):
    """run(bench, manager, choose)"""
    snmp = env.snmp
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=30000, wall=60.0)
        done = []
        def main():
            b = Bench(w, setup)
            def choose(n):
                i = w.choose("call", n)
                done.append(i)
                return i
            with snmp.Engine() as e:
                m = b.manager(e, setup)
                run(b, m, choose)
                b.again()
                if b.agent.expected:
                    w.problem("unsent", f"{b.agent.expected[:2]} never sent")
                b.kept.clear()
                b.objects.clear()
        w.run(main)
        client.finish(w, None)
        w.outcome = (tuple(done), w.steps, round(w.now - sched.START, 3))
        return w
    return execute

def single(setup, calls, wait):
    """Any one of the calls, after nothing, in its own engine: many at a time"""
    def run(b, m, choose):
        for c in calls:
            c = Call(**c)
            b.send(m, c, wait)
            b.wait(c)
    return body(setup, run)

def history(setup, palette, depth, order):
    """order: None: one after the other; else they overlap, waited in this order"""
    def run(b, m, choose):
        made = []
        for i in range(depth):
            j = choose(len(palette) + 1)
            if j == len(palette):
                last = [c for c in made if c.names and len(c.names) < 4
                    and not any(v in EXCEPTIONS for _, v in c.reply)]
                if not last or order is not None:
                    continue
                # set what was got, using the very objects that were returned
                got = [r for c, r in b.kept if c is last[-1]]
                c = Call("set", [n for n, _ in last[-1].reply],
                    values=[v for _, v in last[-1].reply], form="varbind")
                for vb in got[0] if got else ():
                    b.objects[(tuple(vb.name), ref_value(vb.value))] = vb
            else:
                c = Call(**palette[j])
            made.append(c)
            b.send(m, c, order is None and i % 2 == 0)
            if order is None:
                b.wait(c)
        for i in order or ():
            if i < len(made):
                b.wait(made[i])
    return body(setup, run)

SETUPS = (("v1", 0), ("v2c", 0), ("plain", 0), ("signer", 1), ("hider", 2 + 1),
    ("desman", 3))

def calls_of(setup, deep):
    v1 = setup[0] == "v1"
    values = VALUES + (() if v1 else V2ONLY)
    out = []
    verbs = ("get", "getNext") + (() if v1 else ("getBulk",))
    lists = [()] + [(n,) for n in NAMES] + list(itertools.product((A, B, C),
        repeat=2)) + list(itertools.product((A, B), repeat=3)) + [NAMES]
    for verb, names, form in itertools.product(verbs, lists, ("str", "dot", "oid")):
        out.append(dict(verb=verb, names=names, form=form))
    if not v1:
        for n, nr, mr in itertools.product(range(4), (0, 1, 2, 3, 127, 128, 2**31 - 1),
                (0, 1, 2, 10, 127, 128, 2**31 - 1)):
            out.append(dict(verb="getBulk", names=(A, B, C)[:n], nr=nr, mr=mr,
                form="oid"))
    sforms = ("str", "dot", "oid", "list", "varbind")
    for v, form in itertools.product(values, sforms):
        out.append(dict(verb="set", names=(B,), values=(v,), form=form))
    for (v, u), form in itertools.product(itertools.product(values, repeat=2),
            ("oid", "varbind") if deep else ("varbind",)):
        out.append(dict(verb="set", names=(B, A), values=(v, u), form=form))
    for n in (2, 3):        # the same object more than once
        for vs in itertools.product((("int", 1), ("str", b"y"), ("null",)), repeat=n):
            for form in ("str", "oid", "varbind"):
                out.append(dict(verb="set", names=(B,) * n, values=vs, form=form))
    many = [(1, 3, 6, 1, 4, 1, 9, i, i * i) for i in range(75)]
    for n in range(4, 76):
        for verb, form in zip(verbs, ("str", "oid", "dot")):
            out.append(dict(verb=verb, names=many[:n], form=form))
            out.append(dict(verb=verb, names=(B,), form=form,
                reply=[(x, values[i % 7]) for i, x in enumerate(many[:n])]))
            if n < 20:          # the same object, again and again
                out.append(dict(verb=verb, names=(B,) * n, form=form,
                    reply=[(B, values[i % 7]) for i in range(n)]))
        out.append(dict(verb="set", names=many[:n], values=[
            values[i % 7] for i in range(n)], form=sforms[n % 5]))
    for n in (*range(90, 280), *range(990, 1300, 1 if deep else 7)):
        v = ("str", bytes(i & 0xff for i in range(n)))
        out.append(dict(verb="get", names=(A,), form="str", reply=[(A, v)]))
        out.append(dict(verb="set", names=(A,), values=(v,), form="oid"))
    replies = values + (() if v1 else EXCEPTIONS)
    for n in range(4):
        for vs in itertools.product(replies, repeat=n) if n < 3 else zip(
                replies, replies[1:], replies[2:]):
            out.append(dict(verb="get", names=(A,), form="str",
                reply=list(zip((B, A, C), vs))))
    for name, v in itertools.product(NAMES, replies):
        out.append(dict(verb="getNext", names=(A,), reply=[(name, v)]))
    for k in (20, 60):
        out.append(dict(verb="get", names=(A,), reply=[(B, ("c32", i))
            for i in range(k)]))
        out.append(dict(verb="get", names=[A + (i,) for i in range(k)]))
    for verb in TAGS:
        if verb in verbs or verb == "set":
            for fate in (1, 2, 3):
                out.append(dict(verb=verb, names=(A, B), form="oid", fate=fate,
                    **(dict(values=(("c32", 7), ("str", b"z")))
                        if verb == "set" else {})))
    return out

def palette_of(setup):
    v1 = setup[0] == "v1"
    out = [dict(verb="get", names=(A,), form="oid"),
        dict(verb="get", names=(A, B), form="oid", reply=[(A, ("str", b"one")),
            (B, ("oid", C))]),
        dict(verb="getNext", names=(A,), form="oid", reply=[(B, ("tt", 9))]),
        dict(verb="set", names=(B,), values=(("int", 3),), form="varbind"),
        dict(verb="set", names=(B, A), values=(("int", 3), ("str", b"q")),
            form="varbind", reply=[(B, ("int", 3)), (A, ("str", b"q"))]),
        dict(verb="get", names=(), form="oid"),
        dict(verb="get", names=(B,), form="oid", fate=1)]
    if not v1:
        out += [dict(verb="getBulk", names=(A, B), nr=1, mr=2, form="oid",
                reply=[(A, ("c64", 1 << 40)), (B, ("eomv",)), (B, ("int", 2))]),
            dict(verb="getBulk", names=(B,), form="oid"),
            dict(verb="get", names=(A,), form="oid", reply=[(A, ("nso",))])]
    return out

def scenarios(ck):
    deep = not ck.quick
    out = []
    tight = dict(sched=0, tie=0)
    loose = dict(sched=int(deep), tie=int(deep))
    for setup in SETUPS:
        calls = calls_of(setup, deep)
        size = 40
        for i in range(0, len(calls), size):
            for wait in (False, True):
                out.append(explore.Scenario(f"{setup}: calls {i}- wait={wait}",
                    single(setup, calls[i:i + size], wait), tight))
        pal = palette_of(setup)
        full = setup[0] in ("v2c", "signer") or deep
        depth = 3 if full else 2
        out.append(explore.Scenario(f"{setup}: histories", history(setup, pal,
            4 if deep and setup[0] in ("v2c", "hider") else depth, None), loose))
        for order in itertools.permutations(range(depth)):
            if not deep and order not in ((0, 1), (1, 0), (2, 1, 0), (1, 2, 0)):
                continue
            out.append(explore.Scenario(f"{setup}: overlapping {order}",
                history(setup, pal, depth, order), loose))
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = ["one application thread, one agent that answers whatever"
        " the case says; oracle: mc/refber.py", explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
