"""M06: threads with their own managers on one engine, under all interleavings.

Every source line of the library's stateful modules is a preemption point, and
so is every synchronisation and socket operation."""
import gc
import itertools
import agent as ag
import client
import env
import explore
import sched
import vnet

LEVEL = "model_checking"
HOSTS = ("10.0.0.1", "10.0.0.2", "10.0.0.3")
ENGINES = (b"\x80\0\0\0\5agent", b"\x80\0\0\0\5other", b"\x80\0\0\0\5third")

class App:
    """One manager and what its thread does with it."""
    def __init__(self, script, version=3, user="plain", level=None, agent=0,
            known=False, local=None, warm=False, namespace=None):
        self.__dict__.update(locals())

class Bench:
    def __init__(self, w, agents, fates, options, agent_kw):
        self.w = w
        self.agents = []
        self.clients = []
        self.net = vnet.net()
        for i, versions in enumerate(agents):
            a = Multi(w, versions, i, fates, options, agent_kw)
            self.agents.append(a)
            self.net.agents[(HOSTS[i], 161)] = a

    def manager(self, e, app):
        s = env.snmp
        kw = {}
        if app.version == 3:
            version = s.SNMPv3
            kw["defaultUserName"] = env.USERS[app.user].name.decode()
            if app.known:
                kw["engineID"] = ENGINES[app.agent]
            if app.level is not None:
                kw["defaultSecurityLevel"] = client.level_of(app.level)
            if app.namespace is not None:
                kw["namespace"] = app.namespace
        else:
            version = (s.SNMPv1, s.SNMPv2c)[app.version]
        return e.Manager(HOSTS[app.agent], version, localAddress=app.local,
            autowait=False, **kw)

    def client(self):
        c = client.Client(self.w)
        self.clients.append(c)
        return c

def op_fail(self, m, k, kw):
    """A request of a user that the agent does not know."""
    got = env.attempt(m.get, env.name(k), wait=True, **kw)
    if got != ("UnknownUserNameReport",):
        self.w.problem("report", f"request {k} ended with {got}")

client.Client.op_fail = op_fail

OTHER = b"\x80\0\0\0\5spoof"

class Agent(ag.V3Agent):
    def stray(self, req, engine):
        pdu = client.rb.enc_pdu(client.rb.REPORT, 0, 0, 0,
            [(ag.USM_STATS + (4, 0), ("c32", 1))])
        return ag.build_v3(req["msgid"], 0, engine, 9, 9, req["user"], pdu)

    def fate_spoof(self, req):
        """Discovery is answered; a request is not, but somebody else reports
        another engine ID (and then the right one) just as it expires."""
        if req["engine"] != self.engine:
            return [(0, raw) for raw in self.process(req)]
        return [(2.0, self.stray(req, OTHER)), (2.0, self.stray(req,
            self.engine))]

    def fate_spoof2(self, req):
        if req["engine"] != self.engine:
            return [(0, raw) for raw in self.process(req)]
        return [(1.5, self.stray(req, OTHER)), (2.0, self.stray(req,
            self.engine))]

class Multi:
    """An agent that speaks several versions."""
    def __init__(self, w, versions, index, fates, options, kw):
        self.parts = {}
        addr = (HOSTS[index], 161)
        for v in versions:
            if v == 3:
                self.parts[v] = Agent(w, ENGINES[index],
                    [u for u in env.USERS.values() if u.name != b"desman"],
                    addr=addr, fates=fates,
                    options=options, **(kw or {}))
            else:
                self.parts[v] = ag.CommunityAgent(w, v, addr=addr, fates=fates,
                    options=options)

    def __call__(self, data, src, sock):
        try:
            v = data[4]         # every message here is short
            part = self.parts[data[4] if data[2] == 2 else data[5]]
        except (KeyError, IndexError):
            part = next(iter(self.parts.values()))
        part(data, src, sock)

def execute_of(apps, engine=(), fates=("ok",), options=None, agents=None,
        agent_kw=None, lines=True, collect=False, namespaces=(),
        preload=None, stall=None):
    versions = agents or [sorted({a.version for a in apps
        + tuple(x[1] for x in engine if x[0] == "manager") if a.agent == i})
        for i in range(1 + max([a.agent for a in apps]
            + [x[1].agent for x in engine if x[0] == "manager"]))]

    def execute(prefix):
        w = sched.World(prefix, lines=env.library_code if lines else None,
            step_limit=60000, wall=60.0)
        w.collects = collect
        w.stall = stall
        w.phase(False)
        state = {}
        def main():
            b = state["bench"] = Bench(w, versions, ("ok",), options, agent_kw)
            with env.snmp.Engine(defaultCommunity=b"public") as e:
                for u in env.USERS:
                    env.add_user(e, u)
                    for n in namespaces:
                        env.add_user(e, u, namespace=n)
                managers = []
                for app in apps:
                    m = b.manager(e, app)
                    managers.append(m)
                    if app.warm:
                        got = env.attempt(m.get, env.name(800 + app.agent),
                            wait=True)
                        if got != env.expected(800 + app.agent):
                            w.problem("warmup", f"a plain request ended {got}")
                if preload:
                    preload(w, b, e)
                for a in b.agents:
                    for part in a.parts.values():
                        part.fates = fates
                        part.received.clear()
                b.net.delivered.clear()
                b.net.sent.clear()
                done = []
                def body(m, app, c):
                    c.run(m[0], app.script)
                    c.handles.clear()
                    m.clear()
                    done.append(c)
                boxes = [[m] for m in managers]
                del managers, m
                clients = [b.client() for _ in apps]
                w.phase(True)
                own = [] if engine else [0]
                for i, app in enumerate(apps):
                    if i not in own:
                        w.spawn(lambda i=i: body(boxes[i], apps[i], clients[i]),
                            f"user{i + 1}")
                for i in own:
                    body(boxes[i], apps[i], clients[i])
                extra = 0
                for op in engine:
                    if op[0] == "user":
                        env.add_user(e, *op[1:2], **(op[2] if len(op) > 2 else {}))
                    elif op[0] == "sleep":
                        w.block(lambda: False, w.now + op[1], "sleep")
                    elif op[0] == "manager":
                        m = b.manager(e, op[1])
                        c = b.client()
                        extra += 1
                        body([m], op[1], c)
                        del m
                w.block(lambda: len(done) == len(apps) + extra, None, "the end")
                w.phase(False)
                # let the listener finish what it is doing
                w.block(lambda: False, w.now + 0.5, "settling")
                gc.collect()
                for id in ENGINES + (OTHER,):
                    if not e.usm.registerRemoteEngine(id, "elsewhere"):
                        w.problem("registration", f"after the last manager was"
                            f" gone, engine {id} cannot be used in another"
                            f" namespace")
        w.run(main)
        client.finish(w, None)
        b = state.get("bench")
        if b is not None and not w.problems:
            for c in b.clients:
                for a in b.agents:
                    for v, part in a.parts.items():
                        if v == 3:
                            c.gather_v3(b.net, [part])
                gather(c, b)
                for r in c.recs.values():
                    r.arrivals = sorted(set(r.arrivals))
                if stall is None:
                    c.judge_outcomes()
                for r in c.recs.values():
                    if r.got is not None and r.got[0] not in ("ok", "Timeout"):
                        w.problem("unexpected", f"request {r.k}: {r.got}")
                    if r.got is not None and r.got[0] == "ok" and (r.got
                            != env.expected(r.k) or not r.arrivals):
                        w.problem("wrong-answer", f"request {r.k}: {r.got}")
        w.outcome = tuple(c.outcome() for c in b.clients) if b else None
        return w
    return execute

def gather(c, b):
    """Community traffic, among that of other versions."""
    rb = client.rb
    for a in b.agents:
        for v, part in a.parts.items():
            if v == 3:
                continue
            for t, (community, pdu) in part.received:
                k = pdu[4][0][0][-2]
                if k in c.recs:
                    c.recs[k].sends.append(t)
    for t, fd, data, src in b.net.delivered:
        try:
            _, _, pdu = rb.dec_community_msg(data)
            k = pdu[4][0][0][-2]
        except (rb.RefError, IndexError):
            continue
        if k in c.recs and pdu[0] == rb.RESPONSE:
            c.recs[k].arrivals.append(t)

NOW = dict(ok=(0,), dup=(0, 0), tick=(1.0,), soon=(0.125,), dead=(2.0,),
    late=(1.125,))
S = dict(timeout=2.0)

def one(k, kw=S):
    return [("sync", k, kw)]

def kinds():
    """(name, App keywords)"""
    yield "v1", dict(version=0)
    yield "v2c", dict(version=1)
    yield "v3 cold", dict(version=3)
    yield "v3 priv", dict(version=3, user="hider")
    yield "v3 priv known", dict(version=3, user="hider", known=True)
    yield "v3 signer warm", dict(version=3, user="signer", warm=True)

def scenarios(ck):
    out = []
    deep = not ck.quick
    def add(name, apps, budget=None, **kw):
        budget = dict(dict(preempt=1, sched=0, tie=0, fate=0, gc=0),
            **(budget or {}))
        if deep:
            budget["sched"] += 1
        out.append(explore.Scenario(name, execute_of(tuple(apps), **kw), budget))
    K = dict(kinds())
    for name, k in K.items():
        # one application thread against the listener, answers at once
        add(f"{name} alone", [App(one(1), **k)], options=NOW)
        add(f"{name} alone twice", [App([("send", 1, S), ("send", 2, S),
            ("wait", 1), ("wait", 2)], **k)], options=NOW,
            fates=("ok", "dup"), budget=dict(fate=1 if deep else 0))
        add(f"{name} drop", [App([("send", 1, S), ("send", 2, S), ("drop", 1),
            ("wait", 2)], **k)], options=NOW)
        add(f"{name} lost", [App(one(1), **k)], options=NOW,
            fates=("ok", "lost"), budget=dict(fate=1, preempt=1, sched=1),
            lines=deep)
        # somebody is held up for a while, anywhere
        script = [("send", 1, dict(timeout=1.0)), ("wait", 1)] + one(2)
        held = dict(stall=0.75, budget=dict(stall=1, preempt=0))
        if deep or name != "v1":
            add(f"{name} stalling", [App(script, **k)], options=dict(NOW,
                ok=(0.375,)), **held)
        if deep:
            add(f"{name} stalling at the tick", [App(script, **k)],
                options=dict(NOW, ok=(1.0,)), **held)
            add(f"{name} stalling together", [App(script, **k), App(one(3),
                **dict(k, agent=1))], options=NOW, **held)
        # the answer meets a retransmission, or the deadline
        if k["version"] == 3 and (deep or name.startswith("v3 priv")):
            add(f"{name} spoofed at the deadline", [App([("send", 1, S),
                ("send", 2, S), ("wait", 1), ("wait", 2)], **k)], options=NOW,
                fates=("spoof",), budget=dict(tie=1))
            add(f"{name} spoofed, stalling", [App([("send", 1, S),
                ("wait", 1)] + one(2), **k)], options=NOW,
                fates=("spoof2",), stall=0.75, budget=dict(stall=1, preempt=0))
        if name == "v3 cold" and not deep:
            continue
        if deep or name != "v3 priv":
            add(f"{name} tick", [App(one(1, dict(timeout=3.0)), **k)], options=NOW,
                fates=("tick",) , budget=dict(tie=1))
        if deep or name != "v3 priv known":
            add(f"{name} deadline", [App(one(1, dict(timeout=2.0)) + one(2),
                **k)], options=NOW, fates=("dead",), budget=dict(tie=1))
    for a, b in itertools.combinations_with_replacement(K, 2):
        main = a == b or not deep and (a, b) in (("v1", "v2c"),
            ("v2c", "v3 priv"), ("v3 cold", "v3 priv"),
            ("v3 priv", "v3 priv known")) or deep
        if not main:
            continue
        add(f"{a} + {b}", [App(one(1), **K[a]), App(one(2), **K[b])],
            options=NOW)
        if deep or (a, b) in (("v2c", "v2c"), ("v3 cold", "v3 cold")):
            add(f"{a} + {b} sync 2", [App(one(1), **K[a]), App(one(2), **K[b])],
                options=NOW, lines=False, budget=dict(preempt=2,
                    sched=1 if deep else 0))
    for name in ("v2c", "v3 priv", "v3 priv known"):
        k = K[name]
        later = App(one(3), **dict(k, local="10.0.9.9"))
        same = App(one(3), **dict(k, agent=1))
        add(f"{name} + new local", [App(one(1), **k)],
            engine=[("manager", later)], options=NOW)
        if deep or name == "v2c":
            add(f"{name} soon + new local", [App(one(1), **k)],
                engine=[("manager", later)], options=dict(NOW, ok=(0.125,)))
        add(f"{name} + new manager", [App(one(1), **k)],
            engine=[("manager", same)], options=NOW)
        add(f"{name} + user", [App(one(1), **k)], engine=[("user",
            ag.User(b"extra", "sha", b"authsecret", "aes", b"privsecret")),
            ("user", ag.User(b"more", "md5", b"authsecret", "des",
                b"privsecret"))], options=NOW)
        if deep or name == "v3 priv known":
            add(f"{name} x3", [App(one(i), **dict(k, agent=i - 1)) for i in
            (1, 2, 3)], options=NOW, lines=deep, budget=dict(preempt=1,
                sched=1))
    # the last user of an engine leaves while somebody else comes
    for name in ("v3 cold", "v3 priv known"):
        for who in ("manager", "request"):
            if not deep and who == "request" and name != "v3 cold":
                continue
            gone = App([] if who == "manager" else one(1),
                **dict(K["v3 priv known"]))
            add(f"{who} leaves, {name} comes", [gone] + ([App(one(2), **K[name])]
                if name == "v3 cold" else []), options=NOW,
                engine=[("manager", App(one(2), **K[name]))]
                if name != "v3 cold" else (), budget=dict(sched=1))
    # garbage left by a failed request is collected at the worst moment
    D = dict(version=3, user="desman", level=0, known=True)
    for name in ("v3 cold", "v3 priv known"):
        add(f"{name} after a failure", [App([("fail", 1, S)], **D),
            App([("sleep", 2.5)] + one(2), **K[name])], options=NOW,
            collect=True, budget=dict(gc=1, preempt=0))
    # the application leaves a manager and a request in a garbage cycle
    def litter(*kinds):
        def preload(w, b, e):
            for k in kinds:
                m = b.manager(e, App((), **dict(K[k], warm=False)))
                cycle = [m, m.get(env.name(850)), m.get(env.name(851))]
                cycle.append(cycle)
                del m
        return preload
    U = [("user", ag.User(b"extra", "sha", b"authsecret"))]
    for litterer, name in (("v1", "v1"), ("v2c", "v2c"), ("v3 cold", "v3 cold"),
            ("v3 priv known", "v3 priv known"), ("v3 priv known", "v3 priv"),
            ("v3 priv known", "v3 signer warm")):
        app = App([("send", 1, S), ("send", 2, S), ("drop", 1), ("wait", 2)]
            if deep else one(1), **K[name])
        add(f"{name}, garbage of {litterer}", [app], options=NOW,
            engine=U if name == "v3 priv known" else (),
            preload=litter(litterer), collect=True,
            budget=dict(gc=1, preempt=0))
        if deep or name == "v3 signer warm":
            add(f"{name}, garbage of two {litterer}", [app], options=NOW,
                preload=litter(litterer, litterer), collect=True,
                budget=dict(gc=1, preempt=0))
    return out

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "CPython: a thread switch can happen between any two bytecodes; the"
        " exploration switches at source lines and at every synchronisation"
        " and socket operation",
        "within the documented contract: the engine is used by one thread, and"
        " each manager by one", explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
