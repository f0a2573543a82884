"""M07: requests that have ended leave nothing behind; strays are ignored."""
import collections
import errno
import itertools
import sys
import types
import agent as ag
import client
import env
import explore
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
HOST = "10.0.0.1"
ENGINE = b"\x80\0\0\0\5agent"
SPOOF = b"\x80\0\0\0\5spoof"
LONG = 40               # rounds to which suspicious growth must extend
EPS = 1e-6

# ------------------------------------------------------------------- the census

SKIP = (types.ModuleType, type, types.FrameType, types.CodeType, str, bytes,
    int, float, bool, type(None), types.BuiltinFunctionType, property)

def entries(o):
    return o.values() if isinstance(o, dict) else o

CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque)

def library_type(t):
    return any(c.__module__.split(".")[0] == "snmp" for c in t.__mro__)

def roots():
    """Module-level and class-level mutable state of the library."""
    for name, mod in sorted(sys.modules.items()):
        if mod is None or name.split(".")[0] != "snmp":
            continue
        for k, v in vars(mod).items():
            if k.startswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__ == name:
                    for a, x in vars(v).items():
                        if not a.startswith("__"):
                            yield f"{name}.{k}.{a}", x
            elif not isinstance(v, SKIP) and not (isinstance(v,
                    types.FunctionType) and v.__closure__ is None
                    and not v.__defaults__):
                yield f"{name}.{k}", v

def census(*live):
    """-> Counter of what is reachable: instances by type, container sizes."""
    out = collections.Counter()
    seen = set()
    todo = [("", o) for o in live] + list(roots())
    while todo:
        where, o = todo.pop()
        if isinstance(o, SKIP) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, CONTAINERS):
            out["size of " + where] += len(o)
            if isinstance(o, dict):
                todo += [(where + " key", x) for x in o.keys()]
            todo += [(where + "[]", x) for x in entries(o)]
            if type(o) in CONTAINERS:
                continue
        if isinstance(o, types.MethodType):
            todo.append((where, o.__self__))
            continue
        if isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    todo.append((where + " closure", c.cell_contents))
                except ValueError:
                    pass
            todo += [(where + " default", x) for x in (o.__defaults__ or ())]
            attrs = vars(o)
        elif library_type(type(o)):
            out["instances of " + type(o).__qualname__] += 1
            where = type(o).__qualname__
            attrs = getattr(o, "__dict__", {})
            for c in type(o).__mro__:
                for s in c.__dict__.get("__slots__", ()):
                    if s != "__weakref__" and hasattr(o, s):
                        todo.append((f"{where}.{s}", getattr(o, s)))
        elif type(o).__module__.split(".")[0] in ("vnet", "sched"):
            continue
        else:
            attrs = getattr(o, "__dict__", {})
            if hasattr(o, "__self__"):
                todo.append((where, o.__self__))
        if isinstance(attrs, dict):
            todo += [(f"{where}.{k}", x) for k, x in attrs.items()]
    return out

# ----------------------------------------------------------------------- agents

class Plan:
    """What happens to the n-th transmission of request k (see OPS)."""
    def __init__(self, w):
        self.w = w
        self.plan = {}              # k -> list of what to do, the last repeats
        self.count = collections.Counter()
        self.sends = []             # (time, k)
        self.silent = False

    def fate(self, k):
        n = self.count[k]
        self.count[k] += 1
        p = self.plan.get(k, ("ok",))
        return p[min(n, len(p) - 1)]

DELAYS = {"ok": (0.125,), "dup": (0.125, 0.125), "dup2": (0.125, 0.5),
    "slow": (1.25,), "lost": ()}

class Community(ag.CommunityAgent):
    def __call__(self, data, src, sock):
        self.sock = sock
        req = self.decode(data)
        k = req[1][4][0][0][-2]
        p = self.plan
        p.sends.append((self.world.now - sched.START, k))
        fate = p.fate(k)
        for d in DELAYS[fate]:
            for raw in self.process(req):
                self.world.net.deliver_later(d, sock, raw, self.addr)

class V3(ag.V3Agent):
    def __call__(self, data, src, sock):
        self.sock = sock
        w = self.world
        req = self.decode(data)
        vbs = req["pdu"][4] if "pdu" in req else ()
        k = vbs[0][0][-2] if vbs else 0
        p = self.plan
        p.sends.append((w.now - sched.START, k))
        if k == 0 or req["engine"] != self.engine:
            out = [] if p.silent else self.process(req)
            delays = DELAYS["ok"]
        else:
            fate = p.fate(k)
            name, _, arg = fate.partition(":")
            if name == "report":
                auth, which = arg.split(",")
                out = self.exception(req, int(auth), which)
                delays = DELAYS["ok"]
            elif name == "reboot":
                self.boots += 1
                self.clock = 3 - int(w.now - sched.START)
                out = self.process(req)
                delays = DELAYS["ok"]
            else:
                delays = DELAYS[fate]
                out = self.process(req) if delays else []
        for d in delays:
            for raw in out:
                w.net.deliver_later(d, sock, raw, self.addr)

    def exception(self, req, auth, which):
        if which == "alien":
            pdu = rb.enc_pdu(rb.REPORT, req["pdu"][1], 0, 0,
                [(ag.oid(77), ("c32", 1))])
            return [self.message(req, pdu, req["flags"] & 3 if auth else 0)]
        return self.report(req, which, req["flags"] & 3 if auth else 0)

# ---------------------------------------------------------------- the operations

SHORT = dict(timeout=1.0, refreshPeriod=0.5)

class Driver:
    def __init__(self, w, e, net, agent, config):
        self.w = w
        self.e = e
        self.net = net
        self.agent = agent
        self.config = config
        self.plan = agent.plan
        self.k = 0
        self.ended = {}             # k -> time at which the request ended
        self.kept = None            # the handles the application hangs on to

    def new(self, *plan):
        self.k = self.k % 890 + 1
        self.ended.pop(self.k, None)
        self.plan.plan[self.k] = plan or ("ok",)
        self.plan.count.pop(self.k, None)
        return self.k

    def end(self, *ks):
        for k in ks:
            self.ended[k] = self.w.now - sched.START

    def sleep(self, s):
        self.w.block(lambda: False, self.w.now + s, "sleep")

    def check(self, op, got, *want):
        if got not in want:
            self.w.problem(f"outcome:{op}", f"{op} ended with {got}, not"
                f" {' or '.join(map(str, want))}")

    def sync(self, m, op, k, want, **kw):
        if self.kept is None:
            got = env.attempt(m.get, env.name(k), wait=True, **kw)
        else:
            h = m.get(env.name(k), wait=False, **kw)
            self.kept.append(h)
            got = env.attempt(h.wait)
        self.end(k)
        self.check(op, got, *want)

    # -- endings of requests
    def op_ok(self, m):
        k = self.new()
        self.sync(m, "ok", k, [env.expected(k)])

    def op_error(self, m):
        self.sync(m, "error", 905, [env.expected(905)])

    def op_lost(self, m):
        k = self.new("lost")
        self.sync(m, "lost", k, [("Timeout",)], **SHORT)

    def op_many(self, m):
        """many transmissions, and none is answered"""
        k = self.new("lost")
        self.sync(m, "many", k, [("Timeout",)], timeout=4.0, refreshPeriod=0.5)

    def op_retrans(self, m):
        k = self.new("lost", "ok")
        self.sync(m, "retrans", k, [env.expected(k)])

    def op_retrans2(self, m):
        """both transmissions are answered, the first of them late"""
        k = self.new("slow", "ok")
        self.sync(m, "retrans2", k, [env.expected(k)])

    def op_late(self, m):
        k = self.new("slow")
        self.sync(m, "late", k, [("Timeout",), env.expected(k)], **SHORT)

    def op_dup(self, m):
        k = self.new("dup")
        self.sync(m, "dup", k, [env.expected(k)])

    def op_dup2(self, m):
        k = self.new("dup2")
        self.sync(m, "dup2", k, [env.expected(k)])

    def op_drop(self, m):
        k = self.new()
        h = m.get(env.name(k), wait=False)
        del h
        self.end(k)

    def op_dropped_answered(self, m):
        k = self.new()
        h = m.get(env.name(k), wait=False)
        self.sleep(0.75)
        del h
        self.end(k)

    def op_stale(self, m):
        k = self.new("lost")
        h = m.get(env.name(k), wait=False, **SHORT)
        self.sleep(1.5)
        got = env.attempt(h.wait)
        del h
        self.end(k)
        self.check("stale", got, ("Timeout",))

    def op_forgotten(self, m):
        """dropped after its deadline, without ever waiting"""
        k = self.new("lost")
        h = m.get(env.name(k), wait=False, **SHORT)
        self.sleep(1.5)
        del h
        self.end(k)

    def op_unsendable(self, m):
        def refuse(*a):
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        self.net.on_send = refuse
        k = self.new()
        got = env.attempt(m.get, env.name(k), wait=True, **SHORT)
        self.net.on_send = None
        self.end(k)
        self.check("unsendable", got, ("OSError",), ("Timeout",))

    def op_two(self, m):
        a, b = self.new(), self.new()
        ha = m.get(env.name(a), wait=False)
        hb = m.get(env.name(b), wait=False)
        got = env.attempt(hb.wait)
        del hb
        self.end(b)
        self.check("two", got, env.expected(b))
        got = env.attempt(ha.wait)
        del ha
        self.end(a)
        self.check("two", got, env.expected(a))

    def op_two_drop(self, m):
        a, b = self.new(), self.new()
        ha = m.get(env.name(a), wait=False)
        hb = m.get(env.name(b), wait=False)
        del ha
        self.end(a)
        got = env.attempt(hb.wait)
        del hb
        self.end(b)
        self.check("two-drop", got, env.expected(b))

    def op_three_lost(self, m):
        ks = [self.new("lost") for i in range(3)]
        hs = [m.get(env.name(k), wait=False, timeout=0.75 + i / 4,
            refreshPeriod=0.5) for i, k in enumerate(ks)]
        got = env.attempt(hs[2].wait)
        self.check("three-lost", got, ("Timeout",))
        hs.clear()
        self.end(*ks)

    def op_bulk(self, m):
        """the other kinds of request"""
        k = self.new()
        got = env.attempt(m.getNext, env.name(k), wait=True)
        self.check("next", got, ("ok", ((ag.oid(k) + (1,),
            ag.value(ag.oid(k))[1]),)))
        got = env.attempt(m.set, (env.name(k), env.snmp.smi.Integer32(3)),
            wait=True)
        self.check("set", got, ("ok", ((ag.oid(k), 3),)))
        self.end(k)

    # -- SNMPv3 only
    def op_silent(self, m):
        """nobody is there"""
        self.plan.silent = True
        k = self.new("lost")
        self.sync(m, "silent", k, [("Timeout",)], **SHORT)
        self.plan.silent = False

    def op_silent_drop(self, m):
        self.plan.silent = True
        a, b = self.new("lost"), self.new("lost")
        ha = m.get(env.name(a), wait=False, **SHORT)
        hb = m.get(env.name(b), wait=False, **SHORT)
        del ha, hb
        self.end(a, b)
        self.plan.silent = False

    def op_report(self, m):
        k = self.new("report:1,alien")
        auth = self.config["level"] != 0
        self.sync(m, "report", k, [("UnrecognizedReport",)], **SHORT)

    def op_hint(self, m):
        k = self.new("report:0,wrongDigest")
        self.sync(m, "hint", k, [("WrongDigestReport",)], **SHORT)

    def op_hint_ok(self, m):
        """an unauthenticated report, and then the answer"""
        k = self.new("report:0,unknownUserName", "ok")
        self.sync(m, "hint-ok", k, [env.expected(k)], timeout=2.0,
            refreshPeriod=0.5)

    def op_unsupported(self, m):
        k = self.new()
        got = env.attempt(m.get, env.name(k), wait=True, user=b"plain",
            securityLevel=client.level_of(1), **SHORT)
        self.end(k)
        if got[0] == "ok":
            self.w.problem("outcome:unsupported", f"ended with {got}")

    def op_stranger(self, m):
        k = self.new()
        got = env.attempt(m.get, env.name(k), wait=True, user=b"stranger",
            **SHORT)
        self.end(k)
        if got[0] == "ok":
            self.w.problem("outcome:stranger", f"ended with {got}")

    def op_reboot(self, m):
        k = self.new("reboot", "ok")
        self.sync(m, "reboot", k, [env.expected(k)])

OPS = ("ok error lost many retrans retrans2 late dup dup2 drop dropped_answered"
    " stale forgotten unsendable two two_drop three_lost bulk").split()
V3OPS = "silent silent_drop report hint hint_ok unsupported stranger".split()

# ------------------------------------------------------------------- executions

def names_of(config):
    ops = list(OPS)
    if config["version"] == 3:
        ops += V3OPS
        if config["level"]:
            ops += ["reboot"]
    return ops

def execute_of(config, fresh, length, rounds, kept=False):
    ops = names_of(config)

    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=60000, wall=60.0)
        s = env.snmp
        box = {}
        def main():
            net = vnet.net()
            plan = Plan(w)
            if config["version"] == 3:
                agent = V3(w, engine=ENGINE, users=[env.USERS[n] for n in
                    ("plain", "signer", "hider")])
            else:
                agent = Community(w, config["version"])
            agent.plan = plan
            net.agents[agent.addr] = agent
            with s.Engine(defaultCommunity=b"public") as e:
                d = Driver(w, e, net, agent, config)
                box["d"] = d
                if kept:
                    d.kept = []
                kw = {}
                if config["version"] == 3:
                    version = s.SNMPv3
                    for n in ("plain", "signer", "hider"):
                        env.add_user(e, n)
                        env.add_user(e, n, namespace="elsewhere")
                    kw.update(defaultUserName=config["user"],
                        defaultSecurityLevel=client.level_of(config["level"]))
                    if config["known"]:
                        kw.update(engineID=ENGINE)
                else:
                    version = (s.SNMPv1, s.SNMPv2c)[config["version"]]
                def make(**more):
                    return e.Manager(HOST, version, autowait=False,
                        **dict(kw, **more))
                script = [ops[w.choose("op", len(ops))] for _ in range(length)]
                box["script"] = script
                counts = []
                m = None
                n = 0
                while n < rounds or n < LONG and growing(counts):
                    n += 1
                    if m is None:
                        m = make()
                    for op in script:
                        getattr(d, "op_" + op)(m)
                        if w.problems:
                            return
                    d.op_ok(m)
                    d.sleep(3.0)
                    if fresh:
                        m = None
                        if config["version"] == 3 and n % 2 == 0:
                            elsewhere(make, d, script)
                            if w.problems:
                                return
                    counts.append(census(e, m))
                box["rounds"] = n
                for key in growing(counts):
                    w.problem("growth", f"{key} grows: "
                        f"{[c[key] for c in counts]} in rounds of {script}")
                if w.problems:
                    return
                if m is None:
                    m = make()
                strays(d, m, script)
                m = None
                if kept:
                    d.kept.clear()
                if config["version"] == 3:
                    elsewhere(make, d, script)
                    if kept:
                        d.kept.clear()
                    # whoever has the ID can be succeeded by the first one
                    m = make()
                    d.op_ok(m)
                    m = None
        w.run(main)
        if w.leftover:
            w.problem("leftover", "threads left over after shutdown")
        d = box.get("d")
        if d is not None and not w.problems:
            sends_after_end(w, d)
        w.outcome = (tuple(box.get("script", ())), box.get("rounds"),
            len(d.plan.sends) if d else None, round(w.now - sched.START, 3))
        return w
    return execute

def growing(counts):
    """What has grown in each of the last three rounds."""
    if len(counts) < 4:
        return []
    last = counts[1:] if len(counts) > 4 else counts[-3:]
    return sorted(k for k in last[-1]
        if all(a[k] < b[k] for a, b in zip(last, last[1:])))

def elsewhere(make, d, script):
    """The engine ID is usable under another namespace, now that the last
    manager and request that used it are gone."""
    try:
        m = make(namespace="elsewhere", engineID=ENGINE)
    except Exception as err:
        d.w.problem("registration", f"after {script}, all handles and managers"
            f" gone, the engine ID cannot be used elsewhere: {err!r}")
        return
    k = d.new()
    d.sync(m, "elsewhere", k, [env.expected(k)])

def sends_after_end(w, d):
    for t, k in d.plan.sends:
        if k in d.ended and k < 900 and t > d.ended[k] + EPS:
            w.problem("undead", f"request {k} ended at {d.ended[k]} but was"
                f" sent again at {t}")

def strays(d, m, script):
    """Everything ever received is received again, and more for ended IDs."""
    w, net = d.w, d.net
    d.op_ok(m)
    sock = d.agent.sock
    seen = list(dict.fromkeys(data for t, fd, data, src in net.delivered))[-16:]
    more = []
    if d.config["version"] == 3:
        users = {n.encode(): env.USERS[n] for n in ("plain", "signer", "hider")}
        for data in seen[-4:]:
            try:
                msg = rb.dec_v3(data)
            except rb.RefError:
                continue
            for which in ("unknownEngineID", "notInTimeWindow",
                    "unsupportedSecLevel"):
                for engine in (ENGINE, SPOOF):
                    pdu = rb.enc_pdu(rb.REPORT, 0, 0, 0, [(ag.USM_STATS
                        + (ag.STATS[which], 0), ("c32", 1))])
                    more.append(ag.build_v3(msg["msgid"], 0, engine, 1, 1,
                        msg["user"], pdu))
            user = users.get(msg["user"])
            if user is not None:
                # the agent's own answer, for whatever that ID had asked
                level = 1 if user.auth else 0
                pdu = rb.enc_pdu(rb.RESPONSE, 5, 2, 1, [(ag.oid(1), ("int", 3))])
                more.append(ag.build_v3(msg["msgid"], level, ENGINE,
                    d.agent.boots, d.agent.time(), msg["user"], pdu, keys=user))
    for data in seen + more:
        net.deliver(sock, data, (HOST, 161))
    d.sleep(0.5)
    for op in ("ok", "two"):
        d.plan.sends.clear()
        t0 = w.now
        getattr(d, "op_" + op)(m)
        n = 2 if op == "two" else 1
        if w.problems:
            return
        if len(d.plan.sends) != n or w.now - t0 > 0.125 + EPS:
            w.problem("strays", f"after stray messages for ended requests"
                f" ({script}), {n} requests took {len(d.plan.sends)}"
                f" transmissions and {w.now - t0} s")
            return

# -------------------------------------------------------------------- scenarios

def configs():
    yield "v1", dict(version=0, level=0)
    yield "v2c", dict(version=1, level=0)
    for user, level in (("plain", 0), ("signer", 1), ("hider", 2)):
        for known in (False, True):
            yield f"{user}{' known' if known else ''}", dict(version=3,
                user=user, level=level, known=known)

def scenarios(ck):
    deep = not ck.quick
    return [explore.Scenario(f"{name}, {'a manager per round' if fresh else 'one manager'}",
        execute_of(config, fresh, 3 if deep else 2, 4), {"sched": 0, "tie": 0})
        for name, config in configs() for fresh in (False, True)] + [
        explore.Scenario(f"{name}, handles kept", execute_of(config, False,
        2 if deep else 1, 4, True), {"sched": 0, "tie": 0})
        for name, config in configs()]

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = ["one application thread; the census counts library"
        " objects and container entries reachable from the engine, its"
        " managers and the library's modules; only what grows in every round,"
        f" up to round {LONG}, counts as accumulating", explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    n = len([c for c in data["prefix"] if c[0] == "op"])
    ck.quick = n < 2 if "kept" in data["scenario"] else n < 3
    return explore.replay(scenarios(ck), data)
