"""E01: what the engine makes, shares and gives back."""
import errno
import itertools
import agent as ag
import client
import env
import explore
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
V4, V6 = "UDP_IPv4", "UDP_IPv6"
EPS = 1e-6
SYSTEMS = ("posix", "nt")
ENGINES = {"10.0.0.1": b"\x80\0\0\0\5one", "10.0.0.2": b"\x80\0\0\0\5two",
    "fd00::1": b"\x80\0\0\0\5six"}
OPTIONAL = ("absent", "none")

# Users of the default namespace and of another, where names mean other keys
TABLE = {
    "": {"signer": ag.User(b"signer", "sha", b"authsecret"),
        "hider": ag.User(b"hider", "sha256", b"authsecret", "aes",
            b"privsecret"),
        "plain": ag.User(b"plain")},
    "lab": {"signer": ag.User(b"signer", "md5", b"labsecret", "des",
            b"labprivate"),
        "guest": ag.User(b"guest")},
}

def warm():
    for users in TABLE.values():
        for u in users.values():
            for p in (u.apass, u.ppass):
                if p:
                    env.auth(u.auth).computeKey(p)

class Everyone(ag.V3Agent):
    """Speaks all versions; records whom it heard, in which terms."""
    def __init__(self, w, host, port=161, namespace="", **kw):
        super().__init__(w, engine=ENGINES[host], addr=(host, port),
            users=TABLE[namespace].values(), **kw)
        self.heard = {}             # k -> list of dict
        self.muted = False

    def __call__(self, data, src, sock):
        w = self.world
        try:
            version, community, pdu = rb.dec_community_msg(data)
            rec = dict(version=version, community=community)
            es, ei, vbs = ag.answer(pdu)
            out = [rb.enc_community_msg(version, community,
                rb.enc_pdu(rb.RESPONSE, pdu[1], es, ei, vbs))]
        except rb.RefError:
            req = self.decode(data)
            pdu = req.get("pdu")
            if req["engine"] == b"":
                pdu = None
            rec = dict(version=3, user=req["user"], level=req["flags"] & 3,
                maxsize=req["maxsize"], reportable=req["flags"] & 4)
            out = self.process(req)
        rec.update(src=src, fd=sock.fd)
        if pdu is not None and pdu[4]:
            self.heard.setdefault(pdu[4][0][0][-2], []).append(rec)
        if not self.muted:
            for raw in out:
                w.net.deliver_later(0.125, sock, raw, self.addr)

# ------------------------------------------------------------- engine and bench

class Bench:
    def __init__(self, w):
        self.w = w
        self.net = vnet.net()
        self.agents = {}
        for host, ns in (("10.0.0.1", ""), ("10.0.0.2", "lab"),
                ("fd00::1", "")):
            self.agent(host, 161, ns)
        self.k = 0

    def agent(self, host, port, namespace=""):
        a = Everyone(self.w, host, port, namespace)
        self.agents[(host, port)] = self.net.agents[(host, port)] = a
        return a

    def twin(self, host, other, namespace):
        """Another agent with the same engine ID, and another clock"""
        ENGINES[host] = ENGINES[other]
        a = self.agent(host, 161, namespace)
        a.boots, a.clock = 2, 50
        return a

    def next(self):
        self.k += 1
        return self.k

    def users(self, e, namespaces=("", "lab")):
        for ns in namespaces:
            for u in TABLE[ns].values():
                env.add_user(e, u, **({"namespace": ns} if ns else {}))

def kwargs(**kw):
    """Leave out what is absent."""
    return {k: None if v == "none" else v for k, v in kw.items()
        if not isinstance(v, str) or v != "absent"}

def domain(name):
    return getattr(env.snmp.transport.TransportDomain, name)

def version(n):
    s = env.snmp
    return {0: s.SNMPv1, 1: s.SNMPv2c, 3: s.SNMPv3}[n]

def make_execute(body, osname="posix"):
    """body(w, bench, choose) -> nothing; runs the engine itself."""
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=30000, wall=60.0)
        box = {"log": []}
        def main():
            b = Bench(w)
            def choose(name, options):
                i = w.choose(name, len(options))
                box["log"].append((name, options[i]))
                return options[i]
            box["bench"] = b
            body(w, b, choose)
            if b.net.fds:
                w.problem("descriptors", f"after the engine's context,"
                    f" descriptors {sorted(b.net.fds)} are still open: "
                    f"{box['log']}")
        w.run(main)
        if w.leftover:
            w.problem("threads", f"after the engine's context, threads are"
                f" still there: {[t.label for t in w.leftover]}")
        w.outcome = (tuple(map(str, box["log"])), w.steps,
            round(w.now - sched.START, 3))
        return w
    return execute

def said(a, k):
    return a.heard.get(k, [])

def ask(b, m, verb="get", addr=("10.0.0.1", 161), wait=True, **kw):
    """One request; -> (outcome, what the agent heard)"""
    k = b.next()
    got = env.attempt(getattr(m, verb), env.name(k), wait=wait, **kw)
    return k, got, said(b.agents[addr], k)

# ----------------------------------------------------------------- A: defaults

def first(*values):
    """The innermost value that was given."""
    for v in values:
        if not (isinstance(v, str) and v in OPTIONAL):
            return v

def communities(w, b, choose):
    s = env.snmp
    ev = choose("engine version", ["absent", 0, 1, 3])
    mv = choose("manager version", ["absent", "none", 0, 1])
    asint = choose("as", ["enum", "int"]) if mv in (0, 1) else "enum"
    ec = choose("engine community", ["absent", b"", b"eng"])
    mc = choose("manager community", ["absent", "none", b"", b"man"])
    rc = choose("request community", ["absent", "none", b"", b"req"])
    verb = choose("verb", ["get", "getNext"])
    want = first(mv, ev, 3)
    with s.Engine(**kwargs(defaultVersion=ev if ev == "absent" else version(ev),
            defaultCommunity=ec)) as e:
        if want == 3:
            return          # see the other scenarios
        if mv in (0, 1):
            mv = version(mv) if asint == "enum" else mv
        m = e.Manager("10.0.0.1", **kwargs(version=mv, community=mc))
        k, got, heard = ask(b, m, verb, **kwargs(community=rc))
        c = first(rc, mc, ec, b"")
        if got[0] != "ok" or len(heard) != 1:
            w.problem("request", f"ended with {got}; agent heard {heard}")
        elif (heard[0]["version"], heard[0]["community"]) != (want, c):
            w.problem("terms", f"the agent heard {heard[0]}, not version"
                f" {want}, community {c}")

def waiting(w, b, choose):
    s = env.snmp
    v = choose("version", [0, 1, 3])
    ea = choose("engine", ["absent", True, False])
    ma = choose("manager", ["absent", "none", True, False])
    ra = choose("request", ["absent", "none", True, False])
    verb = choose("verb", ["get", "getNext", "set"] + ["getBulk"] * (v > 0))
    with s.Engine(version(v), **kwargs(autowait=ea)) as e:
        b.users(e)
        m = e.Manager("10.0.0.1", **kwargs(autowait=ma))
        k = b.next()
        t0 = w.now
        arg = env.name(k)
        if verb == "set":
            arg = (arg, s.smi.Integer32(4))
        kw = dict(maxRepetitions=1) if verb == "getBulk" else {}
        r = getattr(m, verb)(arg, **kwargs(wait=ra), **kw)
        want = first(ra, ma, ea, True)
        handle = hasattr(r, "wait")
        if handle == want or handle and w.now != t0:
            w.problem("waiting", f"{verb}() {'returned a handle' if handle else 'waited'}")
        got = env.attempt(r.wait) if handle else ("ok", env.result(r))
        oid = ag.oid(k)
        val = 4 if verb == "set" else ag.value(oid)[1]
        if verb in ("getNext", "getBulk"):
            oid += (1,)
        if got != ("ok", ((oid, val),)):
            w.problem("request", f"{verb} ended with {got}")
        r = None

LEVELS = {"none0": 0, "auth": 1, "priv": 3}

def users(w, b, choose):
    """Who asks, at which level, in which namespace."""
    s = env.snmp
    ns = choose("namespace", ["absent", "", "lab"])
    n = first(ns, "")
    names = list(TABLE[n])
    order = choose("order", list(itertools.permutations(names)))
    flag = choose("default flag", ["nobody"] + names)
    dl = choose("addUser level", ["absent", 0, 1])
    mu = choose("manager user", ["absent", "none"] + names)
    ml = choose("manager level", ["absent", "none", 0, 1, 3])
    ru = choose("request user", ["absent", "none"] + names)
    rl = choose("request level", ["absent", "none", 0, 1, 3])
    host = "10.0.0.2" if n == "lab" else "10.0.0.1"
    def most(u):
        u = TABLE[n][u]
        return 3 if u.priv else 1 if u.auth else 0
    with s.Engine() as e:
        for other in TABLE:
            for u in (order if other == n else TABLE[other]):
                kw = {"namespace": other} if other else {}
                if other == n:
                    if flag == u:
                        kw["default"] = True
                    if dl != "absent" and dl <= most(u):
                        kw["defaultSecurityLevel"] = client.level_of(dl)
                env.add_user(e, TABLE[other][u], **kw)
        m = e.Manager(host, **kwargs(namespace=ns, defaultUserName=mu,
            defaultSecurityLevel=ml if ml in OPTIONAL else client.level_of(ml)))
        default = order[0] if flag == "nobody" else flag
        muser = first(mu, default)
        mlevel = first(ml, dl if dl != "absent" and dl <= most(muser)
            else most(muser))
        user = first(ru, muser)
        level = first(rl, mlevel)
        k, got, heard = ask(b, m, addr=(host, 161), **kwargs(user=ru
            if ru in OPTIONAL else ru.encode(), securityLevel=rl
            if rl in OPTIONAL else client.level_of(rl)))
        if level > most(user):
            if got[0] == "ok" or heard:
                w.problem("beyond", f"a request at level {level} of {user},"
                    f" who supports {most(user)}, ended with {got}")
            return
        if got != env.expected(k) or len(heard) != 1:
            w.problem("request", f"ended with {got}; the agent heard {heard}")
        elif (heard[0]["user"].decode(), heard[0]["level"]) != (user, level):
            w.problem("terms", f"the agent heard {heard[0]}, not user {user}"
                f" at level {level}")

LOCALS = {V4: ("absent", "none", "", "10.0.9.9", ("10.0.9.9", 0),
        ("10.0.9.9", 4000), ("0.0.0.0", 5000), ("", 5001)),
    V6: ("absent", "none", "", "fd00::9", ("fd00::9", 0), ("fd00::9", 4000),
        ("::", 5000), ("", 5001))}
REMOTE = {V4: ("10.0.0.1", ("10.0.0.1", 161), ("10.0.0.1", 1161)),
    V6: ("fd00::1", ("fd00::1", 161), ("fd00::1", 1161))}

def local_of(dom, local):
    """(host, port), as normalized"""
    host, port = local if isinstance(local, tuple) else (
        "" if local in OPTIONAL else local, 0)
    return host or ("0.0.0.0" if dom == V4 else "::"), port

def addresses(w, b, choose):
    s = env.snmp
    b.agent("10.0.0.1", 1161)
    b.agent("fd00::1", 1161)
    v = choose("version", [0, 1, 3])
    ed = choose("engine domain", ["absent", V4, V6])
    md = choose("manager domain", ["absent", "none", V4, V6])
    dom = first(md, ed, V4)
    to = choose("address", REMOTE[dom])
    local = choose("local", LOCALS[dom])
    with s.Engine(version(v), **kwargs(defaultDomain=ed if ed == "absent"
            else domain(ed))) as e:
        b.users(e)
        m = e.Manager(to, **kwargs(localAddress=local,
            domain=md if md in OPTIONAL else domain(md)))
        dest = to if isinstance(to, tuple) else (to, 161)
        k, got, heard = ask(b, m, addr=dest)
        if got != env.expected(k) or len(heard) != 1:
            w.problem("request", f"ended with {got}; the agent heard {heard}")
            return
        host, port = local_of(dom, local)
        src = heard[0]["src"]
        if src[0] != host or (port and src[1] != port):
            w.problem("source", f"was sent from {src}, not {host, port}")

def sizes(w, b, choose):
    """msgMaxSize is announced; messages up to that size are understood."""
    s = env.snmp
    v = choose("version", [0, 1, 3])
    size = choose("size", ["absent", 484, 485, 600, 1472, 1473, 9000, 65507])
    delta = choose("delta", [-1, 0])
    n = first(size, 1472)
    a = b.agents[("10.0.0.1", 161)]
    real = ag.answer
    def answer(pdu):
        es, ei, vbs = real(pdu)
        return es, ei, [(vbs[0][0], ("str", b"x" * box["fill"]))]
    box = {"fill": 0}
    with s.Engine(version(v), **kwargs(msgMaxSize=size)) as e:
        env.add_user(e, TABLE[""]["plain"])
        m = e.Manager("10.0.0.1")
        ask(b, m)               # so that nothing but the answer is in question
        if not b.net.delivered:
            w.problem("request", "the first request was not answered")
            return
        raw = b.net.delivered[-1][2]
        # same IDs, another value: find the fill that gives the length
        ag.answer = answer
        try:
            lo = n + delta - len(raw) - 40
            for fill in range(max(lo, 0), max(lo, 0) + 80):
                box["fill"] = fill
                k = b.next()
                before = len(b.net.delivered)
                a.muted = False
                h = m.get(env.name(k), wait=False, timeout=1.0)
                w.block(lambda: False, w.now + 0.25, "sleep")
                length = len(b.net.delivered[before][2])
                if length > n + delta:
                    h = None
                    break
                got = env.attempt(h.wait)
                h = None
                if got != ("ok", ((ag.oid(k), b"x" * fill),)):
                    w.problem("size", f"with msgMaxSize={size}, a response of"
                        f" {length} octets ended with {got[0]}")
                    break
        finally:
            ag.answer = real
        if v == 3:
            for k, recs in a.heard.items():
                if recs[0]["maxsize"] != n:
                    w.problem("maxsize", f"announced {recs[0]['maxsize']}")

# ------------------------------------------------- B: histories of one engine

GOOD = {        # name: (keywords, address)
    "v2c": dict(version=1),
    "v1": dict(version=0),
    "v3": dict(version=3),
    "v3 auth": dict(version=3, defaultUserName="signer"),
    "v3 lab": dict(version=3, to="10.0.0.2", namespace="lab"),
    "v2c bound": dict(version=1, localAddress=("10.0.9.9", 4000)),
    "v3 bound": dict(version=3, localAddress=("10.0.9.9", 4000)),
    "v2c port": dict(version=1, localAddress="10.0.9.9"),
    "v2c six": dict(version=1, to="fd00::1", domain=V6),
    "v3 six bound": dict(version=3, to="fd00::1", domain=V6,
        localAddress=("fd00::9", 4000)),
}
BAD = {         # name: (keywords, exceptions)
    "host": (dict(to="nowhere"), ("ValueError",)),
    "empty host": (dict(to=""), ("ValueError",)),
    "no host": (dict(to=None), ("ValueError", "TypeError", "ok")),
    "host type": (dict(to=17), ("TypeError",)),
    "port": (dict(to=("10.0.0.1", 65536)), ("ValueError",)),
    "port 0": (dict(to=("10.0.0.1", 0)), ("ValueError",)),
    "family": (dict(to="fd00::1"), ("ValueError",)),
    "local": (dict(version=1, localAddress="nowhere"), ("ValueError",)),
    "local family": (dict(version=1, localAddress="fd00::9"), ("ValueError",)),
    "local port": (dict(version=1, localAddress=("10.0.9.9", -1)),
        ("ValueError",)),
    "taken": (dict(version=1, localAddress=("10.0.9.9", 7000)), ("OSError",)),
    "version": (dict(version=2), ("ValueError",)),
    "version name": (dict(version="SNMPv2c"), ("ValueError",)),
    "version with local": (dict(version=7, localAddress=("10.0.9.9", 4000)),
        ("ValueError",)),
    "domain": (dict(domain="udp", version=1), ("ValueError",)),
    "model": (dict(version=3, securityModel=77), ("ValueError",)),
    "user": (dict(version=3, defaultUserName="nobody"), ("InvalidUserName",)),
    "namespace": (dict(version=3, namespace="nowhere"), ("ValueError",)),
    "clash": (dict(version=3, engineID=b"\x80\0\0\0\5held", namespace="lab"),
        ("DiscoveryError",)),
    "v3 community": (dict(version=3, community=b"x"), ("TypeError",)),
    "v2c user": (dict(version=1, defaultUserName="signer"), ("TypeError",)),
    "typo": (dict(version=3, defaultUsername="signer"), ("TypeError",)),
}

def create(e, spec):
    kw = {k: v for k, v in spec.items() if k not in ("to",)}
    if kw.get("domain") in (V4, V6):
        kw["domain"] = domain(kw["domain"])
    if kw.get("version") in (0, 1, 3):
        kw["version"] = version(kw["version"])
    return e.Manager(spec.get("to", "10.0.0.1"), **kw)

def key_of(spec):
    dom = spec.get("domain", V4)
    return dom, local_of(dom, spec.get("localAddress", "absent"))

class History:
    """The managers so far, and what each must look like on the network."""
    def __init__(self, w, b, e):
        self.w, self.b, self.e = w, b, e
        self.managers = []          # (name, spec, manager)
        self.fds = {}               # local address -> (descriptor, source)

    def create(self, name):
        w = self.w
        spec, fine = (GOOD[name], ("ok",)) if name in GOOD else BAD[name]
        m = None
        try:
            m = create(self.e, spec)
            got = "ok"
        except Exception as err:
            got = type(err).__name__
            exc = tuple(c.__name__ for c in type(err).__mro__)
            if not any(x in exc for x in fine):
                w.problem(f"create:{name}", f"Manager({spec}) raised {err!r},"
                    f" not {fine}")
            return False
        if "ok" not in fine:
            w.problem(f"create:{name}", f"Manager({spec}) did not raise {fine}")
        if name in GOOD:
            self.managers.append((name, spec, m))
        return True

    def use(self, together=True):
        """A request on every manager; all outstanding at the same time."""
        w, b = self.w, self.b
        sent = []
        for name, spec, m in self.managers:
            k = b.next()
            try:
                sent.append((name, spec, k, m.get(env.name(k), wait=False)))
            except Exception as err:
                w.problem(f"unusable:{name}", f"get() on a {name} manager"
                    f" raised {err!r}")
                return
        m = h = None
        for name, spec, k, h in reversed(sent):
            t0 = w.now
            got = env.attempt(h.wait)
            heard = said(b.agents[(spec.get("to", "10.0.0.1"), 161)], k)
            if got != env.expected(k) or len(heard) != 1:
                w.problem(f"unusable:{name}", f"a request of a {name} manager"
                    f" ended with {got}; the agent heard {heard}")
                return
            if heard[0]["version"] != spec["version"]:
                w.problem("version", f"{name}: heard {heard}")
            src, fd = heard[0]["src"], heard[0]["fd"]
            key = key_of(spec)
            old = self.fds.setdefault(key, (fd, src))
            if old != (fd, src):
                w.problem("sharing", f"two managers with the local address"
                    f" {key[1]} use {old} and {fd, src}")
            host, port = key[1]
            if src[0] != host or port and src[1] != port:
                w.problem("source", f"{name}: sent from {src}, not {key[1]}")
        del sent[:], h
        if len({fd for fd, src in self.fds.values()}) != len(self.fds):
            w.problem("sharing", f"different local addresses share a socket:"
                f" {self.fds}")

class Leave(Exception):
    pass

ENDINGS = ("with", "error", "shutdown", "pending", "interrupted", "twice")

def histories(length, palette):
    def body(w, b, choose):
        s = env.snmp
        # somebody else's socket
        other = env.snmp.transport.udp.UdpIPv4Socket("10.0.9.9", 7000)
        e = s.Engine()
        b.users(e)
        ending = choose("ending", ENDINGS)
        script = []
        for _ in range(length):
            script.append(choose("create", palette))
            if script[-1] == "-":
                break
        held = None
        if "clash" in script:
            held = e.Manager("10.0.0.1", engineID=b"\x80\0\0\0\5held")
        try:
            if ending == "shutdown":
                h = run_history(w, b, e, script)
                held = None
                e.shutdown()
            else:
                with e:
                    h = run_history(w, b, e, script)
                    held = None
                    if ending == "error":
                        raise Leave()
                    if ending == "twice":
                        e.shutdown()
                    if ending == "interrupted":
                        raise KeyboardInterrupt()
                    if ending == "pending":
                        for a in b.agents.values():
                            a.muted = True
                        keep = [m.get(env.name(b.next()), wait=False)
                            for _, _, m in h.managers]
        except Leave:
            if ending != "error":
                raise
        except KeyboardInterrupt:
            if ending != "interrupted":
                raise
        except sched.SchedAbort:
            raise
        except Exception as err:
            w.problem("leaving", f"leaving the context ({ending}) raised"
                f" {err!r}")
        left = [fd for fd, o in b.net.fds.items() if o is not other.socket]
        if left:
            w.problem("descriptors", f"after {script} and leaving the context"
                f" ({ending}), {len(left)} descriptors are still open")
        keep = h = None
        other.close()
    return body

def run_history(w, b, e, script):
    h = History(w, b, e)
    for name in script:
        if name == "-":
            break
        if w.problems:
            return h
        h.create(name)
        h.use()
    h.use()
    return h

# --------------------------------------------------------- many of everything

def crowd(n, each):
    """n local addresses, `each` managers of each, all used together"""
    def body(w, b, choose):
        kinds = {"v2c": ("10.0.0.1", V4, "10.0.9.9", 1),
            "v3": ("10.0.0.1", V4, "10.0.9.9", 3),
            "six": ("fd00::1", V6, "fd00::9", 1)}
        which = choose("kinds", [["v2c"], ["v3"], ["v2c", "six"],
            ["v2c", "v3", "six"]])
        order = choose("order", ["rounds", "runs", "back"])
        ending = choose("ending", ("with", "pending"))
        todo = [(kinds[k], 4000 + i) for k in which for i in range(n)]
        todo = (todo * each if order == "rounds" else
            [x for x in todo for _ in range(each)] if order == "runs" else
            todo + todo[::-1] * (each - 1))
        with env.snmp.Engine() as e:
            b.users(e)
            h = History(w, b, e)
            for i, ((to, dom, host, v), port) in enumerate(todo):
                spec = dict(version=v, to=to, domain=dom,
                    localAddress=(host, port))
                h.managers.append((f"#{i}", spec, create(e, spec)))
            h.use()
            h.use()
            if len(b.net.fds) > 4 + len(h.fds) * 3:
                w.problem("descriptors", f"{len(b.net.fds)} descriptors for"
                    f" {len(h.fds)} local addresses")
            if ending == "pending":
                for a in b.agents.values():
                    a.muted = True
                keep = [m.get(env.name(b.next()), wait=False)
                    for _, _, m in h.managers]
        if b.net.fds:
            w.problem("descriptors", f"{len(b.net.fds)} descriptors are left")
        keep = h = None
    return body

# ----------------------------------------------------------- one beside another

class Side:
    """One of several engines in this process"""
    def __init__(self, w, b, index, version, twin):
        self.w, self.b = w, b
        # the twin's agent has the same engine ID, other users and clock
        self.ns, self.host = (("", "10.0.0.1"), ("lab", "10.0.0.3"))[index]
        self.version = 0 if version == 0 else version
        self.twin = twin
        self.name = f"engine {index}"
        self.open()

    def open(self):
        self.e = env.snmp.Engine(version(self.version), **(
            {"defaultCommunity": self.ns.encode()} if self.version != 3
            else {}))
        if self.version == 3:
            for u in TABLE[self.ns].values():
                env.add_user(self.e, u)
        self.managers = [self.e.Manager(self.host)]
        if self.version == 3:
            self.managers.append(self.e.Manager(self.host,
                defaultUserName="signer"))

    def close(self):
        self.managers = []
        if self.e:
            self.e.shutdown()
        self.e = None

    def send(self):
        return [(k, m.get(env.name(k), wait=False))
            for m in self.managers for k in [self.b.next()]]

    def finish(self, sent):
        w = self.w
        for k, h in sent:
            t0 = w.now
            got = env.attempt(h.wait)
            heard = said(self.b.agents[(self.host, 161)], k)
            if got != env.expected(k) or len(heard) != 1:
                w.problem("dependent", f"a request of {self.name} ended with"
                    f" {got}; the agent heard {heard}")
                return
            if self.version != 3 and heard[0]["community"] != self.ns.encode():
                w.problem("dependent", f"{self.name}: heard {heard}")
        h = None
        del sent[:]

STEPS = ("use 0", "use 1", "both", "close 0", "new 0", "foreign")

def twins(length, versions):
    def body(w, b, choose):
        third = b.twin("10.0.0.3", "10.0.0.1", "lab")
        vs = choose("versions", versions)
        sides = [Side(w, b, i, v, third) for i, v in enumerate(vs)]
        for _ in range(length):
            step = choose("step", STEPS)
            what, _, i = step.partition(" ")
            if what != "new" and not sides[0].e and step != "use 1":
                continue
            if what == "use":
                sides[int(i)].finish(sides[int(i)].send())
            elif what == "both":
                sent = [s.send() for s in sides]
                for s, x in zip(sides, sent):
                    s.finish(x)
                s = x = sent = None
            elif what == "close":
                sides[int(i)].close()
            elif what == "new":
                sides[int(i)].close()
                sides[int(i)].open()
            elif what == "foreign" and 3 == sides[0].version and sides[0].e:
                # the other's users are unknown here
                try:
                    sides[0].e.Manager(sides[0].host, defaultUserName="guest")
                except ValueError:
                    pass
                else:
                    w.problem("dependent", "a user of one engine is known to"
                        " another")
            if w.problems:
                break
        for s in sides:
            s.close()
    return body

# ------------------------------ transports that the application opened itself

OWN = {"own": (V4, "10.0.9.9", 4000), "own other": (V4, "10.0.9.9", 4001),
    "own six": (V6, "fd00::9", 4000)}

def connected(length, palette):
    def body(w, b, choose):
        s = env.snmp
        udp = s.transport.udp
        used = set()            # domains
        ours = []               # sockets that the engine refused
        ending = choose("ending", ("with", "shutdown"))
        e = s.Engine()
        b.users(e)
        h = History(w, b, e)
        for _ in range(length):
            name = choose("step", palette)
            if name == "-":
                break
            if name in OWN:
                dom, host, port = OWN[name]
                try:
                    t = (udp.UdpIPv4Socket if dom == V4 else
                        udp.UdpIPv6Socket)(host, port)
                except OSError:
                    continue            # the address is in use
                try:
                    e.connectTransport(t)
                    got = "ok"
                except Exception as err:
                    got = type(err).__name__
                    ours.append(t)
                want = "ValueError" if dom in used else "ok"
                if got != want:
                    w.problem("connect", f"connectTransport({name}) after"
                        f" {sorted(used)} ended with {got}, not {want}")
                used.add(dom)
            else:
                spec = GOOD[name]
                taken = any(fam == (2 if spec.get("domain", V4) == V4 else 10)
                    and (hst, prt) == spec.get("localAddress")
                    for fam, hst, prt in b.net.bound) and not any(
                    n == name or key_of(sp) == key_of(spec)
                    for n, sp, _ in h.managers)
                try:
                    m = create(e, spec)
                except OSError as err:
                    if not taken:
                        w.problem("create", f"{name}: {err!r}")
                else:
                    if taken:
                        w.problem("create", f"{name} opened an address in use")
                    h.managers.append((name, spec, m))
                used.add(spec.get("domain", V4))
            if w.problems:
                break
            h.use()
        t = m = h = None
        if ending == "shutdown":
            e.shutdown()
        else:
            with e:
                pass
        for t in ours:
            t.close()
        if b.net.fds:
            w.problem("descriptors", f"{len(b.net.fds)} descriptors are still"
                " open after the engine was shut down")
    return body

# ------------------------------------------------------ C: resources run out

def faults(palette, length):
    """The n-th acquisition of a resource fails, whichever n."""
    def body(w, b, choose):
        s = env.snmp
        state = {"armed": False, "failed": []}
        def on_resource(kind):
            if state["armed"] and w.choose("fault", 2):
                state["failed"].append(kind)
                raise OSError(errno.EMFILE if kind != "bind"
                    else errno.EADDRNOTAVAIL, f"injected {kind} failure")
        b.net.on_resource = on_resource
        ending = choose("ending", ("with", "pending"))
        script = [choose("create", palette) for _ in range(length)]
        state["armed"] = True
        try:
            e = s.Engine()
        except OSError:
            if not state["failed"]:
                raise
            return              # nothing was made, nothing to close
        with e:
            b.users(e)
            h = History(w, b, e)
            for name in script:
                before = len(state["failed"])
                state["armed"] = True
                try:
                    m = create(e, GOOD[name])
                except OSError as err:
                    if len(state["failed"]) == before:
                        w.problem("create", f"{name}: {err!r}")
                        return
                    m = None
                else:
                    if len(state["failed"]) != before:
                        w.problem("swallowed", f"Manager({name}) succeeded"
                            f" although {state['failed']} failed")
                state["armed"] = False
                h.use()             # the others still work
                if m is None:
                    # and so does another attempt
                    h.create(name)
                else:
                    h.managers.append((name, GOOD[name], m))
                h.use()
                if w.problems:
                    return
            if ending == "pending":
                for a in b.agents.values():
                    a.muted = True
                keep = [m.get(env.name(b.next()), wait=False)
                    for _, _, m in h.managers]
    return body

# -------------------------------------------------------------------- scenarios

DEFAULTS = {"communities": communities, "waiting": waiting, "users": users,
    "addresses": addresses, "sizes": sizes}
FREE = {"sched": 0, "tie": 0}

def scenarios(ck, osname):
    deep = not ck.quick
    out = []
    def add(name, body, **budget):
        out.append(explore.Scenario(f"{osname}: {name}",
            make_execute(body, osname), dict(FREE, **budget)))
    for name, body in DEFAULTS.items():
        if osname == "posix" and (deep or name != "users"):
            add(name, body)
    if osname == "posix" and not deep:
        # up to three of the choices differ from "not given"
        add("users", users, **{"*": 4, "namespace": 1, "order": 1,
            "default flag": 1, "addUser level": 1, "manager user": 1,
            "manager level": 1, "request user": 1, "request level": 1})
    every = list(GOOD) + list(BAD)
    add("all pairs", histories(2, ["-"] + every),
        **({} if deep or osname == "posix" else {"ending": 0}))
    add("managers", histories(3, list(GOOD)), **({} if deep else {"ending": 0}))
    add("mistakes", histories(3, list(BAD) + ["v2c", "v3 bound"]),
        **({} if deep else {"ending": 0, "create": 2}))
    for n, each in ((5, 2), (12, 3)) + ((30, 4),) * deep:
        add(f"crowd {n} {each}", crowd(n, each))
    both = ((3, 3), (3, 1), (1, 3), (1, 0))
    add("own sockets", connected(4 if deep else 3, ["-"] + list(OWN) + ["v2c",
        "v3 auth", "v2c bound", "v3 bound", "v2c six"]))
    add("twins", twins(5 if deep else 3, both))
    add(f"faults {3 if deep else 2}", faults(list(GOOD), 3 if deep else 2),
        fault=2 if deep else 1)
    if deep:
        add("long", histories(4, list(GOOD)), ending=0)
    return out

def run(ck):
    for osname in SYSTEMS:
        env.load(osname)
        warm()
        explore.explore(ck, scenarios(ck, osname))
    ck.assumptions = ["local addresses are the same when their normalized texts"
        " and ports are", "several managers of one agent are used here although"
        " the documentation advises one", "the sizes of sockets' kernel buffers"
        " are not modelled", explore.MODEL_NOTE]

def replay(ck, data):
    osname = data["scenario"].split(":")[0]
    env.load(osname)
    warm()
    ck.quick = False
    deep = scenarios(ck, osname)
    ck.quick = True
    return explore.replay(deep + scenarios(ck, osname), data)
