"""D03: no datagram or receive error ever stops reception."""
import errno
import agent as ag
import client
import env
import explore
import refber as rb
import sched
import vnet

LEVEL = "model_checking"
GAP = 0.125
ENGINE = b"\x80\0\0\0\5agent"
HOST = ("10.0.0.1", 161)
KINDS = ("v1", "v2c", "plain", "hider")     # kinds of requests outstanding
FINE = {"ok", "error", "Timeout", "UnsupportedSecurityLevelReport",
    "UnknownUserNameReport", "WrongDigestReport", "DecryptionErrorReport",
    "UnrecognizedReport"}

class Quiet(ag.V3Agent):
    """Both a v1/v2c and a v3 agent; answers only when told."""
    quiet = False

    def __init__(self, w, **kw):
        super().__init__(w, **kw)
        self.last = None

    def __call__(self, data, src, sock):
        req, reply = self.answer_to(data)
        self.last = (sock, reply, req)
        if not self.quiet:
            for r in reply:
                self.world.net.deliver_later(GAP, sock, r, self.addr)

    def answer_to(self, data):
        try:
            version, community, pdu = rb.dec_community_msg(data)
        except rb.RefError:
            req = self.decode(data)
            return req, self.process(req)
        es, ei, vbs = ag.answer(pdu)
        return (version, community, pdu), [rb.enc_community_msg(version,
            community, rb.enc_pdu(rb.RESPONSE, pdu[1], es, ei, vbs))]

# ------------------------------------------------------------ hostile datagrams

VALUES = (0x00, 0x01, 0x7f, 0x80, 0x81, 0x84, 0xff, 0x30)

def size_mutations(n, deep):
    return n + n * (255 if deep else len(VALUES)) + n + n

def mutation(raw, i, deep):
    """The i-th truncation, octet replacement, insertion or deletion."""
    n = len(raw)
    if i < n:
        return raw[:i]
    i -= n
    m = 255 if deep else len(VALUES)
    if i < n * m:
        k, j = divmod(i, m)
        v = (raw[k] + 1 + j) % 256 if deep else VALUES[j] if (
            raw[k] != VALUES[j]) else raw[k] ^ 0x10
        return raw[:k] + bytes([v]) + raw[k + 1:]
    i -= n * m
    if i < n:
        return raw[:i] + raw[i + 1:]
    i -= n
    return raw[:i] + b"\x80" + raw[i:]

def fields_v1(req):
    """Well-formed community messages with odd fields."""
    version, community, pdu = req
    base = dict(version=version, community=community, tag=rb.RESPONSE,
        id=pdu[1], es=0, ei=0, vbs=[(ag.oid(1), ("int", 1))])
    odd = [("version", v) for v in (0, 1, 2, 3, 4, 127, 128)]
    odd += [("community", c) for c in (b"", b"x" * 255, b"\xff\xfe", b"y" * 1300)]
    odd += [("tag", t) for t in (*range(0xa0, 0xac), 0x30, 0x02, 0x80)]
    odd += [("id", i) for i in (0, 1, -1, (1 << 31) - 1, -(1 << 31))]
    odd += [("es", i) for i in (*range(1, 20), -1, 255, (1 << 31) - 1)]
    odd += [("ei", i) for i in (-1, 1, 2, 3, (1 << 31) - 1, -(1 << 31))]
    odd += [("vbs", v) for v in ODD_VBS]
    out = []
    for k, v in odd:
        f = dict(base, **{k: v})
        out.append((f"{k}={v!r}"[:60], rb.enc_community_msg(f["version"],
            f["community"], rb.enc_pdu(f["tag"], f["id"], f["es"], f["ei"],
                f["vbs"]))))
        if k == "ei":
            f["es"] = 5
            out.append((f"es=5 {k}={v!r}"[:60], rb.enc_community_msg(
                f["version"], f["community"], rb.enc_pdu(f["tag"], f["id"],
                    f["es"], f["ei"], f["vbs"]))))
    return out

O = (1, 3, 6, 1)
ODD_VBS = [[], [(O, ("null",))], [(O, ("str", b"\xff" * 200))],
    [(O, ("oid", (0, 0)))], [((0, 0), ("int", -(1 << 31)))],
    [((2, 39) + (2**32 - 1,) * 10, ("c64", 2**64 - 1))],
    [(O, ("ip", b"\0\0\0\0"))], [(O, ("opq", b"\x9f\x78\4\0\0\0\0"))],
    [((1, 3) + (1,) * 126, ("tt", 2**32 - 1))], [(O, ("int", 1))] * 60]

def fields_v3(req, keys, signed):
    """v3 messages with odd fields, unsigned or signed by the engine."""
    flags = req["flags"] & 3 if signed else 0
    base = dict(msgid=req["msgid"], flags=flags, engine=ENGINE,
        user=req["user"], ctxengine=ENGINE, context=b"", maxsize=1472, model=3,
        tag=rb.RESPONSE, reqid=1, es=0, ei=0, vbs=[(ag.oid(1), ("int", 1))],
        boots=5, time=1000)
    odd = [("msgid", v) for v in (0, 1, -1, 2**31 - 1)]
    odd += [("context", c) for c in (b"x", b"\xff" * 40)]
    odd += [("ctxengine", c) for c in (b"", b"x" * 33)]
    odd += [("tag", t) for t in (*range(0xa0, 0xac), 0x30, 0x02)]
    odd += [("reqid", i) for i in (0, -1, (1 << 31) - 1, -(1 << 31))]
    odd += [("es", i) for i in (*range(1, 20), -1, 255, (1 << 31) - 1)]
    odd += [("ei", i) for i in (-1, 1, 2, 3, (1 << 31) - 1)]
    odd += [("vbs", v) for v in ODD_VBS]
    odd += [("maxsize", i) for i in (0, 483, 484, 65507, 2**31 - 1, -1)]
    odd += [("model", i) for i in (0, 1, 2, 4, 255, -1, 2**31 - 1)]
    if not signed:
        odd += [("flags", i) for i in (1, 2, 3, 4, 5, 6, 7, 8, 0xff)]
        odd += [("engine", e) for e in (b"", b"x", b"\0" * 12, b"e" * 33,
            b"z" * 200)]
        odd += [("user", u) for u in (b"", b"\xff\xfe", b"u" * 33, b"v" * 300)]
        odd += [("boots", i) for i in (-1, 0, 2**31 - 1)]
        odd += [("time", i) for i in (-1, 0, 2**31 - 1)]
        odd += [("macpriv", i) for i in ((b"", b""), (b"x", b""),
            (bytes(12), b"12345678"), (bytes(24), b"1234567"), (bytes(200), b""))]
    # reports: every counter, odd bindings
    reports = [[(ag.USM_STATS + (i, 0), ("c32", 1))] for i in range(0, 8)] + [
        [], [(O, ("c32", 1))], [(O, ("null",))],
        [(ag.USM_STATS + (4, 0), ("str", b"\xff"))]]
    odd += [("report", v) for v in reports]
    out = []
    for k, v in odd:
        f = dict(base, **{k: v})
        if k == "report":
            f.update(tag=rb.REPORT, vbs=v)
        if k == "macpriv" or (k == "flags"):
            mac, priv = v if k == "macpriv" else (b"", b"")
            fl = f["flags"] | (1 if k == "macpriv" else 0)
            raw = rb.enc_v3(rb.enc_header(f["msgid"], f["maxsize"], fl, 3),
                rb.enc_usm(f["engine"], f["boots"], f["time"], f["user"], mac,
                    priv), rb.enc_scoped(ENGINE, b"", rb.enc_pdu(f["tag"],
                        f["reqid"], 0, 0, f["vbs"])))
        else:
            pdu = rb.enc_pdu(f["tag"], f["reqid"], f["es"], f["ei"], f["vbs"])
            raw = ag.build_v3(f["msgid"], f["flags"], f["engine"], f["boots"],
                f["time"], f["user"], pdu, keys, f["context"], f["ctxengine"],
                f["maxsize"], model=f["model"])
        out.append((f"{k}={v!r}"[:60], raw))
    if not signed:
        def with_usm(usm):
            return rb.enc_v3(rb.enc_header(base["msgid"], 1472, 0, 3), usm,
                rb.enc_scoped(ENGINE, b"", rb.enc_pdu(rb.RESPONSE, 1, 0, 0, [])))
        for usm in (b"", b"\x30\0", b"\x30", b"\x04\0", b"\xff" * 30,
                rb.enc_usm(ENGINE, 5, 1000, b"plain", b"", b"") + b"x"):
            out.append((f"usm {usm[:8].hex()}", with_usm(usm)))
        for payload in (b"", b"\x30\0", b"\x04\0", b"\x04\x03abc", b"\x05\0"):
            for fl in (0, 1, 3):
                out.append((f"payload {payload.hex()} flags {fl}", rb.enc_v3(
                    rb.enc_header(base["msgid"], 1472, fl, 3),
                    rb.enc_usm(ENGINE, 5, 1000, b"hider", bytes(24),
                        b"12345678"), payload)))
    return out

MISC = [("empty", b""), ("big", b"\x30" * 1472), ("toobig", b"\xff" * 9000),
    ("huge", b"\x30\x82\xff\xff" + b"\0" * 60000),
    ("length ff", b"\x30\xff"), ("length 84", b"\x30\x84\xff\xff\xff\xff"),
    ("length 80", b"\x30\x80\2\1\1\0\0"),
    ("long length", b"\x30\xfe" + b"\xff" * 126),
    ("deep", b"\x30\x82\5\xbc" * 360),
    ("nested", b"".join(b"\x30\x81" + bytes([255 - 3 * i]) for i in range(80))),
    ("high tag", b"\x3f\x81\x80\1\0"), ("long tag", b"\x1f" + b"\xff" * 200),
    ("text", b"GET / HTTP/1.1\r\n\r\n"), ("integer", b"\2\1\1"),
    ("big version", b"\x30\x0a\2\x08" + b"\x7f" * 8),
    ("neg version", b"\x30\3\2\1\xff"), ("empty version", b"\x30\2\2\0"),
    ("no version", b"\x30\0"), ("only v1", b"\x30\3\2\1\0"),
    ("only v2c", b"\x30\3\2\1\1"), ("only v3", b"\x30\3\2\1\3"),
    ("long version", b"\x30\x82\5\0\2\x82\4\xfc" + b"\1" * 1276),
    ("trailing", b"\x30\3\2\1\1" + b"junk"),
    ("deep oid", b"\x30\x81\x90\2\1\0\4\1a\xa2\x81\x86\2\1\1\2\1\0\2\1\0\x30\x7b\x30\x79\6\x75"
        + b"\xff" * 117 + b"\5\0")]
ERRORS = [ConnectionRefusedError(errno.ECONNREFUSED, "refused"),
    ConnectionResetError(errno.ECONNRESET, "reset"),
    BlockingIOError(errno.EAGAIN, "again"), InterruptedError(errno.EINTR, "intr"),
    OSError(errno.ENOBUFS, "no buffers"), OSError(errno.EMSGSIZE, "too long"),
    OSError(errno.EHOSTUNREACH, "unreachable"), OSError(errno.ENETDOWN, "down"),
    TimeoutError("timed out"), PermissionError(errno.EPERM, "not permitted"),
    OSError(errno.ENOMEM, "no memory"), OSError(errno.EIO, "input/output error")]

# ---------------------------------------------------------------- the scenarios

class Setup:
    """An engine with requests of several kinds outstanding, two of each."""
    def __init__(self, w, e, kinds, agent, sockets=False):
        snmp = env.snmp
        self.w, self.agent = w, agent
        self.managers = {}
        self.victims = {}
        self.witnesses = {}
        for i, kind in enumerate(kinds):
            kw = {}
            if sockets:
                kw["localAddress"] = ("0.0.0.0", 5000 + i)
            if kind in ("v1", "v2c"):
                m = e.Manager("10.0.0.1", community=b"public",
                    version=snmp.SNMPv1 if kind == "v1" else snmp.SNMPv2c, **kw)
            else:
                m = e.Manager("10.0.0.1", defaultUserName=kind, **kw)
            self.managers[kind] = m
            got = env.attempt(m.get(env.name(500)).wait)
            if got != env.expected(500):
                w.problem("warmup", f"a plain {kind} request got {got}")
        agent.quiet = True
        for n, (kind, m) in enumerate(self.managers.items()):
            for who, k in ((self.victims, 10 + n), (self.witnesses, 20 + n)):
                h = m.get(env.name(k), refreshPeriod=64.0, timeout=8.0)
                who[kind] = (k, h) + agent.last

    def judge(self, what):
        w = self.w
        agent = self.agent
        for kind, (k, h, sock, reply, req) in self.witnesses.items():
            for r in reply:
                w.net.deliver_later(GAP, sock, r, HOST)
        t0 = w.now
        for kind, (k, h, sock, reply, req) in self.witnesses.items():
            got = env.attempt(h.wait)
            if got != env.expected(k):
                w.problem(f"{kind}-answer", f"the {kind} request got {got}"
                    f" although its answer came after {what}")
            if w.now > t0 + GAP + 1e-6:
                w.problem("late", f"the {kind} request ended {w.now - t0} s after"
                    f" {what}")
        agent.quiet = False
        for kind, m in self.managers.items():
            got = env.attempt(m.get(env.name(30)).wait)
            if got != env.expected(30):
                w.problem(f"{kind}-later", f"a later {kind} request got {got}"
                    f" after {what}")
        for kind, (k, h, sock, reply, req) in self.victims.items():
            got = env.attempt(h.wait)
            if got[0] not in FINE:
                w.problem(f"raised:{got[0]}", f"wait() raised {got[0]} in the"
                    f" {kind} request after {what}")
            w.outcome.append(got[0])

def episode(kinds, pick, sockets=False, size=1472):
    """pick(w, setup) -> list of (name, datagram or OSError, socket)"""
    snmp = env.snmp
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=200000)
        w.outcome = []
        def main():
            net = vnet.net()
            a = Quiet(w, engine=ENGINE, users=[env.USERS["plain"],
                env.USERS["hider"]])
            net.agents[HOST] = a
            with snmp.Engine(autowait=False, msgMaxSize=size) as e:
                for u in ("plain", "hider"):
                    env.add_user(e, u)
                s = Setup(w, e, kinds, a, sockets)
                hostile = pick(w, s)
                what = ", then ".join(n for n, _, _ in hostile[:3])
                w.note("hostile", what, [x.hex() if isinstance(x, bytes) else x
                    for _, x, _ in hostile[:3]])
                for n, x, sock in hostile:
                    net.deliver(sock, x, HOST)
                w.block(lambda: False, w.now + GAP, "sleep")
                s.judge(what)
                w.outcome.append(what)
                s.managers.clear()
                s.victims.clear()
                s.witnesses.clear()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "threads left over after shutdown")
        return w
    return execute

def from_victim(kind, deep):
    """Every mutation of the genuine answer to one request."""
    def pick(w, s):
        k, h, sock, reply, req = s.victims[kind]
        raw = reply[0]
        i = w.choose("mutation", size_mutations(len(raw), deep))
        return [(f"mutation {i} of the {kind} answer", mutation(raw, i, deep),
            sock)]
    return pick

def from_fields(kind, signed=False):
    def pick(w, s):
        k, h, sock, reply, req = s.victims[kind]
        if kind in ("v1", "v2c"):
            items = fields_v1(req)
        else:
            items = fields_v3(req, env.USERS[kind], signed)
        name, raw = items[w.choose("field", len(items))]
        return [(f"{kind} {name}", raw, sock)]
    return pick

def classes(s):
    """Representatives of every kind of hostile input."""
    out = []
    sock = next(iter(s.victims.values()))[2]
    out += [(n, x, sock) for n, x in MISC]
    out += [(repr(x), x, sock) for x in ERRORS]
    for kind, (k, h, sk, reply, req) in s.victims.items():
        raw = reply[0]
        out += [(f"half a {kind} answer", raw[:len(raw) // 2], sk),
            (f"longer {kind} answer", raw + b"\0", sk),
            (f"{kind} answer less one octet", raw[:-1], sk),
            (f"{kind} answer to nobody", raw.replace(_id(req), b"\x7f\1\1\1"), sk),
            (f"{kind} answer, version 2", _version(raw, 2), sk),
            (f"{kind} answer, version 3", _version(raw, 3), sk),
            (f"{kind} answer, version 0", _version(raw, 0), sk)]
        if kind in ("v1", "v2c"):
            items = fields_v1(req)
            names = ("tag=160", "es=255", "ei=3", "vbs=[]")
        else:
            items = fields_v3(req, env.USERS[kind], False)
            names = ("report=[]", "flags=2", "model=1", "msgid=-1", "tag=167",
                "engine=b''")
        out += [(f"{kind} {n}", x, sk) for n, x in items if n in names]
    return out

def _id(req):
    i = req["msgid"] if isinstance(req, dict) else req[2][1]
    return i.to_bytes(4, "big", signed=True) if -2**31 <= i < 2**31 else b"\0" * 4

def _version(raw, v):
    i = raw.index(b"\2\1", 1, 8)
    return raw[:i + 2] + bytes([v]) + raw[i + 3:]

def from_classes(count):
    def pick(w, s):
        items = classes(s)
        return [items[w.choose("class", len(items))] for _ in range(count)]
    return pick

def flood(count):
    """The same hostile datagram or error again and again; or everything there
    is, the one after the other."""
    def pick(w, s):
        items = classes(s)
        i = w.choose("class", len(items) + 2)
        if i < len(items):
            name, x, sock = items[i]
            return [(f"{count} times {name}", x, sock)] + [items[i]] * (count - 1)
        if i == len(items):
            return items * 3
        for kind, (k, h, sk, reply, req) in s.victims.items():
            more = fields_v1(req) if kind in ("v1", "v2c") else fields_v3(req,
                env.USERS[kind], False)
            items += [(f"{kind} {n}", x, sk) for n, x in more]
        return items
    return pick

def short(n, block):
    """Every datagram of n octets, `block` of them to an execution."""
    def pick(w, s):
        sock = next(iter(s.victims.values()))[2]
        total = 256 ** n
        i = w.choose("block", (total + block - 1) // block)
        return [(f"every {n}-octet datagram from {j:#x}", j.to_bytes(n, "big"),
            sock) for j in range(i * block, min(total, (i + 1) * block))]
    return pick

def scenarios(ck, osname):
    out = []
    deep = not ck.quick
    def add(name, *a, **k):
        out.append(explore.Scenario(f"{osname}: {name}", episode(*a, **k),
            {"sched": 0, "tie": 0}))
    main = osname == "posix"
    for kind in KINDS:
        if main or deep or kind == "v2c":
            add(f"mutations of {kind}", KINDS, from_victim(kind, deep and main))
        add(f"fields of {kind}", KINDS, from_fields(kind))
    add("signed fields", KINDS, from_fields("hider", True))
    add("signed fields alone", ("hider",), from_fields("hider", True))
    if main or deep:
        add("pairs", KINDS if deep else ("v2c", "hider"), from_classes(2))
    add("classes, own sockets", KINDS, from_classes(1), sockets=True)
    add("classes, small buffer", KINDS, from_classes(1), size=484)
    for kinds in (("v1",), ("v2c",), ("plain",), ("hider",), ("v1", "v2c"),
            ("v2c", "hider")):
        add(f"classes, only {kinds}", kinds, from_classes(1))
        if deep:
            add(f"pairs, only {kinds}", kinds, from_classes(2))
    if deep:
        add("triples, v2c", ("v2c",), from_classes(3))
    for kinds in (KINDS,) + tuple((k,) for k in KINDS):
        add(f"floods, {kinds}", kinds, flood(300 if deep else 60))
    add("one octet", KINDS, short(1, 64))
    if main or deep:
        add("two octets", ("v1", "v2c", "plain"), short(2, 1024))
    return out

SYSTEMS = ("posix", "nt")

def run(ck):
    for osname in SYSTEMS:
        env.load(osname)
        explore.explore(ck, scenarios(ck, osname))
    ck.assumptions = ["the requests whose own answers are modified may end in"
        " any documented way", "receive errors are OSErrors raised by recvfrom",
        explore.MODEL_NOTE]

def replay(ck, data):
    osname = data["scenario"].split(":")[0]
    env.load(osname)
    for quick in (True, False):
        ck.quick = quick
        try:
            return explore.replay(scenarios(ck, osname), data)
        except (KeyError, sched.Divergence):
            continue
