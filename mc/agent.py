"""Reference agents: what a conforming remote SNMP engine does with a request.

Built on refber/refusm only.  A datagram the library sends that is not a
well-formed SNMP message is recorded as a problem of the execution.
"""
import errno

import refber as rb
import refusm as ru
import sched

BASE = (1, 3, 6, 1, 4, 1, 9)
USM_STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
STATS = {"unsupportedSecLevel": 1, "notInTimeWindow": 2, "unknownUserName": 3,
    "unknownEngineID": 4, "wrongDigest": 5, "decryptionError": 6}

def oid(n):
    return BASE + (n, 0)

def dotted(o):
    return ".".join(map(str, o))

def value(name):
    """The value this network's agents hold for an object."""
    return ("int", name[-2] * 1000 + 7)

def failure(k):
    """How a request for object k >= 900 fails: -> (error status, place), the
    place being 0: that object, 1: the request as a whole, 2: none of its own"""
    place, status = divmod(k - 900, 100)
    return status, place

def answer(pdu):
    """-> (error status, error index, varbinds) for a request PDU."""
    tag, reqid, a, b, vbs = pdu
    if tag == rb.GETNEXT:
        return 0, 0, [(n + (1,), value(n)) for n, _ in vbs]
    if tag == rb.GETBULK:
        out = []
        for i in range(max(b, 0)):
            out += [(n + (i + 1,), value(n)) for n, _ in vbs[max(a, 0):]]
        return 0, 0, [(n + (1,), value(n)) for n, _ in vbs[:max(a, 0)]] + out
    if tag == rb.SET:
        return 0, 0, list(vbs)
    for i, (n, _) in enumerate(vbs):
        if len(n) > 2 and n[-2] >= 900:
            status, place = failure(n[-2])
            return ((status, i + 1, list(vbs)), (status, 0, list(vbs)),
                (status, len(vbs) + 1, list(vbs) + [vbs[i]]))[place]
    return 0, 0, [(n, value(n)) for n, _ in vbs]

class Agent:
    """Fates decide what happens to each datagram: see `fates`."""
    lat = 0.125

    def __init__(self, world, addr=("10.0.0.1", 161), fates=("ok",),
            options=None, budgeted=None):
        self.world = world
        self.addr = addr
        self.fates = fates
        self.received = []          # (time, decoded request)
        self.count = 0
        self.delays = {"ok": (self.lat,)}
        self.delays.update(options or {})
        self.enabled = True

    def answer(self, pdu):
        return answer(pdu)

    def __call__(self, data, src, sock):
        w = self.world
        try:
            req = self.decode(data)
        except (rb.RefError, IndexError) as e:
            w.problem("malformed-request", f"sent {data.hex()}, which is not"
                f" a well-formed message for this agent: {e}")
            return
        self.count += 1
        self.received.append((w.now - sched.START, req))
        w.note("agent<-", self.brief(req))
        if callable(self.fates):
            fate = self.fates(w)
        else:
            fate = self.fates[w.choose("fate", len(self.fates))]
        if fate != "ok":
            w.note("fate", fate)
        if fate == "lost":
            return
        if fate == "fail":          # the system refuses to send
            w.refused.append((w.now - sched.START, w.current.name, req))
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        kind, _, arg = fate.partition(":")
        handler = getattr(self, "fate_" + kind, None)
        if handler:
            for delay, r in handler(req, *([arg] if arg else [])):
                w.net.deliver_later(delay, sock, r, self.addr)
            return
        replies = self.process(req)
        if fate == "unanswered":
            return
        for delay in self.delays.get(fate, (self.lat,)):
            for r in replies:
                w.net.deliver_later(delay, sock, r, self.addr)

    def brief(self, req):
        return req

class CommunityAgent(Agent):
    def __init__(self, world, version, community=b"public", **kw):
        super().__init__(world, **kw)
        self.version = version
        self.community = community

    def decode(self, data):
        version, community, pdu = rb.dec_community_msg(data)
        if version != self.version:
            raise rb.RefError(f"version {version}")
        return community, pdu

    def reply(self, req, **over):
        community, pdu = req
        es, ei, vbs = self.answer(pdu)
        f = dict(version=self.version, community=community, tag=rb.RESPONSE,
            reqid=pdu[1], es=es, ei=ei, vbs=vbs)
        f.update(over)
        return rb.enc_community_msg(f["version"], f["community"],
            rb.enc_pdu(f["tag"], f["reqid"], f["es"], f["ei"], f["vbs"]))

    def process(self, req):
        if req[0] != self.community:
            return []
        return [self.reply(req)]

    def brief(self, req):
        return (hex(req[1][0]), req[1][1], [n[-2] for n, _ in req[1][4]])

class User:
    def __init__(self, name, auth=None, apass=None, priv=None, ppass=None):
        self.name = name
        self.auth = auth
        self.apass = apass
        self.priv = priv
        self.ppass = ppass

    def akey(self, engine):
        return ru.localized(self.auth, self.apass, engine)

    def pkey(self, engine):
        return ru.localized(self.auth, self.ppass, engine)[:16]

def build_v3(msgid, flags, engine, boots, time, user, pdu, keys=None,
        context=b"", ctxengine=None, maxsize=1472, salt=b"\1\2\3\4\5\6\7\x08",
        model=3, scoped=None, raw=None):
    """Encode (and encrypt, and sign) one v3 message. keys: User or None"""
    if scoped is None:
        scoped = rb.enc_scoped(engine if ctxengine is None else ctxengine,
            context, pdu)
    payload = scoped
    priv = b""
    auth = flags & 1
    if flags & 2:
        key = keys.pkey(engine)
        if keys.priv == "aes":
            payload = ru.aes_encrypt(key, boots, time, salt, scoped)
        else:
            pad = -len(scoped) % 8
            payload = ru.des_encrypt(key, salt, scoped + bytes(pad))
        payload = rb.enc_str(payload)
        priv = salt
    n = ru.AUTH[keys.auth][3] if auth else 0
    header = rb.enc_header(msgid, maxsize, flags, model)
    whole = rb.enc_v3(header,
        rb.enc_usm(engine, boots, time, user, bytes(n), priv), payload)
    if auth:
        mac = ru.hmac(keys.auth, keys.akey(engine), whole)
        whole = rb.enc_v3(header,
            rb.enc_usm(engine, boots, time, user, mac, priv), payload)
    return whole

class V3Agent(Agent):
    def __init__(self, world, engine=b"\x80\0\0\0\5agent", users=(), boots=5,
            clock=1000, hints=True, **kw):
        super().__init__(world, **kw)
        self.engine = engine
        self.users = {u.name: u for u in users}
        self.boots = boots
        self.clock = clock          # snmpEngineTime at START
        self.hints = hints          # do unauthenticated reports carry the time?
        self.reports = []
        self.served = []            # (time, request)
        self.tags = {}              # raw reply -> what it is
        self.window = 150

    def time(self):
        return self.clock + int(self.world.now - sched.START)

    def decode(self, data):
        m = rb.dec_v3(data)
        m["raw"] = data
        if not m["flags"] & 2:
            e, c, pdu, _ = rb.dec_scoped(m["payload"])
            m.update(ctxengine=e, context=c, pdu=pdu)
        elif m["engine"] == self.engine and m["user"] in self.users:
            try:
                self.decrypt(m)
            except Exception:
                pass                # process() reports it
        return m

    def decrypt(self, m):
        user = self.users[m["user"]]
        data = rb.R(m["payload"]).expect(rb.STR).rest()
        key = user.pkey(self.engine)
        if user.priv == "aes":
            plain = ru.aes_decrypt(key, m["boots"], m["time"], m["priv"], data)
        else:
            plain = ru.des_decrypt(key, m["priv"], data)
        e, c, pdu, _ = rb.dec_scoped(plain, leftovers=True)
        m.update(ctxengine=e, context=c, pdu=pdu)

    def message(self, req, pdu, flags, user=None, **over):
        kw = dict(msgid=req["msgid"], flags=flags, engine=self.engine,
            boots=self.boots, time=self.time(),
            user=req["user"] if user is None else user, pdu=pdu,
            keys=self.users.get(req["user"]))
        kw.update(over)
        return build_v3(**kw)

    def report(self, req, which, flags=0, **over):
        self.reports.append(which)
        self.world.note("agent->report", which)
        reqid = req["pdu"][1] if "pdu" in req else 0
        name = USM_STATS + (STATS[which], 0)
        pdu = rb.enc_pdu(rb.REPORT, reqid, 0, 0,
            [(name, ("c32", len(self.reports)))])
        if not flags & 1 and not self.hints:
            over = dict(dict(boots=0, time=0), **over)
        raw = self.message(req, pdu, flags, **over)
        self.tags[raw] = ("report", which, flags & 1, req["msgid"])
        return [raw]

    def process(self, req):
        """RFC 3414 section 3.2."""
        if req["engine"] != self.engine:
            return self.report(req, "unknownEngineID")
        user = self.users.get(req["user"])
        if user is None:
            return self.report(req, "unknownUserName")
        f = req["flags"]
        if (f & 1 and not user.auth) or (f & 2 and not user.priv):
            return self.report(req, "unsupportedSecLevel")
        if f & 1:
            n = ru.AUTH[user.auth][3]
            blank = (req["raw"][:req["authoff"]] + bytes(n)
                + req["raw"][req["authoff"] + n:])
            if (len(req["auth"]) != n or
                    ru.hmac(user.auth, user.akey(self.engine), blank)
                    != req["auth"]):
                return self.report(req, "wrongDigest")
            if (req["boots"] != self.boots
                    or abs(req["time"] - self.time()) > self.window):
                return self.report(req, "notInTimeWindow", 1)
        if f & 2 and "pdu" not in req:
            try:
                self.decrypt(req)
            except Exception as err:
                self.world.problem("undecryptable-request",
                    f"the agent cannot decrypt the request: {err!r}")
                return self.report(req, "decryptionError", 1)
        return self.serve(req)

    def serve(self, req):
        self.served.append((self.world.now - sched.START, req))
        self.world.note("agent-serves", req["flags"] & 3,
            [n[-2] for n, _ in req["pdu"][4] if len(n) > 1])
        return [self.response(req)]

    def response(self, req, **over):
        pdu = req["pdu"]
        es, ei, vbs = self.answer(pdu)
        raw = self.message(req, rb.enc_pdu(rb.RESPONSE, pdu[1], es, ei, vbs),
            req["flags"] & 3, **over)
        self.tags[raw] = ("response", pdu[4][0][0][-2] if pdu[4] else None,
            req["flags"] & 1, req["msgid"])
        return raw

    def brief(self, req):
        return (req["msgid"], req["flags"], req["engine"].hex(), req["boots"],
            req["time"], req["user"],
            [n[-2] for n, _ in req["pdu"][4] if len(n) > 1]
            if "pdu" in req else "encrypted")
