"""A tiny scripted network for demonstrations: the library's managers send into
a Wire, a reference agent (independent codec) makes replies, the demo delivers
them to the library's dispatcher when it wants to."""
import os
import sys
import threading
import time as _time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.getcwd())         # /repo
sys.path.insert(1, HERE)
import refber as rb
import refusm as ru
import faulthandler
faulthandler.dump_traceback_later(120, exit=True)

from snmp.engine import Engine
from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
from snmp.security.usm.auth import *
from snmp.transport import TransportDomain

OID1 = (1, 3, 6, 1, 4, 1, 9, 1, 0)
STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
WHICH = {"level": 1, "window": 2, "user": 3, "engine": 4, "digest": 5, "decrypt": 6}
ENGINE = b"\x80\0\0\0\5agent"
FAILED = []

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        FAILED.append(what)

def done():
    sys.stdout.flush()
    os._exit(1 if FAILED else 0)

def dotted(o):
    return ".".join(map(str, o))

def oid(n):
    return (1, 3, 6, 1, 4, 1, 9, n, 0)

class Wire:
    domain = TransportDomain.UDP_IPv4
    address = ("10.0.0.1", 161)
    localAddress = ("0.0.0.0", 0)

    def __init__(self):
        self.sent = []
        self.hook = None

    def send(self, data):
        self.sent.append(data)
        if self.hook:
            self.hook(data)

def hear(engine, data, addr=("10.0.0.1", 161)):
    engine.dispatcher.hear(None, addr, data)

class Clock:
    """Replaces the library's idea of the time."""
    def __init__(self, start=1_000_000.0):
        import time
        import snmp.security.usm.implementation as impl
        self.now = start
        time.time = lambda: self.now
        impl.time = lambda: self.now

class User:
    def __init__(self, name, auth=None, apass=None, priv=None, ppass=None):
        self.name, self.auth, self.apass = name, auth, apass
        self.priv, self.ppass = priv, ppass or apass

class Agent:
    def __init__(self, *users, engine=ENGINE, boots=5, time=1000):
        self.users = {u.name: u for u in users}
        self.engine, self.boots, self.time = engine, boots, time

    def build(self, msgid, flags, user, pdu, engine=None, boots=None, time=None,
            context=b"", ctxengine=None, scoped=None, salt=b"\1\2\3\4\5\6\7\x08",
            mac=None, keys=None):
        engine = self.engine if engine is None else engine
        boots = self.boots if boots is None else boots
        time = self.time if time is None else time
        keys = keys or self.users.get(user)
        if scoped is None:
            scoped = rb.enc_scoped(engine if ctxengine is None else ctxengine,
                context, pdu)
        payload, priv = scoped, b""
        if flags & 2:
            key = ru.localized(keys.auth, keys.ppass, engine)[:16]
            if keys.priv == "aes":
                c = ru.aes_encrypt(key, boots, time, salt, scoped)
            else:
                c = ru.des_encrypt(key, salt, scoped + bytes(-len(scoped) % 8))
            payload, priv = rb.enc_str(c), salt
        n = ru.AUTH[keys.auth][3] if flags & 1 else 0
        head = rb.enc_header(msgid, 1472, flags, 3)
        whole = rb.enc_v3(head, rb.enc_usm(engine, boots, time, user, bytes(n),
            priv), payload)
        if flags & 1:
            if mac is None:
                mac = ru.hmac(keys.auth, ru.localized(keys.auth, keys.apass,
                    engine), whole)
            whole = rb.enc_v3(head, rb.enc_usm(engine, boots, time, user, mac,
                priv), payload)
        return whole

    def parse(self, data):
        m = rb.dec_v3(data)
        scoped = m["payload"]
        if m["flags"] & 2:
            u = self.users[m["user"]]
            c = rb.R(scoped).expect(rb.STR).rest()
            key = ru.localized(u.auth, u.ppass, m["engine"])[:16]
            scoped = (ru.aes_decrypt(key, m["boots"], m["time"], m["priv"], c)
                if u.priv == "aes" else ru.des_decrypt(key, m["priv"], c))
        e, c, pdu, _ = rb.dec_scoped(scoped, leftovers=bool(m["flags"] & 2))
        m.update(ctxengine=e, context=c, pdu=pdu)
        return m

    def report(self, m, which, flags=0, **kw):
        reqid = m["pdu"][1] if "pdu" in m else 0
        return self.build(m["msgid"], flags, kw.pop("user", m["user"]),
            rb.enc_pdu(rb.REPORT, reqid, 0, 0,
                [(STATS + (WHICH[which], 0), ("c32", 1))]), **kw)

    def response(self, m, vbs=None, es=0, ei=0, **kw):
        pdu = m["pdu"]
        if vbs is None:
            vbs = [(n, ("int", n[-2])) for n, _ in pdu[4]]
        flags = kw.pop("flags", m["flags"] & 3)
        msgid = kw.pop("msgid", m["msgid"])
        user = kw.pop("user", m["user"])
        return self.build(msgid, flags, user,
            rb.enc_pdu(rb.RESPONSE, pdu[1], es, ei, vbs), **kw)

    def reply(self, data):
        """What a conforming agent that accepts the user would answer."""
        m = self.parse(data)
        if m["engine"] != self.engine:
            return self.report(m, "engine")
        if m["flags"] & 1 and (m["boots"] != self.boots
                or abs(m["time"] - self.time) > 150):
            return self.report(m, "window", 1)
        return self.response(m)

def community_reply(data, **kw):
    version, community, pdu = rb.dec_community_msg(data)
    vbs = [(n, ("int", n[-2])) for n, _ in pdu[4]]
    f = dict(version=version, community=community, tag=rb.RESPONSE,
        reqid=pdu[1], es=0, ei=0, vbs=vbs)
    f.update(kw)
    return rb.enc_community_msg(f["version"], f["community"], rb.enc_pdu(f["tag"],
        f["reqid"], f["es"], f["ei"], f["vbs"]))

class Result(threading.Thread):
    """Run something that may block, in the background."""
    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn, self.value, self.error = fn, None, None
        self.start()

    def run(self):
        try:
            self.value = self.fn()
        except BaseException as e:
            self.error = e

    def get(self, timeout=20):
        self.join(timeout)
        if self.is_alive():
            return "blocked"
        return self.error if self.error is not None else self.value

def wait(request, timeout=20):
    """request.wait(), but never forever."""
    return Result(request.wait).get(timeout)

def until(cond, timeout=20):
    end = _time.monotonic() + timeout
    while not cond() and _time.monotonic() < end:
        _time.sleep(0.005)
    return cond()
