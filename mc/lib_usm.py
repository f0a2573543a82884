"""Driving the USM and the v3 message processor directly, with a set clock."""
import hashlib

import agent as ag
import lib
import refber as rb
import refusm as ru

AUTHS = {"md5": "HmacMd5", "sha": "HmacSha", "sha224": "HmacSha224",
    "sha256": "HmacSha256", "sha384": "HmacSha384", "sha512": "HmacSha512"}

class Clock:
    """Stands in for the functions of the time module the library uses."""
    def __init__(self):
        self.now = 4096.0

    def time(self):
        return self.now

def load(clock=None):
    """-> Usm namespace; `clock` replaces time.time and time.monotonic."""
    shims = {}
    if clock is not None:
        import types
        import time as real
        mod = types.ModuleType("time")
        for k in dir(real):
            if not k.startswith("__"):
                setattr(mod, k, getattr(real, k))
        mod.time = mod.monotonic = mod.perf_counter = clock.time
        mod.time_ns = mod.monotonic_ns = lambda: int(clock.time() * 10**9)
        shims["time"] = mod
    import loader
    loader.load(shims, ["snmp", "snmp.engine", "snmp.message.v3",
        "snmp.security.usm", "snmp.security.usm.auth", "snmp.security.usm.priv",
        "snmp.security.levels", "snmp.security.usm.credentials",
        "snmp.security.usm.users"])
    import snmp
    return wrap(snmp)

def wrap(snmp):
    L = lib.Lib(snmp)
    L.usm = snmp.security.usm
    L.auth = {k: getattr(snmp.security.usm.auth, v) for k, v in AUTHS.items()}
    L.priv = {"aes": snmp.security.usm.priv.AesCfb128,
        "des": snmp.security.usm.priv.DesCbc}
    L.levels = snmp.security.levels
    L.v3 = snmp.message.v3
    L.level = lambda n: (L.levels.noAuthNoPriv, L.levels.authNoPriv,
        L.levels.authPriv)[n]
    return L

_fast = {}

def fast(L, name):
    """The protocol with its slow password hash memoized (pure function)."""
    base = L.auth[name]
    if base not in _fast:
        memo = {}
        def computeKey(cls, secret):
            if secret not in memo:
                memo[secret] = base.computeKey(secret)
            return memo[secret]
        _fast[base] = type(base.__name__, (base,),
            {"computeKey": classmethod(computeKey)})
    return _fast[base]

def add_user(L, usm, u, slow=False, **kw):
    args = {}
    if u.auth:
        args.update(authProtocol=L.auth[u.auth] if slow else fast(L, u.auth),
            authSecret=u.apass)
    if u.priv:
        args.update(privProtocol=L.priv[u.priv], privSecret=u.ppass)
    usm.addUser(u.name.decode(), **args, **kw)

class Handle:
    """A request handle: remembers what it was given."""
    def __init__(self):
        self.callbacks = []
        self.pushed = []

    def addCallback(self, fn, *args):
        self.callbacks.append((fn, args))

    def push(self, msg):
        self.pushed.append(msg)

    def close(self):
        for fn, args in self.callbacks:
            fn(*args)
        self.callbacks = []

class Station:
    """One message processor with one USM, as an Engine would set them up."""
    def __init__(self, L, users=(), engines=(), namespace="", size=1472):
        self.L = L
        self.usm = L.usm.UserBasedSecurityModule()
        self.mp = L.v3.SNMPv3MessageProcessor(size)
        self.mp.addSecurityModuleIfNeeded(self.usm)
        for u in users:
            add_user(L, self.usm, u, namespace=namespace)
        for e in engines:
            assert self.usm.registerRemoteEngine(e, namespace)

    def send(self, engine, user, level, pdu=None, context=b"", handle=None):
        """-> (handle, datagram)"""
        L = self.L
        if pdu is None:
            pdu = L.pdu.GetRequestPDU("1.3.6.1.2.1.1.1.0", requestID=77)
        h = Handle() if handle is None else handle
        data = self.mp.prepareOutgoingMessage(pdu, h, engine, user,
            L.level(level), contextName=context)
        return h, bytes(data)

    def receive(self, data):
        """-> ("ok", message, handle) or (exception name, exception)"""
        try:
            m, h = self.mp.prepareDataElements(data)
        except Exception as e:
            return (type(e).__name__, e)
        return ("ok", m, h)

    def incoming(self, data):
        """Only the security part: a report-like judgment of one message."""
        m = self.L.v3.SNMPv3Message.decode(data)
        self.usm.processIncoming(m)
        return m

def refused(L, exc):
    return isinstance(exc, L.Incoming)
