"""Loading the library inside the virtual world, and common harness pieces."""
import gc
import os
import sys

import agent as ag
import loader
import sched
import vnet

snmp = None
lib = None

def load(osname="posix"):
    """Import the library on top of the shims; -> Lib-like namespace."""
    global snmp
    # all of them now, while the shims are in place
    loader.load(vnet.shims(osname), ("snmp snmp.engine snmp.exception snmp.smi"
        " snmp.pdu snmp.transport snmp.security.usm.auth snmp.security.usm.priv"
        " snmp.security.levels snmp.security.usm snmp.message.version"
        " snmp.manager.v3").split())
    import snmp as s
    snmp = s
    warm()
    gc.collect()
    gc.freeze()
    return s

AUTHS = {"md5": "HmacMd5", "sha": "HmacSha", "sha224": "HmacSha224",
    "sha256": "HmacSha256", "sha384": "HmacSha384", "sha512": "HmacSha512"}

_fast = {}

def auth(name):
    """The library's protocol, with the slow password hash memoized."""
    base = getattr(snmp.security.usm.auth, AUTHS[name])
    if base not in _fast:
        memo = {}
        def computeKey(cls, secret):
            if secret not in memo:
                memo[secret] = base.computeKey(secret)
            return memo[secret]
        _fast[base] = type(base.__name__, (base,),
            {"computeKey": classmethod(computeKey)})
    return _fast[base]

def priv(name):
    p = snmp.security.usm.priv
    return p.AesCfb128 if name == "aes" else p.DesCbc

USERS = {
    "plain": ag.User(b"plain"),
    "signer": ag.User(b"signer", "sha", b"authsecret"),
    "hider": ag.User(b"hider", "sha256", b"authsecret", "aes", b"privsecret"),
    "desman": ag.User(b"desman", "md5", b"authsecret", "des", b"privsecret"),
}

def warm():
    for u in USERS.values():
        if u.auth:
            auth(u.auth).computeKey(u.apass)
        if u.priv:
            auth(u.auth).computeKey(u.ppass)

def add_user(engine, user, **kw):
    u = USERS[user] if isinstance(user, str) else user
    args = {}
    if u.auth:
        args.update(authProtocol=auth(u.auth), authSecret=u.apass)
    if u.priv:
        args.update(privProtocol=priv(u.priv), privSecret=u.ppass)
    engine.usm.addUser(u.name.decode(), **args, **kw)

# ------------------------------------------------------------ line-level points

CODEC = ("ber.py", "asn1.py", "smi.py", "pdu.py", "utils.py", "typing.py",
    "exception.py", "message/core.py", "message/version.py",
    "message/__init__.py", "security/levels.py", "security/models.py",
    "security/usm/auth.py", "security/usm/credentials.py",
    "security/usm/parameters.py")
PURE = {"__init__", "__iter__", "construct", "data", "serialize",
    "deserialize", "encode", "decode", "authFlag", "privFlag", "reportableFlag",
    "securityLevel"}
_memo = {}

def library_code(code):
    """Lines of `code` matter: not those that only build or read messages."""
    r = _memo.get(code)
    if r is None:
        f = code.co_filename
        r = library_lines(f) and not (code.co_name in PURE
            and f.startswith(loader.scratch + "/snmp/message/")
            and not code.co_qualname.endswith("MessageProcessor.__init__"))
        _memo[code] = r
    return r

library_code.by_code = True

def library_lines(filename):
    r = _memo.get(filename)
    if r is None:
        r = False
        if loader.scratch and filename.startswith(loader.scratch + "/snmp/"):
            r = filename[len(loader.scratch) + 6:] not in CODEC
        _memo[filename] = r
    return r

# ------------------------------------------------------------------- outcomes

def blame(cause):
    """What an error response points at"""
    if isinstance(cause, int):
        return cause
    if hasattr(cause, "variableBindings"):
        return tuple(tuple(vb.name) for vb in cause.variableBindings)
    return tuple(cause.name)

def error(status, index, names):
    """...as an error response to a request for those names should do"""
    if index == 0:
        return ("error", status, tuple(map(tuple, names)))
    if index > len(names):
        return ("error", status, index)
    return ("error", status, tuple(names[index - 1]))

def classify(exc):
    """A stable name for what wait() raised."""
    m = snmp.manager
    t = type(exc)
    name = t.__name__
    if name == "ErrorResponse":
        return ("error", int(exc.status), blame(exc.cause))
    return (name,)

def result(vbl):
    out = []
    for vb in vbl:
        v = vb.value
        out.append((tuple(vb.name), getattr(v, "value", getattr(v, "data", None))))
    return tuple(out)

def attempt(fn, *a, **k):
    """-> ("ok", varbinds) or (exception name, ...)"""
    try:
        r = fn(*a, **k)
    except Exception as e:
        if isinstance(e, (AttributeError, NameError)) and not loader.in_library(
                e.__traceback__.tb_next or e.__traceback__):
            raise
        return classify(e)
    return ("ok", result(r))

def expected(*nums):
    for i, n in enumerate(nums):
        if n >= 900:
            status, place = ag.failure(n)
            return error(status, (i + 1, 0, len(nums) + 1)[place],
                [ag.oid(m) for m in nums])
    return ("ok", tuple((ag.oid(n), ag.value(ag.oid(n))[1]) for n in nums))

def name(n):
    return ag.dotted(ag.oid(n))
