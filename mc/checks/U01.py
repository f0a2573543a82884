"""U01: keys, localised keys and digests are those of RFC 3414 and RFC 7860."""
import hashlib
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "exploration"
L = None
MIB = 1 << 20

def oracle():
    """The reference implementation against the published vectors."""
    pw, eng = b"maplesyrup", bytes(11) + b"\2"
    for name, key, local in (
            ("md5", "9faf3283884e92834ebc9847d8edd963", "526f5eed9fcce26f8964c2930787d82b"),
            ("sha", "9fb5cc0381497b3793528939ff788d5d79145211",
                "6695febc9288e36282235fc7151f128497b38f3f")):
        k = ru.password_to_key(name, pw)
        assert k.hex() == key and ru.localize(name, k, eng).hex() == local
    import hmac as h
    for name, (hn, _, _, n) in ru.AUTH.items():
        for k in (b"", b"k" * 20, b"k" * 200):
            assert ru.hmac(name, k, b"data") == h.new(k, b"data", hn).digest()[:n]

def ref_key(name, pw):
    n = len(pw)
    return hashlib.new(ru.AUTH[name][0], (pw * (MIB // n + 1))[:MIB]).digest()

def same(t, key, got, want, what):
    if bytes(got) != want:
        t.fail(key, f"{what}: {bytes(got).hex()}, not {want.hex()}", t.current)

def passwords(t, name, lengths):
    cls = L.auth[name]
    for n in lengths:
        for pw in {bytes((i * 7 + n) & 255 for i in range(n)), b"\0" * n}:
            t.current = ("password", name, n)
            same(t, "computeKey", cls.computeKey(pw), ref_key(name, pw),
                f"{name} key of a password of {n} octets")
            t.case("password")

def localizing(t, name):
    cls = L.auth[name]
    size = ru.AUTH[name][2]
    for n in range(0, 70):
        for k in (size, 16, 64):
            for fill in (0, 0x80, 0xff):
                key = bytes(range(k))
                eng = bytes([fill]) * (n // 2) + bytes(range(n - n // 2))
                t.current = ("localize", name, n, k, fill)
                same(t, "localizeKey", cls.localizeKey(key, eng),
                    ru.localize(name, key, eng), f"{name} {k}-octet key at"
                    f" {eng.hex()}")
                t.case("localize")
    for pw in (b"a", b"maplesyrup", b"x" * 100):
        for eng in (bytes(11) + b"\2", b"\x80\0\0\0\5agent", b""):
            same(t, "localize", cls.localize(pw, eng), ru.localized(name, pw, eng),
                f"{name} {pw!r} at {eng.hex()}")
            t.case("localize")

def signing(t, name):
    cls = L.auth[name]
    for k in (0, 1, 16, 20, 28, 32, 48, 63, 64, 65, 100, 127, 128, 129, 200):
        key = bytes((i * 3 + 1) & 255 for i in range(k))
        a = cls(key)
        t.current = ("params", name)
        same(t, "blank", a.msgAuthenticationParameters, bytes(ru.AUTH[name][3]),
            f"{name} blank digest")
        for n in list(range(0, 300)) + [511, 512, 513, 1472, 65507]:
            data = bytes((i * 11 + n) & 255 for i in range(n))
            t.current = ("sign", name, k, n)
            same(t, "sign", a.sign(data), ru.hmac(name, key, data),
                f"{name} digest of {n} octets under a key of {k}")
            t.case("sign")
        # the same object signs again, and does not remember
        same(t, "sign twice", a.sign(b"abc"), ru.hmac(name, key, b"abc"), name)
        same(t, "sign twice", a.sign(b"abc"), ru.hmac(name, key, b"abc"), name)

ENGINES = (b"\x80\0\0\0\5", b"\x80\0\1f\x88\4agent", bytes(11) + b"\2", b"\xff" * 32)

def configured(t, name, priv):
    """Whose password is used for what, seen in the messages of a user."""
    S = L.usm.UserBasedSecurityModule
    for a, p, s in itertools.product((None, b"", b"auth-pass"),
            (None, b"", b"priv-pass"), (None, b"", b"common")):
        apw, ppw = a or s, p or s
        args = dict(authProtocol=lib_usm.fast(L, name))
        if a is not None: args["authSecret"] = a
        if s is not None: args["secret"] = s
        if priv:
            args["privProtocol"] = L.priv[priv]
        if p is not None: args["privSecret"] = p
        t.current = ("user", name, priv, a, p, s)
        st = lib_usm.Station(L)
        if not apw or (priv and not ppw):
            try:
                st.usm.addUser("u", **args)
                t.fail("no password", f"a user without a password is accepted"
                    f" {t.current}", t.current)
            except Exception:
                pass
            t.case("no password")
            continue
        st.usm.addUser("u", **args)
        user = ag.User(b"u", name, apw, priv, ppw)
        for i, e in enumerate(ENGINES):
            if i == 2:          # the user may be added before or after
                st.usm.addUser("other", **args)
            st.usm.registerRemoteEngine(e)
            for level in (1, 2) if priv else (1,):
                h, raw = st.send(e, b"u", level)
                m = rb.dec_v3(raw)
                n = ru.AUTH[name][3]
                blank = raw[:m["authoff"]] + bytes(n) + raw[m["authoff"] + n:]
                same(t, "digest", m["auth"], ru.hmac(name, user.akey(e), blank),
                    f"{t.current} digest at {e.hex()}")
                if level == 2:
                    data = rb.R(m["payload"]).expect(rb.STR).rest()
                    k = user.pkey(e)
                    plain = (ru.aes_decrypt(k, m["boots"], m["time"], m["priv"], data)
                        if priv == "aes" else ru.des_decrypt(k, m["priv"], data))
                    try:
                        got = rb.dec_scoped(plain, leftovers=True)[2][1]
                    except Exception:
                        got = None
                    if got != 77:
                        t.fail("privacy key", f"{t.current}: the payload is not"
                            f" encrypted under the key of {ppw!r} at {e.hex()}",
                            t.current)
                t.case("configured user")

def work(t, chunk):
    kind, name, arg = chunk
    if kind == "passwords":
        passwords(t, name, arg)
    elif kind == "configured":
        configured(t, name, arg)
    else:
        globals()[kind](t, name)
    t.sample(f"{kind} {name}")

def run(ck):
    global L
    L = lib_usm.load()
    oracle()
    top = 200 if ck.quick else 2000
    odd = sorted({(1 << k) + d for k in range(7, 22) for d in (-1, 0, 1)
        if (1 << k) + d > top} | {MIB // 3, MIB // 3 + 1, 3 * MIB, 1000, 10000})
    chunks = []
    for name in ru.AUTH:
        small = list(range(1, top + 1))
        chunks += [("passwords", name, [n]) for n in small[:6]]
        chunks += [("passwords", name, small[6:][i::4]) for i in range(4)]
        chunks.append(("passwords", name, odd))
    for name in ru.AUTH:
        chunks += [("localizing", name, None), ("signing", name, None)]
        chunks += [("configured", name, p) for p in (None, "aes", "des")]
    total = report.enumerate_chunks(ck, work, chunks, limit=600)
    report.exploration(ck, total, "one case = one password length, one (key,"
        " engine ID), one (key, message length) or one user configuration at one"
        " engine and level, for one protocol")
    ck.coverage["bound"] = f"passwords of 1..{top} octets and around the powers"\
        " of two to 2^21, engine IDs to 69 octets, messages to 299 octets"
    ck.assumptions = ["oracle: mc/refusm.py on hashlib, checked here against the"
        " vectors of RFC 3414 A.3; passwords are not empty"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
