"""U02: no message that fails authentication is ever accepted."""
import hmac
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "exploration"
L = CLOCK = None
ENGINE = b"\x80\0\0\0\5engine"
OTHER = b"\x80\0\0\0\5elsewhere"
STRANGE = b"\x80\0\0\0\5stranger"
BOOTS, TIME = 5, 1000
VBS = [((1, 3, 6, 1, 2, 1), ("int", 1))]
RESP = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, VBS)
REP = rb.enc_pdu(rb.REPORT, 77, 0, 0, [(ag.USM_STATS + (2, 0), ("c32", 3))])
CONF = [(a, p) for a in ru.AUTH for p in (None, "aes", "des")]

def user(a, p, name=b"user", secret=b"auth-pass"):
    return ag.User(name, a, secret, p, p and b"priv-pass")

PLAIN = ag.User(b"plain")
SIGNER = ag.User(b"signer", "sha", b"signer-pass")
RIVAL = ag.User(b"rival", "md5", b"rival-pass", "aes", b"rival-priv")

class Scene:
    """A station with an outstanding request of each user, and its answers."""
    def __init__(self, u, warm=True):
        CLOCK.now = 4096.0
        self.u = u
        self.level = 2 if u.priv else 1
        self.flags = (1, 1, 3)[self.level]
        self.st = lib_usm.Station(L, [u, PLAIN, SIGNER, RIVAL], [ENGINE, OTHER])
        if warm:
            self.st.receive(ag.build_v3(1, 1, ENGINE, BOOTS, TIME, u.name, REP, u))
        self.handle, raw = self.st.send(ENGINE, u.name, self.level)
        self.msgid = rb.dec_v3(raw)["msgid"]

    def genuine(self, pdu=RESP, **over):
        kw = dict(msgid=self.msgid, flags=self.flags, engine=ENGINE, boots=BOOTS,
            time=TIME, user=self.u.name, pdu=pdu, keys=self.u)
        kw.update(over)
        return ag.build_v3(**kw)

    def clock(self):
        h, raw = self.st.send(ENGINE, self.u.name, 1)
        h.close()
        m = rb.dec_v3(raw)
        return m["boots"], m["time"]

    def refused(self, t, what, raw, unauth=False):
        """unauth: the message may pass for an unauthenticated one"""
        t.case(what[0])
        r = self.st.receive(raw)
        if r[0] == "ok":
            if not (unauth and not r[1].header.flags.authFlag):
                t.fail(f"accepted:{what[0]}", f"{t.current} {what} is accepted:"
                    f" {raw.hex()}", repr((t.current, what)))
        elif not isinstance(r[1], L.Incoming):
            t.fail(f"{r[0]}:{what[0]}", f"{t.current} {what} raises {r[1]!r}",
                repr((t.current, what)))

    def accepts(self, t, what, raw, pdu=RESP):
        t.case(what[0])
        r = self.st.receive(raw)
        ok = r[0] == "ok" and r[2] is self.handle
        if ok:
            sec = r[1].header.flags.securityLevel
            ok = sec == L.level(self.level)
        if not ok:
            t.fail(f"refused:{what[0]}", f"{t.current} after {what} the genuine"
                f" answer {raw.hex()} is not accepted: {r}",
                repr((t.current, what)))

def bits(t, conf, part, parts, pdu, every):
    """Every change of one bit (or octet) of a genuine message."""
    u = user(*conf)
    s = Scene(u)
    raw = s.genuine(pdu)
    t.current = ("bits", conf, "report" if pdu == REP else "response")
    before = s.clock()
    s.accepts(t, ("genuine",), raw)
    for i in range(part, len(raw), parts):
        for x in (range(1, 256) if every else [1 << k for k in range(8)]):
            bad = raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:]
            s.refused(t, ("changed octet", i, x), bad, pdu == REP)
        s.accepts(t, ("genuine between",), raw)
        if pdu != REP and s.clock() != before:
            t.fail("clock", f"{t.current}: after changes of octet {i} requests"
                f" carry {s.clock()}, not {before}", repr(t.current))
    for i in range(part, len(raw), parts):
        s.refused(t, ("cut", i), raw[:i])
        s.refused(t, ("gap", i), raw[:i] + raw[i + 1:])
        s.refused(t, ("extra", i), raw[:i] + b"\0" + raw[i:])
    for i in range(part, 257, parts):
        s.refused(t, ("tail", i), raw + bytes([i & 255]) * (1 + i // 256))
    s.accepts(t, ("genuine after",), raw)

def signed(msg, n, mac):
    """msg(digest octets) -> the message, mac over it with n zero octets"""
    return msg(mac(msg(bytes(n))))

def build(sc, digest, **over):
    f = dict(msgid=sc.msgid, maxsize=1472, flags=sc.flags, model=3, engine=ENGINE,
        boots=BOOTS, time=TIME, user=sc.u.name, ctxengine=ENGINE, context=b"",
        pdu=RESP, salt=b"\1\2\3\4\5\6\7\x08", pkeys=sc.u)
    f.update(over)
    scoped = rb.enc_scoped(f["ctxengine"], f["context"], f["pdu"])
    salt = b""
    payload = scoped
    if f["flags"] & 2:
        salt = f["salt"]
        k = f["pkeys"]
        if k.priv == "des":
            payload = rb.enc_str(ru.des_encrypt(k.pkey(ENGINE), salt, scoped
                + bytes(-len(scoped) % 8)))
        else:
            key = k.pkey(ENGINE) if k.priv else bytes(16)
            payload = rb.enc_str(ru.aes_encrypt(key, f["boots"], f["time"], salt,
                scoped))
    return rb.enc_v3(rb.enc_header(f["msgid"], f["maxsize"], f["flags"], f["model"]),
        rb.enc_usm(f["engine"], f["boots"], f["time"], f["user"], digest, salt),
        payload)

FIELDS = dict(
    msgid=lambda s: [s.msgid ^ 1, 0, (1 << 31) - 1],
    maxsize=lambda s: [484, 65507],
    flags=lambda s: [s.flags | 4, s.flags & 1, s.flags & ~1, 0, 2, 3, 7, 255],
    engine=lambda s: [OTHER, STRANGE, b"", ENGINE[:-1]],
    boots=lambda s: [BOOTS + 1, BOOTS - 1, 0, (1 << 31) - 1],
    time=lambda s: [TIME + 1, TIME - 1, TIME + 200, 0, (1 << 31) - 1],
    user=lambda s: [b"plain", b"signer", b"rival", b"nobody", b""],
    ctxengine=lambda s: [OTHER, b""],
    context=lambda s: [b"x"],
    pdu=lambda s: [REP, rb.enc_pdu(rb.RESPONSE, 77, 0, 0, []),
        rb.enc_pdu(rb.RESPONSE, 78, 0, 0, VBS), rb.enc_pdu(rb.GET, 77, 0, 0, VBS)],
    salt=lambda s: [bytes(8), b"\1\2\3\4\5\6\7\x09"],
)

def wrong_keys(u):
    """Every key a forger might have instead of the right one."""
    out = [("other password", u.auth, ru.localized(u.auth, b"wrong", ENGINE)),
        ("other engine", u.auth, ru.localized(u.auth, u.apass, OTHER)),
        ("not localised", u.auth, ru.password_to_key(u.auth, u.apass)),
        ("password itself", u.auth, u.apass), ("no key", u.auth, b""),
        ("rival's key", u.auth, ru.localized(u.auth, RIVAL.apass, ENGINE))]
    if u.ppass:
        out.append(("privacy key", u.auth, ru.localized(u.auth, u.ppass, ENGINE)))
    for a in ru.AUTH:
        if a != u.auth:
            out.append((f"as {a}", a, ru.localized(a, u.apass, ENGINE)))
    return out

def forgeries(u, s):
    """-> (description, message); every one must be refused."""
    n = ru.AUTH[u.auth][3]
    right = lambda data: ru.hmac(u.auth, u.akey(ENGINE), data)
    base = build(s, right(build(s, bytes(n))))
    digest = rb.dec_v3(base)["auth"]
    # digests of other lengths, of other parts, and guesses
    for k in range(0, 80):
        if k == n:
            continue
        for pad in {k, n}:
            mac = right(build(s, bytes(pad))) * 6
            yield ("digest length", k, pad), build(s, mac[:k])
        yield ("zero digest", k), build(s, bytes(k))
    whole = hmac.new(u.akey(ENGINE), build(s, bytes(n)), ru.AUTH[u.auth][0]).digest()
    yield ("untruncated digest",), build(s, whole)
    yield ("last octets of the digest",), build(s, whole[-n:])
    for guess in (bytes(n), b"\xff" * n, digest[1:] + digest[:1],
            digest[::-1], digest[:-1] + b"\0", b"\0" + digest[1:],
            digest[:n // 2] + bytes(n - n // 2), bytes(n // 2) + digest[n // 2:]):
        if guess != digest:
            yield ("guess", guess.hex()), build(s, guess)
    yield ("digest over digest",), build(s, right(base))
    # one field changed, with the digest of the original or of a wrong key
    for name, values in FIELDS.items():
        for v in values(s):
            m = lambda d: build(s, d, **{name: v})
            blank = m(bytes(n))
            if blank == build(s, bytes(n)):
                continue
            yield ("old digest", name, v), m(digest)
            yield ("zero digest", name, v), blank
            yield ("no digest", name, v), m(b"")
            for why, a, key in wrong_keys(u):
                if v == RIVAL.name and why == "rival's key":
                    continue            # that is rival's own message
                k = ru.AUTH[a][3]
                yield ("wrong key", name, v, why), m(ru.hmac(a, key, m(bytes(k))))
    for why, a, key in wrong_keys(u):
        k = ru.AUTH[a][3]
        mac = ru.hmac(a, key, build(s, bytes(k)))
        if len(mac) != n or mac != digest:
            yield ("wrong key", why), build(s, mac)
    # correctly signed for somebody or something else
    for who, ps in ((SIGNER, (3,)), (PLAIN, (1, 3)), (u, (2,)), (RIVAL, (2,)),
            (PLAIN, (2,))):
        for f in ps:
            for k in (0, 12, 16, 24, 32, 48):
                a = who.auth or "md5"
                key = who.akey(ENGINE) if who.auth else b""
                m = lambda d: build(s, d, user=who.name, flags=f,
                    pkeys=ag.User(who.name, "md5", b"x", "aes", b"auth-pass"))
                mac = (ru.hmac(a, key, m(bytes(k))) * 5)[:k]
                yield ("level not available", who.name, f, k), m(mac)
                yield ("level not available", who.name, f, -k), m(bytes(k))
    for e in (STRANGE, b"", OTHER, ENGINE + b"\0"):
        for key in (u.akey(ENGINE), ru.localized(u.auth, u.apass, e)):
            m = lambda d: build(s, d, engine=e)
            yield ("other engine", e), m(ru.hmac(u.auth, key, m(bytes(n))))
    for name in (b"nobody", b"", u.name + b"x", u.name[:-1]):
        m = lambda d: build(s, d, user=name)
        yield ("other user", name), m(right(m(bytes(n))))
    for w in (RIVAL, SIGNER):
        m = lambda d: build(s, d, user=w.name, flags=1)
        yield ("another user's", w.name), m(ru.hmac(w.auth, w.akey(ENGINE),
            m(bytes(ru.AUTH[w.auth][3]))))

def structured(t, conf, order, part, parts):
    u = user(*conf)
    t.current = ("structured", conf, order)
    s = Scene(u, warm=order != "first")
    before = s.clock()
    n = ru.AUTH[u.auth][3]
    good = s.genuine()
    for i, (what, raw) in enumerate(forgeries(u, s)):
        if i % parts != part:
            continue
        if order == "first":
            s2 = Scene(u, False)
            s2.msgid = s.msgid
            r = s2.st.receive(raw)      # message ID unknown here: still judged
            s2.refused(t, what, raw)
            flags = rb.dec_v3(raw)["flags"] if valid(raw) else 1
            if what[0] != "another user's" and flags & 1 and s2.clock() != (0, 0):
                t.fail("clock", f"{t.current}: after {what} requests carry"
                    f" {s2.clock()}", repr((t.current, what)))
            continue
        s.refused(t, what, raw)
        s.accepts(t, what, good)
        if s.clock() != before:
            t.fail("clock", f"{t.current}: after {what} requests carry"
                f" {s.clock()}, not {before}", repr((t.current, what)))
            s = Scene(u)
            good = s.genuine()

def valid(raw):
    try:
        rb.dec_v3(raw)
    except rb.RefError:
        return False
    return True

def genuine(t, conf, quick):
    """Unusual but genuine messages are accepted."""
    u = user(*conf)
    n = ru.AUTH[u.auth][3]
    fake = rb.enc_str(bytes(n))
    t.current = ("genuine", conf)
    for name in (b"user", b"", bytes(n), fake[:32], rb.enc_int(5) + fake[:20],
            b"\x30" * 32, b"\xff" * 32):
        for eng in (ENGINE, fake[:32], rb.enc_int(0) + rb.enc_int(0), b"\x04" * 5,
                bytes(range(32))):
            w = user(*conf, name=name)
            st = None
            try:
                name.decode()
            except UnicodeDecodeError:
                continue
            st = lib_usm.Station(L, [w], [eng])
            h, raw = st.send(eng, name, 2 if w.priv else 1)
            msgid = rb.dec_v3(raw)["msgid"]
            for boots, time in ((0, 0), (1, 128), (255, 32768), (65536, 1 << 24)):
                raw = ag.build_v3(msgid, 3 if w.priv else 1, eng, boots, time, name,
                    RESP, w)
                r = st.receive(raw)
                if r[0] != "ok":
                    t.fail("genuine refused", f"{t.current}: {raw.hex()} of user"
                        f" {name!r} at {eng!r} is refused: {r}", repr(t.current))
                t.case("genuine, unusual fields")
    s = Scene(u)
    for size in range(0, 300 if quick else 1400):
        pdu = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, [((1, 3, 6), ("str", bytes(size)))])
        s.accepts(t, ("genuine, size", size), s.genuine(pdu))

def pairs(t, conf, part, parts):
    """Every change of two bits of the digest."""
    u = user(*conf)
    s = Scene(u)
    raw = s.genuine()
    m = rb.dec_v3(raw)
    a, n = m["authoff"], 8 * len(m["auth"])
    d = int.from_bytes(m["auth"], "big")
    t.current = ("pairs", conf)
    for i in range(part, n, parts):
        for j in range(i):
            x = (d ^ 1 << i ^ 1 << j).to_bytes(n // 8, "big")
            s.refused(t, ("two bits", i, j), raw[:a] + x + raw[a + n // 8:])
    s.accepts(t, ("genuine after",), raw)

def work(t, chunk):
    globals()[chunk[0]](t, *chunk[1:])
    t.sample(f"{chunk[0]} {str(chunk[1:])[:80]}", 1)

def run(ck):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    chunks = []
    confs = CONF
    for c in confs:
        full = not ck.quick
        chunks += [("bits", c, i, 2, RESP, full) for i in range(2)]
        if not ck.quick or c[1] != "des":
            chunks.append(("bits", c, 0, 1, REP, False))
        chunks += [("genuine", c, ck.quick)]
        chunks += [("structured", c, "between", i, 2) for i in range(2)]
        if not ck.quick or c[1] != "des":
            chunks += [("structured", c, "first", i, 2) for i in range(2)]
    chunks += [("pairs", ("md5", None), i, 8) for i in range(8)]
    if not ck.quick:
        chunks += [("pairs", (a, p), i, 8) for a in ru.AUTH for p in (None, "aes")
            for i in range(8)]
    total = report.enumerate_chunks(ck, work, chunks, limit=3600)
    report.exploration(ck, total, "one case = one forged or altered message (or"
        " the genuine one between them) presented to a message processor with a"
        " request of that user outstanding; every case is a different message")
    ck.assumptions = ["HMAC and the hash functions are sound: no other message"
        " than the genuine one has its digest",
        "oracle: mc/refber.py and mc/refusm.py build the genuine messages"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
