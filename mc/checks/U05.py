"""U05: encryption interoperates and privacy parameters are checked."""
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "exploration"
OPENSSL = True
L = None
BACK = {}
TOP = (1 << 31) - 1
EDGE = (0, 1, 127, 128, 255, 256, 65535, 65536, 0x01020304, TOP - 1, TOP)
KEY = bytes.fromhex("7c1f02a9b35e64d8e7904b12c6f8ad35" "aa5511ee" + "42" * 44)
SALTS = (bytes(8), b"\xff" * 8, bytes(range(8)), b"\0\0\0\5\x80\0\0\1",
    b"\x80" + bytes(7), bytes(7) + b"\1")

def setup():
    global L, BACK
    L = lib_usm.load()
    import snmp.security.usm.priv.openssl.aes as oa
    import snmp.security.usm.priv.openssl.des as od
    import snmp.security.usm.priv.pycryptodome.aes as pa
    import snmp.security.usm.priv.pycryptodome.des as pd
    BACK = {("openssl", "aes"): oa.AesCfb128, ("openssl", "des"): od.DesCbc,
        ("pycryptodome", "aes"): pa.AesCfb128, ("pycryptodome", "des"): pd.DesCbc}

def ref_dec(proto, key, boots, time, salt, data):
    return (ru.aes_decrypt(key, boots, time, salt, data) if proto == "aes"
        else ru.des_decrypt(key, salt, data))

def ref_enc(proto, key, boots, time, salt, data):
    return (ru.aes_encrypt(key, boots, time, salt, data) if proto == "aes"
        else ru.des_encrypt(key, salt, data))

def short(b):
    return b.hex() if len(b) < 80 else f"{b[:40].hex()}...({len(b)})"

def payload(n):
    return bytes((i * 37 + n + (i >> 3)) & 255 for i in range(n))

def one(t, who, p, key, data, boots, time):
    t.current = (who, len(key), len(data), boots, time)
    c, salt = p.encrypt(data, boots, time)
    proto = who[1]
    if len(salt) != 8 or type(c) is not bytes:
        t.fail(f"{who}:salt", f"{t.current}: salt {salt!r}", t.current)
        return
    plain = ref_dec(proto, key, boots, time, salt, c)
    ok = plain == data if proto == "aes" else (plain[:len(data)] == data
        and len(plain) - len(data) in range(9) and len(plain) % 8 == 0)
    if not ok:
        t.fail(f"{who}:encrypt", f"{t.current}: a conforming engine decrypts"
            f" {short(plain)}, not {short(data)}", t.current)
    back = p.decrypt(c, boots, time, salt)
    if back != plain:
        t.fail(f"{who}:own", f"{t.current}: decrypts its own ciphertext as"
            f" {short(back)}, not {short(plain)}", t.current)
    t.case("encrypt")

def other(t, who, p, key, data, boots, time, salt):
    proto = who[1]
    if proto == "des":
        data = data[:len(data) // 8 * 8]
    t.current = (who, len(key), len(data), boots, time, salt.hex())
    got = p.decrypt(ref_enc(proto, key, boots, time, salt, data), boots, time, salt)
    if got != data or type(got) is not bytes:
        t.fail(f"{who}:decrypt", f"{t.current}: decrypts {short(bytes(got))},"
            f" not {short(data)}", t.current)
    t.case("decrypt")

def primitive(t, who, lengths):
    cls = BACK[who]
    p = cls(KEY)
    for n in lengths:
        data = payload(n)
        for b, s in ((0, 0), (5, 1000), (TOP, TOP)):
            one(t, who, p, KEY[:64], data, b, s)
        for salt in SALTS:
            other(t, who, p, KEY, data, 5, 1000, salt)

def boundaries(t, who):
    cls = BACK[who]
    for k in range(16, 65):
        p = cls(KEY[:k])
        for n in (0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 100):
            one(t, who, p, KEY[:k], payload(n), 5, 1000)
            other(t, who, p, KEY[:k], payload(n), 5, 1000, SALTS[2])
    p = cls(KEY)
    for b, s in itertools.product(EDGE, EDGE):
        for n in (1, 16, 47):
            one(t, who, p, KEY, payload(n), b, s)
            for salt in SALTS[1:4]:
                other(t, who, p, KEY, payload(n), b, s, salt)
    # any octet of the salt, every bit
    for i in range(64):
        salt = (1 << i).to_bytes(8, "big")
        other(t, who, p, KEY, payload(40), 7, 9, salt)
    for k in range(0, 16):
        t.current = (who, "key", k)
        try:
            cls(KEY[:k])
        except ValueError:
            t.case("short key")
            continue
        t.fail(f"{who}:key", f"{who} accepts a key of {k} octets", t.current)

KEY2 = KEY[::-1]

def sequences(t, who, first, depth):
    """What was done before, with this key or another, makes no difference."""
    ops = [(way, k, b, s, salt, n) for way in ("enc", "dec") for k in (0, 1)
        for b in (5, 6) for s in (1000, 1001) for salt in (2, 5) for n in (16, 24)
        if way == "dec" or salt == 2]
    if depth > 2:
        ops = [o for o in ops if o[5] == 16]
    memo = {}
    keys = (KEY, KEY2)
    for tail in itertools.product(ops, repeat=depth - 1):
        ps = [BACK[who](k) for k in keys]
        for way, k, b, s, salt, n in (ops[first % len(ops)],) + tail:
            if way == "enc":
                one(t, who, ps[k], keys[k], payload(n), b, s)
                continue
            key = (k, b, s, salt, n)
            if key not in memo:
                memo[key] = ref_enc(who[1], keys[k], b, s, SALTS[salt], payload(n))
            if ps[k].decrypt(memo[key], b, s, SALTS[salt]) != payload(n):
                t.fail(f"{who}:sequence", f"{who}: after others, {key} is not"
                    f" decrypted: {ops[first % len(ops)]}, {tail}", (first, tail))
        t.case("sequence")

def wrong(t, who):
    """Impossible parameters are decryption errors."""
    p = BACK[who](KEY)
    for n in list(range(0, 41)) + [64, 100, 255, 256]:
        for m in range(0, 20):
            if n == 0 and m == 8:
                continue
            data, salt = payload(n), payload(m)
            bad = m != 8 or (who[1] == "des" and n % 8)
            if not bad:
                continue
            t.current = (who, "impossible", n, m)
            try:
                got = p.decrypt(data, 5, 1000, salt)
            except L.Incoming:
                t.case("impossible")
                continue
            except ValueError:
                # the security model reports these as decryption errors
                t.case("impossible")
                continue
            t.fail(f"{who}:impossible", f"{t.current}: {n} octets with a"
                f" {m}-octet privacy parameter decrypt as {short(got)}", t.current)

ENGINE = b"\x80\0\0\0\5agent"

def scoped_of(n):
    """A scoped PDU of about n octets."""
    return rb.enc_scoped(ENGINE, b"", rb.enc_pdu(rb.RESPONSE, 77, 0, 0,
        [((1, 3, 6, 1), ("str", payload(n)))]))

def station(who, u):
    st = lib_usm.Station(L)
    st.usm.addUser("u", authProtocol=lib_usm.fast(L, u.auth), authSecret=u.apass,
        privProtocol=BACK[who], privSecret=u.ppass)
    st.usm.registerRemoteEngine(ENGINE)
    return st

def messages(t, who, auth, lengths, extremes):
    """Whole messages in both directions."""
    user = ag.User(b"u", auth, b"auth-pass", who[1], b"priv-pass")
    OID, VB, OS = L.smi.OID, L.pdu.VarBind, L.smi.OctetString
    st = station(who, user)
    key = user.pkey(ENGINE)
    for n in lengths:
        t.current = (who, auth, "message out", n)
        pdu = L.pdu.SetRequestPDU(VB(OID(1, 3, 6, 1), OS(payload(n))), requestID=77)
        h, raw = st.send(ENGINE, b"u", 2, pdu, b"ctx")
        m = rb.dec_v3(raw)
        data = rb.R(m["payload"]).expect(rb.STR).rest()
        plain = ref_dec(who[1], key, m["boots"], m["time"], m["priv"], data)
        want = rb.enc_scoped(ENGINE, b"ctx", rb.enc_pdu(rb.SET, 77, 0, 0,
            [((1, 3, 6, 1), ("str", payload(n)))]))
        extra = len(plain) - len(want)
        if plain[:len(want)] != want or not (extra == 0 or who[1] == "des" and
                extra <= 8):
            t.fail(f"{who}:message", f"{t.current}: decrypts as {short(plain)},"
                f" not {short(want)}", t.current)
        t.case("message out")
    cases = [(n, 5, 1000, s, 0) for n in lengths for s in SALTS[1:4]]
    if extremes:
        cases += [(n, b, s, SALTS[2], 0) for n in (0, 7, 60) for b in EDGE[:-1]
            for s in EDGE]
        if who[1] == "des":
            cases += [(n, 5, 1000, SALTS[2], k) for n in range(16) for k in (8, 16)]
    for n, b, s, salt, extra in cases:
        t.current = (who, auth, "message in", n, b, s, salt.hex(), extra)
        if (b, s, extra) != (5, 1000, 0):
            st = station(who, user)
        h, raw = st.send(ENGINE, b"u", 2)
        msgid = rb.dec_v3(raw)["msgid"]
        scoped = scoped_of(n)
        reply = ag.build_v3(msgid, 3, ENGINE, b, s, b"u", None, user,
            salt=salt, scoped=scoped + bytes(extra))
        r = st.receive(reply)
        if r[0] != "ok":
            t.fail(f"{who}:refused", f"{t.current}: refused with {r}", t.current)
            continue
        p = r[1].scopedPDU
        got = (p.contextEngineID, p.contextName, p.pdu.requestID,
            L.unvarbinds(p.pdu.variableBindings))
        if got != (ENGINE, b"", 77, [((1, 3, 6, 1), ("str", payload(n)))]) or r[2] is not h:
            t.fail(f"{who}:received", f"{t.current}: received as {got}", t.current)
        t.case("message in")

def bad_messages(t, who, auth):
    """Correctly signed messages whose encryption is impossible."""
    user = ag.User(b"u", auth, b"auth-pass", who[1], b"priv-pass")
    st = station(who, user)
    h, raw = st.send(ENGINE, b"u", 2)
    msgid = rb.dec_v3(raw)["msgid"]
    n = ru.AUTH[auth][3]
    for size in range(0, 34):
        for m in range(0, 18):
            data, salt = payload(size), payload(m)
            t.current = (who, auth, "bad message", size, m)
            hdr = rb.enc_header(msgid, 1472, 3, 3)
            msg = lambda mac: rb.enc_v3(hdr, rb.enc_usm(ENGINE, 5, 1000, b"u",
                mac, salt), rb.enc_str(data))
            blank = msg(bytes(n))
            raw = msg(ru.hmac(auth, user.akey(ENGINE), blank))
            r = st.receive(raw)
            if r[0] == "ok":
                t.fail(f"{who}:accepted", f"{t.current} is accepted", t.current)
            elif not isinstance(r[1], L.Incoming):
                t.fail(f"{who}:{r[0]}", f"{t.current} raises {r}", t.current)
            elif (m != 8 or who[1] == "des" and size % 8) and r[0] != "DecryptionError":
                t.fail(f"{who}:as {r[0]}", f"{t.current} is rejected as {r[0]},"
                    " not as a decryption error", t.current)
            t.case("bad message")

def work(t, chunk):
    kind, who = chunk[:2]
    globals()[kind](t, who, *chunk[2:])
    t.sample(f"{kind} {who} {str(chunk[2:])[:60]}")

def run(ck):
    setup()
    top = 400 if ck.quick else 2000
    lengths = list(range(top)) + [1400, 1471, 1472, 1473, 4096, 65000]
    chunks = []
    for who in BACK:
        chunks += [("primitive", who, lengths[i::4]) for i in range(4)]
        chunks += [("boundaries", who), ("wrong", who)]
        chunks += [("sequences", who, i, 2) for i in range(48)]
        chunks += [("sequences", who, i, 3) for i in range(24)]
        auths = ("md5", "sha256") if ck.quick else tuple(ru.AUTH)
        for a in auths:
            chunks.append(("bad_messages", who, a))
            ml = list(range(0, 300 if ck.quick else 1400))
            chunks += [("messages", who, a, ml[i::2], i == 0) for i in range(2)]
    total = report.enumerate_chunks(ck, work, chunks, limit=600)
    report.exploration(ck, total, "one case = one payload with one key, boots,"
        " time and salt in one direction through one backend, or one whole"
        " message, or one impossible parameter")
    ck.coverage["bound"] = f"payloads of 0..{top - 1} octets and larger ones;"\
        " boots and times at every octet boundary"
    ck.assumptions = ["oracle: mc/refusm.py, CFB128 and CBC built from raw"
        " block operations"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
