"""U09: a request leaves with the security asked for, or not at all."""
import itertools
import agent as ag
import client
import env
import explore
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "exploration"
L = None
FLAGS = (0, 1, 3)
MARK = b"SECRETMARKER"
USERS = [ag.User(b"plain")] + [ag.User(a.encode(), a, b"auth-" + a.encode())
    for a in ru.AUTH] + [ag.User((a + p).encode(), a, b"auth-pass", p, b"priv-pass")
    for a in ru.AUTH for p in ("aes", "des")]
USERS += [ag.User("ünïcode".encode(), "sha", b"pw"), ag.User(b"x" * 32, "md5", b"pw",
    "aes", b"pw")]
BYNAME = {u.name: u for u in USERS}

def engine(n):
    return bytes([0x80, 0, 0, 0, 5] + [i & 255 for i in range(n)])[:n]

PDUS = {"get": rb.GET, "getnext": rb.GETNEXT, "set": rb.SET, "bulk": rb.GETBULK,
    "inform": rb.INFORM}

def make(kind, reqid, size):
    """-> (library PDU, its standard encoding)"""
    P, VB, OID, OS = L.pdu, L.pdu.VarBind, L.smi.OID, L.smi.OctetString
    data = (MARK * (size // len(MARK) + 1))[:size]
    vbs = [((1, 3, 6, 1, 2, 1), ("str", data))]
    vb = VB(OID(1, 3, 6, 1, 2, 1), OS(data))
    tag = PDUS[kind]
    a = b = 0
    if kind == "bulk":
        a, b = 1, 20
        p = P.GetBulkRequestPDU(vb, requestID=reqid, nonRepeaters=a,
            maxRepetitions=b)
    else:
        p = {"get": P.GetRequestPDU, "getnext": P.GetNextRequestPDU,
            "set": P.SetRequestPDU, "inform": P.InformRequestPDU}[kind](vb,
            requestID=reqid)
    return p, rb.enc_pdu(tag, reqid, a, b, vbs)

def inspect(t, raw, user, level, eng, ctx, pdu, size=1472):
    """The datagram must be exactly the message asked for."""
    def bad(key, what):
        t.fail(key, f"{t.current}: {what} in {raw.hex()[:300]}", t.current)
    try:
        m = rb.dec_v3(raw)
    except rb.RefError as e:
        bad("malformed", f"not a well-formed message ({e})")
        return
    if (m["flags"], m["engine"], m["user"], m["maxsize"]) != (FLAGS[level] | 4,
            eng, user.name, size):
        bad("header", f"flags {m['flags']}, engine {m['engine'].hex()}, user"
            f" {m['user']}, maximum size {m['maxsize']}")
    if not 0 < m["msgid"] < 1 << 31:
        bad("msgid", f"message ID {m['msgid']}")
    want = rb.enc_scoped(eng, ctx, pdu)
    if level:
        n = ru.AUTH[user.auth][3]
        blank = raw[:m["authoff"]] + bytes(n) + raw[m["authoff"] + n:]
        if len(m["auth"]) != n or m["auth"] != ru.hmac(user.auth, user.akey(eng), blank):
            bad("digest", f"the digest {m['auth'].hex()} is not valid")
    elif m["auth"] or m["priv"]:
        bad("noauth", "security parameters at noAuthNoPriv")
    if level == 2:
        data = rb.R(m["payload"]).expect(rb.STR).rest()
        key = user.pkey(eng)
        plain = (ru.aes_decrypt(key, m["boots"], m["time"], m["priv"], data)
            if user.priv == "aes" else ru.des_decrypt(key, m["priv"], data))
        if plain[:len(want)] != want or len(plain) - len(want) > 8:
            bad("encryption", f"the payload decrypts as {plain.hex()[:200]}")
        if MARK in raw or eng + b"\x04" in m["payload"] or len(m["priv"]) != 8:
            bad("clear", "parts of the request are in clear")
    else:
        if m["priv"]:
            bad("noauth", "privacy parameters without privacy")
        if raw[len(raw) - len(want):] != want:
            bad("payload", f"the payload is not {want.hex()[:200]}")
    t.case("sent as asked")

def attempt(t, st, u, level, eng, ctx, kind, size, reqid=77):
    t.current = (u.name, level, len(eng), ctx, kind, size)
    p, enc = make(kind, reqid, size)
    able = 2 if u.priv else 1 if u.auth else 0
    try:
        h, raw = st.send(eng, u.name, level, p, ctx)
    except Exception as e:
        if level <= able:
            t.fail(f"refused:{type(e).__name__}", f"{t.current}: refused with"
                f" {report.describe(e)}", t.current)
        t.case("refused")
        return
    if level > able:
        t.fail("lowered", f"{t.current}: sent {raw.hex()[:200]} for a user"
            f" without the credentials", t.current)
        return
    inspect(t, raw, u, level, eng, ctx, enc)

def genuine(st, u, eng, boots, time):
    """A valid authenticated message that sets the clock."""
    r = ag.build_v3(1, 1, eng, boots, time, u.name, rb.enc_pdu(rb.RESPONSE, 1, 0, 0, []), u)
    st.incoming(r)

def processor(t, part, quick):
    for u in USERS[part::8]:
        engines = [engine(n) for n in (5, 8, 12, 17, 31, 32)]
        st = lib_usm.Station(L, USERS, engines)
        for synced in (0, 1):
            for eng in engines:
                for level in range(3):
                    for kind in PDUS:
                        for size in (0, 1, 40, 100):
                            attempt(t, st, u, level, eng, b"", kind, size)
                    for ctx in (b"c", b"bridge1", b"x" * 127, b"y" * 128, b"z" * 255):
                        attempt(t, st, u, level, eng, ctx, "get", 20)
            for level in range(3):
                for size in range(0, 300 if quick else 1400):
                    attempt(t, st, u, level, engines[2], b"", "set", size)
                for rid in (1, -1, 127, 128, -128, -129, 32768, 1 << 23, (1 << 31) - 1,
                        -(1 << 31)):
                    attempt(t, st, u, level, engines[0], b"", "get", 3, rid)
            if not u.auth:
                continue
            for i, eng in enumerate(engines):
                genuine(st, u, eng, (1, 127, 128, 65536, 1 << 24, (1 << 31) - 2)[i],
                    (0, 127, 128, 65535, 1 << 30, 5)[i])
        # whatever the user lacks, and users or engines nobody knows
        for level in (1, 2):
            for e, name in ((engines[0], b"nobody"), (b"\x80strange", u.name),
                    (b"", u.name), (engines[0], b""), (engines[0], u.name + b"x")):
                t.current = ("unknown", e, name, level)
                try:
                    h, raw = st.send(e, name, level)
                except Exception:
                    t.case("unknown refused")
                    continue
                t.fail("unknown", f"{t.current}: sent {raw.hex()[:200]}", t.current)

def lookalikes(t, auth):
    """Fields that look like the place of the digest, and like other fields."""
    n = ru.AUTH[auth][3]
    blank = rb.enc_str(bytes(n))
    head = b"\x80\0\0\0\5"
    engines = [bytes(32), (head + bytes(n))[:32], (head + blank)[:32],
        bytes(n)[:32], blank[:32], (rb.enc_int(0) * 2 + blank)[:32], b"\x04" * 32,
        rb.enc_str(head + b"x"), bytes(range(32)), b"\xff" * 32]
    names = [b"user", b"u\0", bytes(n)[:32], blank[:32] if blank[1] < 128 else b"u",
        b"\x30" * 32, b"\4\0" * 16, "\u00e9\u4e2d".encode()]
    contexts = [b"", bytes(n), blank, b"\x30" * 9, bytes(range(256))]
    for p in (None, "aes", "des"):
        for name in names:
            try:
                name.decode()
            except UnicodeDecodeError:
                continue
            u = ag.User(name, auth, b"auth-pass", p, p and b"priv-pass")
            for eng in engines:
                st = lib_usm.Station(L, [u], [eng])
                for synced in (0, 1):
                    for level, ctx in itertools.product(range(3), contexts):
                        attempt(t, st, u, level, eng, ctx, "get", 20)
                    if not synced:
                        genuine(st, u, eng, 5, 1000)

# ------------------------------------------------------------ through a manager

VERBS = ("get", "getNext", "getBulk", "set")

def judge(user, level, verb):
    u = env.USERS.get(user)
    able = -1 if u is None else 3 if u.priv else 1 if u.auth else 0
    ok = level <= able
    def j(c):
        p = c.w.problem
        r = c.recs[1]
        n = 0
        for a in c.agents:
            for t, req in a.received:
                vbs = req["pdu"][4] if "pdu" in req else None
                if vbs == [] and not req["engine"] and not req["user"]:
                    continue            # a discovery probe
                n += 1
                if (req["flags"] & 3, req["user"]) != (level, (user or "").encode()):
                    p("security", f"asked for {user} at {level}, sent"
                        f" {a.brief(req)}")
                elif vbs is None or len(vbs) != 1 or vbs[0][0] != ag.oid(1) or (
                        req["ctxengine"], req["context"]) != (a.engine, b""):
                    p("content", f"sent {a.brief(req)}")
                else:
                    tag = {"get": rb.GET, "getNext": rb.GETNEXT, "set": rb.SET,
                        "getBulk": rb.GETBULK}[verb]
                    ab = (1, 3) if verb == "getBulk" else (0, 0)
                    v = ("int", 5) if verb == "set" else ("null",)
                    if (req["pdu"][0], req["pdu"][2:4], vbs[0][1]) != (tag, ab, v):
                        p("content", f"{verb} sent as {req['pdu']}")
        if ok and n != 1 + (level > 0 and not c.known_time):
            # one transmission, plus one to learn the time where needed
            if n < 1:
                p("nothing", f"{n} requests were sent, {r.got}")
        if ok and (r.got is None or r.got[0] != "ok"):
            p("failed", f"{user} at {level}: {r.got}")
        if not ok and r.got is not None and r.got[0] == "ok":
            p("succeeded", f"{user} at {level} succeeded: {r.got}")
        if not ok and n and level:
            p("sent", f"{user} at {level}: {n} requests were sent")
        if r.got is None:
            p("no outcome", f"{user} at {level}")
    def j2(c):
        c.known_time = False
        j(c)
    return j2

def op_ask(self, m, k, kw, verb):
    if verb == "getBulk":
        kw = dict(kw, nonRepeaters=1, maxRepetitions=3)
    self.op_send(m, k, kw, verb)

client.Client.op_ask = op_ask

def scenarios(ck):
    out = []
    names = ("plain", "signer", "hider", "desman")
    for default, dl, known, warm in itertools.product(names, (None, 0, 1, 3),
            (False, True), (False, True)):
        able = {"plain": 0, "signer": 1}.get(default, 3)
        if warm and (dl or 0) > able:
            continue
        for user, level in itertools.product((None,) + names + ("nobody",),
                (None, 0, 1, 3)):
            for verb in VERBS if level is None or not ck.quick else ("get", "set"):
                eff_user = user or default
                eff = level if level is not None else dl if dl is not None else able
                kw = dict(timeout=2.5)
                if user:
                    kw["user"] = user.encode()
                if level is not None:
                    kw["securityLevel"] = client.level_of(level)
                out.append(explore.Scenario(
                    f"{default}/{dl} known={known} warm={warm} {verb} {user}/{level}",
                    client.v3([("ask", 1, kw, verb), ("wait", 1)], default, dl,
                        ("ok",), {}, (judge(eff_user, eff, verb),), users=names,
                        known=known, warmup=warm,
                        manager_kw=dict(defaultUserName=default)),
                    {}))
    return out

def work(t, chunk):
    if isinstance(chunk[0], str):
        lookalikes(t, *chunk)
        t.sample(f"fields that look like others, {chunk[0]}")
        return
    processor(t, *chunk)
    t.sample(f"processor: users {[u.name for u in USERS[chunk[0]::8]]}")

def run(ck):
    global L
    L = lib_usm.load()
    total = report.enumerate_chunks(ck, work, [(i, ck.quick) for i in range(8)]
        + [(a,) for a in ru.AUTH])
    report.exploration(ck, total, "one case = one request of one user at one"
        " level, engine ID, context, PDU type and size handed to the message"
        " processor, or one such request through a manager (each one execution)")
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = ["an unauthenticated request of an unknown user may be sent:"
        " it promises no security", "without the credentials the caller may learn"
        " of it by any exception, at the timeout at the latest",
        "oracle: mc/refber.py, mc/refusm.py"]

def replay(ck, data):
    if isinstance(data, dict):
        env.load()
        ck.quick = False
        return explore.replay(scenarios(ck), data)
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
