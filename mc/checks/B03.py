"""B03: PDUs and messages are what the standards prescribe, in both directions."""
import itertools
import lib
import refber as rb
import report

LEVEL = "exploration"
L = None

INTS = (0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769,
    8388607, 8388608, -8388608, -8388609, (1 << 31) - 1, -(1 << 31), 0x01020304)
NATS = tuple(sorted({n for n in INTS if n >= 0} | {10, 65535, 65536}))
O = (1, 3, 6, 1, 4, 1, 128, 5)
VALUES = [("int", 0), ("int", -129), ("int", (1 << 31) - 1), ("int", -(1 << 31)),
    ("str", b""), ("str", b"hi"), ("str", b"\0" * 126), ("str", b"\xff" * 128),
    ("str", bytes(range(256))), ("null",), ("oid", O), ("oid", (0, 0)),
    ("oid", (2, 39, (1 << 32) - 1)), ("oid", (1, 3) + (127, 128) * 63),
    ("ip", b"\x0a\0\0\1"), ("ip", b"\xff" * 4), ("c32", 0), ("c32", 1 << 31),
    ("c32", (1 << 32) - 1), ("g32", 128), ("g32", (1 << 32) - 1), ("tt", 70000),
    ("tt", 255), ("opq", b"\x9f"), ("opq", b""), ("c64", 0), ("c64", 1 << 63),
    ("c64", (1 << 64) - 1), ("nso",), ("nsi",), ("eomv",)]
BYKIND = {}
for v in VALUES:
    BYKIND.setdefault(v[0], v)
NAMES = ((1, 3, 6, 1), (0, 0), O, (2, 0) + (1,) * 126)
PDUS = {rb.GET: "GetRequestPDU", rb.GETNEXT: "GetNextRequestPDU",
    rb.RESPONSE: "ResponsePDU", rb.SET: "SetRequestPDU",
    rb.GETBULK: "GetBulkRequestPDU", rb.INFORM: "InformRequestPDU",
    rb.TRAP2: "SNMPv2TrapPDU", rb.REPORT: "ReportPDU"}

def lists():
    out = [[]]
    out += [[(n, v)] for n in NAMES[:2] for v in VALUES]
    out += [[(n, ("null",))] for n in NAMES]
    ks = list(BYKIND.values())
    out += [[(O, a), (O, b)] for a in ks for b in ks]
    for n in list(range(3, 24)) + [60, 128, 300]:
        out.append([((1, 3, 6, i), ks[i % len(ks)]) for i in range(n)])
    for n in list(range(95, 130)) + list(range(225, 262)) + [65400, 65500]:
        out.append([((1, 3), ("str", bytes(n)))])
    return out

def make(tag, reqid, a, b, vbs):
    cls = getattr(L.pdu, PDUS[tag])
    vbl = L.pdu.VarBindList(*L.varbinds(vbs))
    if tag == rb.GETBULK:
        return cls(requestID=reqid, nonRepeaters=a, maxRepetitions=b,
            variableBindings=vbl)
    return cls(requestID=reqid, errorStatus=L.pdu.ErrorStatus(a), errorIndex=b,
        variableBindings=vbl)

def fields(tag, p):
    if tag == rb.GETBULK:
        a, b = p.nonRepeaters, p.maxRepetitions
    else:
        a, b = int(p.errorStatus), p.errorIndex
    return (type(p).__name__, p.requestID, a, b, L.unvarbinds(p.variableBindings))

def want_fields(tag, reqid, a, b, vbs):
    return (PDUS[tag], reqid, a, b,
        [(tuple(n), v) for n, v in vbs])

def short(x):
    s = x.hex() if isinstance(x, bytes) else repr(x)
    return s if len(s) < 200 else s[:180] + f"...({len(s)})"

def pdu_case(t, tag, reqid, a, b, vbs):
    t.current = short((PDUS[tag], reqid, a, b, vbs))
    p = make(tag, reqid, a, b, vbs)
    want = rb.enc_pdu(tag, reqid, a, b, vbs)
    got = p.encode()
    if got != want:
        t.fail(f"encode:{PDUS[tag]}", f"{t.current} encodes as {short(got)},"
            f" not {short(want)}", t.current)
    q = type(p).decode(want)
    if fields(tag, q) != want_fields(tag, reqid, a, b, vbs):
        t.fail(f"decode:{PDUS[tag]}", f"{short(want)} decodes as"
            f" {short(fields(tag, q))}, not {t.current}", t.current)
    if not (q == p):
        t.fail(f"equal:{PDUS[tag]}", f"{t.current} != its own decoding", t.current)
    t.case(PDUS[tag])

def check(t, what, got, want):
    if got != want:
        t.fail(what, f"{t.current}: {what} gives {short(got)}, not"
            f" {short(want)}", t.current)

def convenience(t):
    """The constructors an application uses: names become null bindings."""
    OID, VB = L.smi.OID, L.pdu.VarBind
    for tag in PDUS:
        cls = getattr(L.pdu, PDUS[tag])
        for names in itertools.chain.from_iterable(
                itertools.product(NAMES, repeat=n) for n in range(4)):
            for form in (0, 1, 2, 3):
                t.current = (PDUS[tag], names, form)
                def conv(n):
                    text = ".".join(map(str, n))
                    return (OID(*n), text, "." + text, VB(OID(*n)))[form]
                p = cls(*(conv(n) for n in names))
                check(t, "convenience", p.encode(), rb.enc_pdu(tag, 0, 0, 0,
                    [(n, ("null",)) for n in names]))
                t.case("convenience")
    for v in VALUES:
        for n in NAMES:
            t.current = ("VarBind", n, short(v))
            vb = VB(".".join(map(str, n)), L.value(v))
            check(t, "varbind", vb.encode(), rb.tlv(0x30,
                rb.enc_value(("oid", n)) + rb.enc_value(v)))
            back = VB.decode(vb.encode())
            check(t, "varbind", (tuple(back.name), L.unvalue(back.value)), (n, v))
            t.case("varbind")

def errors(t):
    """Which binding an error response designates."""
    ER, ES = L.pdu.ErrorResponse, L.pdu.ErrorStatus
    for n in range(0, 6):
        vbs = [((1, 3, 6, i), ("int", i)) for i in range(n)]
        for tag in PDUS:
            req = make(tag, 5, 0, 0, vbs)
            for status in range(1, 19):
                for index in range(0, n + 3):
                    t.current = (PDUS[tag], n, status, index)
                    e = ER(ES(status), index, req)
                    check(t, "status", int(e.status), status)
                    if index == 0:
                        ok = e.cause is req
                    elif index <= n:
                        ok = (tuple(e.cause.name), L.unvalue(e.cause.value)) == vbs[index - 1]
                    else:
                        ok = e.cause == index
                    check(t, "cause", ok, True)
                    check(t, "message", ES(status).name in str(e), True)
                    if 1 <= index <= n:
                        check(t, "message", f"1.3.6.{index - 1}" in str(e), True)
                    t.case("error")

LENS = (0, 1, 2, 31, 32, 100, 126, 127, 128, 129, 200, 255, 256, 257, 1000)

def some_pdus():
    one = [(O, ("null",))]
    out = [(tag, 77, 0, 0, one) for tag in PDUS]
    out += [(rb.RESPONSE, r, s, i, vbs) for r in (1, -1, (1 << 31) - 1)
        for vbs in ([], one, [(O, ("c64", 1 << 63))] * 3) for s in (0, 5, 18)
        for i in range(len(vbs) + 1)]
    out += [(rb.GETBULK, 9, a, b, one) for a in (0, 1, 127) for b in (0, 10, 128)]
    out += [(rb.SET, 3, 0, 0, [(O, ("str", bytes(n)))]) for n in
        list(range(60, 136)) + list(range(180, 262))]
    return out

def community(t, version):
    import snmp.message.core as core
    import snmp.message.version as ver
    V = ver.ProtocolVersion
    pv = (V.SNMPv1, V.SNMPv2c)[version]
    types = {getattr(L.pdu, c).TAG: getattr(L.pdu, c) for c in PDUS.values()}
    pd = some_pdus()
    cases = [(b"c" * n, pdu) for n in LENS for pdu in pd]
    cases += [(c, pd[0]) for c in (b"\0", b"\xff", bytes(range(256)), b"public",
        b"p\0b")]
    for c, pdu in cases:
        t.current = short((version, len(c), pdu))
        m = core.Message(pv, c, make(*pdu))
        want = rb.enc_community_msg(version, c, rb.enc_pdu(*pdu))
        check(t, "message-encode", m.encode(), want)
        b = core.Message.decode(want, types=types)
        check(t, "message-decode", (int(b.version), b.community,
            fields(pdu[0], b.pdu)), (version, c, want_fields(*pdu)))
        check(t, "version-decode", int(ver.VersionOnlyMessage.decode(want).version),
            version)
        t.case(f"v{version + 1} message")

LEVELS = ((0, 0), (1, 0), (1, 1))

def v3_header(t):
    import snmp.message.v3 as v3
    import snmp.security.levels as sl
    from snmp.security.models import SecurityModel
    for msgid, size, (a, p), rep in itertools.product(NATS,
            [n for n in NATS if n >= 484] + [484, 485, 1472, 65507], LEVELS, (0, 1)):
        t.current = ("header", msgid, size, a, p, rep)
        h = v3.HeaderData(msgid, size, v3.MessageFlags(
            sl.SecurityLevel(a, p), bool(rep)), SecurityModel.USM)
        want = rb.enc_header(msgid, size, a | p << 1 | rep << 2, 3)
        check(t, "header-encode", h.encode(), want)
        b = v3.HeaderData.decode(want)
        check(t, "header-decode", (b.id, b.maxSize, bool(b.flags.authFlag),
            bool(b.flags.privFlag), bool(b.flags.reportableFlag),
            int(b.securityModel)), (msgid, size, bool(a), bool(p), bool(rep), 3))
        t.case("header")
    for byte in range(256):
        if byte & 3 == 2:
            continue
        t.current = ("flags", byte)
        b = v3.HeaderData.decode(rb.enc_header(5, 1472, byte, 3))
        check(t, "flags-decode", (bool(b.flags.authFlag), bool(b.flags.privFlag),
            bool(b.flags.reportableFlag)),
            (bool(byte & 1), bool(byte & 2), bool(byte & 4)))
        t.case("flags")

def usm(t):
    from snmp.security.usm.parameters import UsmSecurityParameters as U
    cases = list(itertools.product((0, 5, 32, 127, 128), NATS, (0, 150, (1 << 31) - 1),
        (0, 4, 32, 130), (0, 12, 48), (0, 8)))
    cases += list(itertools.product((5,), (7,), NATS, (4,), range(0, 60), (0, 4, 8, 16)))
    for e, boots, time, u, s, p in cases:
        t.current = ("usm", e, boots, time, u, s, p)
        f = (bytes(range(e)), boots, time, b"u" * u, b"\xaa" * s, b"\x55" * p)
        want = rb.enc_usm(*f)
        check(t, "usm-encode", U(*f).encode(), want)
        b = U.decode(want)
        check(t, "usm-decode", (b.engineID, b.engineBoots, b.engineTime,
            b.userName, bytes(b.signature), b.salt), f)
        t.case("usm")

def v3msg(t, part):
    import snmp.message.v3 as v3
    import snmp.security.levels as sl
    from snmp.security.models import SecurityModel
    OS = L.smi.OctetString
    pd = some_pdus()
    cases = []
    if part == 0:
        cases = [(n, e, c, pd[2], lv) for n in LENS for e in (0, 5, 12, 32, 127, 128, 130)
            for c in (0, 1, 32, 127, 128, 256) for lv in LEVELS]
    else:
        cases = [(n, e, c, p, (0, 0)) for p in pd[part - 1::3] for n in (0, 40, 128)
            for e, c in ((0, 0), (12, 0), (5, 9), (128, 200))]
    for n, e, c, p, (a, pr) in cases:
        t.current = short(("v3", n, e, c, p, a, pr))
        sp = bytes(i & 255 for i in range(n))
        eng, ctx = b"\x80" * e, b"x" * c
        flags = a | pr << 1 | 4
        scoped = rb.enc_scoped(eng, ctx, rb.enc_pdu(*p))
        payload = rb.enc_str(scoped) if pr else scoped
        want = rb.tlv(0x30, rb.enc_int(3) + rb.enc_header(n + 1, 1472, flags, 3)
            + rb.enc_str(sp) + payload)
        s = v3.ScopedPDU(make(*p), eng, contextName=ctx)
        check(t, "scoped-encode", s.encode(), scoped)
        h = v3.HeaderData(n + 1, 1472, v3.MessageFlags(sl.SecurityLevel(a, pr),
            True), SecurityModel.USM)
        kw = dict(encryptedPDU=OS(scoped)) if pr else dict(scopedPDU=s)
        m = v3.SNMPv3Message(h, securityParameters=OS(sp), **kw)
        check(t, "v3-encode", m.encode(), want)
        b = v3.SNMPv3Message.decode(want)
        check(t, "v3-decode", (b.header.id, bytes(b.securityParameters.data)),
            (n + 1, sp))
        if pr:
            check(t, "v3-payload", bytes(b.encryptedPDU.data), scoped)
            # decrypted octets, possibly followed by padding
            for pad in (b"", b"\0", bytes(7), b"\7" * 7, bytes(8)):
                b.plaintext = scoped + pad
                check(t, "v3-plaintext", (b.scopedPDU.contextEngineID,
                    b.scopedPDU.contextName, fields(p[0], b.scopedPDU.pdu)),
                    (eng, ctx, want_fields(*p)))
        else:
            check(t, "v3-payload", (b.scopedPDU.contextEngineID,
                b.scopedPDU.contextName, fields(p[0], b.scopedPDU.pdu)),
                (eng, ctx, want_fields(*p)))
            check(t, "v3-reencode", b.plaintext, scoped)
        t.case("v3 message")

def work(t, chunk):
    kind, arg, part = chunk
    if kind == "pdu":
        tag = arg
        bulk = tag == rb.GETBULK
        vl = lists()
        if part == 0:
            for reqid in INTS:
                for vbs in ([], [(O, ("null",))], [(O, ("int", 5))] * 3,
                        [(O, ("str", bytes(100)))]):
                    if bulk:
                        for a, b in itertools.product(NATS, NATS):
                            pdu_case(t, tag, reqid, a, b, vbs)
                    else:
                        for s in range(19):
                            for i in range(len(vbs) + 1):
                                pdu_case(t, tag, reqid, s, i, vbs)
        else:
            for vbs in vl[part - 1::3]:
                for reqid in (1, -129, (1 << 31) - 1):
                    for a in (0, 2):
                        pdu_case(t, tag, reqid, a, min(a, len(vbs)), vbs)
    elif kind == "community":
        community(t, arg)
    elif kind == "v3":
        v3msg(t, part)
    else:
        globals()[kind](t)

def chunks():
    out = [("pdu", tag, k) for k in range(4) for tag in PDUS]
    out += [("community", 0, 0), ("community", 1, 0)]
    out += [("v3", 0, k) for k in range(4)]
    out += [(n, 0, 0) for n in ("convenience", "errors", "v3_header", "usm")]
    return out

def run(ck):
    global L
    L = lib.load()
    total = report.enumerate_chunks(ck, work, chunks())
    report.exploration(ck, total, "products of boundary values of the fields of"
        " each PDU, message, header, scoped PDU and security parameters; each"
        " is encoded by the library and by the reference codec, compared, and"
        " decoded again; every case differs from the others in some field")
    ck.assumptions = ["error indices are within the variable bindings (others"
        " are judged by B02)", "oracle: mc/refber.py"]

def replay(ck, data):
    global L
    L = lib.load()
    print("the failing case is described by:", data)
    run(ck)
    return ck.finish()
