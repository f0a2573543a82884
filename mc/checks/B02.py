"""B02: malformed encodings are rejected as bad messages, never half-accepted."""
import itertools
import lib
import lenient as ln
import refber as rb
import report

LEVEL = "exploration"
L = None
DECODERS = {}

def setup():
    global L
    L = lib.load()
    import snmp.message.v3 as v3
    from snmp.security.usm.parameters import UsmSecurityParameters
    pdu = L.pdu
    msg = L.snmp.message
    v1types = {c.TAG: c for c in (pdu.GetRequestPDU, pdu.GetNextRequestPDU,
        pdu.ResponsePDU, pdu.SetRequestPDU)}
    v2types = dict(v1types)
    v2types.update({c.TAG: c for c in (pdu.GetBulkRequestPDU,
        pdu.InformRequestPDU, pdu.SNMPv2TrapPDU, pdu.ReportPDU)})
    tags = {pdu.GetRequestPDU: rb.GET, pdu.GetNextRequestPDU: rb.GETNEXT,
        pdu.ResponsePDU: rb.RESPONSE, pdu.SetRequestPDU: rb.SET,
        pdu.GetBulkRequestPDU: rb.GETBULK, pdu.InformRequestPDU: rb.INFORM,
        pdu.SNMPv2TrapPDU: rb.TRAP2, pdu.ReportPDU: rb.REPORT}

    def unpdu(p):
        tag = tags[type(p)]
        if tag == rb.GETBULK:
            ab = (int(p.nonRepeaters), int(p.maxRepetitions))
        else:
            ab = (int(p.errorStatus), int(p.errorIndex))
        return (tag, p.requestID) + ab + (L.unvarbinds(p.variableBindings),)

    def unscoped(s):
        return (bytes(s.contextEngineID), bytes(s.contextName), unpdu(s.pdu))

    def unv3(m):
        h = m.header
        f = ((1 if h.flags.authFlag else 0) | (2 if h.flags.privFlag else 0)
            | (4 if h.flags.reportableFlag else 0))
        payload = (bytes(m.encryptedPDU.data) if h.flags.privFlag
            else unscoped(m.scopedPDU))
        return (h.id, h.maxSize, f, int(h.securityModel),
            bytes(m.securityParameters.data), payload)

    P, I = L.ParseError, L.Incoming
    for k, cls in L.cls.items():
        DECODERS[k] = (cls.decode, L.unvalue,
            ln.whole(lambda c, k=k: ln.value(c, k)), P)
    DECODERS["varbind"] = (pdu.VarBind.decode,
        lambda vb: L.unvarbinds([vb])[0], ln.whole(ln.varbind), P)
    DECODERS["varbinds"] = (pdu.VarBindList.decode, L.unvarbinds,
        ln.whole(ln.varbinds), P)
    for cls, tag in tags.items():
        DECODERS[f"pdu{tag:x}"] = (cls.decode, unpdu,
            ln.whole(lambda c, tag=tag: ln.pdu(c, (tag,))), P)
    unmsg = lambda m: (int(m.version), bytes(m.community), unpdu(m.pdu))
    DECODERS["v1msg"] = (lambda d: msg.Message.decode(d, types=v1types),
        unmsg, lambda d: ln.community_msg(d, (0, 1), ln.V1PDUS), I)
    DECODERS["v2msg"] = (lambda d: msg.Message.decode(d, types=v2types),
        unmsg, lambda d: ln.community_msg(d, (0, 1), ln.V2PDUS), I)
    DECODERS["v3msg"] = (v3.SNMPv3Message.decode, unv3, ln.v3msg, I)
    DECODERS["scoped"] = (lambda d: v3.ScopedPDU.decode(d, types=v2types),
        unscoped, ln.whole(ln.scoped), I)
    DECODERS["usm"] = (UsmSecurityParameters.decode,
        lambda u: (bytes(u.engineID), u.engineBoots, u.engineTime,
            bytes(u.userName), bytes(u.signature), bytes(u.salt)), ln.usm, I)

def judge(t, name, data):
    decode, un, ref, err = DECODERS[name]
    t.current = (name, data.hex() if len(data) < 400 else (len(data), data[:40].hex()))
    want = ln.run(ref, data)
    try:
        got = un(decode(data))
    except err:
        if want[0] == "ok" and not want[2]:
            t.fail(f"refused:{name}", f"{name}: well-formed {data.hex()[:300]}"
                " is rejected", [name, data.hex()])
        t.case("rejected", nontrivial=want[0] == "reject")
        return
    except Exception as e:
        t.fail(f"exception:{name}:{type(e).__name__}", f"{name}:"
            f" {data.hex()[:300]} raises {report.describe(e)} instead of being"
            f" rejected as malformed", [name, data.hex()])
        t.case("exception")
        return
    if want[0] == "reject":
        t.fail(f"accepted:{name}:{want[1]}", f"{name}: {data.hex()[:300]}"
            f" ({want[1]}) is accepted as {str(got)[:200]}", [name, data.hex()])
    elif want[1] is not None and got != want[1]:
        t.fail(f"value:{name}", f"{name}: {data.hex()[:300]} decodes as"
            f" {str(got)[:200]}, not {str(want[1])[:200]}", [name, data.hex()])
    t.case("accepted-loose" if want[2] else "accepted")

# ------------------------------------------------------------------ exemplars

def exemplars():
    o = (1, 3, 6, 1, 4, 1, 128, 5)
    vals = [("int", -129), ("str", b"hi"), ("null",), ("oid", o),
        ("ip", b"\x0a\0\0\1"), ("c32", 1 << 31), ("g32", 128), ("tt", 70000),
        ("opq", b"\x9f"), ("c64", (1 << 64) - 1), ("nso",), ("nsi",), ("eomv",)]
    out = [(v[0], rb.enc_value(v)) for v in vals]
    vb = rb.tlv(0x30, rb.enc_value(("oid", o)) + rb.enc_value(("int", 300)))
    out.append(("varbind", vb))
    some = [(o, ("int", 5)), ((1, 3), ("str", b"x"))]
    every = [((1, 3, i), v) for i, v in enumerate(vals)]
    out.append(("varbinds", rb.enc_varbinds(some)))
    out.append(("varbinds", rb.enc_varbinds(every)))
    one = [((1, 3, 6), ("null",))]
    for tag in ln.V2PDUS:
        out.append((f"pdu{tag:x}", rb.enc_pdu(tag, -5, 1, 1, one)))
    resp = rb.enc_pdu(rb.RESPONSE, 1 << 30, 0, 0, some)
    out.append(("v1msg", rb.enc_community_msg(0, b"public", resp)))
    out.append(("v2msg", rb.enc_community_msg(1, b"", rb.enc_pdu(
        rb.GETBULK, 7, 0, 10, one))))
    sc = rb.enc_scoped(b"\x80eng", b"ctx", rb.enc_pdu(rb.REPORT, 0, 0, 0, one))
    out.append(("scoped", sc))
    usm = rb.enc_usm(b"\x80eng", 1, 70000, b"user", bytes(12), bytes(8))
    out.append(("usm", usm))
    out.append(("v3msg", rb.enc_v3(rb.enc_header(77, 484, 4, 3), usm, sc)))
    out.append(("v3msg", rb.enc_v3(rb.enc_header((1 << 31) - 1, 65507, 3, 3),
        usm, rb.enc_str(bytes(16)))))
    return out

def spans(data, pos=0, end=None, out=None, depth=0):
    """Every TLV in the tree: (tag pos, length pos, content pos, end)."""
    out = [] if out is None else out
    end = len(data) if end is None else end
    while pos < end:
        tag, l = data[pos], data[pos + 1]
        k = l & 0x7f if l & 0x80 else 0
        n = int.from_bytes(data[pos + 2:pos + 2 + k], "big") if k else l
        c = pos + 2 + k
        out.append((pos, pos + 1, c, c + n))
        if tag & 0x20 or (tag == 4 and n > 10 and data[c] == 0x30
                and depth == 1):
            spans(data, c, c + n, out, depth + 1)
        pos = c + n
    return out

def structural(data):
    """Rewrite one TLV's length octets / content; optionally fix up parents."""
    tree = spans(data)
    for (a, l, c, e) in tree:
        n = e - c
        forms = [bytes([x]) for x in range(256)]
        forms += [b"\x81" + bytes([x]) for x in (0, 1, n & 255, n + 1 & 255, n - 1 & 255, 0x7f, 0x80, 0xff)]
        forms += [b"\x82" + x.to_bytes(2, "big") for x in (0, n, n + 1, max(0, n - 1), 0xffff)]
        forms += [b"\x83" + n.to_bytes(3, "big"), b"\x84" + n.to_bytes(4, "big"),
            b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x85\x01" + n.to_bytes(4, "big"),
            b"\x88" + n.to_bytes(8, "big"), b"\x88" + b"\xff" * 8,
            b"\xfe" + n.to_bytes(0x7e, "big"), b"\x80", b"\xff"]
        for f in forms:
            yield splice(data, tree, a, l, c, f, fix=False)
            yield splice(data, tree, a, l, c, f, fix=True)
        # replace, drop, duplicate, swap the whole element with parents fixed
        el = data[a:e]
        for new in (b"", el + el, el + b"\x05\x00", b"\x05\x00", b"\x02\x00",
                b"\x02\x01\x00", b"\x04\x00", b"\x30\x00", el[:-1], el + b"\x00",
                b"\x02\x05\x01\x00\x00\x00\x00", b"\x02\x05\x00\x80\x00\x00\x00",
                b"\x02\x04\xff\xff\xff\xff", b"\x02\x02\x00\x01", b"\x06\x00",
                b"\x06\x01\x80", b"\x06\x02\x2b\x80", b"\x06\x01\x78", b"\x40\x03\1\2\3",
                b"\x06\x06\x2b\x90\x80\x80\x80\x00", b"\x1f\x02\x01\x00", b"\x3f\x30\x00",
                b"\x06\x81\x80" + b"\x2b" + b"\x01" * 127, b"\x06\x7f" + b"\x2b" + b"\x01" * 126,
                b"\x02\x01\x13", b"\x02\x01\x12", b"\x02\x01\x02", b"\x02\x01\xff",
                b"\x02\x02\x01\xe3", b"\x02\x02\x01\xe4", b"\x02\x01\x7f",
                rb.enc_str(bytes(65535)), rb.enc_str(bytes(65536))):
            yield replace(data, tree, a, e, new)
        for tag in range(256):
            yield data[:a] + bytes([tag]) + data[a + 1:]
            yield replace(data, tree, a, e, bytes([tag]) + rb.enc_len(n) + data[c:e])
    # nested length off by k with the parent unchanged, at every pair of TLVs
    for i, x in enumerate(tree):
        for y in tree[i + 1:]:
            for dx, dy in itertools.product((-2, -1, 1, 2), repeat=2):
                b = bytearray(data)
                b[x[1]] = b[x[1]] + dx & 255
                b[y[1]] = b[y[1]] + dy & 255
                yield bytes(b)

def fixup(data, tree, a, e, new, delta):
    """Re-encode the lengths of every enclosing TLV after a replacement."""
    out = data[:a] + new + data[e:]
    for (pa, pl, pc, pe) in sorted(tree, key=lambda s: -s[0]):
        if pa < a and pe >= e and pc <= a:
            n = pe - pc + delta
            if n < 0:
                return out
            ol = rb.enc_len(n)
            out = out[:pl] + ol + out[pc:]
            delta += len(ol) - (pc - pl)
    return out

def replace(data, tree, a, e, new):
    return fixup(data, tree, a, e, new, len(new) - (e - a))

def splice(data, tree, a, l, c, form, fix):
    if not fix:
        return data[:l] + form + data[c:]
    return fixup(data, tree, l, c, form, len(form) - (c - l)) if a else \
        data[:l] + form + data[c:]

def mutants(data, pairs):
    n = len(data)
    for k in range(n + 1):
        yield data[:k]
    for b in range(256):
        yield data + bytes([b])
    yield data + data
    yield data + b"\0" * 200
    for i in range(n):
        for b in range(256):
            yield data[:i] + bytes([b]) + data[i + 1:]
    for i in range(n):
        yield data[:i] + data[i + 1:]
    for i in range(n + 1):
        for b in (0, 1, 2, 4, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0xa2, 0xff):
            yield data[:i] + bytes([b]) + data[i:]
    for i in range(n):
        for j in range(i + 2, min(n, i + 12)):
            yield data[:i] + data[j:]
    yield from structural(data)
    if pairs:
        for i, j in itertools.combinations(range(n), 2):
            for x, y in itertools.product(pairs, repeat=2):
                yield data[:i] + bytes([x]) + data[i + 1:j] + bytes([y]) + data[j + 1:]

def work(t, chunk):
    what, name, data, part = chunk
    if what == "short":
        for first in part:
            for k in (0, 1, 2) if first == 0 else (2,):
                for rest in itertools.product(range(256), repeat=max(0, k - 1)):
                    if k == 0:
                        s = b""
                    else:
                        s = bytes((first,) + rest)
                    if k == 1:
                        for f in range(256):
                            for d in DECODERS:
                                judge(t, d, bytes([f]))
                        continue
                    for d in DECODERS:
                        judge(t, d, s)
        t.sample(f"all strings {part[0]:02x}xx for {len(DECODERS)} decoders")
    elif what == "contents":
        # every 2-octet content under every tag, inside the value decoders
        tag = part
        for k in DECODERS:
            if k in rb.KINDS and rb.KINDS[k] == tag:
                for n in (0, 1, 2):
                    for body in itertools.product(range(256), repeat=n):
                        judge(t, k, rb.tlv(tag, bytes(body)))
                for body in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff, 0x2b), repeat=5):
                    judge(t, k, rb.tlv(tag, bytes(body)))
        t.sample(f"all contents of up to 2 octets under tag {tag:#x}")
    elif what == "three":
        for rest in itertools.product(range(256), repeat=2):
            for d in DECODERS:
                judge(t, d, bytes((part,) + rest))
        t.sample(f"all strings {part:02x}xxxx")
    else:
        seen = set()
        i, n, pairs = part
        for k, m in enumerate(mutants(data, pairs)):
            if k % n != i:
                continue
            if m in seen:
                continue
            seen.add(m)
            judge(t, name, m)
        t.sample(f"{name}: {len(seen)} distinct mutants of {data.hex()[:80]}")

def run(ck):
    setup()
    chunks = []
    step = 16
    for lo in range(0, 256, step):
        chunks.append(("short", None, None, list(range(lo, lo + step))))
    for tag in rb.KINDS.values():
        chunks.append(("contents", None, None, tag))
    alpha = () if ck.quick else (0, 1, 2, 4, 0x30, 0x7f, 0x80, 0x81, 0xff)
    for name, data in exemplars():
        assert ln.run(DECODERS[name][2], data)[0] == "ok", (name, data.hex())
        n = 1 if len(data) < 24 else 8
        pairs = alpha
        if ck.quick and name in ("int", "oid", "varbind", "pdua2"):
            pairs = (0, 0x30, 0x80, 0xff)
        for i in range(n):
            chunks.append(("mutate", name, data, (i, n, pairs)))
    if not ck.quick:
        for b in range(256):
            chunks.append(("three", None, None, b))
    total = report.enumerate_chunks(ck, work, chunks, limit=600)
    report.exploration(ck, total, "every byte string of length <= 2 (3 in the "
        "thorough tier), and every truncation, extension, byte substitution, "
        "deletion, insertion, length-field rewrite, element replacement and "
        "retagging of 31 exemplar encodings, in 27 decoders; non-trivial = the "
        "reference demands rejection, or the decoder accepts and the value is "
        "compared")
    ck.assumptions += ["permissive reference decoder in mc/lenient.py: "
        "non-minimal integers, padded OIDs, NULL contents, indefinite length "
        "octets may be accepted or rejected"]

def replay(ck, item):
    setup()
    t = report.Tally()
    judge(t, item[0], bytes.fromhex(item[1]))
    for v in t.violations:
        ck.violation(v)
    return ck.finish()
