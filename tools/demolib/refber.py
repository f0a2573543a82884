"""Independent reference BER codec for SNMP (X.690 restricted by RFC 3417/1157).

Shares no code with the library under test.  Values are plain tuples:
    ("int", v) ("str", bytes) ("null",) ("oid", (..)) ("ip", b"....")
    ("c32", v) ("g32", v) ("tt", v) ("opq", bytes) ("c64", v)
    ("nso",) ("nsi",) ("eomv",)
"""

class RefError(Exception):
    pass

INT, STR, NULL, OIDT, SEQ = 0x02, 0x04, 0x05, 0x06, 0x30
KINDS = {
    "int": 0x02, "str": 0x04, "null": 0x05, "oid": 0x06, "ip": 0x40,
    "c32": 0x41, "g32": 0x42, "tt": 0x43, "opq": 0x44, "c64": 0x46,
    "nso": 0x80, "nsi": 0x81, "eomv": 0x82,
}
BYTAG = {v: k for k, v in KINDS.items()}
RANGES = {
    "int": (-(1 << 31), (1 << 31) - 1), "c32": (0, (1 << 32) - 1),
    "g32": (0, (1 << 32) - 1), "tt": (0, (1 << 32) - 1),
    "c64": (0, (1 << 64) - 1),
}

def enc_len(n):
    if n < 128:
        return bytes([n])
    body = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 + len(body)]) + body

def tlv(tag, content):
    return bytes([tag]) + enc_len(len(content)) + content

def int_content(v):
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    return v.to_bytes(n, "big", signed=True)

def base128(n):
    digits = [n % 128]
    n //= 128
    while n:
        digits.append(n % 128 + 128)
        n //= 128
    return bytes(reversed(digits))

def oid_content(subids):
    subids = tuple(subids) + (0,) * (2 - len(subids))
    out = base128(40 * subids[0] + subids[1])
    for s in subids[2:]:
        out += base128(s)
    return out

def enc_value(v):
    kind = v[0]
    if kind in RANGES:
        lo, hi = RANGES[kind]
        assert lo <= v[1] <= hi, v
        return tlv(KINDS[kind], int_content(v[1]))
    if kind == "oid":
        return tlv(OIDT, oid_content(v[1]))
    if kind in ("str", "ip", "opq"):
        return tlv(KINDS[kind], bytes(v[1]))
    return tlv(KINDS[kind], b"")

def enc_int(v):
    return tlv(INT, int_content(v))

def enc_str(b):
    return tlv(STR, bytes(b))

def enc_varbinds(vbs):
    return tlv(SEQ, b"".join(
        tlv(SEQ, enc_value(("oid", name)) + enc_value(value))
        for name, value in vbs))

GET, GETNEXT, RESPONSE, SET, TRAP1, GETBULK, INFORM, TRAP2, REPORT = (
    0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8)

def enc_pdu(tag, reqid, a, b, vbs):
    return tlv(tag, enc_int(reqid) + enc_int(a) + enc_int(b)
        + enc_varbinds(vbs))

def enc_community_msg(version, community, pdu):
    return tlv(SEQ, enc_int(version) + enc_str(community) + pdu)

def enc_header(msgid, maxsize, flags, model):
    return tlv(SEQ, enc_int(msgid) + enc_int(maxsize)
        + enc_str(bytes([flags])) + enc_int(model))

def enc_scoped(engine, context, pdu):
    return tlv(SEQ, enc_str(engine) + enc_str(context) + pdu)

def enc_usm(engine, boots, time, user, auth, priv):
    return tlv(SEQ, enc_str(engine) + enc_int(boots) + enc_int(time)
        + enc_str(user) + enc_str(auth) + enc_str(priv))

def enc_v3(header, usm, payload):
    return tlv(SEQ, enc_int(3) + header + enc_str(usm) + payload)

# ---------------------------------------------------------------- decoding

class R:
    """A strict cursor over bytes: canonical definite lengths only."""
    def __init__(self, data, pos=0, end=None):
        self.data = data
        self.pos = pos
        self.end = len(data) if end is None else end

    def more(self):
        return self.pos < self.end

    def byte(self):
        if self.pos >= self.end:
            raise RefError("truncated")
        b = self.data[self.pos]
        self.pos += 1
        return b

    def tl(self):
        tag = self.byte()
        if tag & 0x1f == 0x1f:
            raise RefError("long tag")
        n = self.byte()
        if n == 0x80 or n == 0xff:
            raise RefError("indefinite length")
        if n & 0x80:
            k = n & 0x7f
            n = 0
            for _ in range(k):
                n = n * 256 + self.byte()
            if n < 128 or enc_len(n)[0] != 0x80 + k:
                raise RefError("non-minimal length")
        if self.pos + n > self.end:
            raise RefError("overrun")
        return tag, n

    def expect(self, tag):
        t, n = self.tl()
        if t != tag:
            raise RefError(f"tag {t:#x}, expected {tag:#x}")
        sub = R(self.data, self.pos, self.pos + n)
        self.pos += n
        return sub

    def rest(self):
        b = self.data[self.pos:self.end]
        self.pos = self.end
        return b

    def done(self):
        if self.pos != self.end:
            raise RefError("trailing bytes")

    def int(self, lo=-(1 << 31), hi=(1 << 31) - 1):
        c = self.expect(INT).rest()
        return dec_int(c, lo, hi)

    def str(self):
        return self.expect(STR).rest()

def dec_int(c, lo, hi):
    if not c:
        raise RefError("empty integer")
    v = int.from_bytes(c, "big", signed=True)
    if int_content(v) != c:
        raise RefError("non-minimal integer")
    if not lo <= v <= hi:
        raise RefError("integer range")
    return v

def dec_oid(c):
    if not c:
        raise RefError("empty oid")
    nums, n, fresh = [], 0, True
    for b in c:
        if fresh and b == 0x80:
            raise RefError("padded subidentifier")
        n = n * 128 + (b & 0x7f)
        fresh = not b & 0x80
        if fresh:
            nums.append(n)
            n = 0
    if not fresh:
        raise RefError("truncated subidentifier")
    first = nums[0]
    if first >= 120:
        raise RefError("second sub-identifier over 39")
    out = (first // 40, first % 40) + tuple(nums[1:])
    if len(out) > 128 or any(x >= 1 << 32 for x in out):
        raise RefError("oid limits")
    return out

def dec_value(r):
    tag, n = r.tl()
    c = r.data[r.pos:r.pos + n]
    r.pos += n
    kind = BYTAG.get(tag)
    if kind is None:
        raise RefError(f"unknown value tag {tag:#x}")
    if kind in RANGES:
        return (kind, dec_int(c, *RANGES[kind]))
    if kind == "oid":
        return ("oid", dec_oid(c))
    if kind == "ip":
        if len(c) != 4:
            raise RefError("ip length")
        return ("ip", c)
    if kind in ("str", "opq"):
        return (kind, c)
    if c:
        raise RefError("non-empty null")
    return (kind,)

def dec_varbinds(r):
    seq = r.expect(SEQ)
    out = []
    while seq.more():
        vb = seq.expect(SEQ)
        name = dec_oid(vb.expect(OIDT).rest())
        value = dec_value(vb)
        vb.done()
        out.append((name, value))
    return out

def dec_pdu(r):
    tag, n = r.tl()
    p = R(r.data, r.pos, r.pos + n)
    r.pos += n
    if tag not in (GET, GETNEXT, RESPONSE, SET, GETBULK, INFORM, TRAP2, REPORT):
        raise RefError(f"pdu tag {tag:#x}")
    reqid, a, b = p.int(), p.int(), p.int()
    vbs = dec_varbinds(p)
    p.done()
    return tag, reqid, a, b, vbs

def dec_community_msg(data):
    r = R(data)
    m = r.expect(SEQ)
    r.done()
    version = m.int()
    community = m.str()
    pdu = dec_pdu(m)
    m.done()
    return version, community, pdu

def dec_scoped(data, leftovers=False):
    r = R(data)
    s = r.expect(SEQ)
    if not leftovers:
        r.done()
    pad = r.rest()
    engine = s.str()
    context = s.str()
    pdu = dec_pdu(s)
    s.done()
    return engine, context, pdu, pad

def dec_v3(data):
    """-> dict with header fields, usm fields, payload, and auth offset"""
    r = R(data)
    m = r.expect(SEQ)
    r.done()
    if m.int() != 3:
        raise RefError("version")
    h = m.expect(SEQ)
    msgid = h.int(0)
    maxsize = h.int(484)
    flags = h.str()
    if len(flags) != 1:
        raise RefError("flags")
    model = h.int(1)
    h.done()
    u = m.expect(STR)
    s = u.expect(SEQ)
    u.done()
    engine = s.str()
    boots = s.int(0)
    time = s.int(0)
    user = s.str()
    a = s.expect(STR)
    authoff = a.pos
    auth = a.rest()
    priv = s.str()
    s.done()
    payload = m.rest()
    return dict(msgid=msgid, maxsize=maxsize, flags=flags[0], model=model,
        engine=engine, boots=boots, time=time, user=user, auth=auth,
        authoff=authoff, priv=priv, payload=payload)
