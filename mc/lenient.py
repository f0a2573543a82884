"""A permissive reference decoder: decides what MUST be rejected.

Everything a lenient receiver may let pass (non-minimal integers, padded sub-identifiers, contents of a NULL, empty INTEGER, extra
bytes in msgFlags, indefinite length octet) only sets `loose`; a `Reject` is a
structural defect no receiver may accept: truncation, overrun, trailing bytes,
wrong tag, value out of range, unknown choice.
"""
import refber as rb

class Reject(Exception):
    pass

class C:
    loose = False           # class-wide, reset per decode
    skip = False

    def __init__(self, data, pos=0, end=None):
        self.d, self.p = data, pos
        self.e = len(data) if end is None else end

    def byte(self):
        if self.p >= self.e:
            raise Reject("truncated")
        self.p += 1
        return self.d[self.p - 1]

    def tag(self):
        b = self.byte()
        num = b & 0x1f
        if num == 0x1f:
            num, more = 0, 0x80
            while more & 0x80:
                more = self.byte()
                num = num << 7 | more & 0x7f
            C.loose = True
        return b & 0xe0, num

    def tl(self):
        tag = self.tag()
        n = self.byte()
        if n & 0x80:
            k = n & 0x7f
            n = 0
            for _ in range(k):
                n = n << 8 | self.byte()
            if k == 0 or k == 0x7f:     # indefinite, reserved
                C.loose = C.skip = True
        if self.p + n > self.e:
            raise Reject("overrun")
        return tag, n

    def sub(self, want):
        tag, n = self.tl()
        if tag != (want & 0xe0, want & 0x1f):
            raise Reject("tag")
        c = C(self.d, self.p, self.p + n)
        self.p += n
        return c

    def rest(self):
        b = self.d[self.p:self.e]
        self.p = self.e
        return b

    def done(self):
        if self.p != self.e:
            raise Reject("trailing")

    def int(self, lo=-(1 << 31), hi=(1 << 31) - 1, tag=2):
        return integer(self.sub(tag).rest(), lo, hi)

    def str(self):
        b = self.sub(4).rest()
        if len(b) > 65535:
            raise Reject("size")
        return b

def integer(c, lo, hi):
    v = int.from_bytes(c, "big", signed=True)
    if not c or rb.int_content(v) != c:
        C.loose = True
    if not lo <= v <= hi:
        raise Reject("range")
    return v

def oid(c):
    if not c:
        raise Reject("empty oid")
    nums, n, fresh = [], 0, True
    for b in c:
        if fresh and b == 0x80:
            C.loose = True
        n = n << 7 | b & 0x7f
        fresh = not b & 0x80
        if fresh:
            nums.append(n)
            n = 0
    if not fresh:
        raise Reject("truncated oid")
    if nums[0] >= 80 + 40 or nums[0] >= 120:
        # 2.40 and above: legal in X.690, outside this library's OIDs
        raise Reject("oid prefix")
    if c[0] >= 0x80:
        C.loose = True
    out = (nums[0] // 40, nums[0] % 40) + tuple(nums[1:])
    if len(out) > 128 or any(x >> 32 for x in out):
        raise Reject("oid limits")
    return out

KIND = {(t & 0xe0, t & 0x1f): k for k, t in rb.KINDS.items()}

def value_content(kind, c):
    if kind in rb.RANGES:
        return (kind, integer(c, *rb.RANGES[kind]))
    if kind == "oid":
        return ("oid", oid(c))
    if kind == "ip":
        if len(c) != 4:
            raise Reject("ip")
        return ("ip", c)
    if kind == "str" and len(c) > 65535:
        raise Reject("size")
    if kind in ("str", "opq"):
        return (kind, c)
    if c:
        C.loose = True
    return (kind,)

def value(c, kind=None):
    tag, n = c.tl()
    k = KIND.get(tag)
    if k is None or (kind is not None and k != kind):
        raise Reject("value tag")
    body = c.d[c.p:c.p + n]
    c.p += n
    return value_content(k, body)

def varbind(c):
    vb = c.sub(0x30)
    name = oid(vb.sub(6).rest())
    v = value(vb)
    vb.done()
    return name, v

def varbinds(c):
    s = c.sub(0x30)
    out = []
    while s.p < s.e:
        out.append(varbind(s))
    return out

def pdu_body(p, tag):
    a, b, d = p.int(), p.int(), p.int()
    vbs = varbinds(p)
    p.done()
    if tag == rb.GETBULK:
        if b < 0 or d < 0:
            raise Reject("bulk")
    else:
        if not 0 <= b <= 18:
            raise Reject("error-status")
        if d > len(vbs) or (b and d < 0):
            raise Reject("error-index")
        if d < 0:
            C.loose = True
    return tag, a, b, d, vbs

V1PDUS = (rb.GET, rb.GETNEXT, rb.RESPONSE, rb.SET)
V2PDUS = V1PDUS + (rb.GETBULK, rb.INFORM, rb.TRAP2, rb.REPORT)

def pdu(c, allowed):
    tag, n = c.tl()
    t = tag[0] | tag[1]
    if tag[1] > 30 or t not in allowed:
        raise Reject("pdu tag")
    p = C(c.d, c.p, c.p + n)
    c.p += n
    return pdu_body(p, t)

def community_msg(data, versions, allowed):
    c = C(data)
    m = c.sub(0x30)
    c.done()
    v = m.int()
    if v not in versions:
        raise Reject("version")
    comm = m.str()
    p = pdu(m, allowed)
    m.done()
    return v, comm, p

def scoped(c):
    s = c.sub(0x30)
    e, n = s.str(), s.str()
    p = pdu(s, V2PDUS)
    s.done()
    return e, n, p

def v3msg(data):
    c = C(data)
    m = c.sub(0x30)
    c.done()
    if m.int() != 3:
        raise Reject("version")
    h = m.sub(0x30)
    msgid, size = h.int(), h.int()
    flags = h.sub(4).rest()     # octets after the first are for the future
    model = h.int()
    h.done()
    if not flags or msgid < 0 or size < 484 or model < 1:
        raise Reject("header")
    if len(flags) > 1 or flags[0] & ~7:
        C.loose = True
    if flags[0] & 3 == 2:
        raise Reject("privacy without authentication")
    if model != 3:
        raise Reject("model")
    sec = m.str()
    if flags[0] & 2:
        payload = m.str()
    else:
        payload = scoped(m)
    m.done()
    return msgid, size, flags[0] & 7, model, sec, payload

def usm(data):
    c = C(data)
    s = c.sub(0x30)
    c.done()
    out = s.str(), s.int(0), s.int(0), s.str(), s.str(), s.str()
    s.done()
    return out

def whole(fn):
    def go(data):
        c = C(data)
        v = fn(c)
        c.done()
        return v
    return go

def run(fn, data):
    """-> ("ok", value, loose) or ("reject", why, False); long-form lengths
    are ordinary BER and must be accepted"""
    C.loose = C.skip = False
    try:
        v = fn(data)
    except Reject as e:
        return ("reject", str(e), False)
    return ("ok", None if C.skip else v, C.loose)
