"""B01: every SNMP value survives the wire unchanged, in canonical BER."""
import itertools
import lib
import refber as rb
import report

LEVEL = "exploration"
L = None

def ints():
    vals = set(range(-70000, 70001))
    for k in range(0, 70):
        for d in range(-3, 4):
            vals.add((1 << k) + d)
            vals.add(-(1 << k) + d)
    for k in range(0, 66):        # every run of ones / every byte pattern edge
        for j in range(0, k):
            vals.add((1 << k) - (1 << j))
            vals.add(-((1 << k) - (1 << j)))
    for b in itertools.product((0, 1, 0x7f, 0x80, 0xff), repeat=8):
        vals.add(int.from_bytes(bytes(b), "big"))
    for b in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff), repeat=4):
        vals.add(int.from_bytes(bytes(b), "big", signed=True))
        vals.add(int.from_bytes(bytes(b), "big"))
    return sorted(vals, key=lambda v: (abs(v), v))

def roundtrip(t, v, expect=None):
    """v in range: exact bytes out; equal value of the same type back."""
    t.current = v if len(repr(v)) < 400 else (v[0], len(v[1]))
    obj = L.value(v)
    want = rb.enc_value(v) if expect is None else expect
    got = obj.encode()
    if got != want:
        t.fail(f"encode:{v[0]}", f"{short(v)} encodes as {short(got)},"
            f" not {short(want)}", [v])
        return
    cls = L.cls[v[0]]
    back = cls.decode(want)
    if type(back) is not cls or L.unvalue(back) != v or not back == obj:
        t.fail(f"decode:{v[0]}", f"{short(want)} decodes as"
            f" {short(L.unvalue(back))}, not {short(v)}", [v])
    back, tail = cls.decode(want + b"\x05\x00", leftovers=True)
    if L.unvalue(back) != v or bytes(tail[:]) != b"\x05\x00":
        t.fail(f"leftovers:{v[0]}", f"{short(v)} followed by NULL decodes as"
            f" {short(L.unvalue(back))} + {short(bytes(tail[:]))}", [v])
    t.case("roundtrip:" + v[0])

def short(x):
    s = x.hex() if isinstance(x, bytes) else repr(x)
    return s if len(s) < 160 else s[:150] + f"...({len(s)})"

def refused(t, kind, make, what):
    t.current = (kind, what)
    try:
        obj = make()
    except ValueError:
        t.case("refused:" + kind)
        return
    t.fail(f"construct:{kind}", f"{kind} accepts {short(what)} as"
        f" {obj.encode()[:20].hex()}", [kind, repr(what)[:200]])

def rejected(t, kind, data, what):
    t.current = (kind, data[:60].hex(), what)
    try:
        obj = L.cls[kind].decode(data)
    except L.ParseError:
        t.case("rejected:" + kind)
        return
    t.fail(f"decode-range:{kind}", f"{kind} decodes {short(data)} ({what}) as"
        f" {short(L.unvalue(obj))}", [kind, data[:60].hex()])

def work(t, chunk):
    kind, part = chunk
    if kind == "ints":
        for v in part:
            for k, (lo, hi) in rb.RANGES.items():
                if lo <= v <= hi:
                    roundtrip(t, (k, v))
                else:
                    refused(t, k, lambda: L.cls[k](v), v)
                    rejected(t, k, rb.tlv(rb.KINDS[k], rb.int_content(v)),
                        "out of range")
            # types without their own wire tag
            u = L.smi.Unsigned32
            if 0 <= v < 1 << 32:
                o = u(v)
                w = rb.enc_value(("g32", v))
                if o.encode() != w or u.decode(w).value != v:
                    t.fail("encode:u32", f"Unsigned32({v}) -> {o.encode().hex()}")
                t.case("roundtrip:u32")
            else:
                refused(t, "u32", lambda: u(v), v)
        t.sample(f"INTEGER-like {part[0]}..{part[-1]} in all 32/64-bit types")
    elif kind == "strings":
        for k in ("str", "opq"):
            for s in part:
                roundtrip(t, (k, s))
        t.sample(f"OCTET STRING/Opaque of lengths {sorted({len(s) for s in part})[:4]}..")
    elif kind == "oversize":
        for n in (65536, 65537, 70000, 131071, 131072):
            refused(t, "str", lambda: L.cls["str"](bytes(n)), n)
            rejected(t, "str", rb.enc_str(bytes(n)), "over 65535 bytes")
    elif kind == "ips":
        for ip in part:
            roundtrip(t, ("ip", bytes(ip)))
            dotted = ".".join(map(str, ip))
            if L.cls["ip"].decode(rb.enc_value(("ip", bytes(ip)))).addr != dotted:
                t.fail("ip:addr", f"{dotted} has a different addr once decoded")
    elif kind == "badips":
        for n in [0, 1, 2, 3, 5, 6, 8, 16]:
            rejected(t, "ip", rb.tlv(0x40, bytes(n)), f"{n}-octet IP address")
        for s in ("", "256.1.1.1", "1.2.3.256", "1.2.3.4.5", "a.b.c.d",
                "1.2.3.-4", "::1", "1..2.3", "1.2.3.4x", "-1"):
            refused(t, "ip", lambda: L.cls["ip"](s), s)
    elif kind == "nulls":
        for k in ("null", "nso", "nsi", "eomv"):
            roundtrip(t, (k,))
        kinds = list(L.cls)
        probe = {"int": 7, "c32": 7, "g32": 7, "tt": 7, "c64": 7,
            "str": b"\1\2\3\4", "opq": b"\1\2\3\4", "ip": b"\1\2\3\4",
            "oid": (1, 3)}
        vals = [(k, probe[k]) if k in probe else (k,) for k in kinds]
        for a, b in itertools.product(vals, repeat=2):
            t.current = (a, b)
            same = a == b
            if (L.value(a) == L.value(b)) != same:
                t.fail("equality", f"{a} == {b} is {not same}")
            if not same:
                try:
                    got = L.cls[a[0]].decode(rb.enc_value(b))
                except L.ParseError:
                    pass
                else:
                    t.fail("wrong-tag", f"{a[0]} decodes an encoded {b[0]} as {got!r}")
            t.case("pairs")
        for v in vals:     # type dispatch inside a variable binding
            t.current = v
            vb = L.pdu.VarBind.decode(L.pdu.VarBind("1.3.6", L.value(v)).encode())
            if L.unvalue(vb.value) != v or tuple(vb.name) != (1, 3, 6):
                t.fail("varbind", f"VarBind({v}) decodes as {vb!r}")
            t.case("varbind")
    elif kind == "oids":
        for o in part:
            roundtrip(t, ("oid", tuple(o)))
        t.sample("OID " + ".".join(map(str, part[0][:8])))
    elif kind == "badoids":
        good = [1, 3]
        for bad in ((3,), (3, 1), (4, 0), (1, 40), (0, 40), (2, 40), (2, 999),
                (1, 3, 1 << 32), (1, 3, (1 << 32) + 1), (1, 3, 1 << 40),
                (-1,), (-1, 0), (1, -1), (1, 3, -1), (1, 3, 6, -(1 << 31)),
                tuple(good + [1] * 127), tuple(good + [0] * 200)):
            refused(t, "oid", lambda: L.cls["oid"](*bad), bad)
        for n in range(127, 140):
            rejected(t, "oid", rb.tlv(6, bytes([43]) + bytes([1] * n)),
                f"{n + 2} sub-identifiers")
        for v in [(1 << 32) + d for d in range(4)] + [1 << k for k in range(33, 70)]:
            for pre in (b"", b"\1", b"\x8f\x7f"):
                rejected(t, "oid", rb.tlv(6, bytes([43]) + pre + rb.base128(v)),
                    f"sub-identifier {v}")
        for b in range(120, 128):
            rejected(t, "oid", rb.tlv(6, bytes([b, 1])), "first sub-identifier")
        rejected(t, "oid", b"\x06\x00", "no sub-identifiers")
        for short_ in ((), (0,), (1,), (2,)):
            o = L.cls["oid"](*short_)
            want = rb.enc_value(("oid", short_ + (0,) * (2 - len(short_))))
            if o.encode() != want:
                t.fail("encode:oid-short", f"OID{short_} -> {o.encode().hex()}")
            t.case("short-oid")

def edges():
    subs = set()
    for k in range(0, 33):
        for d in (-2, -1, 0, 1, 2):
            x = (1 << k) + d
            if 0 <= x < 1 << 32:
                subs.add(x)
    for k in (7, 14, 21, 28):
        for m in (1, 2, 3, 5, 15):
            for d in (-1, 0, 1):
                x = (m << k) + d
                if 0 <= x < 1 << 32:
                    subs.add(x)
    return sorted(subs)

def oids(quick):
    e = edges()
    small = [0, 1, 127, 128, 129, 255, 256, 16383, 16384, (1 << 32) - 1]
    for a in range(3):
        for b in range(40):
            yield (a, b)
            for c in small:
                yield (a, b, c)
            yield (a, b, 6, 1, 4, 1, 0)
    for x in e:
        yield (1, 3, x)
        yield (2, 39, 0, x, 0)
        for y in small:
            yield (1, 3, x, y)
            yield (0, 0, y, x)
    for x, y in itertools.product(range(0, 300), repeat=2):
        if x < 3 or y < 3 or 125 < x < 131 or 125 < y < 131:
            yield (1, 3, 6, x, y)
    for x in range(0, 70000 if quick else 2200000):
        yield (1, 3, 6, x)
    for n in range(2, 129):
        for x in (0, 1, 127, 128, 16384, (1 << 32) - 1):
            yield (1, 3) + (x,) * (n - 2)

def split(items, n):
    items = list(dict.fromkeys(items))
    step = max(1, (len(items) + n - 1) // n)
    return [items[i:i + step] for i in range(0, len(items), step)]

def run(ck):
    global L
    L = lib.load()
    chunks = []
    vals = ints()
    if not ck.quick:
        vals = sorted(set(vals) | set(range(-1100000, 1100000)))
    chunks += [("ints", c) for c in split(vals, 24)]
    lens = list(range(0, 300)) + [511, 512, 513, 4095, 4096, 32767, 32768,
        65279, 65280, 65533, 65534, 65535]
    if not ck.quick:
        lens += list(range(300, 65536, 61))
    strs = [bytes((i * 7 + n) & 0xff for i in range(n)) for n in lens]
    strs += [b"\xff" * n for n in lens[:300]] + [bytes(n) for n in lens[:300]]
    strs += [bytes([a]) for a in range(256)]
    strs += [bytes([a, b]) for a in range(256) for b in range(256)]
    chunks += [("strings", c) for c in split(strs, 16)]
    o8 = (0, 1, 9, 10, 99, 100, 127, 128, 200, 254, 255)
    ips = list(itertools.product(o8, repeat=4))
    ips += [(0,) * i + (x,) + (0,) * (3 - i) for i in range(4) for x in range(256)]
    chunks += [("ips", c) for c in split(ips, 8)]
    chunks += [("oids", c) for c in split(oids(ck.quick), 16)]
    chunks += [("oversize", None), ("badips", None), ("nulls", None), ("badoids", None)]
    total = report.enumerate_chunks(ck, work, chunks)
    report.exploration(ck, total, "one case = one value of one type through"
        " constructor, encoder and decoder (or one out-of-range value / "
        "encoding that must be refused); values are enumerated exhaustively "
        "around every encoding boundary and are distinct by construction")
    ck.assumptions += ["reference BER encoder in mc/refber.py",
        "integers exhaustive in [-70000, 70000] and at 2^k+-3, strings at all "
        "lengths below 300 and at the length-field boundaries"]
