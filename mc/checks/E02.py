"""E02: UDP addresses are completed and validated as documented."""
import ipaddress
import itertools
import lib
import report

LEVEL = "exploration"
U = None
V4, V6 = "UDP_IPv4", "UDP_IPv6"
DEFAULT = {V4: "0.0.0.0", V6: "::"}
USES = ("LISTENER", "TRAP_LISTENER", "SENDER", None)
PORT = {"LISTENER": 161, "TRAP_LISTENER": 162, "SENDER": 0, None: 0}

def literal(domain, host):
    """Is this the text of an address of the domain?"""
    if "%" in host or "/" in host:
        return False
    try:
        (ipaddress.IPv4Address if domain == V4 else ipaddress.IPv6Address)(host)
    except ValueError:
        return False
    return True

def expected(domain, use, address):
    server = use in ("LISTENER", "TRAP_LISTENER")
    host, port = address if isinstance(address, tuple) else (address, PORT[use])
    if address is None:
        host = DEFAULT[domain]
    if not isinstance(host, str):
        return "TypeError"
    if host == "" and not server:
        host = DEFAULT[domain]
    if not literal(domain, host):
        return "ValueError"
    if not (server and 1 or 0) <= port <= 65535:
        return "ValueError"
    return host, port

def judge(t, domain, use, address):
    t.current = (domain, use, address)
    usage = None if use is None else getattr(U.AddressUsage, use)
    cls = U.UdpIPv4Socket if domain == V4 else U.UdpIPv6Socket
    want = expected(domain, use, address)
    try:
        got = cls.normalizeAddress(address, usage)
        if isinstance(got, tuple):
            got = tuple(got)
    except (ValueError, TypeError) as e:
        got = "ValueError" if isinstance(e, ValueError) else "TypeError"
    if got != want:
        kind = "accepts" if isinstance(got, tuple) else "refuses"
        t.fail(f"{kind}:{domain}:{use}", f"{domain} {use}: {address!r} gives {got},"
            f" not {want}", t.current)
    t.case("refused" if isinstance(want, str) else "accepted")

GOOD4 = ("127.0.0.1", "0.0.0.0", "255.255.255.255", "10.0.0.1", "192.168.100.200")
BAD4 = ("256.0.0.1", "1.2.3", "1.2.3.4.5", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4\n", "localhost",
    "example.com", "1..2.3", "1.2.3.", ".1.2.3", "0x7f.0.0.1", "2130706433", "127.1",
    "-1.0.0.0", "+1.0.0.0", "1.2.3.4:161", "1.2.3.4/24", "a.b.c.d", "\u0661.1.1.1",
    "1.2.3.4\0", "1.2.3.4%lo", "1e1.0.0.1", "01.2.3.4", "1.2.3.04", "0127.0.0.1")
GOOD6 = ("::", "::1", "fe80::1", "2001:db8::1:0:0:1", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4",
    "FE80::ABCD", "1::", "0:0:0:0:0:0:0:0", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7::")
BAD6 = (":", ":::", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1::", "12345::", "g::",
    "fe80::1%eth0", "[::1]", "::1 ", " ::1", "::1/64", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7",
    "::1.2.3", "::256.1.1.1", "1:2:3:4:5:6:7:1.2.3.4", "::\0", "\u0661::", "::ffff:1.2.3.4:5")
HOSTS = GOOD4 + BAD4 + GOOD6 + BAD6 + ("",)
OTHER = (b"127.0.0.1", 5, 1.5, [], ["127.0.0.1", 5], b"", 0, object, True)
PORTS = (0, 1, 2, 7, 80, 160, 161, 162, 163, 1023, 1024, 32767, 32768, 49152, 65534,
    65535, 65536, 65537, 1 << 20, 1 << 31, 1 << 32, -1, -161, -65535, -65536)

def work(t, chunk):
    kind, domain, arg = chunk
    if kind == "corpus":
        for use in USES:
            judge(t, domain, use, None)
            for h in HOSTS + OTHER:
                judge(t, domain, use, h)
                for p in PORTS if isinstance(h, str) else (0, 161):
                    judge(t, domain, use, (h, p))
            judge(t, domain, use, (None, 161))
        t.sample(f"{len(HOSTS)} hosts x {len(PORTS)} ports x {len(USES)} uses")
    elif kind == "ports":
        for use in USES:
            for p in range(-300, 66000):
                judge(t, domain, use, (DEFAULT[domain] if p & 1 else
                    ("10.1.2.3" if domain == V4 else "fe80::7"), p))
    elif kind == "octets":
        # every value of an octet, written with every number of leading zeros
        for i, n, z in itertools.product(range(4), range(0, 400), range(4)):
            parts = ["7"] * 4
            parts[i] = "0" * z + str(n)
            judge(t, domain, "LISTENER", ".".join(parts))
            judge(t, domain, "SENDER", "::" + ".".join(parts))
    else:
        first, n = arg
        alpha = "0129.a" if domain == V4 else "01f:.g"
        for k in range(n):
            for rest in itertools.product(alpha, repeat=k):
                s = first + "".join(rest)
                judge(t, domain, "LISTENER", s)
                judge(t, domain, None, (s, 7))

def run(ck):
    global U
    L = lib.load()
    import snmp.transport.udp as U_
    import snmp.transport as T
    U = U_
    U.AddressUsage = T.AddressUsage
    chunks = []
    n = 7 if ck.quick else 9
    for d in (V4, V6):
        chunks += [("ports", d, None)]
        chunks += [("texts", d, (c, n)) for c in ("0129.a" if d == V4 else "01f:.g")]
        chunks += [("corpus", d, None), ("octets", d, None)]
    total = report.enumerate_chunks(ck, work, chunks)
    report.exploration(ck, total, "one case = one (domain, use, address); the"
        " ports, the octets and the short texts are enumerated exhaustively")
    ck.coverage["bound"] = f"texts of up to {n} characters over six-letter"\
        " alphabets, ports -300..65999 for every domain and use"
    ck.assumptions = ["literal addresses are those of Python's ipaddress module"
        " without zone or mask", "ports are integers"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
