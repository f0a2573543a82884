"""B07: printed forms evaluate to equal objects, show the contents, and
equality is equality of contents."""
import itertools
import lib
import refber as rb
import report

LEVEL = "exploration"
L = None
NS = None

from checks.B03 import INTS, NATS, VALUES, BYKIND, NAMES, O, PDUS, LEVELS

EDGE = sorted({s * (1 << k) + d for k in range(0, 65) for d in (-1, 0, 1)
    for s in (1, -1)})
BYTES = [b"", b"a", b"'", b'"', b"'\"", b"\\", b"\n", b"\r\n\t", b"\0", b"\x7f",
    b"\x80", b"\xff" * 3, b"{}", b"{0}", b"%s", b"a'b\"c\\'", b"\\x41", b"#",
    bytes(range(256)), b"x" * 127, b"y" * 128]
TABS = ("    ", "\t", "", "  ", "> ")

def short(x):
    s = repr(x)
    return s if len(s) < 240 else s[:200] + f"...({len(s)})"

def bad(t, key, what):
    t.fail(key, what, t.current)

def load():
    global L, NS
    L = lib.load()
    import importlib
    NS = {}
    for m in ("snmp.ber", "snmp.asn1", "snmp.smi", "snmp.utils", "snmp.pdu",
            "snmp.security.levels", "snmp.security.models", "snmp.security",
            "snmp.security.usm.parameters", "snmp.message.version",
            "snmp.message.core", "snmp.message.v3", "snmp.message"):
        mod = importlib.import_module(m)
        NS.update({k: v for k, v in vars(mod).items() if not k.startswith("__")})

# -------------------------------------------------------------- the universe
def values():
    s, p = L.smi, L.pdu
    def attempt(cls, *a):
        try:
            out.append(cls(*a))
        except ValueError:
            pass
    out = []
    for cls in (s.Integer, s.Integer32, s.Unsigned, s.Unsigned32, s.Counter32,
            s.Gauge32, s.TimeTicks, s.Counter64):
        for n in EDGE:
            attempt(cls, n)
    for b in BYTES:
        out += [s.OctetString(b), s.Opaque(b)]
    for v in VALUES:
        out.append(L.value(v))
    for n in NAMES:
        out.append(s.OID(*n))
    for o in itertools.product((0, 1, 2, 39, 40, 255, (1 << 32) - 1), repeat=3):
        attempt(s.OID, *o)
    for a in ("0.0.0.0", "255.255.255.255", "1.2.3.4", "127.0.0.1", "10.0.0.10"):
        out.append(s.IpAddress(a))
    out += [s.Null(), p.NoSuchObject(), p.NoSuchInstance(), p.EndOfMibView()]
    return out

def some_values():
    return [L.value(v) for v in VALUES] + [L.smi.OctetString(b) for b in BYTES]

def views():
    out = []
    for data in (b"", b"a", b"abc", b"a'\"\n\\b"):
        n = len(data)
        for i in range(n + 1):
            for j in range(i, n + 1):
                out.append(L.snmp.utils.subbytes(data, i, j))
        out.append(L.snmp.utils.subbytes(data))
        for v in out[-3:]:
            out.append(L.snmp.utils.subbytes(v, 0, len(v)))
    return out

def pdu(tag, reqid, a, b, vbs):
    cls = getattr(L.pdu, PDUS[tag])
    vbl = L.pdu.VarBindList(*vbs)
    if tag == rb.GETBULK:
        return cls(requestID=reqid, nonRepeaters=a, maxRepetitions=b,
            variableBindings=vbl)
    return cls(requestID=reqid, errorStatus=L.pdu.ErrorStatus(a), errorIndex=b,
        variableBindings=vbl)

def vblists():
    VB, OID = L.pdu.VarBind, L.smi.OID
    out = [[]] + [[VB(OID(*O), v)] for v in some_values()]
    ks = [L.value(v) for v in BYKIND.values()]
    out += [[VB(OID(*NAMES[0]), a), VB(OID(*O), b)] for a in ks for b in ks]
    for n in (3, 7, 20):
        out.append([VB(OID(1, 3, 6, i), ks[i % len(ks)]) for i in range(n)])
    return out

def few_pdus():
    one = [L.pdu.VarBind(L.smi.OID(*O), L.value(("str", b"it's\n")))]
    two = one + [L.pdu.VarBind("1.3.6.1", L.value(("c64", 1 << 63)))]
    out = []
    for tag in PDUS:
        bulk = tag == rb.GETBULK
        for reqid in (0, -1, 0x7fffffff):
            for vbs in ([], one, two):
                for a in ((0, 1, 127) if bulk else (0, 5, 18)):
                    b = 10 if bulk else min(a, len(vbs))
                    out.append(pdu(tag, reqid, a, b, vbs))
    return out

def headers():
    import snmp.message.v3 as v3
    import snmp.security.levels as sl
    from snmp.security.models import SecurityModel
    out = []
    for a, p in LEVELS:
        for rep in (False, True):
            f = v3.MessageFlags(sl.SecurityLevel(a, p), rep)
            for i in NATS:
                for size in (484, 1472, 65507):
                    out.append(v3.HeaderData(i, size, f, SecurityModel.USM))
    return out

def scoped():
    import snmp.message.v3 as v3
    for p in few_pdus():
        for eng, ctx in ((b"", b""), (b"\x80\0\0\0\1'", b"ctx\n")):
            yield v3.ScopedPDU(p, eng, contextName=ctx)

def usms():
    from snmp.security.usm.parameters import UsmSecurityParameters as U
    for e in (b"", b"\x80'\"\\"):
        for boots in (0, 1, (1 << 31) - 1):
            for time in (0, 77, (1 << 31) - 1):
                for u in (b"", b"us\"er'", b"\0"):
                    for s in (b"", bytes(12), b"'" * 24):
                        for p in (b"", b"saltsalt"):
                            yield U(e, boots, time, u, s, p)

def messages():
    import snmp.message.core as core
    import snmp.message.version as ver
    for p in few_pdus():
        for v in (ver.ProtocolVersion.SNMPv1, ver.ProtocolVersion.SNMPv2c):
            for c in (b"", b"public", b"it's\n"):
                yield core.Message(v, c, p)

def v3messages():
    import snmp.message.v3 as v3
    OS = L.smi.OctetString
    hs = headers()[::7]
    sp = [OS(b""), OS(b"par'am\n")]
    ss = list(scoped())[::3]
    for k, h in enumerate(hs):
        for s in sp:
            if h.flags.privFlag:
                for b in BYTES:
                    yield v3.SNMPv3Message(h, encryptedPDU=OS(b), securityParameters=s)
            else:
                for x in ss[k % 3::3]:
                    yield v3.SNMPv3Message(h, scopedPDU=x, securityParameters=s)

# ------------------------------------------------------------------- printing
def evaluate(t, x):
    name = type(x).__name__
    t.current = short(x)
    text = repr(x)
    try:
        y = eval(text, dict(NS))
    except Exception as e:
        return bad(t, f"eval:{name}", f"repr of a {name} does not evaluate:"
            f" {short(text)}: {e!r}")
    if type(y) is not type(x):
        return bad(t, f"eval:{name}", f"{short(text)} evaluates to a"
            f" {type(y).__name__}, not a {name}")
    if (x == y) is not True or (x != y) is not False:
        bad(t, f"eval:{name}", f"{short(text)} evaluates to a {name} that is"
            " not equal to the original")
    if hasattr(x, "encode") and name != "Tag" and y.encode() != x.encode():
        bad(t, f"eval:{name}", f"{short(text)} evaluates to a {name} with"
            f" another encoding: {short(y.encode())}, not {short(x.encode())}")
    if repr(y) != text:
        bad(t, f"eval:{name}", f"the copy that {short(text)} makes is printed"
            f" as {short(repr(y))}")
    return y

def inside(t, key, text, *parts):
    """The parts appear in the text in the given order."""
    at = 0
    for p in parts:
        k = text.find(p, at)
        if k < 0:
            return bad(t, f"show:{key}", f"printing {t.current} gives"
                f" {short(text)}, which does not show {p!r} in its place")
        at = k + len(p)

def shown(x):
    """What the text of an object has to show, in the order of the fields."""
    import snmp.message.core as core
    import snmp.message.v3 as v3
    from snmp.security.usm.parameters import UsmSecurityParameters as U
    p = L.pdu
    if isinstance(x, L.smi.OID):
        return [".".join(str(n) for n in x.subidentifiers)]
    if isinstance(x, p.VarBind):
        return shown(x.name) + shown(x.value)
    if isinstance(x, p.VarBindList):
        return [s for vb in x for s in shown(vb)]
    if isinstance(x, p.BulkPDU):
        return [type(x).__name__, str(x.requestID), str(x.nonRepeaters),
            str(x.maxRepetitions)] + shown(x.variableBindings)
    if isinstance(x, p.PDU):
        return [type(x).__name__, str(x.requestID),
            p.ErrorStatus(int(x.errorStatus)).name, str(x.errorIndex)] + shown(
            x.variableBindings)
    if isinstance(x, core.Message):
        return [repr(x.community)] + shown(x.pdu)
    if isinstance(x, v3.MessageFlags):
        a, b = x.securityLevel.auth, x.securityLevel.priv
        return [("auth" if a else "noAuth") + ("Priv" if b else "NoPriv"),
            str(bool(x.reportableFlag))]
    if isinstance(x, v3.HeaderData):
        return [str(x.id), str(x.maxSize)] + shown(x.flags) + ["USM"]
    if isinstance(x, v3.ScopedPDU):
        return [repr(x.contextEngineID), repr(x.contextName)] + shown(x.pdu)
    if isinstance(x, v3.SNMPv3Message):
        return shown(x.header) + (shown(x.encryptedPDU) if x.header.flags.privFlag
            else shown(x.scopedPDU))
    if isinstance(x, U):
        return [repr(x.engineID), str(x.engineBoots), str(x.engineTime),
            repr(x.userName), repr(bytes(x.signature)), repr(x.salt)]
    if isinstance(x, L.smi.IpAddress):
        return [".".join(str(b) for b in x.data)]
    if isinstance(x, L.smi.OctetString) and not isinstance(x.original, bytes):
        return [repr(bytes(x.original.data))]
    if hasattr(x, "data"):
        return [repr(bytes(x.data))]
    if hasattr(x, "value"):
        return [str(x.value)]
    return [type(x).__name__]

def printed(t, x):
    name = type(x).__name__
    t.current = short(x)
    try:
        text = str(x)
    except Exception as e:
        return bad(t, f"str:{name}", f"printing {t.current} raises {e!r}")
    if not isinstance(x, tuple):
        inside(t, name, text, *shown(x))
    if not hasattr(x, "toString"):
        return
    VBL = L.pdu.VarBindList
    for tab in TABS:
        flat = x.toString(tab) if isinstance(x, VBL) else x.toString(0, tab)
        if tab == TABS[0] and not isinstance(x, VBL) and flat != text:
            bad(t, f"str:{name}", f"str and toString differ for {t.current}")
        for depth in (1, 2, 3):
            if isinstance(x, VBL):
                deep = x.toString(tab * depth)
                want = [tab * depth + l if l else l for l in text.split("\n")]
            else:
                deep = x.toString(depth, tab)
                want = [tab * depth + l if l else l for l in flat.split("\n")]
            if [l if l.strip(tab or None) else "" for l in deep.split("\n")] != [
                    l if l.strip(tab or None) else "" for l in want]:
                bad(t, f"indent:{name}", f"{t.current} at depth {depth} with"
                    f" tab {tab!r} is not its text indented by that much:"
                    f" {short(deep)}")

def both(t, x, redecode=True):
    y = evaluate(t, x)
    printed(t, x)
    if y is not None:
        printed(t, y)
    if redecode:
        t.current = short(x)
        try:
            z = type(x).decode(x.encode())
        except Exception as e:
            return bad(t, f"decode:{type(x).__name__}", f"{t.current} cannot be"
                f" decoded again: {e!r}")
        evaluate(t, z)
        printed(t, z)
    t.case(type(x).__name__)

def work(t, chunk):
    kind, part, of = chunk
    if kind == "values":
        for x in values()[part::of]:
            n = len(x.subidentifiers) if isinstance(x, L.smi.OID) else 2
            both(t, x, redecode=n >= 2)
    elif kind == "binds":
        for l in vblists()[part::of]:
            x = L.pdu.VarBindList(*l)
            both(t, x)
            for vb in l:
                both(t, vb)
    elif kind == "pdus":
        for tag in PDUS:
            bulk = tag == rb.GETBULK
            for l in vblists()[part::of]:
                for reqid in INTS[::3]:
                    for a in ((0, 1, 255) if bulk else (0, 2, 13)):
                        both(t, pdu(tag, reqid, a, min(a, len(l)), l))
            if part == 0:
                one = [L.pdu.VarBind("1.3.6.1", L.smi.Null())]
                for reqid in INTS:
                    if bulk:
                        for a, b in itertools.product(NATS, NATS):
                            both(t, pdu(tag, reqid, a, b, one))
                    else:
                        for s in range(19):
                            for i in (0, 1):
                                both(t, pdu(tag, reqid, s, i, one))
    elif kind == "messages":
        import snmp.message.core as core
        types = {getattr(L.pdu, c).TAG: getattr(L.pdu, c) for c in PDUS.values()}
        for x in list(messages())[part::of]:
            both(t, x, False)
            z = core.Message.decode(x.encode(), types=types)
            evaluate(t, z)
            printed(t, z)
    elif kind == "v3":
        import snmp.message.version as ver
        if part == 0:
            for x in headers():
                both(t, x)
                both(t, x.flags)
            for x in usms():
                both(t, x)
            for v in ver.ProtocolVersion:
                both(t, ver.VersionOnlyMessage(v))
            for v in views():
                evaluate(t, v)
                t.case("view")
            for tag in tags():
                evaluate(t, tag)
                t.case("tag")
            for x in levels():
                evaluate(t, x)
                t.case("level")
        for x in list(scoped())[part::of]:
            both(t, x, False)
        for x in list(v3messages())[part::of]:
            both(t, x)
    elif kind == "equal":
        equality(t, part, of)
    elif kind == "levels":
        order(t)

# ------------------------------------------------------------------- equality
def tags():
    Tag = L.ber.Tag
    return [Tag(n, c, cls) for n in (0, 1, 30, 31, 127, 128, 16384)
        for c in (False, True) for cls in Tag.Class]

def levels():
    import snmp.security.levels as sl
    return [sl.SecurityLevel(a, p) for a, p in LEVELS]

class Foreign:
    pass

def subject(x):
    """(kind, contents): equal objects are exactly those with equal subjects."""
    p = L.pdu
    if isinstance(x, L.ber.Tag):
        return ("tag", x.number, bool(x.constructed), int(x.cls))
    if type(x).__name__ == "SecurityLevel":
        return ("level", bool(x.auth), bool(x.priv))
    if isinstance(x, L.smi.OID):
        return ("oid", tuple(x.subidentifiers))
    if isinstance(x, L.snmp.asn1.Constructed):
        return (type(x).__name__, tuple(subject(y) for y in x))
    if isinstance(x, L.snmp.asn1.ASN1):
        return ("value", x.encode())
    return ("foreign", id(x))

def population():
    import snmp.message.version as ver
    s = L.smi
    out = some_values()
    out += [cls(n) for cls in (s.Integer, s.Integer32, s.Unsigned32, s.Counter32,
        s.Gauge32, s.TimeTicks, s.Counter64) for n in (0, 1, 128)]
    out += [s.Integer(-1), s.Integer32(-1), s.OctetString(
        L.snmp.utils.subbytes(b"xhiy", 1, 3)), s.OID(), s.OID(1), s.OID(1, 3),
        s.OID(1, 3, 6), s.IpAddress("10.0.0.1"), s.IpAddress("255.255.255.255"),
        s.OctetString(b"\x0a\0\0\1"), s.Opaque(b"\x0a\0\0\1"), s.Opaque(b"hi")]
    ks = [L.value(v) for v in BYKIND.values()]
    VB, VBL = L.pdu.VarBind, L.pdu.VarBindList
    out += [VB("1.3.6", v) for v in ks] + [VB("1.3.7", v) for v in ks[:3]]
    out += [VBL(*[VB("1.3.6", ks[i]) for i in o]) for n in range(3)
        for o in itertools.product((0, 1, 2), repeat=n)]
    out += few_pdus()[::2] + list(scoped())[::9]
    out += headers()[::6] + [h.flags for h in headers()[::6]]
    out += list(usms())[::11] + list(messages())[::17] + list(v3messages())[::19]
    out += tags() + levels() + [ver.VersionOnlyMessage(v) for v in ver.ProtocolVersion]
    out += [None, 0, 1, "", "1.3.6", b"", b"hi", (1, 3, 6), (), [], object(),
        Foreign(), L.ber.Tag, 3.5]
    return out

def equality(t, part, of):
    pop = population()
    twin = population()
    foreign = {id(x) for x in pop + twin if subject(x)[0] == "foreign"}
    ks = [subject(x) for x in pop]
    kt = [subject(x) for x in twin]
    for i in range(part, len(pop), of):
        x = pop[i]
        if id(x) in foreign:
            continue
        for j, y in enumerate(twin):
            want = ks[i] == kt[j]
            for a, b in ((x, y), (y, x)):
                t.current = (short(a), short(b))
                try:
                    got, neg = a == b, a != b
                except Exception as e:
                    bad(t, "compare", f"comparing {short(a)} with {short(b)}"
                        f" raises {e!r}")
                    continue
                if got is not want or neg is want:
                    bad(t, "equal", f"{short(a)} == {short(b)} is {got} and !="
                        f" is {neg}; their contents are"
                        f" {'equal' if want else 'different'}")
            if want:
                try:
                    h = hash(x), hash(y)
                except TypeError:
                    h = (0, 0)
                if h[0] != h[1]:
                    bad(t, "hash", f"equal objects with different hashes: {short(x)}")
            t.case("pair")

def order(t):
    import operator as op
    for (i, a), (j, b) in itertools.product(enumerate(levels()), repeat=2):
        for f in (op.lt, op.le, op.gt, op.ge, op.eq, op.ne):
            if f is op.le:
                g = lambda a, b: b >= a
            else:
                g = f
            t.current = (str(a), f.__name__, str(b))
            if bool(g(a, b)) is not f(i, j):
                bad(t, "level order", f"{a} {f.__name__} {b} is {g(a, b)}")
            t.case("order")
    t.current = "names of the levels"
    if [str(x) for x in levels()] != ["noAuthNoPriv", "authNoPriv", "authPriv"]:
        bad(t, "level name", f"{[str(x) for x in levels()]}")

def chunks():
    return [("equal", k, 16) for k in range(16)] + [("pdus", k, 16) for k in range(16)] + [
        (n, k, 4) for n in ("v3", "messages", "binds") for k in range(4)] + [
        ("values", k, 4) for k in range(4)] + [("levels", 0, 1)]

def run(ck):
    load()
    total = report.enumerate_chunks(ck, work, chunks())
    report.exploration(ck, total, "every object of a product of boundary field"
        " values of each class is printed, evaluated, compared with the"
        " original, decoded again and printed again, at several depths; every"
        " ordered pair of a population of all the classes is compared")
    ck.assumptions = ["evaluated with every public name of the modules of the"
        " codec in scope", "labels and layout are free: the text has to show"
        " the fields in order", "byte views are compared as sequences and are"
        " not part of the pairs"]

def replay(ck, data):
    load()
    print("the failing case is described by:", data)
    run(ck)
    return ck.finish()
