"""B05: table indices are encoded as SMIv2 prescribes and decode to themselves."""
import itertools
import lib
import report

LEVEL = "exploration"
L = None
M32 = (1 << 32) - 1
PREFIXES = ((1, 3, 6), (), (2, 39, M32), (1,))
PREFIX = (1, 3, 6)
KINDS = ("int", "c32", "g32", "tt", "c64", "str", "ip", "opq", "oid", "null", "u32")
NUMBERS = {"int": (1 << 31) - 1, "c32": M32, "g32": M32, "tt": M32, "u32": M32,
    "c64": (1 << 64) - 1}

def cls(kind):
    return L.smi.Unsigned32 if kind == "u32" else L.cls[kind]

def value(v):
    return L.smi.Unsigned32(v[1]) if v[0] == "u32" else L.value(v)

def unvalue(kind, obj):
    if type(obj) is not cls(kind):
        return ("wrong type", type(obj).__name__)
    return (kind, obj.value) if kind == "u32" else L.unvalue(obj)

def variable(kind):
    return kind in ("str", "opq", "oid")

# ------------------------------------------------ the encoding of RFC 2578 7.7

def encode(values, implied):
    out = []
    for i, v in enumerate(values):
        kind = v[0]
        if kind in NUMBERS:
            out.append(v[1])
        elif kind == "ip":
            out.extend(v[1])
        elif variable(kind):
            if not (implied and i == len(values) - 1):
                out.append(len(v[1]))
            out.extend(v[1])
    return tuple(out)

def take(kind, nums, whole):
    """(value, rest) or None."""
    if kind in NUMBERS:
        if not nums or nums[0] > NUMBERS[kind]:
            return None
        return (kind, nums[0]), nums[1:]
    if kind == "null":
        return ("null",), nums
    if kind == "ip":
        body, nums = nums[:4], nums[4:]
        if len(body) < 4:
            return None
    elif whole:
        body, nums = nums, ()
    else:
        if not nums or nums[0] > len(nums) - 1:
            return None
        body, nums = nums[1:nums[0] + 1], nums[nums[0] + 1:]
    if kind == "oid":
        if body and body[0] > 2 or len(body) > 1 and body[1] > 39:
            return None
        return (kind, body), nums
    if any(b > 255 for b in body):
        return None
    return (kind, bytes(body)), nums

def decode(kinds, implied, nums):
    out = []
    for i, k in enumerate(kinds):
        r = take(k, nums, implied and i == len(kinds) - 1)
        if r is None:
            return None
        out.append(r[0])
        nums = r[1]
    return None if nums else out

# ---------------------------------------------------------------- round trips

BOUNDARY = {k: [(k, n) for n in sorted({0, 1, 127, 128, 255, 256, min(m, M32) - 1,
    min(m, M32)})] for k, m in NUMBERS.items()}
BOUNDARY["str"] = [("str", b) for b in (b"", b"a", b"\0", b"\xff\0", b"\4abcd", bytes(range(40)))]
BOUNDARY["opq"] = [("opq", b) for b in (b"", b"\0", b"\x9f\x78\x04")]
BOUNDARY["ip"] = [("ip", b) for b in (b"\0\0\0\0", b"\x0a\0\0\1", b"\xff\xff\xff\xff")]
BOUNDARY["oid"] = [("oid", o) for o in ((), (0,), (2,), (1, 3), (0, 0), (1, 3, 6, 1, M32),
    (2, 39, 4, 0, 256))]
BOUNDARY["null"] = [("null",)]
FEW = {k: v if len(v) < 4 else (v[0], v[-2], v[-1]) for k, v in BOUNDARY.items()}

def trip(t, prefix, values, implied):
    OID = L.smi.OID
    t.current = (prefix, values, implied)
    want = prefix + encode(values, implied)
    base = OID(*prefix)
    illegal = len(want) > 128 or want[:1] > (2,) or want[1:2] > (39,)
    try:
        got = base.withIndex(*(value(v) for v in values), implied=implied)
    except ValueError as e:
        if not illegal:
            raise
        t.case("too long or illegal")
        return
    if illegal:
        t.fail("illegal", f"withIndex gives the illegal {str(got)[:300]} on"
            f" {t.current}", t.current)
        return
    if tuple(got) != want or type(got) is not OID:
        t.fail("encode", f"withIndex{t.current} gives {got}, not {want}", t.current)
    if tuple(base) != prefix:
        t.fail("changed", f"withIndex changed its prefix to {base}", t.current)
    kinds = [v[0] for v in values]
    back = got.decodeIndex(base, *map(cls, kinds), implied=implied)
    back = [unvalue(k, b) for k, b in zip(kinds, back)] + [None] * (len(back) - len(kinds))
    if back != list(values):
        t.fail("decode", f"{got} decodes as {back}, not {values}", t.current)
    if len(kinds) == 1:
        one = unvalue(kinds[0], got.getIndex(base, cls(kinds[0]), implied=implied))
        if one != values[0]:
            t.fail("getIndex", f"getIndex of {got} is {one}, not {values[0]}",
                t.current)
        if kinds[0] == "int" and got.getIndex(base).value != values[0][1]:
            t.fail("getIndex default", f"getIndex of {got}", t.current)
    t.case("round trip")

def trips(t, first):
    for v in BOUNDARY[first]:
        for p in PREFIXES:
            for implied in (False, True):
                trip(t, p, [v], implied)
                for k in KINDS:
                    for w in BOUNDARY[k]:
                        trip(t, p, [v, w], implied)
    for v in FEW[first]:
        for k2, k3 in itertools.product(KINDS, repeat=2):
            for w, x in itertools.product(FEW[k2], FEW[k3]):
                for implied in (False, True):
                    trip(t, PREFIX, [v, w, x], implied)

def lengths(t):
    """Long fields, up to and over the limit of an identifier."""
    for k in ("str", "opq", "oid"):
        for n in range(0, 135):
            body = (1, 3) * 70 if k == "oid" else bytes(200)
            v = (k, body[:n])
            if n <= 128:
                for implied in (False, True):
                    for p in PREFIXES[:1] + PREFIXES[2:3]:
                        trip(t, p, [v], implied)
                        trip(t, p, [("int", 5), v], implied)
                        trip(t, p, [v, ("ip", b"\1\2\3\4")], implied)
    for p in ((), (1, 3, 6)):
        trip(t, p, [], False)
        trip(t, p, [], True)
    for k, n in NUMBERS.items():
        top = (k, n)
        if n <= M32:
            trip(t, PREFIX, [top], False)
    OID = L.smi.OID
    for bad in (L.smi.Integer32(-1), L.smi.Counter64(1 << 32),
            L.smi.Counter64((1 << 64) - 1), L.smi.Integer32(-(1 << 31))):
        t.current = repr(bad)
        for args in ((bad,), (bad, L.smi.Integer32(1)), (L.smi.Null(), bad)):
            try:
                got = OID(1, 3).withIndex(*args)
            except ValueError:
                t.case("unrepresentable")
                continue
            t.fail("unrepresentable", f"withIndex({args}) gives {got}", t.current)

# ----------------------------------------------------------- arbitrary decoding

def dec(t, prefix, nums, kinds, implied):
    OID = L.smi.OID
    want = decode(kinds, implied, nums)
    try:
        got = OID(*prefix, *nums).decodeIndex(OID(*prefix), *map(cls, kinds),
            implied=implied)
        got = [unvalue(k, g) for k, g in zip(kinds, got)] if len(got) == len(kinds) \
            else ("fields", len(got))
    except OID.IndexDecodeError:
        got = None
    except Exception as e:
        got = report.describe(e)
    if got != want:
        t.fail(f"any:{'/'.join(kinds)[:12]}", f"index {nums} as {kinds}"
            f" implied={implied} gives {got}, not {want}",
            (prefix, nums, kinds, implied))
    t.case("valid" if want else "invalid")

ALPHA = (0, 1, 2, 4, 40, 255, 256)
WIDE = ALPHA + (3, 39, 1 << 31, (1 << 31) - 1, M32)

def decoding(t, kinds, quick):
    deep = {0: 3, 1: 5, 2: 5, 3: 4}[len(kinds)] + (not quick and len(kinds) < 3)
    seqs = [s for n in range(deep + 1) for s in itertools.product(
        WIDE if n < 3 else ALPHA if n < 5 else (0, 1, 3, 4, 256), repeat=n)]
    seqs += [(n,) + (1,) * m for n in (1, 2, 5, 20, 120, 1 << 31, M32)
        for m in (0, 1, 2, 19, 20, 21, 119, 120)]
    for s in seqs:
        t.current = (s, kinds)
        for implied in (False, True) if variable(kinds[-1]) or len(s) < 3 \
                else (False,):
            dec(t, PREFIX, s, kinds, implied)
    t.sample(f"{len(seqs)} remainders decoded as {kinds}")

def bad_prefix(t):
    OID = L.smi.OID
    U = [o for n in range(5) for o in itertools.product((0, 1, 2, 39), repeat=n)
        if o[:1] != (39,)]
    for o, p in itertools.product(U, U):
        t.current = (o, p)
        x, y = OID(*o), OID(*p)
        starts = o[:len(p)] == p
        for what, want in ((lambda: x.decodeIndex(y, L.smi.Integer32),
                "IndexDecodeError" if len(o) != len(p) + 1 else o[-1]),
                (lambda: x.getIndex(y), "IndexDecodeError"
                    if len(o) != len(p) + 1 else o[-1]),
                (lambda: x.decodeIndex(y), "IndexDecodeError" if o != p else ())):
            if not starts:
                want = "BadPrefix"
            try:
                got = what()
                if isinstance(got, tuple) and got:
                    got = got[0]
                if got != ():
                    got = got.value
            except (OID.BadPrefix, OID.IndexDecodeError) as e:
                got = type(e).__name__
            if got != want:
                t.fail("prefix", f"{o} under {p} gives {got}, not {want}", t.current)
            t.case("prefix")

def work(t, chunk):
    kind, arg, quick = chunk
    if kind == "trips":
        trips(t, arg)
    elif kind == "decoding":
        for kinds in arg:
            decoding(t, kinds, quick)
    else:
        globals()[kind](t)

def run(ck):
    global L
    L = lib.load()
    q = ck.quick
    lists = [(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2))
    some = ("int", "str", "ip", "oid", "null") if q else KINDS
    lists += list(itertools.product(some, repeat=3))
    chunks = [("trips", k, q) for k in KINDS]
    chunks += [("lengths", None, q), ("bad_prefix", None, q)]
    chunks += [("decoding", lists[i::64], q) for i in range(64)]
    total = report.enumerate_chunks(ck, work, chunks)
    report.exploration(ck, total, "one case = one tuple of index values appended"
        " to one prefix and decoded again, or one sequence of sub-identifiers"
        " decoded against one list of types; distinct by construction")
    ck.assumptions = ["a value that no index can hold (negative, over 2^32-1, or"
        " an identifier over 128 sub-identifiers) is refused with ValueError",
        "oracle: RFC 2578 section 7.7, written in this check"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
