"""B04: object identifiers behave as the sequences they denote."""
import itertools
import lib
import refber as rb
import report

LEVEL = "exploration"
L = None
M32 = (1 << 32) - 1

def alphabet(quick):
    return (0, 1, 2, 39, 40, 127, 128, M32 - 1, M32)

def legal(o):
    return (len(o) <= 128 and all(isinstance(x, int) and 0 <= x <= M32 for x in o)
        and (len(o) < 1 or o[0] <= 2) and (len(o) < 2 or o[1] <= 39))

def tree(maxlen):
    """All legal identifiers up to a length over a small alphabet."""
    out = [()]
    for n in range(1, maxlen + 1):
        out += [o for o in itertools.product((0, 1, 2, 39, 128, M32), repeat=n)
            if legal(o)]
    return out

def long_ones():
    out = []
    for n in (3, 63, 64, 65, 126, 127, 128):
        for x in (0, 1, 127, 128, M32):
            out.append((1, 3) + (x,) * (n - 2))
            out.append((2, 39) + (0,) * (n - 3) + (x,))
    return out

def text(o):
    return ".".join(str(x) for x in o)

def bad(t, key, what):
    t.fail(key, what, t.current)

def one(t, o):
    OID = L.smi.OID
    t.current = ("oid", o if len(o) < 20 else (len(o), o[:4], o[-1]))
    x = OID(*o)
    def same(key, got, want):
        if got != want:
            bad(t, key, f"OID{t.current[1]}: {key} gives {str(got)[:200]}, not"
                f" {str(want)[:200]}")
    same("iteration", tuple(x), o)
    same("len", len(x), len(o))
    same("str", str(x), text(o))
    same("text", tuple(OID.parse(text(o))), o)
    same("type", type(OID.parse(text(o))) is OID, True)
    if o:
        same("leading dot", tuple(OID.parse("." + text(o))), o)
    same("hash", hash(OID(*o)) == hash(x), True)
    same("equal", x == OID.parse(str(x)), True)
    same("not unequal", x != OID(*o), False)
    same("dict", {x: 1}.get(OID(*o)), 1)
    same("self prefix", x.startswith(x), True)
    same("self order", x < OID(*o), False)
    n = len(o)
    idx = range(-n - 2, n + 2) if n < 8 else (-n - 1, -n, -2, -1, 0, 1, n - 1, n)
    for i in idx:
        try:
            got = x[i]
        except IndexError:
            got = "IndexError"
        try:
            want = o[i]
        except IndexError:
            want = "IndexError"
        same(f"item {i}", got, want)
    b = [None] + list(idx)
    for i, j in itertools.product(b, b):
        same(f"slice {i}:{j}", x[i:j], o[i:j])
    same("slice step", (x[::2], x[::-1]), (o[::2], o[::-1]))
    t.case("identifier")
    for ext in EXTS:
        whole = o + ext
        try:
            got = tuple(x.extend(*ext))
        except ValueError:
            got = "ValueError"
        same(f"extend {ext[:3]}", got, whole if legal(whole) else "ValueError")
        if got != "ValueError":
            y = x.extend(*ext)
            same("extension type", type(y) is OID, True)
            same("extension prefix", y.startswith(x), True)
            same("extension order", (x < y, y < x), (bool(ext), False))
        same("unchanged", tuple(x), o)
        t.case("extension")

EXTS = [(), (0,), (1,), (40,), (M32,), (M32 + 1,), (-1,), (0, 0), (1, 2, 3),
    (5,) * 60, (5,) * 120, (5,) * 126, (5,) * 127, (5,) * 128, (5,) * 129]

def pairs(t, part):
    OID = L.smi.OID
    objs = [(o, OID(*o)) for o in UNIVERSE]
    for o in part:
        x = OID(*o)
        for p, y in objs:
            t.current = ("pair", o, p)
            got = (x == y, x != y, x < y, y < x, x > y, x.startswith(y),
                y.startswith(x))
            want = (o == p, o != p, o < p, p < o, o > p, o[:len(p)] == p,
                p[:len(o)] == o)
            if got != want:
                bad(t, "relations", f"{o} and {p}: (==, !=, <, >, reverse >,"
                    f" startswith, reverse startswith) are {got}, not {want}")
            if o == p and hash(x) != hash(y):
                bad(t, "hash", f"{o}: equal identifiers hash differently")
        t.case("pairs", len(objs))
    from snmp.asn1 import OBJECT_IDENTIFIER as BASE
    class Derived(OID):
        pass
    for o in part[:40]:
        x = OID(*o)
        for other in (o, list(o), text(o), None, 5):
            if x == other:
                bad(t, "foreign", f"OID{o} == {other!r}")
        t.case("foreign")
        # equal identifiers of different classes must be interchangeable as keys
        t.current = ("class", o)
        for y in (BASE(*o), Derived(*o)):
            if (x == y) != (y == x):
                bad(t, "symmetry", f"OID{o} == {y!r} depends on the order")
            if x == y and hash(x) != hash(y):
                bad(t, "hash", f"{o}: equal identifiers hash differently")
            if not (x.startswith(y) and y.startswith(x)) or x < y or y < x:
                bad(t, "relations", f"OID{o} and {y!r} are not of equal order")
        t.case("class")

def refused(t, o):
    OID = L.smi.OID
    t.current = ("refused", o if len(o) < 20 else (len(o), o[:4], o[-1]))
    ways = [("constructor", lambda: OID(*o)),
        ("parse", lambda: OID.parse(text(o))),
        ("parse dot", lambda: OID.parse("." + text(o)))]
    for k in {1, 2, len(o) - 1, len(o) // 2}:
        if 0 <= k < len(o) and legal(o[:k]):
            ways.append((f"extend {k}", lambda k=k: OID(*o[:k]).extend(*o[k:])))
    for how, make in ways:
        try:
            x = make()
        except ValueError:
            t.case("refused")
            continue
        bad(t, f"accepts:{how.split()[0]}", f"{how} accepts {t.current[1]} as"
            f" {str(x)[:80]}")

def illegal():
    out = []
    A = (0, 1, 2, 3, 39, 40, 41, 47, 80, 119, 120, M32, M32 + 1, M32 + 2, 1 << 33,
        1 << 64, -1, -2, -M32 - 1)
    for n in (1, 2, 3):
        out += [o for o in itertools.product(A, repeat=n) if not legal(o)]
    for v in (M32 + 1, -1, 1 << 40):
        for n in (4, 10, 127, 128):
            for i in range(2, n):
                out.append((1, 3) + tuple(v if j == i else 5 for j in range(2, n)))
    for n in range(129, 140):
        out.append((1, 3) + (0,) * (n - 2))
    out.append((1, 3) + (7,) * 1000)
    return out

def judge_text(t, s):
    """Only what is certain: digits and dots are parsed, other parts refused."""
    OID = L.smi.OID
    t.current = ("text", s)
    parts = s.split(".")
    if parts[0] == "":
        parts = parts[1:]
    if all(p.isascii() and p.isdigit() for p in parts):
        o = tuple(int(p) for p in parts)
        want = o if legal(o) else None
    else:
        want = None
        try:
            o = tuple(int(p) for p in parts)
            if legal(o):
                want = ("either", o)        # lenient spellings: " 1", "+1", "1_0"
        except ValueError:
            pass
    try:
        got = tuple(OID.parse(s))
    except ValueError:
        got = None
    if got != want and not (want and want[0] == "either"
            and got in (None, want[1])):
        bad(t, "parse", f"parse({s!r}) gives {got}, not {want}")
    t.case("text", nontrivial=want is None or bool(want))

def work(t, chunk):
    kind, part = chunk
    if kind == "one":
        for o in part:
            one(t, o)
    elif kind == "pairs":
        pairs(t, part)
    elif kind == "refused":
        for o in part:
            refused(t, o)
    elif kind == "text":
        first, n = part
        for k in range(0, n):
            for rest in itertools.product("013.-x 9", repeat=k):
                judge_text(t, first + "".join(rest))
    elif kind == "numbers":
        for n in range(0, 5000):
            judge_text(t, f"1.3.{n}")
            judge_text(t, f"{n}")
            judge_text(t, f"2.{n}.1")
        for s in ("internet", "1.3.6.1.", "1..3", "..1", "1.3.x", "1.3.6.0x1",
                "1.3.1e3", "1.3.6.1.5.", ".", "..", "1.3.\n", "1,3", "1 3",
                f"1.3.{M32}", f"1.3.{M32 + 1}", "1.3." + "9" * 40,
                "1.3" + ".1" * 126, "1.3" + ".1" * 127, "1.3" + ".1" * 500):
            judge_text(t, s)

def split(items, n):
    step = max(1, (len(items) + n - 1) // n)
    return [items[i:i + step] for i in range(0, len(items), step)]

def run(ck):
    global L, UNIVERSE
    L = lib.load()
    UNIVERSE = tree(4 if ck.quick else 5) + long_ones()
    singles = tree(5 if ck.quick else 6) + long_ones()
    ill = illegal()
    chunks = [("one", c) for c in split(singles, 32)]
    chunks += [("pairs", c) for c in split(UNIVERSE if not ck.quick
        else UNIVERSE, 48)]
    chunks += [("refused", c) for c in split(ill, 8)]
    n = 6 if ck.quick else 7
    chunks += [("text", (c, n)) for c in ("", "0", "1", "3", ".", "-", "x", " ", "9")
        if c] + [("text", ("", 1)), ("numbers", None)]
    total = report.enumerate_chunks(ck, work, chunks)
    report.exploration(ck, total, "one case = one identifier with every"
        " operation on it, one ordered pair, one illegal identifier through"
        " every way to make it, or one text; all are distinct by construction")
    ck.assumptions = ["the spellings that Python's int() also accepts"
        " (surrounding blanks, '+', '_') may be accepted or refused",
        "oracle: Python tuples"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
