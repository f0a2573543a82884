"""B06: a byte view behaves as the slice it stands for."""
import itertools
import lib
import report

LEVEL = "exploration"
L = None
S = None

def bounds(n):
    return [None] + list(range(-n - 1, n + 2)) + [-1000, 1000]

def derive(n):
    """Every way to derive a view of n octets: (name, on view, on bytes)."""
    out = []
    for a, b in itertools.product(bounds(n), repeat=2):
        out.append((f"[{a}:{b}]", lambda v, a=a, b=b: S(v, a, b),
            (lambda d, a=a, b=b: (slice(a, b).indices(len(d))[:2]))))
    for i in bounds(n)[1:]:
        out.append((f"split({i})[0]", lambda v, i=i: v.split(i)[0],
            lambda d, i=i: slice(None, i).indices(len(d))[:2]))
        out.append((f"split({i})[1]", lambda v, i=i: v.split(i)[1],
            lambda d, i=i: slice(i, None).indices(len(d))[:2]))
    out.append(("advance", lambda v: v.advance(),
        lambda d: slice(1, None).indices(len(d))[:2]))
    return out

def observe(t, v, base, lo, hi, path):
    """v must be base[lo:hi] in every respect."""
    d = base[lo:hi]
    def same(key, got, want):
        if got != want or type(got) is not type(want):
            t.fail(key.split("[")[0], f"{path} of {base!r}: {key} is {got!r},"
                f" not {want!r}", (path, base.hex(), key))
    same("len", len(v), len(d))
    same("bool", bool(v), bool(d))
    same("iteration", list(v), list(d))
    same("bytes", v[:], d)
    same("==", (v == d, v == S(d), v == S(b"x" + d + b"y", 1, 1 + len(d)), v != d,
        d == v, v == bytearray(d), v == list(d), v == tuple(d)),
        (True, True, True, False, True, True, True, True))
    same("== other", (v == d + b"\0", d and v == d[1:] or False, v == S(d + b"a"),
        v == None, v == 5), (False,) * 5)
    if d:
        x = bytes([d[0] ^ 1]) + d[1:]
        y = d[:-1] + bytes([d[-1] ^ 1])
        same("== changed", (v == x, v == y, v != x, v != S(y)), (False, False, True, True))
    n = len(d)
    for i in itertools.chain(range(-n - 3, n + 3), (-len(base) - 5, len(base) + 5)):
        try:
            got = v[i]
        except IndexError:
            got = "IndexError"
        try:
            want = d[i]
        except IndexError:
            want = "IndexError"
        same(f"item[{i}]", got, want)
    try:
        got = v.dereference()
    except IndexError:
        got = "IndexError"
    same("dereference", got, d[0] if d else "IndexError")
    same("underlying", v.data, base)
    # an empty view lies at its start, wherever slicing puts that
    if lo <= hi:
        same("place", (v.start, v.stop), (lo, hi))
    for r in (b"", b"Z", b"long replacement"):
        if d:
            same("replace", v.replace(r), base[:lo] + r + base[hi:])
            same("unchanged", (v[:], v.data), (d, base))
    t.case("view")

def slices(t, v, d, path):
    b = bounds(len(d))
    for x, y in itertools.product(b, b):
        if v[x:y] != d[x:y] or type(v[x:y]) is not bytes:
            t.fail("slice", f"{path}: [{x}:{y}] of the view of {d!r} is {v[x:y]!r}",
                path)
    for s in (2, 3, -1, -2):
        if v[::s] != d[::s]:
            t.fail("slice", f"{path}: [::{s}] of the view of {d!r} is {v[::s]!r}", path)
    t.case("slices", len(b) ** 2)

def long(t, n):
    """A long view: every octet and every position counts."""
    data = bytes((7 * i + (i >> 8)) & 255 for i in range(n + 11))
    for lo, hi in ((0, n), (0, n + 11), (11, n + 11), (5, n + 5)):
        d = data[lo:hi]
        for v, how in ((S(data, lo, hi), "view"), (S(S(data), lo, hi), "view of view"),
                (S(data).split(lo)[1].split(hi - lo)[0], "split")):
            t.current = (n, lo, hi, how)
            def bad(what):
                t.fail(what, f"{how} [{lo}:{hi}] of {n + 11} octets: {what}",
                    t.current)
            if len(v) != len(d) or v[:] != d or list(v) != list(d):
                bad("contents")
            if not (v == d and v == S(d) and d == v) or v != d:
                bad("equality")
            for i in range(len(d)):
                x = d[:i] + bytes([d[i] ^ 0x80]) + d[i + 1:]
                if v == x or v == S(x) or not v != x:
                    bad(f"equal to one that differs at {i}")
                if v[i] != d[i] or v[i - len(d)] != d[i]:
                    bad(f"item {i}")
                if v == d[:i] or v == S(d, 0, i) or v[i:] != d[i:] or v[:i] != d[:i]:
                    bad(f"part {i}")
                a, b = v.split(i)
                if a[:] != d[:i] or b[:] != d[i:] or b.dereference() != d[i]:
                    bad(f"split {i}")
            if v.replace(b"new") != data[:lo] + b"new" + data[hi:]:
                bad("replace")
            t.case("long view")

def work(t, chunk):
    kind, n, part, quick = chunk
    if kind == "long":
        return long(t, n)
    data = bytes(range(10, 10 + n))
    if kind == "whole":
        v = S(data)
        observe(t, v, data, 0, n, "whole")
        slices(t, v, data, "whole")
        return
    ways = derive(n)
    for name, make, place in ways[part[0]::part[1]]:
        t.current = (n, name)
        v = make(data) if name[0] == "[" else make(S(data))
        lo, hi = place(data)
        hi = max(lo, hi)
        d = data[lo:hi]
        observe(t, v, data, lo, hi, name)
        slices(t, v, d, name)
        w = S(v)
        observe(t, w, data, lo, hi, name + " copied")
        for name2, make2, place2 in derive(len(d)):
            t.current = (n, name, name2)
            w = make2(v)
            a, b = place2(d)
            b = max(a, b)
            observe(t, w, data, lo + a, lo + b, name + name2)
            if not quick:
                slices(t, w, d[a:b], name + name2)
                if n < 5:
                    e = d[a:b]
                    for name3, make3, place3 in derive(len(e)):
                        x = make3(w)
                        p, q = place3(e)
                        observe(t, x, data, lo + a + p, lo + a + max(p, q),
                            name + name2 + name3)
            # and the view it came from is what it was
            if v[:] != d or w.data is not v.data:
                t.fail("source", f"deriving {name2} changed {name}", t.current)
    t.sample(f"{n} octets, first operation {name}, every second one")

def run(ck):
    global L, S
    L = lib.load()
    S = L.snmp.utils.subbytes
    top = 7 if ck.quick else 9
    chunks = []
    for n in range(top + 1):
        chunks.append(("whole", n, None, ck.quick))
        k = 1 if n < 3 else 8 if n < 5 else 24
        chunks += [("chains", n, (i, k), ck.quick) for i in range(k)]
    chunks += [("long", n, None, ck.quick) for n in
        ((15, 64, 127, 128, 255, 256, 300) if ck.quick else
        tuple(range(10, 320, 3)) + (1023, 1472, 4096))]
    total = report.enumerate_chunks(ck, work, chunks)
    report.exploration(ck, total, "one case = one view derived by one chain of"
        " operations, with all its items, comparisons and replacements, or one"
        " slice of it; chains are distinct by construction")
    ck.coverage["bound"] = f"byte strings of up to {top} octets, chains of two"\
        " derivations, every bound in -(n+1)..n+1, missing, -1000 and 1000; views"\
        " of some lengths up to 300 (thorough: 4096) octets, every position"
    ck.assumptions = ["oracle: Python bytes"]

def replay(ck, data):
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
