"""U03: the 150-second window, reboots and replays follow RFC 3414."""
import itertools
import lib_usm
import report
import timemodel as tm

LEVEL = "model_checking"
L = CLOCK = None

def messages(e, u, boots, times):
    return [("msg", e, u, b, s) for b in boots for s in times]

def alphabets(quick):
    T = lambda *ds: [("tick", d) for d in ds]
    wide = messages("A", "u", ("=0", "=1", "=-1", 0, tm.TOP - 1, tm.TOP),
        ("=-151", "=-150", "=-149", "=0", "=1", "=1000", 0, tm.TOP)
        ) + T(0.25, 1.0, 149.75, 151.0)
    deep = messages("A", "u", ("=0",), ("=-151", "=-150", "=0", "=1", "=2")
        ) + messages("A", "u", ("=1", "=-1"), ("=0", 0)) + [
        ("replay", "A", "u")] + T(0.75, 150.5)
    far = messages("A", "u", ("=0", "=1"), ("=-151", "=-150", "=1", tm.TOP, 0)
        ) + T(0.5, 151.0, float(1 << 31))
    two = [m for e in "AB" for u in "uv" for m in messages(e, u, ("=0", "=1"),
        ("=-151", "=-150", "=1"))] + T(100.25)
    narrow = messages("A", "u", ("=0",), ("=-151", "=-150", "=1")
        ) + messages("A", "u", ("=1", "=-1"), (0,)) + T(0.75, 150.5)
    back = messages("A", "u", ("=0", "=1"), (0, "=0", "=-151", tm.TOP)) + T(
        -0.25, -10.0, -5000.0, 151.0)
    both = dict(engines="AB", users="uv")
    first = messages("A", "u", (5, 0, tm.TOP - 1, tm.TOP), (1000, 0, tm.TOP))
    if quick:
        return [("wide", [first, wide, wide], {}), ("deep", [deep] * 4, {}),
            ("far", [first, far, far, far], {}), ("two", [two] * 3, both),
            ("narrow", [narrow] * 5, {}), ("back", [back] * 3, {})]
    return [("wide", [wide] * 4, {}), ("deep", [deep] * 6, {}),
        ("far", [far] * 5, {}), ("two", [two] * 4, both),
        ("narrow", [narrow] * 7, {}), ("back", [back] * 6, {})]

def crowds(quick):
    """Many engines, whose clocks are each their own."""
    out = []
    for n in (3, 9, 17, 40) if quick else (3, 9, 17, 33, 65, 130, 300):
        names = tuple(f"e{i:03}" for i in range(n))
        def each(*what):
            return [(w[0], e, "u") + w[1:] for e in names for w in what]
        meet = [("msg", e, "u", i % 7, 1000 * i) for i, e in enumerate(names)]
        old = each(("msg", "=0", "=-151"), ("msg", "=0", "=-150"))
        more = each(("msg", "=0", "=1"))
        reboot = each(("msg", "=1", 0))
        replay = each(("replay",))
        for order in (1, -1):
            for story in ((meet, old), (meet, [("tick", 10.0)], old),
                    (meet, [("tick", 151.0)], replay, more, old),
                    (meet, reboot, replay, old), (meet, more[::2], old, reboot[::3],
                    replay, old[::-1])):
                ops = tuple(x for part in (story[0],) + story[1:] for x in
                    part[::order if part is not story[0] else 1])
                out.append((ops, names))
    # one engine over a long time
    n = 60 if quick else 400
    for d in (0.25, 1.0, 149.75, 151.0, 86400.0):
        for b, s in (("=0", "=0"), ("=0", "=1"), ("=0", "=-150"), ("=0", "=-151"),
                ("=1", 0), ("=0", 0)):
            ops = (("msg", "A", "u", 5, 1000),) + (("tick", d),
                ("msg", "A", "u", b, s)) * n
            out.append((ops, "A"))
            out.append((ops + (("replay", "A", "u"),) * n, "A"))
    return out

def work(t, chunk):
    if chunk[0] == "long":
        return tm.long(t, L, CLOCK, chunk[1])
    tm.enumerate_all(t, L, CLOCK, chunk)

def run(ck):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    todo, bounds = [], {}
    for name, a, kw in alphabets(ck.quick):
        todo += tm.chunks(a, 1 if ck.quick else 2, **kw)
        bounds[name] = f"all histories of {len(a)} operations, from" \
            f" {[len(x) for x in a]} choices"
    more = crowds(ck.quick)
    todo += [("long", more[i::32]) for i in range(32)]
    bounds["crowds"] = f"{len(more)} long histories of one engine or of up to"\
        f" {max(len(e) for _, e in more)}"
    total = report.enumerate_chunks(ck, work, todo, limit=3600)
    tm.finish(ck, total, bounds)

def replay(ck, data):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    ops = tuple(tuple(o) for o in data)
    kw = dict(engines=tuple(sorted({o[1] for o in ops if o[0] != "tick"}
        | {"A", "B"})), users="uv")
    t = report.Tally()
    tm.play(t, L, CLOCK, ops, **kw)
    for v in t.violations:
        ck.violation(v)
        print(v.what)
    return ck.finish()
