"""U04: unauthenticated input cannot disturb an authenticated clock."""
import lib_usm
import report
import timemodel as tm

LEVEL = "model_checking"
L = CLOCK = None

def hints(e, boots, times, kinds):
    return [("hint", e, b, s, p, u) for b in boots for s in times
        for p, u in kinds]

def forged(e, u, boots, times, hows):
    return [("forged", e, u, b, s, h) for b in boots for s in times for h in hows]

def msgs(e, u, boots, times):
    return [("msg", e, u, b, s) for b in boots for s in times]

R0, RU, AU = ("report", None), ("report", "u"), ("response", "u")

def alphabets(quick):
    ticks = [("tick", 0.75), ("tick", 150.5)]
    attack = (hints("A", ("=0", "=1", 0, tm.TOP), ("=1000", 0, tm.TOP), (R0, AU))
        + hints("A", ("=-1", tm.TOP - 1), ("=1000", "=151"), (R0, RU))
        + forged("A", "u", ("=0", "=1", tm.TOP), ("=1000", tm.TOP), ("key", "bit"))
        + forged("A", "u", ("=1",), ("=0",), ("zero",))
        + [("replay", "A", "u")])
    genuine = msgs("A", "u", ("=0",), ("=-151", "=-150", "=0", "=1")
        ) + msgs("A", "u", ("=1",), (0, "=0"))
    first = msgs("A", "u", (5, 0, tm.TOP - 1), (1000, 0)) + attack
    both = dict(engines="AB", users="uv")
    cross = [x for e in "AB" for x in
        hints(e, (0, tm.TOP), ("=1000",), (R0,))
        + forged(e, "v", ("=1",), ("=1000",), ("key",))
        + msgs(e, "u", ("=0",), ("=-150", "=1")) + msgs(e, "v", ("=1",), (0,))
        ] + ticks[:1]
    small = hints("A", ("=1", tm.TOP), (0, tm.TOP), (R0,)) + forged("A", "u",
        ("=1",), ("=1000",), ("key",)) + msgs("A", "u", ("=0",), ("=-150", "=1")
        ) + [("replay", "A", "u")] + ticks
    mix = attack + genuine + ticks
    if quick:
        return [("mix", [first, mix, mix], {}), ("cross", [cross] * 3, both),
            ("small", [small] * 4, {})]
    return [("mix", [mix] * 4, {}), ("cross", [cross] * 5, both),
        ("small", [small] * 6, {})]

def crowds(quick):
    """Many unauthenticated messages, about an engine or about strangers."""
    out = []
    for n in (2, 10, 70, 300, 1100) if quick else (2, 10, 40, 70, 150, 300, 1100,
            5000):
        for mine in (("A",), ("A", "B"), tuple(f"e{i}" for i in range(9))):
            if n > 300 and len(mine) > 2:
                continue
            meet = [("msg", e, "u", 5, 1000 + i) for i, e in enumerate(mine)]
            look = [x for e in mine for x in (("msg", e, "u", "=0", "=-151"),
                ("replay", e, "u"), ("msg", e, "u", "=0", "=-150"))]
            for noise in (
                    [("hint", f"s{i}", i % 5, i, "report", None) for i in range(n)],
                    [("hint", mine[i % len(mine)], "=1", "=1000", "report", None)
                        for i in range(n)],
                    [("hint", mine[i % len(mine)], "=0", tm.TOP, "response", "u")
                        for i in range(n)],
                    [("forged", mine[i % len(mine)], "u", "=1", "=1000", "key")
                        for i in range(min(n, 300))]):
                out.append((tuple(meet + [("tick", 151.0)] + noise + look), mine))
                out.append((tuple(meet[:1] + noise + meet[1:] + [("tick", 10.0)]
                    + noise + look), mine))
                out.append((tuple(noise + meet + look), mine))
    return out

def work(t, chunk):
    if chunk[0] == "long":
        return tm.long(t, L, CLOCK, chunk[1])
    tm.enumerate_all(t, L, CLOCK, chunk)

def run(ck):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    todo, bounds = [], {}
    for name, a, kw in alphabets(ck.quick):
        todo += tm.chunks(a, 1 if ck.quick else 2, **kw)
        bounds[name] = f"all histories of {len(a)} operations, from" \
            f" {[len(x) for x in a]} choices"
    more = crowds(ck.quick)
    todo += [("long", more[i::32]) for i in range(32)]
    bounds["crowds"] = f"{len(more)} long histories, with up to"\
        f" {max(len(o) for o, _ in more)} messages"
    total = report.enumerate_chunks(ck, work, todo, limit=3600)
    tm.finish(ck, total, bounds)
    ck.assumptions.append("what a request carries while only provisional"
        " estimates exist is not judged, except that it can be built")

def replay(ck, data):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    t = report.Tally()
    ops = tuple(tuple(o) for o in data)
    tm.play(t, L, CLOCK, ops, engines=tuple(sorted({o[1] for o in ops if o[0] ==
        "msg"} | {"A", "B"})), users="uv")
    for v in t.violations:
        ck.violation(v)
        print(v.what)
    return ck.finish()
