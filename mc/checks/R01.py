"""R01: request and message IDs are valid, fresh and never collide."""
import itertools
import os
import agent as ag
import client
import env
import explore
import lib_usm
import loader
import refber as rb
import report
import sched
import vnet

LEVEL = "model_checking"
L = None

class Draw:
    """Every source of randomness yields the number `value`."""
    value = None
    count = 0

    def __getattr__(self, name):
        def call(*a, **k):
            if self.value is None:
                return getattr(sched.RandProxy(), name)(*a, **k)
            self.count += 1
            v = self.value
            if name == "randint":
                return a[0] + v % (a[1] - a[0] + 1)
            if name == "randrange":
                r = range(*a)
                return r[v % len(r)]
            if name == "getrandbits":
                return v % (1 << a[0])
            raise NotImplementedError(name)
        return call

DRAW = Draw()

def load():
    global L
    sh = vnet.shims("posix")
    r = sched.clone(sh["random"])
    for name in ("randint", "randrange", "getrandbits"):
        setattr(r, name, getattr(DRAW, name))
    sh["random"] = r
    real = vnet.shims
    vnet.shims = lambda osname: sh
    try:
        L = env.load()
    finally:
        vnet.shims = real
    import snmp.utils, snmp.message.v1, snmp.message.v2c, snmp.message.v3
    import snmp.security.usm

# ------------------------------------------------------------------- generators

def bounds(n, signed):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)

def generators(t, n, signed, draws):
    G = L.utils.NumberGenerator
    lo, hi = bounds(n, signed)
    size = 1 << n
    for d in draws:
        t.current = (n, signed, d)
        DRAW.value = d
        g = G(n, signed) if not signed else G(n)
        DRAW.value = None
        out = [next(g) for _ in range(size)]
        again = [next(g) for _ in range(min(size, 64))]
        t.extra["steps"] += size + len(again)
        t.case("generator")
        if min(out) < lo or max(out) > hi:
            t.fail("range", f"a {n}-bit generator (signed={signed}, draw {d})"
                f" yields {min(out)} and {max(out)}", t.current)
        elif len(set(out)) != size:
            t.fail("repeat", f"a {n}-bit generator (signed={signed}, draw {d})"
                f" repeats itself within {size} numbers", t.current)
        elif 0 in out[:-1]:
            t.fail("zero", f"a {n}-bit generator (signed={signed}, draw {d})"
                f" yields 0 as number {out.index(0) + 1} of {size}", t.current)
        elif again != out[:len(again)]:
            t.fail("cycle", f"a {n}-bit generator (signed={signed}, draw {d})"
                " does not start over", t.current)

def wide(t, n, signed, d, length):
    G = L.utils.NumberGenerator
    lo, hi = bounds(n, signed)
    t.current = (n, signed, d, length)
    DRAW.value = d
    g = G(n, signed)
    DRAW.value = None
    seen = set()
    for i in range(length):
        v = next(g)
        if not lo <= v <= hi or v == 0 or v in seen:
            t.fail("wide", f"a {n}-bit generator (signed={signed}, draw {d})"
                f" yields {v} as number {i + 1}" + (", again" if v in seen else ""),
                t.current)
            return
        seen.add(v)
    t.extra["steps"] += length
    t.case("wide generator")

# ------------------------------------------------------------------- histories

def narrow(n):
    """Make every generator created from now on n bits wide."""
    G = L.utils.NumberGenerator
    if not hasattr(G, "real_init"):
        G.real_init = G.__init__
    def init(self, width, signed=True):
        G.real_init(self, n or width, signed)
    G.__init__ = init

class Proc:
    """A message processor of one version, with IDs read from its messages."""
    def __init__(self, version):
        self.version = version
        if version == 0:
            self.mp = L.message.v1.SNMPv1MessageProcessor()
        elif version == 1:
            self.mp = L.message.v2c.SNMPv2cMessageProcessor()
        else:
            self.mp = L.message.v3.SNMPv3MessageProcessor(1472)
            self.mp.addSecurityModuleIfNeeded(
                L.security.usm.UserBasedSecurityModule())
        self.lo, self.hi = bounds(31, False) if version == 3 else bounds(32, True)

    def request(self, handle, pdu=None):
        if pdu is None:
            pdu = L.pdu.GetRequestPDU("1.3.6.1.2.1")
        if self.version == 3:
            pdu.requestID = 5
            raw = self.mp.prepareOutgoingMessage(pdu, handle, b"engine", b"user")
            return pdu, rb.dec_v3(bytes(raw))["msgid"]
        raw = self.mp.prepareOutgoingMessage(pdu, handle, b"public")
        return pdu, rb.dec_community_msg(bytes(raw))[2][1]

    def answer(self, id):
        pdu = rb.enc_pdu(rb.RESPONSE, id, 0, 0, [((1, 3, 6), ("int", 1))])
        if self.version == 3:
            raw = ag.build_v3(id, 0, b"engine", 0, 0, b"user", rb.enc_pdu(
                rb.RESPONSE, 5, 0, 0, [((1, 3, 6), ("int", 1))]))
        else:
            raw = rb.enc_community_msg(self.version, b"public", pdu)
        return self.mp.prepareDataElements(raw)[1]

class History:
    """new / again i / answer i / close i, i counting the open requests."""
    def __init__(self, version):
        self.p = Proc(version)
        self.open = []          # [handle, pdu, ids]

    def ids(self):
        return [i for r in self.open for i in r[2]]

    def issue(self, r):
        taken = self.ids()
        try:
            r[1], id = self.p.request(r[0], r[1])
        except Exception as e:
            if not isinstance(e, L.exception.SNMPException):
                return f"issuing a request raises {e!r}"
            free = (1 << WIDTH) - 1 - len(set(taken))
            if free > 0:
                return f"no ID is found although {free} are free ({e!r})"
            return None
        if not self.p.lo <= id <= self.p.hi or id == 0:
            return f"the ID is {id}"
        if id in taken and not (id in r[2] and self.p.version != 3):
            return f"ID {id} is issued while it is in use"
        if id not in r[2]:
            r[2].append(id)
        if r not in self.open:
            self.open.append(r)
        return None

    def do(self, op):
        kind, i = op
        if kind == "new":
            return self.issue([lib_usm.Handle(), None, []])
        if i >= len(self.open):
            return None
        r = self.open[i]
        if kind == "again":
            return self.issue(r)
        if kind == "answer":
            for id in r[2]:
                h = self.p.answer(id)
                if h is not r[0]:
                    return f"the answer to ID {id} goes to another request"
            return None
        r[0].close()
        self.open.remove(r)
        return None

WIDTH = 2
OPS = [("new", 0), ("again", 0), ("answer", 0), ("answer", 1), ("close", 0),
    ("close", 1)]

def histories(t, version, pre, depth, draws):
    narrow(WIDTH)
    for tail in itertools.product(OPS, repeat=depth - len(pre)):
        ops = pre + tail
        if ops[0][0] != "new":
            return
        for d in draws:
            t.current = (version, ops, d)
            DRAW.value = d
            h = History(version)
            for i, op in enumerate(ops):
                t.extra["steps"] += 1
                bad = h.do(op)
                if bad:
                    t.fail(f"v{version}:history", f"version {version}, {WIDTH}-bit"
                        f" IDs, draw {d}: after {ops[:i]}, {op}: {bad}",
                        repr(t.current))
                    break
            DRAW.value = None
            t.case("history")

def crowds(t, version, n, draw):
    """Very many outstanding at once, some of which end or are sent again."""
    global WIDTH
    narrow(None)
    old, WIDTH = WIDTH, 31
    DRAW.value = draw
    try:
        h = History(version)
        ops = [("new", 0)] * n + [("answer", i) for i in range(n)]
        ops += [("again", i) for i in range(n)] * 3
        ops += [("answer", i) for i in range(n)]
        ops += [("close", i) for i in range(0, n // 2)]
        ops += [("new", 0)] * n + [("again", i) for i in range(n)]
        ops += [("answer", i) for i in reversed(range(n + n // 2))]
        ops += [("close", 0)] * n + [("answer", i) for i in range(n // 2)]
        t.current = (version, n, draw)
        for i, op in enumerate(ops):
            t.extra["steps"] += 1
            bad = h.do(op)
            if bad:
                t.fail(f"v{version}:crowd", f"version {version}, {n} requests,"
                    f" draw {draw}: operation {i}, {op}: {bad}", repr(t.current))
                break
    finally:
        WIDTH, DRAW.value = old, None
    t.case("crowd")

def work(t, chunk):
    globals()[chunk[0]](t, *chunk[1:])
    t.sample(str(chunk)[:150], 1)

# -------------------------------------------------------------------- schedules

def message_files(fn):
    return fn.startswith(loader.scratch) and (fn.endswith("/utils.py")
        or "/message/v" in fn and not fn.endswith("version.py"))

_warm = set()

def concurrent(version, threads, each, opcodes, width=3, close=False):
    """Threads issuing requests at the same processor at the same time."""
    def execute(prefix):
        if opcodes and (os.getpid(), version) not in _warm:
            _warm.add((os.getpid(), version))
            for _ in range(3):
                execute(())
        narrow(width)
        w = sched.World(prefix, lines=message_files, opcodes=opcodes, wall=60.0)
        got = []
        held = []
        def main():
            p = Proc(version)
            def body(i):
                for k in range(each):
                    h = lib_usm.Handle()
                    pdu, id = p.request(h)
                    clash = [j for j, x in held if x == id]
                    if clash:
                        w.problem("collision", f"threads {clash[0]} and {i} both"
                            f" have outstanding ID {id}")
                    if not p.lo <= id <= p.hi or not id:
                        w.problem("range", f"thread {i} got ID {id}")
                    held.append((i, id))
                    got.append(h)
                    if close and k < each - 1:
                        held.remove((i, id))
                        h.close()
                done.append(i)
            done = []
            for i in range(1, threads):
                w.spawn(lambda i=i: body(i), f"user{i}")
            body(0)
            w.block(lambda: len(done) == threads, None, "the other threads")
            for i, id in held:
                try:
                    h = p.answer(id)
                except Exception as e:
                    w.problem("unknown", f"the answer to ID {id} of thread {i}"
                        f" is refused: {e!r}")
                else:
                    if all(h is not g for g in got):
                        w.problem("stranger", f"the answer to ID {id} of thread"
                            f" {i} goes to {h!r}")
        try:
            w.run(main)
        finally:
            narrow(None)
        if len(got) != threads * each and not w.problems:
            w.problem("missing", f"{len(got)} of {threads * each} requests issued")
        w.outcome = [i for i, _ in held]
        return w
    return execute

def manager_files(fn):
    return fn.startswith(loader.scratch) and (fn.endswith("/utils.py")
        or fn.endswith("/manager/v3.py"))

def manager():
    """Two threads asking through one SNMPv3 manager: request IDs are fresh."""
    snmp = L
    def execute(prefix):
        w = sched.World(prefix, lines=manager_files, wall=60.0)
        seen = []
        def main():
            net = vnet.net()
            a = ag.V3Agent(w, users=[env.USERS["plain"]], fates=("unanswered",))
            net.agents[a.addr] = a
            with snmp.Engine() as e:
                env.add_user(e, "plain")
                m = e.Manager("10.0.0.1", autowait=False, engineID=a.engine)
                handles = []
                def body(i):
                    handles.append(m.get(env.name(i)))
                w.spawn(lambda: body(1), "user1")
                body(2)
                w.block(lambda: len(handles) == 2, None, "the other thread")
                seen.extend((r["pdu"][1], r["msgid"]) for _, r in a.received)
                del m, handles
        w.run(main)
        if not w.problems:
            for ids in zip(*seen):
                if 0 in ids or len(set(ids)) != 2:
                    w.problem("collision", f"two requests have IDs {seen}")
        w.outcome = len(seen)
        return w
    return execute

def recycling(version, script_kind, width=2, times=12):
    """Many requests in turn through one manager with very few IDs."""
    steps = []
    for k in range(times):
        if script_kind == "wait":
            steps += [("send", k % 5 + 1, dict(timeout=1.0)), ("wait", k % 5 + 1),
                ("drop", k % 5 + 1)]
        elif script_kind == "timeout":
            steps += [("send", k % 5 + 1, dict(timeout=0.25)),
                ("wait", k % 5 + 1), ("drop", k % 5 + 1)]
        else:
            steps += [("send", k % 5 + 1, dict(timeout=1.0)), ("drop", k % 5 + 1)]
    fates = ("lost",) if script_kind == "timeout" else ("ok",)
    def judge(c):
        want = "Timeout" if script_kind == "timeout" else "ok"
        if script_kind != "drop":
            for k, r in sorted(c.recs.items()):
                if r.got is None or r.got[0] != want:
                    c.w.problem("outcome", f"request {k} ended with {r.got}")
        if version == 3:
            ids = [r["pdu"][1] for a in c.agents for _, r in a.received
                if "pdu" in r]
        else:
            ids = [rb.dec_community_msg(data)[2][1]
                for _, _, _, data in c.w.net.sent]
        if not ids:
            c.w.problem("request-id", "no request was sent")
        for id in ids:
            if id == 0 or not -1 << 31 <= id < 1 << 31:
                c.w.problem("request-id", f"a request carries request ID {id}")
    if version == 3:
        inner = client.v3(steps, "plain", 0, fates, {}, (judge,),
            known=True)
    else:
        inner = client.community(version, steps, fates, {}, None, (judge,))
    def execute(prefix):
        narrow(width)
        try:
            return inner(prefix)
        finally:
            narrow(None)
    return execute

def scenarios(ck):
    out = []
    for v in (0, 1, 3):
        out.append(explore.Scenario(f"v{v} 2 threads, opcodes",
            concurrent(v, 2, 1, True), {"preempt": 1}))
        out.append(explore.Scenario(f"v{v} 2 threads close, bytecodes",
            concurrent(v, 2, 2, True, 3, True), {"preempt": 1}))
        out.append(explore.Scenario(f"v{v} 2 threads twice, lines",
            concurrent(v, 2, 2, False), {"preempt": 1 if ck.quick else 2}))
        out.append(explore.Scenario(f"v{v} 2 threads, lines",
            concurrent(v, 2, 1, False, 2), {"preempt": 2 if ck.quick else 3}))
        out.append(explore.Scenario(f"v{v} 2 threads thrice, closing",
            concurrent(v, 2, 3, False, 2, True), {"preempt": 1 if ck.quick else 2}))
        out.append(explore.Scenario(f"v{v} 3 threads, lines",
            concurrent(v, 3, 1, False, 3), {"preempt": 1 if ck.quick else 2}))
        for kind in ("wait", "timeout", "drop"):
            out.append(explore.Scenario(f"v{v} recycling, {kind}",
                recycling(v, kind), {}))
    out.append(explore.Scenario("v3 manager, 2 threads, lines", manager(),
        {"preempt": 1 if ck.quick else 2}))
    return out

def run(ck):
    load()
    chunks = []
    top = 10 if ck.quick else 12
    for n in range(1, top + 1):
        for signed in (True, False):
            draws = list(range(1 << (n - 1)))
            for i in range(0, len(draws), 128):
                chunks.append(("generators", n, signed, draws[i:i + 128]))
    for n, signed in ((32, True), (31, False)):
        half = 1 << (n - 1)
        for d in (0, 1, 2, half // 2 - 1, half // 2, half // 2 + 1, half - 2, half - 1,
                0x2aaaaaaa, 0x15555555):
            chunks.append(("wide", n, signed, d, 100000 if ck.quick else 1 << 21))
    depth = 7 if ck.quick else 9
    for v in (0, 1, 3):
        for pre in itertools.product(OPS, repeat=2):
            if pre[0][0] == "new":
                chunks.append(("histories", v, (("new", 0),) + pre[1:], depth, (0, 1)))
        for n in (5, 20, 70, 200) + (1000,) * (not ck.quick):
            for d in (0, 1, 12345, (1 << 30) - 30, (1 << 30) - 1):
                chunks.append(("crowds", v, n, d))
    total = report.enumerate_chunks(ck, work, chunks, limit=3600)
    ck.coverage.update(states=total.evals, transitions=total.extra["steps"],
        traces_validated_against_impl=total.evals, samples=total.samples,
        by_class=dict(total.labels))
    explore.explore(ck, scenarios(ck))
    ck.coverage["model"] = explore.MODEL_NOTE + "; generators and sequential" \
        " histories count as one state and one trace each"
    ck.assumptions = ["narrowing NumberGenerator to 2 or 3 bits preserves the"
        " behaviour around exhaustion and wrap-around"]

def replay(ck, data):
    load()
    if isinstance(data, dict):
        ck.quick = False
        return explore.replay(scenarios(ck), data)
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
