"""RFC 3414 timeliness as a reference model, and histories played against it."""
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru

TOP = (1 << 31) - 1
class Engines(dict):
    def __missing__(self, name):
        return b"\x80\0\0\0\5" + name.encode()

ENGINES = Engines(A=b"\x80\0\0\0\5engineA", B=b"\x80\0\0\0\5engineB")
USERS = {"u": ag.User(b"u", "md5", b"auth-pass"),
    "v": ag.User(b"v", "sha256", b"other-pass")}
WRONG = {"u": ag.User(b"u", "md5", b"wrong-pass"),
    "v": ag.User(b"v", "sha256", b"wrong-pass")}
PDU = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, [((1, 3, 6, 1, 2, 1), ("int", 1))])
REPORT = rb.enc_pdu(rb.REPORT, 77, 0, 0,
    [(ag.USM_STATS + (4, 0), ("c32", 1))])

class Known:
    """What RFC 3414 section 3.2(7b) has the receiver remember of an engine."""
    def __init__(self):
        self.boots = self.base = None

    def est(self, now):
        return int((now - self.base) // 1)

    def message(self, boots, time, now):
        """An authentic message; -> is it timely?"""
        if (self.boots is None or boots > self.boots
                or boots == self.boots and time > self.est(now)):
            self.boots, self.base = boots, now - time
        return (self.boots < TOP and boots == self.boots
            and time >= self.est(now) - 150)

    def outgoing(self, now):
        if self.boots is None:
            return (0, 0)
        return (self.boots, max(0, min(self.est(now), TOP)))

class Play:
    """One history on one fresh station.

    Operations:
      ("tick", seconds)         negative: the local clock is set back; from
                                then on only legality is judged
      ("msg", engine, user, boots, time)     an authentic message
      ("replay", engine, user)               the first authentic one, again
      ("hint", engine, boots, time, pdu, user)      not authenticated
      ("forged", engine, user, boots, time, how)    authenticated, wrongly
    boots is "=n" (relative to what is known, 5 if nothing is) or a number;
    time is "=n" (relative to the estimate, 1000 if nothing is) or a number.
    """
    def __init__(self, L, clock, engines="A", users="u", exact=True):
        self.L, self.clock = L, clock
        clock.now = 4096.0
        self.st = lib_usm.Station(L, [USERS[u] for u in users],
            [ENGINES[e] for e in engines])
        self.known = {e: Known() for e in engines}
        self.pairs = [(e, u) for e in engines for u in users]
        self.exact = exact      # are there no provisional estimates?
        self.hinted = set()
        self.stepped = False
        self.ids = {}
        self.handles = []
        self.first = {}
        for e, u in self.pairs:
            h, raw = self.st.send(ENGINES[e], USERS[u].name, 0)
            self.ids[e, u] = rb.dec_v3(raw)["msgid"]
            self.handles.append(h)

    def absolute(self, e, boots, time):
        k = self.known[e]
        if type(boots) is str:
            boots = (5 if k.boots is None else k.boots) + int(boots[1:])
        if type(time) is str:
            time = (1000 if k.boots is None else k.est(self.clock.now)) + int(time[1:])
        return max(0, min(boots, TOP)), max(0, min(time, TOP))

    def step(self, op):
        """-> None or (key, what is wrong)"""
        kind = op[0]
        if kind == "tick":
            self.clock.now += op[1]
            self.stepped |= op[1] < 0
            return None
        e = op[1]
        k = self.known.setdefault(e, Known())   # nobody registered a stranger
        now = self.clock.now
        want = None
        if kind == "msg":
            u = op[2]
            b, s = self.absolute(e, *op[3:5])
            raw = ag.build_v3(self.ids[e, u], 1, ENGINES[e], b, s, USERS[u].name,
                PDU, USERS[u])
            self.first.setdefault((e, u), (raw, b, s))
            want = k.message(b, s, now)
        elif kind == "replay":
            if (e, op[2]) not in self.first:
                return None
            raw, b, s = self.first[e, op[2]]
            want = k.message(b, s, now)
        elif kind == "hint":
            b, s = self.absolute(e, *op[2:4])
            name = b"" if op[5] is None else USERS[op[5]].name
            raw = ag.build_v3(self.ids.get((e, op[5] or "u"), 99), 0, ENGINES[e], b, s,
                name, PDU if op[4] == "response" else REPORT)
            if k.boots is None:
                self.hinted.add(e)
        elif kind == "forged":
            u, how = op[2], op[5]
            b, s = self.absolute(e, *op[3:5])
            raw = ag.build_v3(self.ids[e, u], 1, ENGINES[e], b, s, USERS[u].name,
                PDU, WRONG[u] if how == "key" else USERS[u])
            m = rb.dec_v3(raw)
            a, n = m["authoff"], len(m["auth"])
            if how == "bit":
                raw = raw[:a + n - 1] + bytes([raw[a + n - 1] ^ 1]) + raw[a + n:]
            elif how == "zero":
                raw = raw[:a] + bytes(n) + raw[a + n:]
            want = False
        r = self.st.receive(raw)
        if self.stepped and kind != "forged":
            want = None
        if want is not None:
            if want and r[0] != "ok":
                return (f"{kind} refused", f"boots {b}, time {s} at an estimate of"
                    f" {self.brief(e)} is refused: {r}")
            if not want and r[0] == "ok":
                return (f"{kind} accepted", f"boots {b}, time {s} at an estimate"
                    f" of {self.brief(e)} is accepted")
        if r[0] != "ok" and not isinstance(r[1], self.L.Incoming):
            return (f"{kind} raises", f"boots {b}, time {s} raises {r[1]!r}")
        return None

    def brief(self, e):
        k = self.known[e]
        return "nothing" if k.boots is None else f"{k.outgoing(self.clock.now)}"

    def observe(self):
        for e, u in self.pairs:
            k = self.known[e]
            try:
                h, raw = self.st.send(ENGINES[e], USERS[u].name, 1)
            except Exception as err:
                return ("send raises", f"a request to {e} raises {err!r}")
            m = rb.dec_v3(raw)
            h.close()
            got = (m["boots"], m["time"])
            if k.boots is None and e in self.hinted:
                continue
            if self.stepped:
                if not (0 <= got[0] <= TOP and 0 <= got[1] <= TOP):
                    return ("range", f"a request to {e} carries {got}")
                continue
            if got != k.outgoing(self.clock.now):
                return ("outgoing", f"a request to {e} carries {got}, the"
                    f" estimate is {k.outgoing(self.clock.now)}")
        return None

def play(t, L, clock, ops, every=True, **kw):
    """every: look at what requests carry after each step, or the last only"""
    t.current = ops
    p = Play(L, clock, **kw)
    last = len(ops) - 1
    for i, op in enumerate(ops):
        bad = p.step(op)
        if not bad and (every or i == last):
            bad = p.observe()
        if bad:
            t.fail(bad[0], f"after {ops[:i]}, {op}: {bad[1]}", ops[:i + 1])
            break
    t.extra["steps"] += i + 1
    t.case(f"histories of {len(ops)}")

def long(t, L, clock, histories):
    """A few long histories: [(operations, engines)]"""
    for ops, engines in histories:
        play(t, L, clock, ops, False, engines=engines)
        t.extra["nodes"] += 1

def chunks(alphabets, split=1, **kw):
    """alphabets: one per position of the history"""
    return [(alphabets, pre, tuple(kw.items()))
        for pre in itertools.product(*(range(len(a)) for a in alphabets[:split]))]

def enumerate_all(t, L, clock, chunk):
    alphabets, pre, kw = chunk
    head = tuple(a[i] for a, i in zip(alphabets, pre))
    rest = alphabets[len(pre):]
    for tail in itertools.product(*rest):
        play(t, L, clock, head + tail, tail[-1] is rest[-1][0], **dict(kw))
    # the nodes of the tree of histories below this chunk
    n = 1
    t.extra["nodes"] += 1
    for a in rest:
        n *= len(a)
        t.extra["nodes"] += n
    t.sample(f"{head + tail}", 1)

def finish(ck, total, bounds):
    ck.coverage.update(states=total.extra["nodes"],
        transitions=total.extra["steps"],
        traces_validated_against_impl=total.evals, exhaustive=True,
        bounds=bounds, samples=total.samples,
        states_are="histories, prefixes included",
        model="executable RFC 3414 3.2(7) model (mc/timemodel.py Known); every"
        " history is executed on the real security module and message processor"
        " and every step compared with the model")
    ck.assumptions = ["when the local clock has been set back, only"
        " legality is judged (range, no exception, no forgery accepted)",
        "clock values are binary fractions (quarters), exact in floating point"]
