"""M03: discovery and time synchronization complete by themselves."""
import itertools
import agent as ag
import client
import env
import explore
import sched

LEVEL = "model_checking"
FATES = ("ok", "lost", "unanswered", "slow", "dup", "late")
OPTIONS = dict(slow=(1.25,), dup=(0.125, 0.1875), late=(2.5,))
T = 16.0

class Moody(ag.V3Agent):
    """Restarts or jumps ahead after it has handled some datagrams."""
    def __init__(self, w, moods=(), **kw):
        super().__init__(w, **kw)
        self.moods = dict(moods)
        self.n = 0

    def process(self, req):
        mood = self.moods.get(self.n)
        self.n += 1
        if mood == "reboot":
            self.boots += 1
            self.clock = -int(self.world.now - sched.START)
        elif mood == "jump":
            self.clock += 1000
        elif mood == "renamed":
            self.engine += b"2"
            self.boots = 1
            self.clock = -int(self.world.now - sched.START)
        if mood:
            self.world.note("agent", mood)
        return super().process(req)

class Restless(Moody):
    """In another mood whenever it meets another request."""
    def __init__(self, w, cycle=("reboot",), **kw):
        super().__init__(w, **kw)
        self.cycle = cycle
        self.met = []

    def decode(self, data):
        req = super().decode(data)
        # what is asked is seen by whoever has the key, whatever the engine ID
        asked = req.get("pdu")
        k = asked and asked[4] and asked[4][0][0][-2]
        if k and k not in self.met:
            self.met.append(k)
            self.moods[self.n] = self.cycle[len(self.met) % len(self.cycle)]
        return req

def judge(quiet):
    """quiet: transmissions a fault-free run may need, or None"""
    def j(c):
        p = c.w.problem
        faults = sum(1 for k, n, x in c.w.trace if k == "fate" and x)
        # a restart in the middle of an exchange costs a retransmission too
        faults += sum(len(getattr(a, "moods", ())) for a in c.agents)
        for k, r in c.recs.items():
            if r.got is None or r.dropped is not None:
                continue
            if r.got != env.expected(k):
                p("incomplete", f"request {k} ended with {r.got} after"
                    f" {faults} network faults and {r.timeout} s")
                continue
            spent = r.wait1 - max(r.wait0, r.t0)
            # every fault costs at most one refresh period (or its delay)
            limit = 1.0 + faults * 2.625
            if spent > limit:
                p("slow", f"request {k} needed {spent} s for {faults} faults")
        if quiet is not None and not faults:
            n = sum(a.count for a in c.agents)
            if n > quiet:
                p("chatty", f"{n} datagrams sent where {quiet} suffice")
        levels = c.levels
        for a in c.agents:
            for t, req in a.received:
                if "pdu" in req and req["pdu"][4]:
                    k = req["pdu"][4][0][0][-2]
                    if req["flags"] & 3 != levels.get(k, levels[None]):
                        p("level", f"request {k} sent with flags {req['flags']}")
    return j

def with_levels(j, levels):
    def judged(c):
        c.levels = levels
        j(c)
    return judged

USERS = (("plain", 0), ("signer", 0), ("signer", 1), ("hider", 0),
    ("hider", 1), ("hider", 3), ("desman", 3))

def scenarios(ck):
    out = []
    deep = not ck.quick
    kw = dict(timeout=T)
    one = [("send", 1, kw), ("wait", 1)]
    def add(name, script, user, level, quiet, budget, levels=None, **more):
        out.append(explore.Scenario(f"{user}/{level} {name}",
            client.v3(script, user, level, FATES, OPTIONS,
                (with_levels(judge(quiet), levels or {None: level}),), **more),
            {"fate": budget}))
    for (user, level), known, hints in itertools.product(USERS, (False, True),
            (True, False)):
        main = (user, level) in (("plain", 0), ("signer", 1), ("hider", 3))
        quiet = 1 if known else 2
        if level and (known or not hints):
            quiet += 1
        b = 3 if deep else 2
        name = f"{'known' if known else 'discover'} hints={hints}"
        add(name, one, user, level, quiet, b if main or deep else 1,
            known=known, agent_kw=dict(hints=hints))
        add(name + " x2", [("send", 1, kw), ("send", 2, kw), ("wait", 2),
            ("wait", 1)], user, level, None, b - 1 if main or deep else 1,
            known=known, agent_kw=dict(hints=hints))
        add(name + " then", [("sync", 1, kw), ("sync", 2, kw)], user, level,
            quiet + 1, b - 1, known=known, agent_kw=dict(hints=hints))
    for user, level in (("signer", 1), ("hider", 3), ("desman", 3), ("plain", 0)):
        for boots, clock in ((0, 0), (1, 0), (0, 5000), ((1 << 31) - 2, 17),
                (7, (1 << 31) - 200)):
            for known in (False, True):
                add(f"boots={boots} clock={clock} known={known}", one, user,
                    level, None, 1, known=known,
                    agent_kw=dict(boots=boots, clock=clock))
        for mood, at, known, hints in itertools.product(("reboot", "jump"),
                range(0, 5), (False, True), (True, False)):
            add(f"{mood}@{at} known={known} hints={hints}",
                [("sync", 1, kw), ("sync", 2, kw), ("sync", 3, kw)], user,
                level, None, 2 if deep else 1, known=known, agent=Moody,
                agent_kw=dict(moods={at: mood}, hints=hints))
        # the engine ID given is not (or no longer) the agent's
        for hints in (True, False):
            for stale in (b"\x80\0\0\0\5other", b"\x80\0\0\0\5agent2"):
                name = f"stale {stale[5:]} hints={hints}"
                # only authentic messages replace an engine ID that was given
                quiet = 2 + (2 - hints) if level else None
                add(name, one, user, level, quiet, 2, known=stale,
                    agent_kw=dict(hints=hints))
                add(name + " then", [("sync", 1, kw), ("sync", 2, kw)], user,
                    level, quiet and quiet + 1, 1, known=stale,
                    agent_kw=dict(hints=hints))
                add(name + " x2", [("send", 1, kw), ("send", 2, kw),
                    ("wait", 2), ("wait", 1)], user, level, None, 1,
                    known=stale, agent_kw=dict(hints=hints))
            for at, known in itertools.product(range(0, 4), (False, True)):
                add(f"renamed@{at} known={known} hints={hints}",
                    [("sync", 1, kw), ("sync", 2, kw), ("sync", 3, kw)], user,
                    level, None, 2 if deep else 1, known=known, agent=Moody,
                    agent_kw=dict(moods={at: "renamed"}, hints=hints))
            # again and again
            for known in (False, True):
                for n in (3, 8):
                    add(f"{n} reboots known={known} hints={hints}",
                        [("sync", 1, dict(timeout=64.0)), ("sync", 2, kw)], user,
                        level, None, 1 if n < 5 else int(deep), known=known,
                        agent=Moody, agent_kw=dict(moods={i: "reboot" for i in range(1, n + 1)}, hints=hints))
                for cycle in (("reboot",), ("jump", "reboot"), ("renamed",),
                        (None, "renamed", "reboot")):
                    add(f"{cycle} every time, known={known} hints={hints}",
                        [("sync", k, dict(timeout=64.0)) for k in range(1, 13)],
                        user, level, None, int(deep), known=known, agent=Restless,
                        agent_kw=dict(cycle=cycle, hints=hints))
        for k in (905, 917, 1005, 1101, 1118):      # errors are answers too
            for known in (False, True):
                add(f"error {k} known={known}", [("send", k, kw), ("wait", k),
                    ("sync", 1, kw)], user, level, None, 1, known=known)
        add("idle", [("sync", 1, kw), ("sleep", 5000.0), ("sync", 2, kw)],
            user, level, None, 2)
    mixed = {1: 3, 2: 1, 3: 0}
    for order in itertools.permutations((1, 2, 3)):
        def script(order=order):
            return [("sendlevel", k, kw, mixed[k]) for k in order] + [
                ("wait", k) for k in (1, 2, 3)]
        for known in (False, True):
            add(f"mixed {order} known={known}", script(), "hider", 3, None,
                2 if deep else 1, levels={**mixed, None: 3}, known=known)
    return out

def op_sendlevel(self, m, k, kw, level):
    self.op_send(m, k, dict(kw, securityLevel=client.level_of(level)))

client.Client.op_sendlevel = op_sendlevel

def run(ck):
    env.load()
    explore.explore(ck, scenarios(ck))
    ck.assumptions = [
        "the agent follows RFC 3414 section 3.2; unauthenticated reports carry"
        " its clock (hints) or zeros",
        "network fates: " + ", ".join(FATES) + "; a bounded number per run",
        explore.MODEL_NOTE]

def replay(ck, data):
    env.load()
    ck.quick = False
    return explore.replay(scenarios(ck), data)
