"""D04: every received datagram is heard exactly once; stop always works."""
import itertools
import env
import explore
import loader
import sched
import vnet

LEVEL = "model_checking"
MAX = 1472

def transport_files(fn):
    return fn.startswith(loader.scratch) and "/transport/" in fn

def payload(i):
    """Distinct, of every size class."""
    size = (3, 0, 1, MAX, 484, 2, MAX - 1, 7)[i % 8]
    return (bytes([i % 251 + 1]) * size)[:size]

class Bench:
    """A multiplexer, its sockets, what was delivered and what was heard."""
    def __init__(self, w, v6=False):
        import snmp.transport.udp as udp
        self.w = w
        self.net = vnet.net()
        self.cls = udp.UdpIPv6Socket if v6 else udp.UdpIPv4Socket
        self.any = "::" if v6 else "0.0.0.0"
        self.peer = "fe80::1" if v6 else "10.0.0.9"
        self.mux = udp.UdpMultiplexor(MAX)
        self.socks = []
        self.sent = []              # per socket: [(data, address)]
        self.heard = []             # per socket, the same
        self.registered = []
        self.thread = None
        self.count = 0
        self.stops = 0              # stop() calls no listen() has consumed
        self.since = None           # heard since the last stop() call
        self.flood = 0

    # the listener
    def hear(self, transport, address, data):
        w = self.w
        if transport not in self.socks:
            w.problem("transport", f"heard on an unknown transport {transport!r}")
            return
        i = self.socks.index(transport)
        if not isinstance(data, (bytes, bytearray, memoryview)):
            w.problem("type", f"heard {data!r}")
            return
        self.heard[i].append((bytes(data), tuple(address)[:2]))
        w.note("heard", i, len(data), tuple(address)[:2])
        n = len(self.heard[i])
        if self.heard[i] != self.sent[i][:n]:
            w.problem("order", f"socket {i} heard {show(self.heard[i])}, which is"
                f" not the beginning of what arrived: {show(self.sent[i])}")
        if self.since is not None:
            self.since += 1
        if self.flood:
            self.flood -= 1
            self.deliver(i)

    # operations
    def socket(self):
        s = self.cls(self.any, 7000 + len(self.socks))
        self.socks.append(s)
        self.sent.append([])
        self.heard.append([])
        self.registered.append(False)
        return s

    def vsock(self, i):
        return self.net.bound[(self.socks[i].socket.family, self.any, 7000 + i)] \
            if hasattr(self.socks[i], "socket") else [
                s for (f, h, p), s in self.net.bound.items() if p == 7000 + i][0]

    def register(self, i):
        while len(self.socks) <= i:
            self.socket()
        self.mux.register(self.socks[i])
        self.registered[i] = True

    def deliver(self, i):
        """A datagram arrives at socket i."""
        data = payload(self.count)
        src = (self.peer, 1000 + self.count)
        self.count += 1
        self.sent[i].append((data, src))
        self.w.note("arrives", i, len(data))
        self.net.deliver(self.vsock(i), data, src)

    def spoof(self):
        """Datagrams for any other socket the multiplexer might have."""
        own = {self.vsock(i) for i in range(len(self.socks))}
        for s in list(self.net.bound.values()):
            if s not in own:
                for data in (b"\0", b"", b"stop", b"\1"):
                    self.net.deliver(s, data, (self.peer, 5))

    def start(self):
        w = self.w
        w.note("start")
        def body():
            w.note("listening")
            self.mux.listen(self)
            w.note("listen returned")
        self.thread = w.spawn(body, "listener", library=True)
        w.point("started")

    def stop(self):
        self.w.note("stop")
        self.stops += 1
        self.mux.stop()
        if self.thread is not None and not self.thread.done:
            self.since = 0

    def join(self):
        w = self.w
        t0 = w.now
        t = self.thread
        if not w.block(lambda: t.done, w.now + 60.0, "join"):
            w.problem("no-stop", "listen() did not return after stop()")
            w.stop()
            raise sched.SchedAbort()
        if w.now > t0 + 1.0:
            w.problem("slow-stop", f"listen() returned {w.now - t0} s after stop()")
        if self.since is not None and self.since > 2 * len(self.socks) + 8:
            w.problem("late-stop", f"listen() handed over {self.since} more"
                " datagrams after stop()")
        self.since = None
        self.stops -= 1
        self.thread = None

    def settle(self):
        """Everything that can happen has happened: all must be heard."""
        w = self.w
        w.block(lambda: False, w.now + 1.0, "settle")
        if self.thread is None:
            return
        if self.thread.done:
            w.problem("ended", "listen() returned although nobody stopped it")
            return
        for i in range(len(self.socks)):
            if self.registered[i] and self.heard[i] != self.sent[i]:
                w.problem("unheard", f"socket {i} was sent {show(self.sent[i])}"
                    f" but heard only {show(self.heard[i])}")

    def close(self):
        self.w.note("close")
        self.mux.close()
        for i, s in enumerate(self.socks):
            if not self.registered[i]:
                s.close()
        left = sorted(self.net.fds)
        if left:
            self.w.problem("descriptors", f"{len(left)} descriptors are still open"
                f" after close(): {[type(self.net.fds[f]).__name__ for f in left]}")

def show(items):
    return [(len(d), a[1]) for d, a in items]

# -------------------------------------------------------------------- histories

class Finish(Exception):
    pass

def history(depth, v6, nsocks):
    """Every sequence of operations; after each, settle or go straight on."""
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=20000)
        ops = []
        def main():
            b = Bench(w, v6)
            b.register(0)
            while len(ops) < depth:
                menu = ["end"]
                menu += [f"arrive{i}" for i in range(len(b.socks))]
                if b.thread is None:
                    menu.append("start")
                    if not b.stops:
                        menu.append("early-stop")
                    if len(b.socks) < nsocks:
                        menu.append("register")
                    if any(not r for r in b.registered):
                        menu.append("register-late")
                    elif len(b.socks) < nsocks:
                        menu.append("bind")
                else:
                    menu.append("stop")
                    menu.append("spoof")
                op = menu[w.choose("op", len(menu))]
                ops.append(op)
                w.note("op", op)
                if op == "end":
                    break
                if op.startswith("arrive"):
                    b.deliver(int(op[6:]))
                elif op == "start":
                    b.start()
                    if b.stops:     # an early stop must be honoured
                        b.join()
                elif op == "early-stop":
                    b.stop()
                elif op == "register":
                    b.register(len(b.socks))
                elif op == "bind":
                    b.socket()
                elif op == "register-late":
                    b.register(b.registered.index(False))
                elif op == "spoof":
                    b.spoof()
                elif op == "stop":
                    b.stop()
                    b.join()
                if b.thread is not None and w.choose("settle", 2):
                    b.settle()
            # whatever happened: restart, hear everything, stop, close
            if b.thread is None:
                b.start()
                if b.stops:
                    b.join()
                    b.start()
            b.settle()
            b.stop()
            b.join()
            b.close()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "a thread never ended")
        w.problems = [(k, f"after {ops}: {t}") for k, t in w.problems]
        w.outcome = (len(ops), ops[-1] if ops else "")
        return w
    return execute

# -------------------------------------------------------------------- schedules

def schedule(script, arrivals, lines, v6=False, flood=0, nsocks=1):
    """A network thread delivers `arrivals`; the main thread runs `script`."""
    def execute(prefix):
        w = sched.World(prefix, lines=transport_files if lines else None,
            step_limit=20000, wall=60.0)
        def main():
            b = Bench(w, v6)
            for i in range(nsocks):
                b.register(i)
            done = []
            def network():
                for i in arrivals:
                    w.point("arrival")
                    b.deliver(i)
                done.append(1)
            b.flood = flood
            started = False
            for op in script:
                if op == "net":
                    w.spawn(network, "network")
                    started = True
                    w.point("net")
                elif op == "bind":
                    b.socket()
                elif op == "register":
                    b.register(len(b.socks))
                else:
                    getattr(b, op)()
            if started:
                w.block(lambda: bool(done), None, "network")
            b.flood = 0
            if b.thread is None:
                b.start()
                if b.stops:
                    b.join()
                    b.start()
            b.settle()
            b.stop()
            b.join()
            b.close()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "a thread never ended")
        w.outcome = [e[1:3] for e in w.log if e[1] in ("heard", "stop",
            "listen returned")]
        return w
    return execute

SCRIPTS = {
    "stop": ("start", "net", "stop", "join"),
    "net first": ("net", "start", "stop", "join"),
    "early stop": ("net", "stop", "start", "join"),
    "restart": ("start", "net", "stop", "join", "start", "stop", "join"),
    "register": ("start", "net", "stop", "join", "register", "start"),
    "settled": ("start", "settle", "net", "stop", "join"),
    "running": ("start", "net"),
    "twice": ("net", "start", "stop", "join", "stop", "start", "join"),
}

def crowd(n, v6):
    """Many sockets, many datagrams, in every choice of who gets how many."""
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=40000, wall=60.0)
        def main():
            b = Bench(w, v6)
            late = w.choose("registered later", 2)
            for i in range(n - late):
                b.register(i)
            def burst():
                shape = w.choose("shape", n + 3)
                if shape < n:                   # one of them
                    plan = [shape] * (n * 3)
                elif shape == n:                # all, in turn
                    plan = list(range(n)) * 3
                elif shape == n + 1:            # all, backwards, in blocks
                    plan = [i for i in reversed(range(n)) for _ in range(4)]
                else:                           # each a different number
                    plan = [i for i in range(n) for _ in range(i % 4)]
                for i in plan:
                    if i < len(b.socks):
                        b.deliver(i)
            burst()
            b.start()
            if w.choose("settle", 2):
                b.settle()
            burst()
            if w.choose("settle", 2):
                b.settle()
            b.stop()
            b.join()
            if late:
                b.register(n - 1)
            burst()
            b.start()
            b.settle()
            b.stop()
            b.join()
            b.close()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "a thread never ended")
        w.outcome = [e[1:3] for e in w.log if e[1] in ("heard", "stop")]
        return w
    return execute

def restarts(n):
    """Started and stopped again and again; a new socket every other time."""
    def execute(prefix):
        w = sched.World(prefix, preempt=False, step_limit=40000, wall=60.0)
        def main():
            b = Bench(w)
            b.register(0)
            early = w.choose("early stops", 2)
            settle = w.choose("settle", 2)
            grow = w.choose("grow", 2)
            for k in range(n):
                if grow and k % 2:
                    b.register(len(b.socks))
                b.deliver(k % len(b.socks))
                if early and k % 3 == 0:
                    b.stop()
                    b.start()
                    b.join()
                b.start()
                b.deliver(0)
                if settle:
                    b.settle()
                b.stop()
                b.join()
            b.start()
            b.settle()
            b.stop()
            b.join()
            b.close()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "a thread never ended")
        w.outcome = len(w.log)
        return w
    return execute

def two_stoppers(lines):
    """stop() from another thread while listen() is beginning."""
    def execute(prefix):
        w = sched.World(prefix, lines=transport_files if lines else None,
            step_limit=20000, wall=60.0)
        def main():
            b = Bench(w)
            b.register(0)
            b.deliver(0)
            other = w.spawn(b.stop, "stopper")
            b.start()
            w.block(lambda: other.done, None, "stopper")
            b.join()
            b.start()
            b.settle()
            b.stop()
            b.join()
            b.close()
        w.run(main)
        if w.leftover:
            w.problem("leftover", "a thread never ended")
        w.outcome = [e[1:3] for e in w.log if e[1] in ("heard", "listen returned")]
        return w
    return execute

def scenarios(ck, osname):
    out = []
    deep = not ck.quick
    def add(name, execute, budget):
        out.append(explore.Scenario(f"{osname}: {name}", execute, budget))
    for v6 in (False, True):
        d = (8 if deep else 6) - v6
        add(f"histories v6={v6}", history(d, v6, 2), {"sched": 0, "tie": 0})
        for n in (8, 20) if deep else (8,):
            add(f"{n} sockets v6={v6}", crowd(n, v6), {"sched": 0, "tie": 0})
    add("restarts", restarts(60 if deep else 24), {"sched": 0, "tie": 0})
    for name, script in SCRIPTS.items():
        for arrivals, n in (((0, 0), 1), ((0, 1, 0), 2)):
            for lines, budget in ((False, 3 + deep), (True, 2 if deep or n == 1 else 1)):
                add(f"{name} {arrivals} lines={lines}", schedule(script, arrivals,
                    lines, nsocks=n), {"preempt": budget, "sched": 1 + deep,
                    "*": budget + deep})
        add(f"{name} flood", schedule(script, (0, 1), False, flood=40, nsocks=2),
            {"preempt": 1 + deep, "sched": 1, "*": 1 + deep})
        add(f"{name} v6", schedule(script, (0, 0, 0), True, v6=True),
            {"preempt": 1 + deep, "sched": 1, "*": 1 + deep})
    for lines in (False, True):
        add(f"another thread stops lines={lines}", two_stoppers(lines),
            {"preempt": 3, "sched": 1, "*": 3 + deep})
    return out

SYSTEMS = ("posix", "nt")

def run(ck):
    for osname in SYSTEMS:
        env.load(osname)
        import snmp.transport.udp
        explore.explore(ck, scenarios(ck, osname))
    ck.assumptions = ["one listen() at a time; sockets are registered while no"
        " listen() is running, as the dispatcher does; each stop() ends one"
        " listen()", "datagrams fit the receive buffer", explore.MODEL_NOTE]

def replay(ck, data):
    osname = data["scenario"].split(":")[0]
    env.load(osname)
    import snmp.transport.udp
    ck.quick = False
    return explore.replay(scenarios(ck, osname), data)
