"""U06: encryption never uses the same salt twice."""
import itertools
import os
import agent as ag
import explore
import lib_usm
import loader
import refber as rb
import refusm as ru
import report
import sched

LEVEL = "model_checking"
OPENSSL = True
L = None
BACK = {}
KEY = bytes.fromhex("7c1f02a9b35e64d8e7904b12c6f8ad35" "aa5511ee")
RANDOM = None           # what every source of randomness yields, as octets
E1, E2 = b"\x80\0\0\0\5engine1", b"\x80\0\0\0\5engine2"

def octets(n):
    r = RANDOM or sched.urandom(n)
    return (r * (n // len(r) + 1))[:n] if RANDOM else r

def below(n):
    """The octets as a fraction, so that the first of them matter the most."""
    return int.from_bytes(octets(16), "big") * n >> 128

class Rand:
    def __getattr__(self, name):
        def call(*a, **k):
            if name == "randint":
                return a[0] + below(a[1] - a[0] + 1)
            if name == "randrange":
                r = range(*a)
                return r[below(len(r))]
            if name == "getrandbits":
                return below(1 << a[0])
            if name == "randbytes":
                return octets(a[0])
            if name == "random":
                return below(1 << 53) / (1 << 53)
            return a[0][below(len(a[0]))]
        return call

def shims():
    import random, secrets
    m = sched.clone(os)
    m.urandom = m.getrandom = lambda n, *a: octets(n)
    r, s = sched.clone(random), sched.clone(secrets)
    p = Rand()
    for name in ("randint randrange getrandbits randbytes random choice").split():
        setattr(r, name, getattr(p, name))
    r.Random = r.SystemRandom = s.SystemRandom = lambda *a: p
    s.token_bytes = lambda n=32: octets(n)
    s.randbits = p.getrandbits
    s.randbelow = below
    return {"os": m, "random": r, "secrets": s,
        "threading": sched.threading_shim(), "time": sched.time_shim()}

def load():
    global L, BACK
    sh = shims()
    loader.load(sh, ["snmp", "snmp.engine", "snmp.message.v3",
        "snmp.security.usm", "snmp.security.usm.auth", "snmp.security.usm.priv",
        "snmp.security.levels",
        "snmp.security.usm.priv.openssl.aes", "snmp.security.usm.priv.openssl.des",
        "snmp.security.usm.priv.pycryptodome.aes",
        "snmp.security.usm.priv.pycryptodome.des"])
    import snmp, lib
    p = snmp.security.usm.priv
    BACK = {("openssl", "aes"): p.openssl.aes.AesCfb128,
        ("openssl", "des"): p.openssl.des.DesCbc,
        ("pycryptodome", "aes"): p.pycryptodome.aes.AesCfb128,
        ("pycryptodome", "des"): p.pycryptodome.des.DesCbc}
    L = lib.Lib(snmp)
    L.usm = snmp.security.usm
    L.auth = {k: getattr(snmp.security.usm.auth, v) for k, v in lib_usm.AUTHS.items()}
    L.v3 = snmp.message.v3
    lv = snmp.security.levels
    L.level = lambda n: (lv.noAuthNoPriv, lv.authNoPriv, lv.authPriv)[n]

# ------------------------------------------------------------- one after another

def starts(quick):
    """Random octets near every point where a counter could carry or wrap."""
    out = [b"\0" * 8, b"\xff" * 8, b"\x7f" + b"\xff" * 7, b"\x80" + b"\0" * 7]
    for n in (4, 8):
        for k in range(1, n + 1):
            v = (1 << (8 * k)) - 1
            for d in range(0, 4 if quick else 40):
                out.append(((v - d) % (1 << (8 * n))).to_bytes(n, "big") * (8 // n))
                out.append(((v - d) % (1 << (8 * n))).to_bytes(n, "little") * (8 // n))
    return sorted(set(out))

def fresh(who, rnd):
    global RANDOM
    RANDOM = rnd
    try:
        return BACK[who](KEY)
    finally:
        RANDOM = None

def series(t, who, quick):
    for rnd in starts(quick):
        for boots in (5, 0, (1 << 31) - 1):
            p = fresh(who, rnd)
            run_salts(t, who, p, 64, rnd, boots)
    for rnd in (b"\0" * 8, b"\xff" * 8):
        p = fresh(who, rnd)
        run_salts(t, who, p, 70000 if quick else 1 << 20, rnd, 5, every=997)

def run_salts(t, who, p, n, rnd, boots, every=1):
    t.current = (who, "start", rnd.hex(), n)
    seen = set()
    for i in range(n):
        data = b"payload %d ..." % i
        c, salt = p.encrypt(data, boots, 1000)
        if salt in seen:
            t.fail(f"{who}:repeat", f"{who} starting from {rnd.hex()}: encryption"
                f" {i + 1} uses salt {salt.hex()} again", t.current)
            return
        seen.add(salt)
        if i % every == 0:
            plain = (ru.aes_decrypt(KEY[:16], boots, 1000, salt, c)
                if who[1] == "aes" else ru.des_decrypt(KEY[:16], salt, c))
            if not plain.startswith(data):
                t.fail(f"{who}:other salt", f"{who}: the payload is not encrypted"
                    f" with the salt {salt.hex()} that is sent", t.current)
                return
    t.extra["steps"] += n
    t.case("series")

def unpredictable(t, who):
    """Any octet of the randomness used changes the first salt."""
    t.current = (who, "first salt")
    seen = {}
    for v in range(256):
        rnd = bytes([v]) + bytes(range(1, 8))
        salt = fresh(who, rnd).encrypt(b"x", 5, 1000)[1]
        if salt in seen:
            t.fail(f"{who}:predictable", f"{who}: the first salt is {salt.hex()}"
                f" for random octets {rnd.hex()} and {seen[salt].hex()}", t.current)
            return
        seen[salt] = rnd
        t.case("first salt")
        t.extra["steps"] += 1

# ------------------------------------------------------------------- histories

class Case:
    """Users and engines; randomness always yields the same octets, so that a
    counter started anew repeats itself."""
    def __init__(self, who):
        auth = lib_usm.fast(L, "md5")
        self.priv = BACK[who]
        self.usm = L.usm.UserBasedSecurityModule()
        self.mp = L.v3.SNMPv3MessageProcessor(1472)
        self.mp.addSecurityModuleIfNeeded(self.usm)
        self.auth = auth
        self.add("u")
        self.add("v")
        self.usm.registerRemoteEngine(E1, "")
        self.count = {E1: 1, E2: 0}
        self.seen = {}
        self.n = 0

    def add(self, name, **kw):
        self.usm.addUser(name, authProtocol=self.auth, privProtocol=self.priv,
            secret=b"password of " + name.encode(), **kw)

    def encrypt(self, name, engine, handle=None):
        h = handle or lib_usm.Handle()
        raw = bytes(self.mp.prepareOutgoingMessage(L.pdu.GetRequestPDU("1.3.6",
            requestID=5), h, engine, name.encode(), L.level(2)))
        if handle is None:
            h.close()
        return rb.dec_v3(raw)["priv"]

    def do(self, op):
        kind, *a = op
        if kind == "enc":
            name, e = a
            if not self.count[e]:
                return None
            salt = self.encrypt(name, e)
            key = (name, e)
            if salt in self.seen.setdefault(key, set()):
                return f"user {name} at {e[-7:]} uses salt {salt.hex()} again"
            self.seen[key].add(salt)
        elif kind == "reg":
            self.usm.registerRemoteEngine(a[0], "")
            self.count[a[0]] += 1
        elif kind == "rel":
            if self.count[a[0]] > 1:
                self.usm.unregisterRemoteEngine(a[0], "")
                self.count[a[0]] -= 1
        elif kind == "add":
            self.n += 1
            self.add(f"new{self.n}", **a[0])
        elif kind == "clash":
            try:
                self.usm.addUser("u", authProtocol=self.auth, secret=b"another")
            except ValueError:
                pass
        elif kind == "hear":
            raw = ag.build_v3(9, 0, a[0], 6, 100, b"", rb.enc_pdu(rb.REPORT, 1, 0, 0, []))
            self.usm.processIncoming(L.v3.SNMPv3Message.decode(raw))
        return None

OPS = [("enc", "u", E1), ("enc", "v", E1), ("enc", "u", E2), ("reg", E1),
    ("reg", E2), ("rel", E1), ("add", {}), ("add", dict(default=True)),
    ("add", dict(namespace="other")), ("clash",), ("hear", E1)]

def histories(t, who, first, depth):
    global RANDOM
    RANDOM = b"\xff\xff\xff\xfe" * 2
    for tail in itertools.product(OPS, repeat=depth - 1):
        if tail[-1][0] != "enc":
            continue
        ops = (first,) + tail
        t.current = (who, ops)
        c = Case(who)
        c.do(("enc", "u", E1))
        c.do(("enc", "v", E1))
        for op in ops:
            bad = c.do(op)
            if bad:
                t.fail(f"{who}:history", f"{who}: after {ops}, {bad}", repr(t.current))
                break
        t.extra["steps"] += len(ops)
        t.case("history")
    RANDOM = None

def lives(t, who, n):
    """Very many messages, of two users, with everything else between them."""
    global RANDOM
    RANDOM = b"\xff\xff\xff\xfe" * 2
    t.current = (who, "lives", n)
    c = Case(who)
    c.do(("reg", E2))
    others = [op for op in OPS if op[0] not in ("enc", "rel")]
    for i in range(n):
        ops = [("enc", "u", E1), ("enc", "v", E1), ("enc", "u", E2)]
        if not i % 5 and i < 500:
            ops.append(others[i // 5 % len(others)])
        if not i % 50:
            ops.append(("rel", E1))
        for op in ops:
            t.extra["steps"] += 1
            bad = c.do(op)
            if bad:
                t.fail(f"{who}:life", f"{who}: in round {i}, {bad}", t.current)
                RANDOM = None
                return
    RANDOM = None
    t.case("life")

def work(t, chunk):
    globals()[chunk[0]](t, *chunk[1:])
    t.sample(str(chunk)[:200], 1)

# -------------------------------------------------------------------- schedules

_warm = set()
def priv_files(fn):
    return "/security/usm/priv/" in fn and fn.startswith(loader.scratch)

def usm_files(fn):
    return (fn.startswith(loader.scratch) and "/security/usm/" in fn
        and not fn.endswith(("auth.py", "parameters.py")))

def direct(who, threads, each, opcodes, rnd):
    """Threads that encrypt with one and the same key object."""
    def execute(prefix):
        # the interpreter only reports every opcode once it has traced the code
        if opcodes and (os.getpid(), who) not in _warm:
            _warm.add((os.getpid(), who))
            for _ in range(3):
                execute(())
        w = sched.World(prefix, lines=priv_files, opcodes=opcodes, wall=60.0)
        salts = []
        def main():
            p = fresh(who, rnd)
            def body(i):
                for k in range(each):
                    data = b"payload of %d.%d" % (i, k)
                    c, salt = p.encrypt(data, 5, 1000)
                    salts.append((i, salt))
                    plain = (ru.aes_decrypt(KEY[:16], 5, 1000, salt, c)
                        if who[1] == "aes" else ru.des_decrypt(KEY[:16], salt, c))
                    if not plain.startswith(data):
                        w.problem("other salt", f"payload not encrypted with the"
                            f" salt {salt.hex()} that is sent")
            for i in range(1, threads):
                w.spawn(lambda i=i: body(i), f"user{i}")
            body(0)
        w.run(main)
        judge(w, salts, threads * each)
        return w
    return execute

def judge(w, salts, n):
    got = [s for _, s in salts]
    if len(got) != n and not w.problems:
        w.problem("missing", f"{len(got)} of {n} encryptions succeeded")
    if len(set(got)) != len(got):
        w.problem("repeat", f"the same salt is used twice: "
            + ", ".join(f"thread {i}: {s.hex()}" for i, s in salts))
    w.outcome = [i for i, _ in salts]

def whole(who, other):
    """Two threads send as the same user while a third changes the tables."""
    def execute(prefix):
        global RANDOM
        RANDOM = b"\xff\xff\xff\xfe" * 2
        w = sched.World(prefix, lines=usm_files, wall=60.0)
        salts = []
        def main():
            c = Case(who)
            def body(i):
                salts.append((i, c.encrypt("u", E1)))
            w.spawn(lambda: body(1), "user1")
            if other == "add":
                w.spawn(lambda: c.do(("add", {})), "user2")
            elif other == "reg":
                w.spawn(lambda: (c.do(("reg", E2)), c.do(("reg", E1)),
                    c.do(("rel", E1))), "user2")
            body(0)
        w.run(main)
        RANDOM = None
        judge(w, salts, 2)
        return w
    return execute

def scenarios(ck):
    out = []
    top = b"\xff\xff\xff\xfe" * 2
    for who in BACK:
        n = "/".join(who)
        out.append(explore.Scenario(f"{n} 2 threads, opcodes", direct(who, 2, 1,
            True, top), {"preempt": 1 if ck.quick and who != ("pycryptodome",
            "aes") else 2}))
        out.append(explore.Scenario(f"{n} 2 threads twice, lines", direct(who, 2, 2,
            False, top), {"preempt": 2 if ck.quick else 3}))
        out.append(explore.Scenario(f"{n} 3 threads, opcodes", direct(who, 3, 1,
            True, top), {"preempt": 1 if ck.quick else 2}))
        for other in ("nothing", "add", "reg"):
            if ck.quick and who[0] == "openssl":
                continue
            out.append(explore.Scenario(f"{n} whole messages, {other}",
                whole(who, other), {"preempt": 1 if ck.quick else 2}))
    return out

def run(ck):
    load()
    chunks = []
    for who in BACK:
        chunks += [("series", who, ck.quick), ("unpredictable", who)]
        chunks.append(("lives", who, 1500 if ck.quick else 20000))
        if not ck.quick or who[0] == "pycryptodome":
            chunks += [("histories", who, op, 4 if ck.quick else 5) for op in OPS]
    total = report.enumerate_chunks(ck, work, chunks, limit=3600)
    ck.coverage.update(states=total.evals, transitions=total.extra["steps"],
        traces_validated_against_impl=total.evals, samples=total.samples,
        by_class=dict(total.labels))
    explore.explore(ck, scenarios(ck))
    ck.coverage["model"] = explore.MODEL_NOTE + "; sequential histories count as" \
        " one state and one trace each"
    ck.assumptions = ["a registration ends when the last user of the engine ID"
        " lets go or the same user is defined again: a new random start follows",
        "native code (AES, DES, OpenSSL) is atomic with respect to salts"]

def replay(ck, data):
    load()
    if isinstance(data, dict):
        ck.quick = False
        return explore.replay(scenarios(ck), data)
    print("the failing case is:", data)
    run(ck)
    return ck.finish()
