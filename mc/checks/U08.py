"""U08: an engine belongs to one namespace until its last user lets go."""
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "model_checking"
L = CLOCK = None
ENGINES = {"A": b"\x80\0\0\0\5engineA", "B": b"\x80\0\0\0\5engineB",
    "C": b"\x80\0\0\0\5engine"}
# the same name with different passwords, and a name of one namespace only
USERS = {"x": [ag.User(b"u", "md5", b"pass in x"), ag.User(b"v", "sha", b"of x only")],
    "y": [ag.User(b"u", "md5", b"pass in y"), ag.User(b"w", "sha256", b"of y only",
        "aes", b"priv")], "": [ag.User(b"v", "sha", b"of the default")], "e": []}
RESP = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, [((1, 3, 6), ("int", 1))])
GOOD = {(e, n, u.name): ag.build_v3(9, 1, ENGINES[e], 5, 1000, u.name, RESP, u)
    for e in ENGINES for n in USERS for u in USERS[n]}

class Table:
    """The reference: namespace and number of registrations per engine."""
    def __init__(self):
        self.held = {}

    def register(self, e, n):
        ns, count = self.held.get(e, (n, 0))
        if ns != n:
            return False
        self.held[e] = (n, count + 1)
        return True

    def release(self, e, n):
        """-> is this a legitimate release?"""
        ns, count = self.held.get(e, (None, 0))
        if ns != n:
            return False
        if count == 1:
            del self.held[e]
        else:
            self.held[e] = (ns, count - 1)
        return True

def play(t, ops, engines, spaces, probe_all):
    t.current = ops
    usm = L.usm.UserBasedSecurityModule()
    mp = L.v3.SNMPv3MessageProcessor(1472)
    mp.addSecurityModuleIfNeeded(usm)
    for n in spaces:
        for u in USERS[n]:
            lib_usm.add_user(L, usm, u, namespace=n)
    ref = Table()
    for i, (what, e, n) in enumerate(ops):
        t.extra["steps"] += 1
        if what == "reg":
            want = ref.register(e, n)
            try:
                got = usm.registerRemoteEngine(ENGINES[e], n)
            except Exception as err:
                t.fail("register raises", f"after {ops[:i]}, registering {e} in"
                    f" {n!r} raises {err!r}", ops)
                return
            if bool(got) != want:
                t.fail("register", f"after {ops[:i]}, registering {e} in {n!r}"
                    f" says {got}, it is {ref.held.get(e)}", ops)
                return
        else:
            legit = ref.release(e, n)
            try:
                usm.unregisterRemoteEngine(ENGINES[e], n)
            except Exception as err:
                if legit:
                    t.fail("release raises", f"after {ops[:i]}, releasing {e} in"
                        f" {n!r} raises {err!r}", ops)
                    return
        if probe_all or i == len(ops) - 1:
            if probe(t, usm, mp, ref, engines, spaces, ops[:i + 1]):
                return
    t.case(f"histories of {len(ops)}")

def probe(t, usm, mp, ref, engines, spaces, ops):
    for e in engines:
        ns = ref.held.get(e, (None, 0))[0]
        for n in spaces:
            for u in USERS[n]:
                raw = GOOD[e, n, u.name]
                try:
                    usm.processIncoming(L.v3.SNMPv3Message.decode(raw))
                    got = True
                except L.Incoming:
                    got = False
                except Exception as err:
                    t.fail("message raises", f"after {ops}, {u.name} of {n!r} at"
                        f" {e}: {err!r}", ops)
                    return True
                if got != (ns == n):
                    t.fail("accepted" if got else "refused", f"after {ops}, a"
                        f" message of {u.name} of {n!r} from {e} is"
                        f" {'accepted' if got else 'refused'}; {e} is in {ns!r}", ops)
                    return True
        for name in {u.name for n in spaces for u in USERS[n]}:
            h = lib_usm.Handle()
            u = [u for u in USERS.get(ns, ()) if u.name == name]
            try:
                raw = bytes(mp.prepareOutgoingMessage(L.pdu.GetRequestPDU("1.3.6",
                    requestID=5), h, ENGINES[e], name, L.level(1)))
            except Exception as err:
                if u:
                    t.fail("send refused", f"after {ops}, a request of {name} to"
                        f" {e} raises {err!r}", ops)
                    return True
                continue
            h.close()
            m = rb.dec_v3(raw)
            blank = raw.replace(m["auth"], bytes(len(m["auth"])))
            if not u or m["auth"] != ru.hmac(u[0].auth, u[0].akey(ENGINES[e]), blank):
                t.fail("sent", f"after {ops}, a request of {name} to {e}, which"
                    f" is in {ns!r}, is signed with a wrong key", ops)
                return True
    return False

SETS = {
    "two": ("AB", ("x", "y")),
    "one": ("A", ("x", "y")),
    "default": ("AC", ("", "x")),
    "empty": ("A", ("e", "x")),
}

def alphabet(name):
    engines, spaces = SETS[name]
    return [(w, e, n) for w in ("reg", "rel") for e in engines for n in spaces]

def work(t, chunk):
    if chunk[0] == "long":
        for ops in chunk[1]:
            play(t, ops, "AB", ("x", "y"), False)
        t.extra["nodes"] += len(chunk[1])
        return
    name, pre, rest = chunk
    a = alphabet(name)
    engines, spaces = SETS[name]
    for tail in itertools.product(a, repeat=rest):
        play(t, pre + tail, engines, spaces, tail[-1] == a[0])
    t.extra["nodes"] += sum(len(a) ** k for k in range(rest + 1))
    t.sample(f"{pre + tail}", 1)

def long(top):
    """Long lives: n registrations, k releases; another namespace knocks in
    between; a second engine counts along."""
    yes, no, off = ("reg", "A", "x"), ("reg", "A", "y"), ("rel", "A", "x")
    b, boff = ("reg", "B", "y"), ("rel", "B", "y")
    for n in range(1, top + 1):
        for k in range(n + 1):
            yield (yes,) * n + (off,) * k
            yield (yes,) * n + (off,) * k + (no,)
            yield (yes, b) * n + (off,) * k
            yield (yes, b) * n + (boff,) * k + (off,) * (n - k)
            yield (yes, no) * n + (off, no) * k
        for m in range(top + 1):
            # up and down, again and again
            yield (yes,) * n + (off, yes) * m + (off,) * (n - 1)
            yield (yes,) * n + (off, yes) * m + (off,) * n + (no,)
            yield ((yes,) * n + (off,) * n) * m + (no,)

def run(ck):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    depths = (dict(two=5, one=6, default=4, empty=5) if ck.quick
        else dict(two=7, one=10, default=6, empty=8))
    chunks = []
    for name, d in depths.items():
        chunks += [(name, pre, d - 2) for pre in
            itertools.product(alphabet(name), repeat=2)]
    top = 12 if ck.quick else 40
    lives = list(long(top))
    chunks += [("long", lives[i::32]) for i in range(32)]
    total = report.enumerate_chunks(ck, work, chunks, limit=3600)
    ck.coverage.update(states=total.extra["nodes"],
        transitions=total.extra["steps"], exhaustive=True,
        traces_validated_against_impl=total.evals, samples=total.samples,
        bounds={n: f"all {len(alphabet(n)) ** d} histories of {d} operations on"
            f" engines {SETS[n][0]}, namespaces {SETS[n][1]}"
            for n, d in depths.items()} | {"long lives": f"{len(lives)} histories of"
            f" up to {top} registrations at a time, with all numbers of releases"},
        states_are="histories, prefixes included",
        model="reference counts per engine and namespace; every history is"
        " executed on the real security module and compared after every step")
    ck.assumptions = ["a release that nobody is entitled to may raise or not, but"
        " changes nothing"]

def replay(ck, data):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    t = report.Tally()
    ops = [tuple(o) for o in data]
    engines = sorted({o[1] for o in ops})
    spaces = sorted({o[2] for o in ops} | {"x", "y"})
    play(t, tuple(ops), engines, spaces, True)
    for v in t.violations:
        ck.violation(v)
        print(v.what)
    return ck.finish()
