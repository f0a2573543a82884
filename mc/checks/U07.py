"""U07: user tables: namespaces, defaults and collisions are respected."""
import ast
import itertools
import agent as ag
import lib_usm
import refber as rb
import refusm as ru
import report

LEVEL = "model_checking"
L = CLOCK = None
ENG = {"A": b"\x80\0\0\0\5engineA", "B": b"\x80\0\0\0\5engineB",
    "X": b"\x80\0\0\0\5later-x", "Y": b"\x80\0\0\0\5later-y"}
# credential kinds: arguments, and what they mean
P1, P2 = b"password one", b"password two"
KINDS = {
    "none": dict(),
    "md5": dict(auth="md5", authSecret=P1),
    "md5'": dict(auth="md5", authSecret=P2),
    "md5=": dict(auth="md5", secret=P1),
    "sha": dict(auth="sha", authSecret=P1),
    "aes": dict(auth="md5", authSecret=P1, priv="aes", privSecret=P2),
    "aes'": dict(auth="md5", authSecret=P1, priv="aes", privSecret=P1),
    "aes=": dict(auth="md5", secret=P1, priv="aes", privSecret=P2),
    "aes=2": dict(auth="md5", authSecret=P1, priv="aes", secret=P2),
    "des": dict(auth="md5", authSecret=P1, priv="des", privSecret=P2),
    "privonly": dict(priv="aes", privSecret=P2),
}
RESP = rb.enc_pdu(rb.RESPONSE, 77, 0, 0, [((1, 3, 6), ("int", 1))])

def meaning(kind):
    """-> (auth, auth password, priv, priv password)"""
    k = KINDS[kind]
    if "auth" not in k:
        return (None,) * 4
    common = k.get("secret")
    if "priv" not in k:
        return (k["auth"], k.get("authSecret") or common, None, None)
    return (k["auth"], k.get("authSecret") or common, k["priv"],
        k.get("privSecret") or common)

class Table:
    """The reference."""
    def __init__(self):
        self.users = {}         # namespace -> {name: (credentials, level)}
        self.default = {}
        self.engines = {}       # engine -> [namespace, count]

    def add(self, ns, name, kind, default, level):
        c = meaning(kind)
        top = 2 if c[2] else 1 if c[0] else 0
        if level is not None and level > top:
            return False
        entry = (c, top if level is None else level)
        users = self.users.get(ns, {})
        if name in users and (users[name] != entry
                or default and self.default[ns] != name):
            return False
        self.users.setdefault(ns, {})[name] = entry
        if default or ns not in self.default:
            self.default[ns] = name
        return True

    def register(self, e, ns):
        cur = self.engines.setdefault(e, [ns, 0])
        if cur[0] != ns:
            return False
        cur[1] += 1
        return True

    def release(self, e):
        cur = self.engines[e]
        cur[1] -= 1
        if not cur[1]:
            del self.engines[e]

_raws = {}

def message(e, name, c):
    """A genuine message of that engine and user."""
    k = (e, name, c)
    if k not in _raws:
        _raws[k] = ag.build_v3(9, 1, ENG[e], 5, 1000, name, RESP,
            ag.User(name, *c))
    return _raws[k]

NAMES = (b"a", b"b")
SPACES = ("x", "y")

class Play:
    def __init__(self, names=NAMES, spaces=SPACES):
        self.names = names
        self.spaces = spaces
        self.usm = L.usm.UserBasedSecurityModule()
        self.mp = L.v3.SNMPv3MessageProcessor(1472)
        self.mp.addSecurityModuleIfNeeded(self.usm)
        self.ref = Table()

    def step(self, op):
        if op[0] == "add":
            _, name, kind, ns, default, level = op
            k = KINDS[kind]
            kw = {x: k[x] for x in ("authSecret", "privSecret", "secret") if x in k}
            if "auth" in k:
                kw["authProtocol"] = lib_usm.fast(L, k["auth"])
            if "priv" in k:
                kw["privProtocol"] = L.priv[k["priv"]]
            if default:
                kw["default"] = True
            if level is not None:
                kw["defaultSecurityLevel"] = L.level(level)
            want = self.ref.add(ns, name, kind, default, level)
            try:
                self.usm.addUser(name.decode(), namespace=ns, **kw)
            except ValueError as e:
                if want:
                    return ("add refused", f"{op} raises {e!r}")
            else:
                if not want:
                    return ("add accepted", f"{op} is accepted")
        elif op[0] == "reg":
            want = self.ref.register(op[1], op[2])
            got = self.usm.registerRemoteEngine(ENG[op[1]], op[2])
            if bool(got) != want:
                return ("register", f"{op} says {got}")
        elif op[0] == "rel":
            if op[1] in self.ref.engines and self.ref.engines[op[1]][0] == op[2]:
                self.ref.release(op[1])
                self.usm.unregisterRemoteEngine(ENG[op[1]], op[2])
        return None

    def tables(self):
        for ns in self.spaces:
            want = self.ref.default.get(ns)
            try:
                got = self.usm.getDefaultUser(ns)
            except ValueError:
                got = None
            if got != (want and want.decode()):
                return ("default user", f"the default user of {ns} is {got!r},"
                    f" not {want!r}")
            for name in self.names:
                entry = self.ref.users.get(ns, {}).get(name)
                try:
                    lvl = self.usm.getDefaultSecurityLevel(name.decode(), ns)
                except ValueError:
                    lvl = None
                if (lvl is None) != (entry is None) or (entry
                        and lvl != L.level(entry[1])):
                    return ("default level", f"the default level of {name} in {ns}"
                        f" is {lvl}, not {entry and entry[1]}")
        return None

    def engines(self, every):
        for e, (ns, _) in list(self.ref.engines.items()):
            for name in self.names:
                entry = self.ref.users.get(ns, {}).get(name)
                c = entry[0] if entry else (None,) * 4
                top = -1 if entry is None else 2 if c[2] else 1 if c[0] else 0
                for level in (1, 2):
                    bad = self.outgoing(e, ns, name, c, level, level <= top)
                    if bad:
                        return bad
                # incoming: the right key, and those of other definitions
                others = {u[name][0] for u in self.ref.users.values() if name in u}
                if every:
                    others |= {meaning(k) for k in ("md5", "md5'", "sha")}
                for o in others:
                    if o[0] is None:
                        continue
                    want = top > 0 and o[:2] == c[:2]
                    try:
                        self.usm.processIncoming(L.v3.SNMPv3Message.decode(
                            message(e, name, o)))
                        got = True
                    except L.Incoming:
                        got = False
                    if got != want:
                        return ("incoming", f"a message of {name} from {e} (in"
                            f" {ns}) with {o[:2]} is"
                            f" {'accepted' if got else 'refused'}")
        return None

    def outgoing(self, e, ns, name, c, level, able):
        h = lib_usm.Handle()
        try:
            raw = bytes(self.mp.prepareOutgoingMessage(L.pdu.GetRequestPDU("1.3.6",
                requestID=5), h, ENG[e], name, L.level(level)))
        except Exception as err:
            if able:
                return ("send refused", f"a request of {name} at level {level} to"
                    f" {e} (in {ns}) raises {err!r}")
            return None
        h.close()
        if not able:
            return ("sent", f"a request of {name} at level {level} to {e} (in"
                f" {ns}) is sent")
        u = ag.User(name, *c)
        m = rb.dec_v3(raw)
        n = len(m["auth"])
        blank = raw[:m["authoff"]] + bytes(n) + raw[m["authoff"] + n:]
        if m["auth"] != ru.hmac(u.auth, u.akey(ENG[e]), blank):
            return ("signature", f"a request of {name} to {e} (in {ns}) is signed"
                f" with a wrong key")
        if level == 2:
            data = rb.R(m["payload"]).expect(rb.STR).rest()
            key = u.pkey(ENG[e])
            plain = (ru.aes_decrypt(key, m["boots"], m["time"], m["priv"], data)
                if u.priv == "aes" else ru.des_decrypt(key, m["priv"], data))
            if not plain.startswith(rb.enc_scoped(ENG[e], b"", rb.enc_pdu(rb.GET,
                    5, 0, 0, [((1, 3, 6), ("null",))]))):
                return ("encryption", f"a request of {name} to {e} (in {ns}) is"
                    " encrypted with a wrong key")
        return None

def play(t, ops, every):
    t.current = ops
    p = Play()
    last = len(ops) - 1
    for i, op in enumerate(ops):
        t.extra["steps"] += 1
        bad = p.step(op)
        if not bad and (every or i == last):
            bad = p.tables() or p.engines(every)
        if bad:
            t.fail(bad[0], f"after {ops[:i]}, {op}: {bad[1]}", repr(ops))
            return
    # engines met only now
    for e, ns in (("X", "x"), ("Y", "y")):
        p.step(("reg", e, ns))
    bad = p.tables() or p.engines(every)
    if bad:
        t.fail(bad[0], f"after {ops} and then registering X and Y: {bad[1]}", repr(ops))
    t.case(f"histories of {len(ops)}")

# many users of many engines in several namespaces
def crowds(top):
    """(number of users, of engines, of namespaces, order)"""
    for u, e in itertools.product(range(1, top + 1), repeat=2):
        if max(u, e) < 3 or max(u, e) > 5 and (u + e) % 3 and min(u, e) > 1:
            continue
        for n in (1, 2, 3):
            if n <= e:
                for order in range(6):
                    yield u, e, n, order

KEYS = {k: v for k, v in KINDS.items() if k in ("md5", "sha", "aes", "des")}

def crowd(t, u, e, n, order):
    names = [b"user%d" % i for i in range(u)]
    spaces = ["s%d" % i for i in range(n)]
    kinds = sorted(KEYS)
    add = [("add", name, kinds[(i + s) % len(kinds)], ns, i == u // 2, None)
        for i, name in enumerate(names) for s, ns in enumerate(spaces)]
    reg = []
    for i in range(e):
        ENG.setdefault(f"e{i}", b"\x80\0\0\0\5many-%03d" % i)
        reg.append(("reg", f"e{i}", spaces[i % n]))
    ops = {0: add + reg, 1: reg + add, 2: add[::-1] + reg[::-1],
        3: [x for p in itertools.zip_longest(add, reg) for x in p if x],
        4: [x for p in itertools.zip_longest(reg, add) for x in p if x],
        5: reg + add + [("rel",) + r[1:] for r in reg[::2]] + reg[::2]}[order]
    t.current = (u, e, n, order)
    p = Play(names, spaces)
    for op in ops:
        t.extra["steps"] += 1
        bad = p.step(op)
        if bad:
            break
    bad = bad or p.tables() or p.engines(False)
    if bad:
        t.fail("crowd: " + bad[0], f"{u} users of {e} engines in {n} namespaces,"
            f" in order {order}: {bad[1]}", repr(t.current))
    t.case("crowds")

def adds(names, kinds, spaces, defaults, levels):
    return [("add", n, k, s, d, v) for n in names for k in kinds for s in spaces
        for d in defaults for v in levels]

def alphabets(quick):
    regs = [("reg", "A", "x"), ("reg", "A", "y"), ("reg", "B", "x"),
        ("rel", "A", "x")]
    wide = adds(NAMES, KINDS, SPACES, (False, True), (None, 0, 1, 2)) + regs
    half = adds(NAMES[:1], KINDS, SPACES[:1], (False, True), (None, 0, 1, 2)) + regs[:1]
    mid = adds(NAMES, ("none", "md5", "md5'", "aes"), SPACES, (False,), (None,)
        ) + adds(NAMES, ("md5",), SPACES, (True,), (None, 0)) + regs
    low = adds(NAMES, ("md5", "aes"), ("x",), (False, True), (None,)
        ) + adds(NAMES[:1], ("sha",), ("y",), (True,), (0,)) + regs[:1] + regs[3:]
    if quick:
        return [("wide", [half, wide]), ("mid", [mid] * 3), ("low", [low] * 4)]
    return [("wide", [wide] * 2), ("half", [half] * 3), ("mid", [mid] * 4),
        ("low", [low] * 6)]

def work(t, chunk):
    if chunk[0] == "crowd":
        for c in chunk[1]:
            crowd(t, *c)
        t.extra["nodes"] += len(chunk[1])
        return
    alphabets_, pre = chunk
    head = tuple(a[i] for a, i in zip(alphabets_, pre))
    rest = alphabets_[len(pre):]
    for tail in itertools.product(*rest):
        play(t, head + tail, tail[-1] is rest[-1][0])
    n = 1
    t.extra["nodes"] += 1
    for a in rest:
        n *= len(a)
        t.extra["nodes"] += n
    t.sample(f"{head + tail}", 1)

def run(ck):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    chunks, bounds = [], {}
    for name, a in alphabets(ck.quick):
        chunks += [(a, (i,)) for i in range(len(a[0]))]
        bounds[name] = f"all histories from {[len(x) for x in a]} choices"
    top = 8 if ck.quick else 20
    many = list(crowds(top))
    chunks += [("crowd", many[i::32]) for i in range(32)]
    bounds["crowds"] = f"up to {top} users of up to {top} engines in up to 3"\
        f" namespaces, in 6 orders: {len(many)} histories"
    total = report.enumerate_chunks(ck, work, chunks, limit=3600)
    ck.coverage.update(states=total.extra["nodes"],
        transitions=total.extra["steps"], exhaustive=True,
        traces_validated_against_impl=total.evals, samples=total.samples,
        bounds=bounds, states_are="histories, prefixes included",
        model="reference user table; every history is executed on the real"
        " security module; tables and the messages for every user and engine are"
        " compared with the reference")
    ck.assumptions = ["that a refused first user leaves an empty namespace is not"
        " distinguished from there being no namespace"]

def replay(ck, data):
    global L, CLOCK
    CLOCK = lib_usm.Clock()
    L = lib_usm.load(CLOCK)
    t = report.Tally()
    data = ast.literal_eval(data)
    if isinstance(data[0], int):
        crowd(t, *data)
    else:
        play(t, data, True)
    for v in t.violations:
        ck.violation(v)
        print(v.what)
    return ck.finish()
