"""A controlled scheduler for the real code: virtual threads, locks and time.

Every virtual thread is a real thread, but exactly one holds the baton at any
moment, and it is only handed over at scheduling points: synchronisation
operations, socket operations and (when asked) every source line of the
library.  All nondeterminism -- who runs next, what the network does, in which
order simultaneous timers fire -- goes through World.choose(), so an execution
is a function of its list of choices, and the explorer enumerates the lists.
Virtual time only advances when every thread is blocked.
"""
import _thread
import ctypes
import gc
import hashlib
import os as real_os
import random as real_random
import sys
import threading as real_threading
import time as real_time
import types

START = 4096.0          # virtual epoch; binary fractions keep arithmetic exact

class SchedAbort(BaseException):
    """Unwinds virtual threads when an execution is over."""

class Divergence(Exception):
    """A replayed prefix met a different choice: harness nondeterminism."""

BUDGET = {}             # kind -> deviations the explorer allows (see explore.py)

W = None                # the world being executed in this process

def world():
    return W

class VThread:
    def __init__(self, world, fn, name, library):
        self.world = world
        self.fn = fn
        self.name = name
        self.library = library
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.label = "start"
        self.started = False
        self.done = False
        self.exc = None
        self.ident = None
        self.index = len(world.threads)

    def ready(self):
        if self.done:
            return False
        p = self.pred
        if p is None:
            return True
        if self.deadline is not None and self.world.now >= self.deadline:
            return True
        return p()

# ------------------------------------------------- scheduling points at lines

TOOL = 4
_instrumented = None    # (predicate, opcodes)

def code_objects():
    """All code objects of the loaded library."""
    seen = {}
    todo = [vars(m) for n, m in list(sys.modules.items())
        if n == "snmp" or n.startswith("snmp.")]
    visited = {}            # also keeps temporaries (and their ids) alive
    while todo:
        x = todo.pop()
        if id(x) in visited:
            continue
        visited[id(x)] = x
        if isinstance(x, types.CodeType):
            seen[x] = True
            todo += [c for c in x.co_consts if isinstance(c, types.CodeType)]
        elif isinstance(x, (dict, types.MappingProxyType)):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, types.FunctionType):
            todo.append(x.__code__)
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(x, (classmethod, staticmethod, types.MethodType)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [x.fget, x.fset, x.fdel]
        elif isinstance(x, type) and (x.__module__ or "").startswith("snmp"):
            todo.append(vars(x))
        elif hasattr(x, "__wrapped__"):
            todo.append(x.__wrapped__)
    return list(seen)

def instrument(lines, opcodes):
    """Make the lines (or instructions) of some code scheduling points.

    lines: predicate(file name), or predicate(code) if it has `by_code`."""
    global _instrumented
    if lines is None or _instrumented == (lines, opcodes):
        return
    mon = sys.monitoring
    if _instrumented is None:
        mon.use_tool_id(TOOL, "mc")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_line)
    _instrumented = (lines, opcodes)
    event = mon.events.INSTRUCTION if opcodes else mon.events.LINE
    by_code = getattr(lines, "by_code", False)
    for code in code_objects():
        match = lines(code if by_code else code.co_filename)
        mon.set_local_events(TOOL, code, event if match else 0)

def _on_line(code, where):
    w = W
    if w is not None and not w.mute and not w.over and w.lines is not None:
        w.point("line")

class World:
    """One execution."""
    def __init__(self, prefix=(), lines=None, seed=0, step_limit=200000,
            preempt=True, wall=20.0, opcodes=False):
        self.prefix = prefix
        self.trace = []             # (kind, options, chosen)
        self.now = START
        self.threads = []
        self.current = None
        self.events = []            # network events: [due, seq, fn]
        self.seq = 0
        self.steps = 0
        self.step_limit = step_limit
        self.log = []
        self.problems = []          # (key, text)
        self.lines = lines          # predicate(filename) for line-level points
        instrument(lines, opcodes)
        self.preempt = preempt
        self.stall = None           # how long a thread may be held up at a line
        self.collects = False       # may the cyclic collector run at a line?
        self.over = False
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.rand = real_random.Random(seed)
        self.ucount = 0
        self.wall = wall
        self.left = dict(BUDGET)    # once used up, a kind is no choice any more
        self.resting = False
        self._calm()
        self.net = None
        self.fatal = None
        self.leftover = []
        self.refused = []           # transmissions the system refused

    # -- choices -----------------------------------------------------------
    def choose(self, kind, n):
        if n <= 1 or self.left.get(kind, 1) <= 0:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            k, m, c = self.prefix[i]
            if k != kind or m != n:
                self.fatal = Divergence(f"choice {i}: recorded {k}/{m},"
                    f" met {kind}/{n} at t={self.now - START}")
                self.stop()
                raise SchedAbort()
        else:
            c = 0
        self.trace.append((kind, n, c))
        if c and kind in self.left:
            self.left[kind] -= 1
            self._calm()
        return c

    def note(self, *event):
        self.log.append((self.now - START,) + event)

    def problem(self, key, text):
        self.problems.append((key, text))

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, name="t", library=False):
        t = VThread(self, fn, name, library)
        self.threads.append(t)
        t.started = True
        _thread.start_new_thread(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.ident = _thread.get_ident()
        t.baton.acquire()
        try:
            if not self.over:
                t.fn()
        except SchedAbort:
            pass
        except BaseException as e:
            t.exc = e
            if not self.over:
                self.on_crash(t, e)
        t.fn = None
        t.done = True
        try:
            if not self.over:
                self._leave(t)
                return              # the baton is somebody else's now
        except SchedAbort:
            pass
        self._handoff()

    def on_crash(self, t, e):
        import report
        import traceback
        import loader
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].name if tb else "?"
        if loader.in_library(e.__traceback__):
            self.problem(f"thread-died:{type(e).__name__}:{where}",
                f"thread {t.name} died of {report.describe(e)} in {where}")
        else:
            self.fatal = RuntimeError("".join(traceback.format_exception(e)))
            self.stop()

    def phase(self, active):
        """Line-level choices are made in some phases of an execution only."""
        self.preempt = active
        self.resting = not active
        self._calm()

    def _calm(self):
        left = self.left
        self.mute = self.resting or (    # no line-level choice will be made
            left.get("preempt", 1) <= 0 and (left.get("gc", 1) <= 0
            or not self.collects) and (left.get("stall", 1) <= 0
            or not self.stall))

    def _switch(self, t):
        """Give the baton to t and wait for it to come back."""
        me = self.current
        if t is me:
            return
        self.current = t
        t.baton.release()
        me.baton.acquire()
        if self.over:
            raise SchedAbort()

    def _leave(self, me):
        """me is done: hand the baton to somebody else, or end."""
        t = self._next(me)
        if t is None:
            return
        self.current = t
        t.baton.release()

    def _others(self, me):
        i = me.index
        out = []
        for t in self.threads[i + 1:] + self.threads[:i]:
            if not t.done:
                p = t.pred
                if p is None or (t.deadline is not None
                        and self.now >= t.deadline) or p():
                    out.append(t)
        return out

    def due(self):
        return [e for e in self.events if e[0] <= self.now]

    def fire(self, e):
        self.events.remove(e)
        self.steps += 1
        e[2]()

    def at(self, when, fn):
        self.seq += 1
        self.events.append([when, self.seq, fn])
        self.events.sort(key=lambda e: e[:2])

    def _next(self, me):
        """Choose who runs when `me` cannot (or is done)."""
        while True:
            if self.over:
                raise SchedAbort()
            due = self.due()
            options = due + self._others(me)
            if not me.done and me.ready():
                options.append(me)
            if options:
                kind = "tie" if due else "sched"
                o = options[self.choose(kind, len(options))]
                if isinstance(o, list):
                    self.fire(o)
                    continue
                return o
            if all(t.done or t.library for t in self.threads):
                self.leftover = [t for t in self.threads if not t.done]
                self.stop()
                raise SchedAbort()
            times = [e[0] for e in self.events]
            times += [t.deadline for t in self.threads
                if not t.done and t.deadline is not None]
            if not times:
                self.problem("deadlock", "deadlock: " + "; ".join(
                    f"{t.name} blocked in {t.label}" for t in self.threads
                    if not t.done))
                self.stop()
                raise SchedAbort()
            self.steps += 1
            if self.steps > self.step_limit:
                self.limit()
            self.now = max(self.now, min(times))

    def limit(self):
        self.problem("livelock", f"no progress after {self.steps} steps: "
            + "; ".join(f"{t.name} in {t.label}" for t in self.threads
                if not t.done))
        self.stop()
        raise SchedAbort()

    def point(self, label):
        """The current thread could be preempted here."""
        me = self.current
        if me is None or self.over:
            if self.over and me is not None and not me.done:
                raise SchedAbort()
            return
        self.steps += 1
        if self.steps > self.step_limit:
            self.limit()
        if label == "line" and self.preempt:
            if self.collects and self.choose("gc", 2):
                gc.collect()
            if self.stall and self.choose("stall", 2):
                # this thread gets no processor time for a while
                self.block(lambda: False, self.now + self.stall, "stall")
        if (not self.preempt or len(self.threads) < 2
                or self.left.get("preempt", 1) <= 0):
            return
        others = self._others(me)
        if others:
            c = self.choose("preempt", 1 + len(others))
            if c:
                me.label = label
                self._switch(others[c - 1])

    def block(self, pred, deadline=None, label="?"):
        """Wait until pred() or the deadline; True if pred()."""
        me = self.current
        if self.over:
            raise SchedAbort()
        if me is None:
            return pred()
        while True:
            if pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            self.steps += 1
            if self.steps > self.step_limit:
                self.limit()
            me.pred, me.deadline, me.label = pred, deadline, label
            try:
                self._switch(self._next(me))
            finally:
                me.pred = me.deadline = None

    # -- running -----------------------------------------------------------
    def stop(self):
        self.over = True

    def _handoff(self):
        """Unwind the remaining threads one by one."""
        for t in self.threads:
            if not t.done:
                self.current = t
                t.baton.release()
                return
        self.current = None
        self.finished.release()

    def run(self, main):
        global W
        assert W is None
        W = self
        hook = sys.unraisablehook
        sys.unraisablehook = self._unraisable
        enabled = gc.isenabled()
        gc.disable()
        try:
            t = self.spawn(main, "user0")
            self.current = t
            t.baton.release()
            if not self.finished.acquire(timeout=self.wall):
                self._kill()
        finally:
            W = None
            sys.unraisablehook = hook
            if enabled:
                gc.enable()
        if self.fatal is not None:
            raise self.fatal
        return self

    def _kill(self):
        """A thread is stuck in code without scheduling points."""
        import traceback
        cur = self.current
        frame = sys._current_frames().get(cur.ident) if cur else None
        stack = traceback.extract_stack(frame) if frame else []
        where = " < ".join(f.name for f in reversed(stack[-4:]))
        self.problem("hang", f"{cur.name if cur else '?'} made no progress for"
            f" {self.wall:g} s of real time, in {where}")
        self.over = True
        for _ in range(50):
            for t in self.threads:
                if not t.done and t.ident:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(
                        ctypes.c_ulong(t.ident), ctypes.py_object(SchedAbort))
            if self.finished.acquire(timeout=0.2):
                return
        states = "; ".join(f"{t.name} {t.label} done={t.done}"
            f" locked={t.baton.locked()} at " + " < ".join(
                f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_stack(
                    sys._current_frames().get(t.ident))[-5:]))
            for t in self.threads if not t.done)
        raise RuntimeError(f"cannot stop a runaway thread: {where}; {states};"
            f" choices {self.trace}")

    def _unraisable(self, args):
        if isinstance(args.exc_value, SchedAbort) or self.over:
            return
        self.problem(f"unraisable:{args.exc_type.__name__}",
            f"{args.exc_type.__name__}: {args.exc_value} ignored in"
            f" {getattr(args.object, '__qualname__', args.object)}")

def cleanup():
    """Break cycles left over by an aborted execution."""
    hook = sys.unraisablehook
    sys.unraisablehook = lambda a: None
    try:
        gc.collect()
    finally:
        sys.unraisablehook = hook

# --------------------------------------------------------------- threading shim

def _deadline(timeout):
    if timeout is None or W is None:
        return None
    return W.now + max(0.0, timeout)

class VLock:
    def __init__(self):
        self.owner = None
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        w = W
        if w is None or w.current is None:
            self._held = True
            return True
        w.point("acquire")
        if self._held:
            if not blocking:
                return False
            d = None if timeout is None or timeout < 0 else _deadline(timeout)
            if not w.block(lambda: not self._held, d, "lock"):
                return False
        self._held = True
        self.owner = w.current
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        self.owner = None
        if W is not None:
            W.point("release")

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

class VRLock:
    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return W.current if W is not None else None

    def acquire(self, blocking=True, timeout=-1):
        w = W
        if w is None or w.current is None:
            self.count += 1
            return True
        if self.count and self.owner is w.current:
            self.count += 1
            return True
        w.point("acquire")
        if self.count:
            if not blocking:
                return False
            d = None if timeout is None or timeout < 0 else _deadline(timeout)
            if not w.block(lambda: not self.count, d, "rlock"):
                return False
        self.owner = w.current
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("cannot release un-acquired lock")
        if W is not None and W.current is not self.owner and not W.over:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if W is not None:
                W.point("release")

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        W.block(lambda: not self.count, None, "rlock")
        self.count, self.owner = n, W.current

    def _is_owned(self):
        return bool(self.count) and self.owner is self._me()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

class VCondition:
    def __init__(self, lock=None):
        self._lock = VRLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self.waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        d = _deadline(timeout)
        saved = None
        if hasattr(self._lock, "_release_save"):
            saved = self._lock._release_save()
        else:
            self._lock._held = False
        try:
            got = W.block(lambda: token[0], d, "condition")
        finally:
            if token in self.waiters:
                self.waiters.remove(token)
            if not W.over:
                if saved is not None:
                    self._lock._acquire_restore(saved)
                else:
                    W.block(lambda: not self._lock._held, None, "lock")
                    self._lock._held = True
        return got

    def wait_for(self, predicate, timeout=None):
        d = _deadline(timeout)
        while not predicate():
            left = None if d is None else d - W.now
            if left is not None and left <= 0:
                return predicate()
            self.wait(left)
        return True

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]
        if W is not None:
            W.point("notify")

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all

class VEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        if W is not None:
            W.point("is_set")
        return self._flag

    isSet = is_set

    def set(self):
        if W is not None:
            W.point("set")
        self._flag = True

    def clear(self):
        if W is not None:
            W.point("clear")
        self._flag = False

    def wait(self, timeout=None):
        w = W
        if w is None or w.current is None:
            return self._flag
        d = _deadline(timeout)
        w.point("wait")
        w.block(lambda: self._flag, d, "event")
        return self._flag

class VSemaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._value = value
        self._initial = value
        self.bounded = False

    def acquire(self, blocking=True, timeout=None):
        w = W
        if w is None or w.current is None:
            self._value -= 1
            return True
        w.point("acquire")
        if self._value <= 0:
            if not blocking:
                return False
            if not w.block(lambda: self._value > 0, _deadline(timeout),
                    "semaphore"):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        if self.bounded and self._value + n > self._initial:
            raise ValueError("Semaphore released too many times")
        self._value += n
        if W is not None:
            W.point("release")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

class VBoundedSemaphore(VSemaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self.bounded = True

class VThreadHandle:
    """threading.Thread"""
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(),
            kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        VThreadHandle._count += 1
        self.name = name or "Thread"
        self.daemon = bool(daemon)
        self._vt = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._vt is not None:
            raise RuntimeError("threads can only be started once")
        name = f"lib{len(W.threads)}"
        self._vt = W.spawn(self.run, name, library=True)
        W.point("start")

    def join(self, timeout=None):
        if self._vt is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._vt is W.current:
            raise RuntimeError("cannot join current thread")
        vt = self._vt
        W.point("join")
        W.block(lambda: vt.done, _deadline(timeout), "join")

    def is_alive(self):
        return self._vt is not None and not self._vt.done

    @property
    def ident(self):
        return None if self._vt is None else self._vt.ident

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

class VTimer(VThreadHandle):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = VEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()

def clone(module):
    m = types.ModuleType(module.__name__)
    m.__dict__.update(module.__dict__)
    return m

def threading_shim():
    m = clone(real_threading)
    m.Lock = m._allocate_lock = VLock
    m.RLock = VRLock
    m.Condition = VCondition
    m.Event = VEvent
    m.Semaphore = VSemaphore
    m.BoundedSemaphore = VBoundedSemaphore
    m.Thread = VThreadHandle
    m.Timer = VTimer
    return m

# ------------------------------------------------------------ time and random

def now():
    return W.now if W is not None else START

def time_shim():
    m = clone(real_time)
    m.time = m.monotonic = m.perf_counter = now
    m.time_ns = m.monotonic_ns = m.perf_counter_ns = lambda: int(now() * 1e9)

    def sleep(s):
        if W is None:
            return
        W.point("sleep")
        W.block(lambda: False, W.now + max(0.0, s), "sleep")
    m.sleep = sleep
    return m

class RandProxy:
    """random's module-level functions, reset at the start of every world."""
    fallback = real_random.Random(0)

    def __getattr__(self, name):
        def call(*a, **k):
            r = W.rand if W is not None else self.fallback
            return getattr(r, name)(*a, **k)
        return call

def random_shim():
    m = clone(real_random)
    p = RandProxy()
    for name in ("randint randrange random choice choices shuffle sample"
            " getrandbits uniform randbytes").split():
        setattr(m, name, getattr(p, name))
    m.Random = m.SystemRandom = lambda *a: p
    return m

_ucount = 0

def urandom(n):
    global _ucount
    if W is not None:
        W.ucount += 1
        c = W.ucount
    else:
        _ucount += 1
        c = 1 << 32 | _ucount
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"urandom%d.%d" % (c, i)).digest()
        i += 1
    return out[:n]

def secrets_shim():
    import secrets
    m = clone(secrets)
    m.token_bytes = lambda n=32: urandom(n)
    m.randbits = lambda k: int.from_bytes(urandom((k + 7) // 8), "big") >> (-k % 8)
    m.randbelow = lambda n: int.from_bytes(urandom(16), "big") % n
    m.SystemRandom = lambda *a: RandProxy()
    return m
