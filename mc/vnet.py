"""Virtual sockets, pipes, poll and select, on top of sched.World."""
import errno
import os as real_os
import select as real_select
import selectors as real_selectors
import socket as real_socket
import sys
import types
import weakref

import report
import sched
from sched import clone

FDBASE = 1000

class Net:
    """The network of one world."""
    def __init__(self, world):
        self.world = world
        # as in CPython, a socket closes when nothing refers to it any more
        self.fds = weakref.WeakValueDictionary()    # fd -> VSocket | PipeEnd
        self.bound = weakref.WeakValueDictionary()  # (family, host, port)
        self.pipes = {}         # fd -> PipeEnd
        self.agents = {}        # (host, port) -> callable(data, src, sock)
        self.port = 40000
        self.sent = []          # (time, src, dst, data)
        self.on_send = None     # may raise OSError or return True to swallow
        self.closed = 0
        self.opened = 0
        self.delivered = []     # (time, fd, data, src)
        self.on_resource = None # called with what is about to be acquired

    def resource(self, kind):
        if self.on_resource is not None:
            self.on_resource(kind)

    def alloc(self, obj):
        fd = FDBASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = obj
        if isinstance(obj, PipeEnd):
            self.pipes[fd] = obj
        self.opened += 1
        return fd

    def deliver(self, sock, data, src):
        """Put a datagram (or an exception) on a socket's queue, if open."""
        if sock.fd in self.fds and self.fds[sock.fd] is sock:
            sock.queue.append((data, src))
            self.delivered.append((self.world.now - sched.START, sock.fd,
                data, src))

    def deliver_later(self, delay, sock, data, src):
        w = self.world
        if delay <= 0:
            self.deliver(sock, data, src)
        else:
            w.at(w.now + delay, lambda: self.deliver(sock, data, src))

def net():
    w = sched.W
    if w is None:
        return None
    if w.net is None:
        w.net = Net(w)
    return w.net

def bad_fd():
    return OSError(errno.EBADF, "Bad file descriptor")

class VSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.family = real_socket.AF_INET if family == -1 else family
        self.type = real_socket.SOCK_STREAM if type == -1 else type
        if not self.type & real_socket.SOCK_DGRAM:
            raise OSError(errno.EPROTONOSUPPORT, "only datagrams are simulated")
        self.fd = -1
        self.queue = []
        self.timeout = None
        self.name = None
        net().resource("socket")
        self.peer = None
        self.fd = net().alloc(self)
        sched.W.note("open", self.fd)

    # -- state
    def fileno(self):
        return self.fd

    def _check(self):
        if self.fd < 0:
            raise bad_fd()

    def setblocking(self, flag):
        self._check()
        self.timeout = None if flag else 0.0

    def settimeout(self, t):
        self._check()
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def getblocking(self):
        return self.timeout is None or self.timeout > 0

    def setsockopt(self, *a):
        self._check()

    def getsockopt(self, *a):
        self._check()
        return 0

    def _any(self):
        return "::" if self.family == real_socket.AF_INET6 else "0.0.0.0"

    def _long(self, addr):
        if self.family == real_socket.AF_INET6 and len(addr) == 2:
            return (addr[0], addr[1], 0, 0)
        return addr

    def bind(self, addr):
        self._check()
        host, port = addr[0] or self._any(), addr[1]
        n = net()
        n.resource("bind")
        try:
            real_socket.inet_pton(self.family, host)
        except OSError:
            raise real_socket.gaierror(-9, "Address family not supported") from None
        if port == 0:
            n.port += 1
            port = n.port
        if n.bound.get((self.family, host, port)) is not None:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        if self.name is not None:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.name = (host, port)
        n.bound[(self.family, host, port)] = self
        sched.W.note("bind", self.fd, host, port)

    def connect(self, addr):
        self.peer = addr

    def getsockname(self):
        self._check()
        return self._long(self.name or (self._any(), 0))

    def close(self):
        if sched.W is None or self.fd < 0:
            self.fd = -1
            return
        sched.W.point("close")
        n = net()
        if n.fds.get(self.fd) is self:
            del n.fds[self.fd]
            n.closed += 1
            sched.W.note("close", self.fd)
        if self.name is not None:
            n.bound.pop((self.family,) + self.name, None)
        self.fd = -1

    def __del__(self):
        # a real socket object closes its descriptor when it is collected
        if sched.W is not None and self.fd >= 0 and not sched.W.over:
            n = net()
            if n.fds.get(self.fd) is self:
                del n.fds[self.fd]
                n.closed += 1
            if self.name is not None:
                n.bound.pop((self.family,) + self.name, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- data
    def sendto(self, data, *rest):
        addr = rest[-1]
        w = sched.W
        self._check()
        w.point("send")
        self._check()
        if not isinstance(addr, tuple):
            raise TypeError("address must be a tuple")
        data = bytes(data)
        if len(data) > 65507:
            raise OSError(errno.EMSGSIZE, "Message too long")
        n = net()
        if self.name is None:
            self.bind(("", 0))
        src = self.name
        dst = tuple(addr[:2])
        if n.on_send is not None and n.on_send(self, data, dst):
            return len(data)
        n.sent.append((w.now - sched.START, src, dst, data))
        agent = n.agents.get(dst)
        if agent is not None:
            try:
                agent(data, src, self)
            except OSError:
                raise               # it refuses the transmission
            except Exception as e:
                w.problem("harness", f"the agent failed: {report.describe(e)}")
            return len(data)
        peer = n.bound.get((self.family,) + dst)
        if peer is None:
            peer = n.bound.get((self.family, self._any(), dst[1]))
        if peer is not None:
            s = src
            if s[0] == self._any():
                s = (dst[0], s[1])
            n.deliver(peer, data, s)
        return len(data)

    def send(self, data):
        return self.sendto(data, self.peer)

    def recvfrom(self, size, flags=0):
        w = sched.W
        self._check()
        w.point("recv")
        self._check()
        if not self.queue:
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN,
                    "Resource temporarily unavailable")
            d = None if self.timeout is None else w.now + self.timeout
            if not w.block(lambda: self.queue or self.fd < 0, d, "recv"):
                raise TimeoutError("timed out")
            self._check()
        data, src = self.queue.pop(0)
        if isinstance(data, BaseException):
            raise data
        w.note("recv", self.fd, len(data))
        return data[:size], self._long(src)

    def recv(self, size, flags=0):
        return self.recvfrom(size)[0]

    def recvfrom_into(self, buf, nbytes=0, flags=0):
        data, src = self.recvfrom(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data), src

    def recv_into(self, buf, nbytes=0, flags=0):
        return self.recvfrom_into(buf, nbytes)[0]

    def readable(self):
        return bool(self.queue)

class PipeEnd:
    def __init__(self, buf, read):
        self.buf = buf
        self.read = read
        self.peer_open = True

    def readable(self):
        return self.read and (bool(self.buf) or not self.peer_open)

def socket_shim():
    m = clone(real_socket)
    m.socket = m.SocketType = VSocket
    def socketpair(*a, **k):
        raise OSError(errno.EOPNOTSUPP, "not simulated")
    m.socketpair = socketpair
    m.__all__ = list(real_socket.__all__)
    return m

# ---------------------------------------------------------------- poll, select

def _fd(f):
    return f if isinstance(f, int) else f.fileno()

def _lookup(fd):
    return net().fds.get(fd)

class VPoll:
    def __init__(self):
        self.mask = {}

    def register(self, fd, mask=real_select.POLLIN | real_select.POLLPRI
            | real_select.POLLOUT):
        self.mask[_fd(fd)] = mask

    def modify(self, fd, mask):
        if _fd(fd) not in self.mask:
            raise FileNotFoundError(errno.ENOENT, "No such file")
        self.mask[_fd(fd)] = mask

    def unregister(self, fd):
        del self.mask[_fd(fd)]

    def _ready(self):
        out = []
        for fd, mask in self.mask.items():
            if fd < 0:
                continue
            o = _lookup(fd)
            if o is None:
                out.append((fd, real_select.POLLNVAL))
                continue
            ev = 0
            if o.readable():
                ev |= real_select.POLLIN
            if not (isinstance(o, PipeEnd) and o.read):
                ev |= real_select.POLLOUT
            if ev & mask:
                out.append((fd, ev & mask))
        return out

    def poll(self, timeout=None):
        w = sched.W
        w.point("poll")
        d = None
        if timeout is not None and timeout >= 0:
            d = w.now + timeout / 1000.0
        w.block(lambda: bool(self._ready()), d, "poll")
        return self._ready()

class VEpoll(VPoll):
    def __init__(self, *a, **k):
        super().__init__()

    def poll(self, timeout=None, maxevents=-1):
        if timeout is not None and timeout >= 0:
            timeout *= 1000
        return super().poll(timeout)

    def close(self):
        pass

def vselect(r, w_, x, timeout=None):
    w = sched.W
    w.point("select")
    for f in list(r) + list(w_):
        fd = _fd(f)
        if fd < 0:
            raise ValueError("file descriptor cannot be a negative integer")
        if _lookup(fd) is None:
            raise bad_fd()
    d = None if timeout is None else w.now + timeout
    def ready():
        out = []
        for f in r:
            o = _lookup(_fd(f))
            if o is None or o.readable():
                out.append(f)
        return out
    w.block(lambda: bool(ready()) or bool(w_), d, "select")
    return ready(), list(w_), []

def select_shim():
    m = clone(real_select)
    m.poll = VPoll
    m.epoll = VEpoll
    m.select = vselect
    for name in ("devpoll", "kqueue", "kevent"):
        if hasattr(m, name):
            delattr(m, name)
    return m

def selectors_shim(select):
    src = open(real_selectors.__file__).read()
    m = types.ModuleType("selectors")
    saved = sys.modules["select"]
    sys.modules["select"] = select
    try:
        exec(compile(src, real_selectors.__file__, "exec"), m.__dict__)
    finally:
        sys.modules["select"] = saved
    m.DefaultSelector = m.PollSelector
    return m

def queue_shim(threading, time):
    import queue
    src = open(queue.__file__).read()
    m = types.ModuleType("queue")
    saved = {k: sys.modules.get(k) for k in ("threading", "time", "_queue")}
    fake = types.ModuleType("_queue")
    class Empty(Exception):
        pass
    fake.Empty = Empty
    sys.modules.update({"threading": threading, "time": time, "_queue": fake})
    try:
        exec(compile(src, queue.__file__, "exec"), m.__dict__)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    m.SimpleQueue = m._PySimpleQueue
    return m

# ------------------------------------------------------------------------- os

def os_shim(name="posix"):
    m = clone(real_os)
    m.name = name
    m.urandom = sched.urandom

    def pipe():
        n = net()
        n.resource("pipe")
        buf = []
        r, w = PipeEnd(buf, True), PipeEnd(buf, False)
        r.peer, w.peer = w, r
        return n.alloc(r), n.alloc(w)

    def read(fd, size):
        if fd < FDBASE:
            return real_os.read(fd, size)
        sched.W.point("pipe-read")
        o = _lookup(fd)
        if o is None or not isinstance(o, PipeEnd):
            raise bad_fd()
        sched.W.block(o.readable, None, "pipe")
        if not o.buf:
            return b""
        out = bytes(o.buf[:size])
        del o.buf[:size]
        return out

    def write(fd, data):
        if fd < FDBASE:
            return real_os.write(fd, data)
        sched.W.point("pipe-write")
        o = _lookup(fd)
        if o is None or not isinstance(o, PipeEnd):
            raise bad_fd()
        if not o.peer_open:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        o.buf.extend(data)
        return len(data)

    def close(fd):
        if fd < FDBASE:
            return real_os.close(fd)
        if sched.W is None:
            return
        sched.W.point("pipe-close")
        n = net()
        o = n.fds.pop(fd, None)
        if o is None:
            raise bad_fd()
        n.pipes.pop(fd, None)
        n.closed += 1
        if isinstance(o, PipeEnd):
            o.peer.peer_open = False

    def set_blocking(fd, flag):
        if fd < FDBASE:
            real_os.set_blocking(fd, flag)

    m.pipe, m.read, m.write, m.close = pipe, read, write, close
    m.set_blocking = set_blocking
    m.pipe2 = lambda flags: pipe()
    if hasattr(m, "eventfd"):
        del m.eventfd
    return m

def shims(osname="posix"):
    threading = sched.threading_shim()
    time = sched.time_shim()
    select = select_shim()
    return {
        "threading": threading, "time": time, "select": select,
        "random": sched.random_shim(), "secrets": sched.secrets_shim(),
        "socket": socket_shim(), "os": os_shim(osname),
        "selectors": selectors_shim(select),
        "queue": queue_shim(threading, time),
    }
