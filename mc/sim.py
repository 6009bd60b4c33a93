"""Controlled scheduler and simulated TCP network.

Parties run as threads of which exactly one runs at a time; every network operation is a
scheduling point at which a chooser (mc.core.Chooser) decides who goes on.  The sockets
the code under test creates inside a party are simulated: byte streams with a bounded
buffer, short reads and short writes on demand, end-of-stream on close or crash.

socket.socket is replaced by a class that yields a simulated socket when called inside a
party and a real one everywhere else, so the code under test is used unmodified.
"""
import errno
import io
import socket as _socket
import threading

from mc.core import HarnessError

_real_socket = _socket.socket
_tls = threading.local()


class SimAbort(BaseException):
    """Unwinds a party when the execution is over (deadlock, horizon, teardown)."""


class SimCrash(BaseException):
    """The party's process dies here."""


class Deadlock(Exception):
    pass


class Horizon(Exception):
    pass


class Party:
    def __init__(self, sim, pid, name, fn):
        self.sim, self.pid, self.name, self.fn = sim, pid, name, fn
        self.sem = threading.Semaphore(0)
        self.ready = None            # predicate; None = can run
        self.done = False
        self.result = None
        self.error = None
        self.crashed = False
        self.ops = 0
        self.crash_at = None
        self.sockets = []
        self.waiting_for = ""
        self.thread = threading.Thread(target=self._main, daemon=True)

    def enabled(self):
        return not self.done and (self.ready is None or self.ready())

    def _main(self):
        _tls.party = self
        self.sem.acquire()
        try:
            if self.sim.aborting:
                raise SimAbort()
            self.result = self.fn()
        except SimAbort:
            pass
        except SimCrash:
            self.crashed = True
        except BaseException as e:      # noqa: B902 - the party's own failure
            self.error = e
        finally:
            self.done = True
            if self.crashed or self.error is not None or self.sim.close_on_exit:
                for s in self.sockets:
                    s._die()
            self.sim._finished(self)


class Sim:
    def __init__(self, chooser=None, capacity=None, recv_limit=None, send_limit=None,
                 horizon=2000000, close_on_exit=False):
        self.parties = []
        self.chooser = chooser or (lambda n, cost=1: 0)
        if hasattr(chooser, "bind"):
            chooser.bind(self)
        self.capacity = capacity          # bytes in flight per direction, None = unbounded
        self.recv_limit = recv_limit      # callable(available, wanted) -> bytes returned
        self.send_limit = send_limit      # callable(length) -> bytes accepted
        self.listeners = {}
        self.conns = []
        self.aborting = False
        self.deadlock = None
        self.over_horizon = False
        self.steps = 0
        self.switches = 0
        self.horizon = horizon
        self.close_on_exit = close_on_exit
        self.main = threading.Semaphore(0)

    def spawn(self, name, fn):
        p = Party(self, len(self.parties), name, fn)
        self.parties.append(p)
        return p

    # -- scheduling ---------------------------------------------------------
    def _pick(self, current):
        en = [p for p in self.parties if p.enabled()]
        if not en:
            return None
        if current is not None and current in en:
            en.remove(current)
            en.insert(0, current)
        return en[self.chooser(len(en), 1) if len(en) > 1 else 0]

    def _dispatch(self, current):
        """Hand the processor over; returns when `current` is chosen again."""
        self.steps += 1
        if self.steps > self.horizon:
            self.over_horizon = True
            return self._abort(current)
        try:
            nxt = self._pick(current)
        except BaseException as e:
            self.harness_error = e
            return self._abort(current)
        if nxt is None:
            if all(p.done for p in self.parties):
                self.main.release()
                return
            self.deadlock = {p.name: p.waiting_for for p in self.parties if not p.done}
            return self._abort(current)
        if nxt is current:
            return
        self.switches += 1
        nxt.sem.release()
        if current is not None and not current.done:
            current.sem.acquire()
            if self.aborting:
                raise SimAbort()

    harness_error = None

    def _abort(self, current):
        if not self.aborting:
            self.aborting = True
        for p in self.parties:
            if not p.done and p is not current:
                p.sem.release()
        if current is None or current.done:
            if all(p.done for p in self.parties):
                self.main.release()
            return
        raise SimAbort()

    def _finished(self, party):
        if self.aborting:
            if all(p.done for p in self.parties):
                self.main.release()
            return
        self._dispatch(party)

    def point(self, ready=None, what=""):
        """Scheduling point of the calling party; returns once `ready` holds and it is chosen."""
        p = _tls.party
        if self.aborting:
            raise SimAbort()
        p.ops += 1
        if p.crash_at is not None and p.ops >= p.crash_at:
            raise SimCrash()
        p.ready, p.waiting_for = ready, what
        self._dispatch(p)
        p.ready = None

    def wait(self, ready, what=""):
        """Block again inside one operation (no crash accounting)."""
        p = _tls.party
        if self.aborting:
            raise SimAbort()
        p.ready, p.waiting_for = ready, what
        self._dispatch(p)
        p.ready = None

    def run(self):
        for p in self.parties:
            p.thread.start()
        try:
            self._dispatch(None)
            self.main.acquire()
        except BaseException:
            self.aborting = True
            for p in self.parties:
                p.sem.release()
            raise
        for p in self.parties:
            p.thread.join(5)
        if self.harness_error is not None:
            raise self.harness_error
        if self.deadlock:
            raise Deadlock("no party can continue: " + ", ".join(
                "%s waits for %s" % kv for kv in sorted(self.deadlock.items())))
        if self.over_horizon:
            raise Horizon("no termination within %d scheduling steps" % self.horizon)
        return self


def current_party():
    return getattr(_tls, "party", None)


# ---------------------------------------------------------------------------
# message-level channels (for running trees without sockets)
# ---------------------------------------------------------------------------
class Channel:
    def __init__(self, sim, name, capacity=None):
        self.sim, self.name, self.capacity = sim, name, capacity
        self.items = []
        self.sent = 0

    def put(self, item):
        cap = self.capacity
        self.sim.point((lambda: len(self.items) < cap) if cap else None, "room in " + self.name)
        self.items.append(item)
        self.sent += 1

    def get(self):
        self.sim.point(lambda: bool(self.items), "a message on " + self.name)
        return self.items.pop(0)


# ---------------------------------------------------------------------------
# simulated sockets
# ---------------------------------------------------------------------------
class Pipe:
    def __init__(self, name):
        self.name = name
        self.buf = bytearray()
        self.closed = False       # writer gone: end of stream after the buffer
        self.broken = False       # reader gone: writes fail
        self.total = 0


class SimSocket:
    family = _socket.AF_INET
    type = _socket.SOCK_STREAM
    proto = 0

    def __init__(self, sim, party):
        self._sim, self._party = sim, party
        self._in = self._out = None
        self._port = None
        self._listening = False
        self._closed = False
        self._timeout = None
        party.sockets.append(self)

    # -- connection ---------------------------------------------------------
    def bind(self, addr):
        self._port = addr[1]

    def listen(self, backlog=128):
        self._listening = True
        self._sim.listeners[self._port] = self
        self._pending = []

    def accept(self):
        self._sim.point(lambda: bool(self._pending), "a connection")
        peer = self._pending.pop(0)
        return peer, ("127.0.0.1", 50000 + len(self._sim.conns))

    def connect(self, addr):
        sim = self._sim
        # a host started before the guest is retried by its operator: wait for the listener
        sim.point(lambda: addr[1] in sim.listeners, "the guest to listen")
        lst = sim.listeners[addr[1]]
        if lst._closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        other = SimSocket(sim, lst._party)
        n = len(sim.conns)
        a, b = Pipe("host%d->guest" % n), Pipe("guest->host%d" % n)
        self._out, self._in, other._in, other._out = a, b, a, b
        sim.conns.append((a, b, self._party))
        lst._pending.append(other)

    def connect_ex(self, addr):
        self.connect(addr)
        return 0

    # -- data ---------------------------------------------------------------
    def _check(self, pipe):
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if pipe is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")

    def _take(self, n, flags=0):
        p = self._in
        self._check(p)
        if n == 0:
            return b""
        waitall = flags & _socket.MSG_WAITALL
        self._sim.point(lambda: p.buf or p.closed, "data on " + p.name)
        if not p.buf:
            self._eofs = getattr(self, "_eofs", 0) + 1
            if self._eofs > 64:
                # end of stream was reported 64 times and the code keeps reading
                raise SimLivelock("keeps reading after the end of the stream on " + p.name)
            return b""
        if waitall:
            out = b""
            while len(out) < n and not (p.closed and not p.buf):
                if not p.buf:
                    self._sim.wait(lambda: p.buf or p.closed, "data on " + p.name)
                    continue
                k = min(n - len(out), len(p.buf))
                out += bytes(p.buf[:k])
                del p.buf[:k]
            return out
        k = min(n, len(p.buf))
        if self._sim.recv_limit is not None:
            k = max(1, min(k, self._sim.recv_limit(k, n)))
        out = bytes(p.buf[:k])
        if not flags & _socket.MSG_PEEK:
            del p.buf[:k]
        return out

    def recv(self, bufsize, flags=0):
        return self._take(bufsize, flags)

    def recvfrom(self, bufsize, flags=0):
        return self._take(bufsize, flags), None

    def recv_into(self, buffer, nbytes=0, flags=0):
        view = memoryview(buffer).cast("B")
        data = self._take(nbytes or len(view), flags)
        view[:len(data)] = data
        return len(data)

    def _put(self, data, may_be_short):
        p = self._out
        self._check(p)
        cap = self._sim.capacity
        self._sim.point((lambda: p.broken or len(p.buf) < cap) if cap else None, "room on " + p.name)
        if p.broken:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        k = len(data)
        if cap:
            k = min(k, cap - len(p.buf))
        if may_be_short and k > 1 and self._sim.send_limit is not None:
            k = max(1, min(k, self._sim.send_limit(k)))
        p.buf += data[:k]
        p.total += k
        return k

    def send(self, data, flags=0):
        data = bytes(data)
        if not data:
            return 0
        return self._put(data, True)

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self._put(data, False):]

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def makefile(self, mode="r", buffering=None, **kw):
        raw = _SimRaw(self, mode)
        if buffering == 0:
            return raw
        if "r" in mode and "w" in mode:
            f = io.BufferedRWPair(raw, raw)
        elif "w" in mode:
            f = io.BufferedWriter(raw)
        else:
            f = io.BufferedReader(raw)
        return f if "b" in mode else io.TextIOWrapper(f, **kw)

    # -- the rest -------------------------------------------------------------
    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return ("127.0.0.1", self._port or 0)

    getsockname = getpeername

    def fileno(self):
        return -1

    def _die(self):
        if self._closed:
            return
        self._closed = True
        if self._listening:
            for s in self._pending:
                s._die()
        if self._out is not None:
            self._out.closed = True
        if self._in is not None:
            self._in.broken = True

    def close(self):
        if not self._closed:
            self._die()

    def shutdown(self, how):
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR) and self._out is not None:
            self._out.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimLivelock(BaseException):
    pass


class _SimRaw(io.RawIOBase):
    def __init__(self, sock, mode):
        self._s, self._m = sock, mode

    def readable(self):
        return "r" in self._m

    def writable(self):
        return "w" in self._m

    def readinto(self, b):
        return self._s.recv_into(b)

    def write(self, b):
        return self._s.send(b)


class _SimAwareSocket(_real_socket):
    def __new__(cls, *a, **kw):
        p = getattr(_tls, "party", None)
        if p is not None and cls is _SimAwareSocket:
            return SimSocket(p.sim, p)
        return super().__new__(cls)


_real_create_connection = _socket.create_connection
_real_create_server = _socket.create_server


def _create_connection(address, *a, **kw):
    if current_party() is None:
        return _real_create_connection(address, *a, **kw)
    s = _socket.socket()
    s.connect(address)
    return s


def _create_server(address, *a, **kw):
    if current_party() is None:
        return _real_create_server(address, *a, **kw)
    s = _socket.socket()
    s.bind(address)
    s.listen()
    return s


_socket.socket = _SimAwareSocket
_socket.create_connection = _create_connection
_socket.create_server = _create_server

_ = HarnessError
