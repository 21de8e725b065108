"""Virtual-time event loop and an in-process network under tornado's IOStream.

The asyncio loop, tornado's IOLoop and tornado's IOStream are the real ones.
Only the selector (readiness and the passing of time) and the sockets are
replaced.  With nothing ready and no timer pending the loop raises Deadlock:
whatever is being awaited can never complete.
"""
import asyncio
import collections
import errno
import selectors
import socket
import sys
import time
import weakref

ACTIVE = None           # the Net new sockets belong to


class Deadlock(Exception):
    """Nothing can ever happen again, yet something is still awaited."""


class Runaway(Exception):
    """The code keeps working without ever finishing."""


class Clock(object):
    """Stands in for the module `time`: clocks show the time of the active Net."""
    CLOCKS = ("time", "monotonic", "perf_counter")
    start = time.time()

    @classmethod
    def now(cls):
        return time.time() if ACTIVE is None else cls.start + ACTIVE.now

    def __getattr__(self, name):
        return self.now if name in self.CLOCKS else getattr(time, name)

    uses = None

    @classmethod
    def install(cls):
        """Where kiel or tornado's loop look at a clock they get this one; call what's returned after."""
        if cls.uses is None:
            clocks = [getattr(time, name) for name in cls.CLOCKS]
            cls.uses = [
                (module, name, value, cls() if value is time else cls.now)
                for key, module in sorted(sys.modules.items())
                if key.partition(".")[0] == "kiel" or key == "tornado.ioloop"
                for name, value in sorted(vars(module).items())
                if value is time or any(value is c for c in clocks)]
        for module, name, _, clock in cls.uses:
            setattr(module, name, clock)

    @classmethod
    def remove(cls):
        for module, name, value, _ in cls.uses:
            setattr(module, name, value)


class FakeSelector(selectors._BaseSelectorImpl):
    def __init__(self, net):
        super(FakeSelector, self).__init__()
        self.net = net

    def select(self, timeout=None):
        net = self.net
        net.ticks += 1
        if net.ticks > net.tick_limit:
            raise Runaway("no end after %d loop iterations, %.3f virtual seconds" % (
                net.ticks, net.now))
        until = None
        if net.sched is not None:
            net.sched.pump()
            until = net.sched.next_timer()
        ready = []
        for fd, key in self._fd_to_key.items():
            sock = net.socks.get(fd)
            if sock is None:
                continue
            mask = 0
            if key.events & selectors.EVENT_READ and sock.readable():
                mask |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and sock.writable():
                mask |= selectors.EVENT_WRITE
            if mask:
                ready.append((key, mask))
        if ready:
            return ready
        if until is not None and (timeout is None or net.now + timeout > until):
            timeout = until - net.now
        if timeout is None:
            raise Deadlock("nothing left to happen at %.3f virtual seconds" % net.now)
        if timeout > 0:
            net.now += timeout
            if net.now > net.time_limit:
                raise Runaway("still working after %.1f virtual seconds" % net.now)
        return ready


class Loop(asyncio.SelectorEventLoop):
    def __init__(self, net):
        self._net = net
        super(Loop, self).__init__(FakeSelector(net))
        self._clock_resolution = 1e-9

    def time(self):
        return self._net.now

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def _write_to_self(self):
        pass


class FakeSocket(object):
    """Client side of a simulated TCP connection."""

    def __init__(self, net):
        self.net = net
        self.fd = net.next_fd
        net.next_fd += 1
        net.socks[self.fd] = self
        self.state = "new"
        self.error = 0
        self.rbuf = bytearray()
        self.eof = False
        self.peer = None
        self.dead = None            # errno raised by I/O once the peer reset us
        self.addr = None
        self.read_total = 0         # bytes the client has taken

    # -- what the selector asks
    def readable(self):
        return self.state == "open" and bool(self.rbuf or self.eof or self.dead) \
            or self.state == "failed"

    def writable(self):
        return self.state in ("open", "failed")

    # -- the socket interface IOStream uses
    def fileno(self):
        return self.fd

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *args):
        pass

    def getsockopt(self, level, name):
        if name == socket.SO_ERROR:
            err, self.error = self.error, 0
            return err
        return 0

    def getpeername(self):
        return self.addr

    def connect(self, addr):
        self.addr = (addr[0], addr[1])
        if addr[0] not in self.net.hosts:
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        self.state = "connecting"
        self.net.connects.append(self.addr)
        self.net.loop.call_later(self.net.latency, self._connected)
        raise BlockingIOError(errno.EINPROGRESS, "in progress")

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except BlockingIOError as exc:
            return exc.errno
        except socket.gaierror as exc:
            return exc.errno
        return 0

    def _connected(self):
        if self.state != "connecting":
            return
        server = self.net.listeners.get(self.addr)
        if server is None:
            self.state = "failed"
            self.error = self.dead = errno.ECONNREFUSED
            return
        self.state = "open"
        self.peer = Peer(self, server)
        self.net.peers.append(self.peer)
        server.on_connect(self.peer)

    def recv_into(self, buf, nbytes=0, flags=0):
        if self.state == "closed":
            raise OSError(errno.EBADF, "closed")
        limit = nbytes or len(buf)
        if self.net.read_chunk:
            limit = min(limit, self.net.read_chunk)
        if self.rbuf:
            n = min(limit, len(self.rbuf))
            buf[:n] = self.rbuf[:n]
            del self.rbuf[:n]
            self.read_total += n
            self.net.reads += 1
            return n
        if self.dead:
            raise OSError(self.dead, "connection reset")
        if self.eof:
            return 0
        raise BlockingIOError(errno.EAGAIN, "again")

    def recv(self, n, flags=0):
        buf = bytearray(n)
        got = self.recv_into(buf, n)
        return bytes(buf[:got])

    def send(self, data, flags=0):
        if self.state != "open":
            raise OSError(errno.ENOTCONN, "not connected")
        if self.dead:
            raise OSError(errno.EPIPE, "broken pipe")
        data = bytes(data)
        if self.net.write_chunk:
            data = data[:self.net.write_chunk]
        self.peer._client_sent(data)
        return len(data)

    def close(self):
        if self.state == "closed":
            return
        was_open = self.state == "open"
        self.state = "closed"
        self.net.socks.pop(self.fd, None)
        if was_open and self.peer is not None:
            self.peer._client_closed()

    def shutdown(self, how):
        pass

    def detach(self):
        self.close()
        return self.fd


class Peer(object):
    """Server side of a simulated connection."""

    def __init__(self, sock, server):
        self.sock = sock
        self.server = server
        self.net = sock.net
        self.id = self.net.next_peer
        self.net.next_peer += 1
        self.closed = False             # by us or by the client
        self.queued = 0                 # bytes ever sent to the client
        self.free_at = 0.0              # keeps deliveries in order
        self.up_at = 0.0
        self.outbox = collections.deque()

    def _later(self, attr, delay, fn, *args):
        # strictly increasing: the loop's timer heap is not stable
        when = max(self.net.now + delay, getattr(self, attr) + 1e-7)
        setattr(self, attr, when)
        self.net.loop.call_at(when, fn, *args)

    def _client_sent(self, data):
        self._later("up_at", self.net.latency, self._arrive, data)

    def _arrive(self, data):
        if not self.closed:
            self.server.on_data(self, data)

    def _client_closed(self):
        self._later("up_at", self.net.latency, self._gone)

    def _gone(self):
        if not self.closed:
            self.closed = True
            self.server.on_client_close(self)

    def send(self, data, delay=0.0):
        """Delivers bytes to the client, in order with everything sent before."""
        if not self.closed and data:
            self.queued += len(data)
            self._later("free_at", self.net.latency + delay, self._deliver)
            self.outbox.append((self.free_at, bytes(data)))

    def _deliver(self):
        """Hands over what is due, along with what is due just after (one segment)."""
        until = self.net.now + self.net.coalesce + 1e-9
        while self.outbox and self.outbox[0][0] <= until:
            _, data = self.outbox.popleft()
            if self.sock.state == "open" and not self.sock.dead and not self.sock.eof:
                self.sock.rbuf += data

    def close(self, delay=0.0, reset=False):
        """EOF (or a reset) after everything sent before."""
        if self.closed:
            return
        self.closed = True
        self._later("free_at", self.net.latency + delay, self._shut, reset)

    def _shut(self, reset):
        if self.sock.state != "open":
            return
        if reset:
            self.sock.dead = errno.ECONNRESET
        else:
            self.sock.eof = True


class Net(object):
    """One simulated network with its own loop and clock."""

    def __init__(self, latency=0.001, read_chunk=0, write_chunk=0, coalesce=0.0,
                 tick_limit=60000, time_limit=3600.0, clock=True):
        self.clock = clock              # whether what kiel takes for the time is the virtual one
        self.now = 1000.0
        self.ticks = 0
        self.tick_limit = tick_limit
        self.time_limit = self.now + time_limit
        self.latency = latency
        self.read_chunk = read_chunk
        self.write_chunk = write_chunk
        self.coalesce = coalesce        # answers due within so many seconds arrive at once
        self.socks = {}
        self.listeners = {}
        self.hosts = set()
        self.peers = []
        self.connects = []
        self.reads = 0
        self.next_fd = 1000000
        self.next_peer = 1
        self.unhandled = []
        self.sched = None               # cooperative threads sharing this clock (kv.sim.zk)
        self.loop = Loop(self)
        self.loop.set_exception_handler(self._on_exception)

    def _on_exception(self, loop, context):
        self.unhandled.append(context)

    def listen(self, host, port, server):
        self.hosts.add(host)
        self.listeners[(host, port)] = server

    def unlisten(self, host, port):
        self.hosts.add(host)
        self.listeners.pop((host, port), None)

    def open_sockets(self):
        return [s for s in self.socks.values() if s.state in ("open", "connecting")]

    def __enter__(self):
        global ACTIVE
        self._saved = ACTIVE
        ACTIVE = self
        if self._saved is None and self.clock:
            Clock.install()
        asyncio.set_event_loop(self.loop)
        return self

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = self._saved
        self.shutdown()
        asyncio.set_event_loop(None)
        if self._saved is None and self.clock:
            Clock.remove()

    def run(self, awaitable):
        """Runs until the awaitable is done; Deadlock / Runaway pass through."""
        async def main():
            return await awaitable
        task = self.loop.create_task(main())
        return self.loop.run_until_complete(task)

    def start(self, awaitable):
        async def main():
            return await awaitable
        return self.loop.create_task(main())

    def sleep(self, seconds):
        """Lets virtual time pass."""
        self.time_limit += seconds
        return self.run(asyncio.sleep(seconds))

    def settle(self):
        """Runs until nothing more can happen without outside input."""
        fut = self.loop.create_future()
        try:
            self.loop.run_until_complete(fut)
        except Deadlock:
            pass
        fut.cancel()

    def shutdown(self):
        loop = self.loop
        if loop.is_closed():
            return
        for task in asyncio.all_tasks(loop):
            task.cancel()
        self.tick_limit = self.ticks + 50
        try:
            for _ in range(3):
                loop.call_soon(loop.stop)
                loop.run_forever()
        except (Deadlock, Runaway):
            pass
        from tornado import ioloop
        tl = ioloop.IOLoop._ioloop_for_asyncio.pop(loop, None)
        del tl
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
        self.socks.clear()


def install():
    from tornado import iostream

    original = iostream.IOStream.__init__

    def __init__(self, sock, *args, **kwargs):
        if ACTIVE is not None and isinstance(sock, socket.socket):
            sock.close()
            sock = FakeSocket(ACTIVE)
        original(self, sock, *args, **kwargs)

    iostream.IOStream.__init__ = __init__
