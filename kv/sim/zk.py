"""A simulated ZooKeeper ensemble, and kazoo's client on top of it, without I/O.

kazoo's own recipes (ChildrenWatch, DataWatch, Lock, KazooRetry) run for real on a
stand-in KazooClient.  Its threads are cooperative: exactly one runs at a time, and
control passes only at ZooKeeper operations, blocking waits and, in worlds that also
have an event loop, between loop iterations.  Worlds with preemption also pass it
between any two lines of kiel's clients and ZooKeeper code, as real threads would.
Which thread goes on is drawn from a seed that is part of the case, so every schedule
replays.
"""
import _thread
import collections
import functools
import heapq
import random
import sys
import threading
import time
import types

from kv.sim.net import Deadlock, Runaway

ACTIVE = None           # the World in force


class Killed(BaseException):
    """The world is over; unwinds a cooperative thread."""


class Task(object):
    def __init__(self, name):
        self.name = name
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.pred = None            # None: ready to run
        self.what = None
        self.done = False
        self.result = None
        self.error = None
        self.raise_on_wake = None
        self.ident = None


class Clock(object):
    def __init__(self):
        self.now = 1000.0


class Sched(object):
    def __init__(self, clock, seed=0, density=0.0, limit=40000, preemption=0.0):
        self.clock = clock
        self.rng = random.Random(seed)
        self.density = density
        self.main = Task("main")
        self.main.ident = _thread.get_ident()
        self.tasks = [self.main]
        self.current = self.main
        self.timers = []
        self.steps = 0
        self.switches = 0
        self.limit = limit
        self.killed = False
        self.preemption = preemption
        self.preempted = 0
        self.pumps = 0
        self.held = 0               # pumps up to which some preempted thread stays put

    def mine(self):
        return self.current.ident == _thread.get_ident()

    # ------------------------------------------------------------- threads
    def spawn(self, fn, name="task"):
        task = Task(name)
        self.tasks.append(task)
        _thread.start_new_thread(self._body, (task, fn))
        return task

    def _body(self, task, fn):
        task.gate.acquire()
        task.ident = _thread.get_ident()
        try:
            if self.killed:
                return
            task.result = fn()
        except Killed:
            pass
        except BaseException as exc:
            task.error = exc
        finally:
            task.done = True
            self.tasks.remove(task)
            if not self.killed:
                self._leave(task)

    def _leave(self, task):
        nxt = self._next()
        if nxt is None:
            nxt = self.main
            nxt.raise_on_wake = Deadlock(self._stuck())
        self.current = nxt
        nxt.pred = None
        self.switches += 1
        nxt.gate.release()

    def _stuck(self):
        return "every thread waits: " + ", ".join(
            "%s for %s" % (t.name, t.what) for t in self.tasks)

    def _ready(self, exclude=None):
        return [t for t in self.tasks
                if t is not exclude and (t.pred is None or t.pred())]

    def _next(self, ready=None):
        """A thread that can go on, letting time pass if need be; None if stuck."""
        while True:
            ready = self._ready()
            if ready:
                return ready[0] if len(ready) == 1 else self.rng.choice(ready)
            if not self.timers:
                return None
            self.clock.now = max(self.clock.now, heapq.heappop(self.timers))

    def _to(self, task):
        me = self.current
        self.current = task
        self.switches += 1
        task.pred = None
        task.gate.release()
        me.gate.acquire()
        self._woken(me)

    def _woken(self, me):
        if me.raise_on_wake is not None:
            exc, me.raise_on_wake = me.raise_on_wake, None
            raise exc
        if self.killed and me is not self.main:
            raise Killed()

    def _step(self):
        if self.killed:
            if _thread.get_ident() != self.main.ident:
                raise Killed()
            return
        self.steps += 1
        if self.steps > self.limit:
            self.limit += 1000
            exc = Runaway("no end after %d thread steps" % self.steps)
            if self.current is self.main:
                raise exc
            self.main.raise_on_wake = exc
            self._to(self.main)

    def switch(self):
        """A point where another thread may run."""
        self._step()
        if len(self.tasks) > 1 and self.rng.random() < self.density:
            ready = self._ready()
            task = self.rng.choice(ready)
            if task is not self.current:
                self._to(task)

    def preempt(self):
        """Between two lines of kiel's: possibly, another thread goes on."""
        if self.killed or len(self.tasks) < 2 or self.rng.random() >= self.preemption or \
                not self.mine():
            return
        me = self.current
        others = self._ready(exclude=me)
        if me is not self.main and self.main.what == "loop" and self.rng.random() < 0.7:
            # for some iterations of the event loop
            until = self.pumps + self.rng.choice([1, 1, 2, 5])
            self.held = max(self.held, until)
            me.pred = lambda: self.pumps >= until or self.main.what != "loop"
            me.what = "its turn"
            others = self._ready(exclude=me) or [self.main]
        if others:
            self._step()
            self.preempted += 1
            self._to(self.rng.choice(others))
            me.pred = None

    def block(self, pred, what):
        """Waits, letting others run, until pred() holds."""
        self._step()
        me = self.current
        if pred() and self.rng.random() >= self.density:
            return
        me.pred, me.what = pred, what
        task = self._next()
        if task is None:
            me.pred = None
            raise Deadlock(self._stuck())
        if task is me:
            me.pred = None
        else:
            self._to(task)

    def at(self, when):
        heapq.heappush(self.timers, when)

    def sleep(self, seconds):
        due = self.clock.now + seconds
        self.at(due)
        self.block(lambda: self.clock.now >= due, "time to pass")

    # --------------------------------------------------- with an event loop
    def pump(self):
        """Runs the other threads until they all wait (main, between loop iterations)."""
        while self.timers and self.timers[0] <= self.clock.now:
            heapq.heappop(self.timers)
        me = self.main
        me.what = "loop"
        self.pumps += 1
        while True:
            ready = self._ready(exclude=me)
            if not ready:
                return
            self._step()
            me.pred, me.what = (lambda: not self._ready(exclude=me)), "loop"
            self._to(ready[0] if len(ready) == 1 else self.rng.choice(ready))
            me.pred = None

    def next_timer(self):
        if self.pumps < self.held:
            return self.clock.now
        while self.timers and self.timers[0] <= self.clock.now:
            heapq.heappop(self.timers)
        return self.timers[0] if self.timers else None

    def run(self, tasks):
        """Runs until all the given tasks are done (main, without an event loop)."""
        tasks = list(tasks)
        self.block(lambda: all(t.done for t in tasks), "tasks")
        for t in tasks:
            if t.error is not None:
                raise t.error

    def settle(self, seconds):
        """Lets time pass until nothing more happens, at most `seconds`."""
        self.sleep(seconds)
        self.pump()

    def kill(self):
        self.killed = True
        for task in list(self.tasks):
            if task is not self.main and not task.done:
                task.gate.release()
                while task in self.tasks:       # one at a time
                    time.sleep(0.00005)


TOOL = 4
watched = set()


def watch_lines():
    """Has every line of kiel's threaded parts offer a switch of threads."""
    for name, module in sorted(sys.modules.items()):
        if module is None or not name.startswith(("kiel.clients", "kiel.zookeeper")) or \
                name in watched:
            continue
        if not watched:
            sys.monitoring.use_tool_id(TOOL, "kv")
            sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, on_line)
        watched.add(name)
        codes, seen = list(vars(module).values()), set()
        while codes:
            x = codes.pop()
            if id(x) in seen or getattr(x, "__module__", name) != name:
                continue
            seen.add(id(x))
            if isinstance(x, type):
                codes.extend(vars(x).values())
            elif isinstance(x, property):
                codes.extend([x.fget, x.fset, x.fdel])
            elif isinstance(x, types.CodeType):
                if not x.co_name.startswith("__"):
                    sys.monitoring.set_local_events(TOOL, x, sys.monitoring.events.LINE)
                codes.extend(c for c in x.co_consts if isinstance(c, types.CodeType))
            else:
                codes.extend(getattr(x, a) for a in ("__wrapped__", "__func__", "__code__")
                             if hasattr(x, a))


def on_line(code, line):
    w = ACTIVE
    if w is not None and w.sched.preemption:
        w.sched.preempt()


class CoopLock(object):
    def __init__(self, world):
        self.world = world
        self.held = None

    def acquire(self, blocking=True, timeout=-1):
        if self.held is not None and not blocking:
            return False
        self.world.sched.block(lambda: self.held is None, "a lock")
        self.held = self.world.sched.current
        return True

    def release(self):
        self.held = None

    def locked(self):
        return self.held is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class CoopRLock(CoopLock):
    depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held is self.world.sched.current:
            self.depth += 1
            return True
        return super(CoopRLock, self).acquire(blocking, timeout)

    def release(self):
        if self.depth:
            self.depth -= 1
        else:
            self.held = None

    __enter__ = acquire


class OwnLock(object):
    """A lock made by kiel's code: one of the above in a world, otherwise as good as free."""

    def __init__(self, again=False):
        self.again = again
        self.held = None
        self.depth = 0

    def _world(self):
        w = ACTIVE
        return w if w is not None and not w.sched.killed and w.sched.mine() else None

    def acquire(self, blocking=True, timeout=-1):
        w = self._world()
        me = w.sched.current if w is not None else _thread.get_ident()
        if self.again and self.held is me:
            self.depth += 1
            return True
        if w is not None:
            if self.held is not None and not blocking:
                return False
            if timeout is not None and timeout >= 0:
                due = w.clock.now + timeout
                w.sched.at(due)
                w.sched.block(lambda: self.held is None or w.clock.now >= due, "a lock, for a while")
                if self.held is not None:
                    return False
            elif self.held is not None:
                w.sched.block(lambda: self.held is None, "a lock")
        self.held = me
        return True

    def release(self):
        if self.held is None:
            raise RuntimeError("release unlocked lock")
        if self.depth:
            self.depth -= 1
        else:
            self.held = None

    def locked(self):
        return self.held is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


# ------------------------------------------------------------------ the server

class Node(object):
    def __init__(self, data, zxid, owner):
        self.data = data
        self.czxid = self.mzxid = self.pzxid = zxid
        self.version = self.cversion = 0
        self.owner = owner
        self.children = {}
        self.sequence = 0


class World(object):
    """One ensemble, its sessions and its threads."""

    SESSION_TIMEOUT = 10.0

    def __init__(self, net=None, seed=0, density=0.0, delays=(0.0,), preemption=0.0):
        self.clock = net if net is not None else Clock()
        self.net = net
        self.sched = Sched(self.clock, seed, density, preemption=preemption)
        self.delays = list(delays)
        self.delay_index = 0
        self.root = Node(b"", 0, 0)
        self.zxid = 0
        self.sessions = {}          # id -> client, live sessions
        self.next_session = 0x1000
        self.clients = []
        self.errors = []            # exceptions escaping from callbacks and spawned threads
        self.ops = []               # (time, client index, op, path)
        self.op_hook = None         # called at every operation: fault injection
        self.up = True

    def __enter__(self):
        global ACTIVE
        self._saved = ACTIVE
        ACTIVE = self
        if self.sched.preemption:
            watch_lines()
        self._random = random.getstate()
        random.seed(4)
        if self.net is not None:
            self.net.sched = self.sched
        return self

    def __exit__(self, *exc):
        global ACTIVE
        self.sched.kill()
        ACTIVE = self._saved
        random.setstate(self._random)
        if self.net is not None:
            self.net.sched = None

    def delay(self):
        d = self.delays[self.delay_index % len(self.delays)]
        self.delay_index += 1
        return d

    # ---- tree
    def find(self, path):
        node = self.root
        for name in [p for p in path.split("/") if p]:
            node = node.children.get(name)
            if node is None:
                return None
        return node

    def data(self, path):
        node = self.find(path)
        return None if node is None else node.data

    def children(self, path):
        node = self.find(path)
        return None if node is None else sorted(node.children)

    def _tick(self):
        self.zxid += 1
        return self.zxid

    def create(self, path, value, owner, sequence):
        from kazoo import exceptions as e
        parent_path, name = path.rsplit("/", 1)
        parent = self.find(parent_path)
        if parent is None:
            raise e.NoNodeError()
        if parent.owner:
            raise e.NoChildrenForEphemeralsError()
        if sequence:
            name = "%s%010d" % (name, parent.sequence)
        elif name in parent.children or not name:
            raise e.NodeExistsError()
        parent.sequence += 1
        z = self._tick()
        parent.children[name] = Node(value, z, owner)
        parent.pzxid = z
        parent.cversion += 1
        full = parent_path + "/" + name
        self._fire(full, "data", "CREATED")
        self._fire(parent_path or "/", "child", "CHILD")
        return full

    def delete(self, path, version):
        from kazoo import exceptions as e
        parent_path, name = path.rsplit("/", 1)
        parent = self.find(parent_path)
        node = parent.children.get(name) if parent is not None else None
        if node is None:
            raise e.NoNodeError()
        if version not in (-1, node.version):
            raise e.BadVersionError()
        if node.children:
            raise e.NotEmptyError()
        del parent.children[name]
        parent.pzxid = self._tick()
        parent.cversion += 1
        self._fire(path, "data", "DELETED")
        self._fire(path, "child", "DELETED")
        self._fire(parent_path or "/", "child", "CHILD")
        return True

    def wipe(self, path):
        """Somebody else deletes a node and all below it."""
        for name in self.children(path) or ():
            self.wipe(path + "/" + name)
        if self.find(path) is not None:
            self.delete(path, -1)

    def set(self, path, value, version):
        from kazoo import exceptions as e
        node = self.find(path)
        if node is None:
            raise e.NoNodeError()
        if version not in (-1, node.version):
            raise e.BadVersionError()
        node.data = value
        node.version += 1
        node.mzxid = self._tick()
        self._fire(path, "data", "CHANGED")
        return self.stat(node)

    def stat(self, node):
        from kazoo.protocol.states import ZnodeStat
        return ZnodeStat(node.czxid, node.mzxid, 0, 0, node.version, node.cversion, 0,
                         node.owner, len(node.data), len(node.children), node.pzxid)

    def _fire(self, path, kind, event):
        for client in self.clients:
            client._trigger(path, kind, event)

    def end_session(self, session):
        """Closed or expired: its ephemeral nodes go."""
        if self.sessions.pop(session, None) is None:
            return

        def sweep(path, node):
            for name, child in sorted(node.children.items()):
                sweep(path + "/" + name, child)
                if child.owner == session:
                    self.delete(path + "/" + name, -1)
        sweep("", self.root)

    # ---- faults
    def crash(self, client):
        """The client's process is gone; its session lives on until it expires."""
        session = client._die()
        if session is not None:
            due = self.clock.now + self.SESSION_TIMEOUT

            def expire():
                self.sched.sleep(max(0.0, due - self.clock.now))
                self.end_session(session)
            self.sched.spawn(expire, "expiry")

    def drop(self, client, outage):
        """The client's connection is lost for `outage` seconds."""
        client._lose(outage)


class Handler(object):
    """kazoo's SequentialThreadingHandler, as far as recipes use it."""

    def __init__(self, client):
        self.client = client
        self.world = client.world
        from kazoo.handlers.threading import KazooTimeoutError
        self.timeout_exception = KazooTimeoutError
        self.name = "sim"

    def sleep_func(self, seconds):
        self.world.sched.sleep(seconds)

    def lock_object(self):
        return CoopLock(self.world)

    def rlock_object(self):
        return CoopRLock(self.world)

    def event_object(self):
        return threading.Event()

    def spawn(self, func, *args, **kwargs):
        return self.client._spawn(functools.partial(func, *args, **kwargs))

    def dispatch_callback(self, callback):
        self.client._enqueue("callback", functools.partial(callback.func, *callback.args))


def _check_type(value, kind, name):
    if not isinstance(value, kind):
        raise TypeError("Invalid type for '%s' (%s expected)" % (name, kind))


class FakeKazooClient(object):
    """Stand-in for kazoo.client.KazooClient."""

    def __init__(self, hosts="127.0.0.1:2181", timeout=10.0, **kwargs):
        from kazoo.recipe.lock import Lock
        from kazoo.recipe.watchers import ChildrenWatch, DataWatch
        from kazoo.retry import KazooRetry
        from kazoo.protocol.states import KazooState
        if ACTIVE is None:
            raise RuntimeError("no simulated zookeeper is active")
        _check_type(hosts, str, "hosts")
        self.world = ACTIVE
        self.index = len(self.world.clients)
        self.world.clients.append(self)
        self.hosts = hosts
        self.handler = Handler(self)
        self.state = KazooState.LOST
        self._state = "CLOSED"
        self.listeners = []
        self.client_id = None
        self.linked = False         # the connection to the ensemble is up
        self.epoch = 0
        self.generation = 0         # bumped when pending requests are failed
        self.stopped = False
        self.ended = False          # close() was called
        self.watches = {"data": {}, "child": {}}
        self.queues = {"callback": collections.deque(), "conn": collections.deque()}
        self.working = set()
        self.retry = self._make_retry(KazooRetry)
        self.ChildrenWatch = functools.partial(ChildrenWatch, self)
        self.DataWatch = functools.partial(DataWatch, self)
        self.Lock = functools.partial(Lock, self)

    def _make_retry(self, KazooRetry):
        base = KazooRetry(max_tries=None, sleep_func=self.handler.sleep_func)

        def retry(*args, **kwargs):
            return base.copy()(*args, **kwargs)
        return retry

    # ------------------------------------------------------------ own threads
    def _spawn(self, fn):
        def body():
            try:
                fn()
            except Exception as exc:
                self.world.errors.append(exc)
        return self.world.sched.spawn(body, "client%d" % self.index)

    def _enqueue(self, queue, fn, delay=None):
        q = self.queues[queue]
        w = self.world
        due = w.clock.now + (w.delay() if delay is None else delay)
        if q:
            due = max(due, q[-1][0])
        q.append((due, fn))
        w.sched.at(due)
        if queue not in self.working:
            self.working.add(queue)
            w.sched.spawn(functools.partial(self._worker, queue), "client%d.%s" % (self.index, queue))

    def _worker(self, queue):
        w, q = self.world, self.queues[queue]
        while True:
            if self.stopped and queue == "callback":
                q.clear()
            if not q:
                self.working.discard(queue)
                return
            w.sched.block(lambda: not q or w.clock.now >= q[0][0] or
                          (self.stopped and queue == "callback"), "events")
            if not q or w.clock.now < q[0][0]:
                continue
            _, fn = q.popleft()
            try:
                fn()
            except Exception as exc:
                w.errors.append(exc)

    # ------------------------------------------------------- connection states
    @property
    def connected(self):
        return self._state == "CONNECTED"

    def _change(self, state):
        if self.state == state:
            return
        self.state = state
        for listener in list(self.listeners):
            try:
                if listener(state) is True:
                    self.remove_listener(listener)
            except Exception as exc:
                self.world.errors.append(exc)

    def add_listener(self, listener):
        if not (listener and callable(listener)):
            raise TypeError("listener must be callable")
        if listener not in self.listeners:
            self.listeners.append(listener)

    def remove_listener(self, listener):
        if listener in self.listeners:
            self.listeners.remove(listener)

    def start(self, timeout=15):
        event = self.start_async()
        self.world.sched.block(event.is_set, "the connection")

    def start_async(self):
        event = threading.Event()
        if self._state == "CLOSED" and not self.linked:
            self.stopped = False
            self._state = "CONNECTING"
            self._enqueue("conn", functools.partial(self._link, event))
        return event

    def _link(self, event=None):
        from kazoo.protocol.states import KazooState
        w = self.world
        if self.stopped or self.linked:
            return
        if not w.up:
            self._enqueue("conn", functools.partial(self._link, event), delay=0.5)
            return
        session = self.client_id[0] if self.client_id else None
        if session is not None and session not in w.sessions:
            # told that the session has expired; a new one follows
            self.client_id = None
            self._state = "EXPIRED"
            self.generation += 1
            self._change(KazooState.LOST)
            if self.stopped:
                return
            self._state = "CONNECTING"
            self._enqueue("conn", functools.partial(self._link, event))
            return
        if session is None:
            session = w.next_session
            w.next_session += 1
            w.sessions[session] = self
            self.client_id = (session, b"\0" * 16)
        self.linked = True
        self._state = "CONNECTED"
        self._change(KazooState.CONNECTED)
        if event is not None:
            event.set()

    def _lose(self, outage):
        """Connection lost now; the client notices, and is back after `outage`."""
        w = self.world
        if not self.linked or self.stopped:
            return False
        self.linked = False
        self.epoch += 1
        watches, self.watches = self.watches, {"data": {}, "child": {}}
        session = self.client_id[0]
        if outage >= w.SESSION_TIMEOUT:
            due = w.clock.now + w.SESSION_TIMEOUT

            def expire():
                w.sched.sleep(max(0.0, due - w.clock.now))
                if self.client_id and self.client_id[0] == session and not self.linked:
                    w.end_session(session)
            w.sched.spawn(expire, "expiry")
        self._enqueue("conn", functools.partial(self._noticed, watches), delay=0.0)
        self._enqueue("conn", self._link, delay=outage)
        return True

    def _noticed(self, watches):
        from kazoo.protocol.states import KazooState, WatchedEvent
        if self.stopped:
            return
        self._state = "CONNECTING"
        self.generation += 1
        self._change(KazooState.SUSPENDED)
        event = WatchedEvent("NONE", "CONNECTING", None)
        for kind in ("child", "data"):
            for path in sorted(watches[kind]):
                for fn in watches[kind][path]:
                    self._enqueue("callback", functools.partial(fn, event))

    def _die(self):
        session = self.client_id[0] if self.client_id else None
        self.stopped = True
        self.linked = False
        self.epoch += 1
        self.generation += 1
        self._state = "CLOSED"
        self.watches = {"data": {}, "child": {}}
        for q in self.queues.values():
            q.clear()
        self.listeners = []
        return session

    def stop(self):
        from kazoo.protocol.states import KazooState
        if self.stopped:
            return
        w = self.world
        w.sched.switch()
        self.stopped = True
        if self.linked:
            w.end_session(self.client_id[0])
        elif self.client_id:
            session, due = self.client_id[0], w.clock.now + w.SESSION_TIMEOUT

            def expire():
                w.sched.sleep(max(0.0, due - w.clock.now))
                w.end_session(session)
            w.sched.spawn(expire, "expiry")
        self.linked = False
        self.epoch += 1
        self._state = "CLOSED"
        self.generation += 1
        self.watches = {"data": {}, "child": {}}
        self._change(KazooState.LOST)
        self.client_id = None
        # joins the handler's threads
        me = w.sched.current
        if not me.name.startswith("client%d." % self.index):
            w.sched.block(lambda: "callback" not in self.working, "the handler to stop")

    def close(self):
        self.ended = True

    # -------------------------------------------------------------- operations
    def _op(self, name, path, fn):
        from kazoo import exceptions as e
        w = self.world
        w.sched.switch()
        w.ops.append((round(w.clock.now, 6), self.index, name, path))
        if w.op_hook is not None:
            w.op_hook(self, name, path, "before")
        if self._state == "CLOSED":
            raise e.ConnectionClosedError("Connection has been closed")
        if self._state == "EXPIRED":
            raise e.SessionExpiredError()
        if not self.linked:
            generation = self.generation
            w.sched.block(lambda: self.linked or self.generation != generation,
                          "the connection to zookeeper")
            if self._state == "CLOSED":
                raise e.ConnectionClosedError("Connection has been closed")
            if self.client_id is None:
                raise e.SessionExpiredError()
            if not self.linked:
                raise e.ConnectionLoss()
        epoch = self.epoch
        error = result = None
        try:
            result = fn()
        except e.KazooException as exc:
            error = exc
        if w.op_hook is not None:
            w.op_hook(self, name, path, "after")
        w.sched.switch()
        if self.epoch != epoch:
            if self.stopped:
                raise e.ConnectionClosedError("Connection has been closed")
            # the answer was lost with the connection
            raise e.ConnectionLoss()
        if error is not None:
            raise error
        return result

    def _watch(self, kind, path, watch):
        if watch is not None:
            if not callable(watch):
                raise TypeError("watch must be a callable")
            fns = self.watches[kind].setdefault(path, [])
            if watch not in fns:
                fns.append(watch)

    def _trigger(self, path, kind, event):
        from kazoo.protocol.states import WatchedEvent
        for fn in self.watches[kind].pop(path, ()):
            self._enqueue("callback", functools.partial(fn, WatchedEvent(event, "CONNECTED", path)))

    def _owner(self, ephemeral):
        return self.client_id[0] if ephemeral else 0

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False,
               makepath=False, include_data=False):
        from kazoo import exceptions as e
        _check_type(path, str, "path")
        _check_type(value, bytes, "value")
        for flag, name in ((ephemeral, "ephemeral"), (sequence, "sequence"), (makepath, "makepath")):
            _check_type(flag, bool, name)

        def attempt():
            return self.world.create(path, value, self._owner(ephemeral), sequence)
        try:
            return self._op("create", path, attempt)
        except e.NoNodeError:
            if not makepath:
                raise
        self.ensure_path(path.rsplit("/", 1)[0])
        return self._op("create", path, attempt)

    def ensure_path(self, path, acl=None):
        from kazoo import exceptions as e
        _check_type(path, str, "path")
        if self.exists(path):
            return True
        parent = path.rsplit("/", 1)[0]
        if parent:
            self.ensure_path(parent)
        try:
            return self._op("create", path, lambda: self.world.create(path, b"", 0, False))
        except e.NodeExistsError:
            return True

    def exists(self, path, watch=None):
        _check_type(path, str, "path")

        def fn():
            self._watch("data", path, watch)
            node = self.world.find(path)
            return None if node is None else self.world.stat(node)
        return self._op("exists", path, fn)

    def get(self, path, watch=None):
        from kazoo import exceptions as e
        _check_type(path, str, "path")

        def fn():
            node = self.world.find(path)
            if node is None:
                raise e.NoNodeError()
            self._watch("data", path, watch)
            return node.data, self.world.stat(node)
        return self._op("get", path, fn)

    def get_children(self, path, watch=None, include_data=False):
        from kazoo import exceptions as e
        _check_type(path, str, "path")

        def fn():
            node = self.world.find(path)
            if node is None:
                raise e.NoNodeError()
            self._watch("child", path, watch)
            children = list(node.children)
            return (children, self.world.stat(node)) if include_data else children
        return self._op("get_children", path, fn)

    def set(self, path, value, version=-1):
        _check_type(path, str, "path")
        _check_type(value, bytes, "value")
        _check_type(version, int, "version")
        return self._op("set", path, lambda: self.world.set(path, value, version))

    def delete(self, path, version=-1, recursive=False):
        _check_type(path, str, "path")
        _check_type(version, int, "version")
        _check_type(recursive, bool, "recursive")
        if recursive:
            for name in self.get_children(path):
                self.delete(path + "/" + name, recursive=True)
        return self._op("delete", path, lambda: self.world.delete(path, version))

    def transaction(self):
        return Transaction(self)


class Transaction(object):
    def __init__(self, client):
        self.client = client
        self.operations = []
        self.committed = False

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False):
        _check_type(path, str, "path")
        _check_type(value, bytes, "value")
        _check_type(ephemeral, bool, "ephemeral")
        self.operations.append(("create", path, value, ephemeral, sequence))

    def delete(self, path, version=-1):
        _check_type(path, str, "path")
        self.operations.append(("delete", path, version))

    def set_data(self, path, value, version=-1):
        _check_type(path, str, "path")
        _check_type(value, bytes, "value")
        self.operations.append(("set", path, value, version))

    def check(self, path, version):
        self.operations.append(("check", path, version))

    def commit(self):
        """All or nothing; errors come back in the list, as kazoo gives them."""
        from kazoo import exceptions as e
        if self.committed:
            raise ValueError("Transaction already committed")
        self.committed = True
        w = self.client.world

        def fn():
            trial = _Trial(w, self.client)
            for i, op in enumerate(self.operations):
                try:
                    trial.apply(op)
                except e.KazooException as exc:
                    return [e.RolledBackError()] * i + [exc] + \
                        [e.RuntimeInconsistency()] * (len(self.operations) - i - 1)
            return [self._apply(op) for op in self.operations]
        return self.client._op("transaction", self.operations[0][1] if self.operations else "", fn)

    def _apply(self, op):
        w, c = self.client.world, self.client
        if op[0] == "create":
            return w.create(op[1], op[2], c._owner(op[3]), op[4])
        if op[0] == "delete":
            return w.delete(op[1], op[2])
        if op[0] == "set":
            return w.set(op[1], op[2], op[3])
        return True

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if not exc_type:
            self.commit()


class _Trial(object):
    """Would the operations succeed, one after the other?"""

    def __init__(self, world, client):
        self.world = world
        self.present = {}

    def exists(self, path):
        if path in self.present:
            return self.present[path]
        return self.world.find(path) is not None

    def apply(self, op):
        from kazoo import exceptions as e
        path = op[1]
        if op[0] == "create":
            if not self.exists(path.rsplit("/", 1)[0]):
                raise e.NoNodeError()
            if self.exists(path) and not op[4]:
                raise e.NodeExistsError()
            self.present[path] = True
        else:
            if not self.exists(path):
                raise e.NoNodeError()
            node = self.world.find(path)
            version = op[-1]
            if node is not None and version not in (-1, node.version):
                raise e.BadVersionError()
            if op[0] == "delete":
                if node is not None and node.children:
                    raise e.NotEmptyError()
                self.present[path] = False


def install():
    import kazoo.client
    kazoo.client.KazooClient = FakeKazooClient
    real_wait = threading.Event.wait

    def wait(self, timeout=None):
        w = ACTIVE
        if w is None or w.sched.killed or not w.sched.mine():
            return real_wait(self, timeout)
        if timeout is None:
            w.sched.block(self.is_set, "an event")
            return True
        due = w.clock.now + timeout
        w.sched.at(due)
        w.sched.block(lambda: self.is_set() or w.clock.now >= due, "an event, for a while")
        return self.is_set()

    threading.Event.wait = wait

    def lock_maker(original, again):
        def make(*args, **kwargs):
            if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "kiel":
                return OwnLock(again)
            return original(*args, **kwargs)
        return make

    threading.Lock = lock_maker(threading.Lock, False)
    threading.RLock = lock_maker(threading.RLock, True)
