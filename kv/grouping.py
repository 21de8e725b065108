"""Members of a group (PartitionAllocators) in a simulated ZooKeeper, with threads."""
import asyncio
import contextlib

from kv.engine import Violation, check
from kv.sim import zk
from kv.sim.net import Deadlock, Runaway

DELAYS = [(0.0,), (0.0, 0.02), (0.0, 0.3, 0.001), (0.05, 1.5, 0.0)]
NAMES = ["host-a:101", "host-b:7", "host-a:99", "zeta", "host-b:70"]


@contextlib.contextmanager
def zk_world(spec, net=None):
    seed, density, delays = spec[:3]
    with zk.World(net=net, seed=seed, density=density / 10.0, delays=DELAYS[delays],
                  preemption=(spec[3:] or (0,))[0] / 100.0) as w:
        w.loop = None
        if net is None:
            w.loop = asyncio.new_event_loop()
        try:
            yield w
        finally:
            if w.loop is not None:
                w.loop.close()


def st_schedule(preemptions=(0, 0, 1, 5, 20, 50)):
    """(seed, switch density in tenths, delivery delays, preemption of a line in percent)"""
    from hypothesis import strategies as st
    return st.tuples(st.integers(0, 10 ** 6), st.sampled_from([0, 1, 3, 5, 9]),
                     st.integers(0, len(DELAYS) - 1), st.sampled_from(preemptions))


def together(w, actions, what, gone=lambda i: False):
    """Runs the functions as concurrent threads until all are done; returns the tasks.

    Those for which gone(i) holds belong to a crashed process: nobody waits for them.
    """
    def thread(fn):
        def body():
            asyncio.set_event_loop(w.loop)
            return fn()
        return body
    tasks = [w.sched.spawn(thread(fn), name) for name, fn in actions]
    try:
        w.sched.block(lambda: all(t.done or gone(i) for i, t in enumerate(tasks)),
                      "the calls to finish")
    except (Deadlock, Runaway) as exc:
        raise Violation("%s never completes: %s" % (what, exc))
    return tasks


def settle(w, seconds=60.0):
    try:
        w.sched.settle(seconds)
    except (Deadlock, Runaway) as exc:
        raise Violation("the group never comes to rest: %s" % exc)


def unexpected(errors):
    """Exceptions that escaped in callbacks, other than for want of a connection."""
    from kazoo import exceptions as e
    return [x for x in errors if not isinstance(
        x, (e.ConnectionLoss, e.ConnectionClosedError, e.SessionExpiredError))]


# --- allocator functions (all stable)

def chunks(members, partitions):
    """Contiguous shares; members left without any are not mentioned."""
    out = {}
    if members:
        share = -(-len(partitions) // len(members)) or 1
        for i, p in enumerate(partitions):
            topic, pid = p.split(":")
            out.setdefault(members[i // share], {}).setdefault(topic, []).append(int(pid))
    return out


def first_takes_all(members, partitions):
    out = dict((m, {}) for m in members)
    for p in partitions:
        topic, pid = p.split(":")
        if members:
            out[members[0]].setdefault(topic, []).append(int(pid))
    return out


def plain(mapping):
    """Without the empty parts, so that allocators may or may not mention them."""
    return dict((m, dict((t, list(ps)) for t, ps in topics.items() if ps))
                for m, topics in mapping.items() if any(topics.values()))


class Member(object):
    def __init__(self, w, index, allocator_fn, told=True):
        from kiel.zookeeper.allocator import PartitionAllocator
        self.w = w
        self.name = NAMES[index]
        self.calls = []
        self.snapshots = []
        self.state = "new"
        before = len(w.clients)

        def recording(members, partitions):
            self.calls.append((list(members), list(partitions)))
            check(list(members) == sorted(set(members)) and
                  list(partitions) == sorted(set(partitions)),
                  "the allocator function was given %r, %r: not sorted", members, partitions)
            return allocator_fn(members, partitions)

        self.allocator = PartitionAllocator(
            ["zk1", "zk2"], "work", self.name, recording,
            **({"on_rebalance": lambda: self.snapshots.append(plain({"me": self.allocation()}))}
               if told else {}))
        self.told = told
        check(len(w.clients) == before + 1, "a member uses %d zookeeper clients",
              len(w.clients) - before)
        self.client = w.clients[-1]
        self.dropped = False

    def allocation(self):
        return dict((t, list(ps)) for t, ps in self.allocator.allocation.items())

    def mapping(self):
        return plain(self.allocator.mapping)

    def start(self, seed):
        future = self.allocator.start(seed)
        check(future is not None and future.done(), "start() returned %r, not a finished future",
              future)
        future.result()

    def stop(self):
        future = self.allocator.stop()
        check(future is not None and future.done(), "stop() returned %r, not a finished future",
              future)
        future.result()

    def crash(self):
        self.state = "dead"
        self.w.crash(self.client)


def partition_names(topics):
    return set("%s:%d" % (t, p) for t, ps in topics.items() for p in ps)


MEMBERS_PATH = "/kiel/groups/work/members"
SET_PATH = "/kiel/groups/work/partitions"


def stored_set(w):
    import json
    data = w.data(SET_PATH)
    return set(json.loads(data.decode())) if data else set()
