ID = "C32"
RULE = ("Two clients of generated kinds, each with its own history of calls, faults and a close() of its "
        "own, either of separate clusters whose brokers, topics and groups go by the same ids and names, "
        "or of one cluster and different topics; every history is run alone and then both at once in one "
        "process, and each client's calls must end in the same way, its brokers be sent the same requests "
        "and its partitions hold the same messages as when it was alone. Non-trivial: both clients send "
        "requests while the other is open.")
QUICK, THOROUGH = 500, 12000

import asyncio
import json
import re

from kv import consuming, grouping, wire
from kv.engine import check, one_of
from kv.scenario import IDS, RETRIABLE, TOPICS, must_finish, open_conns, st_topology
from kv.sim.kafka import Cluster
from kv.sim.net import Net

APIS = {"producer": ["produce", "metadata"], "single": ["fetch", "offset", "metadata"],
        "grouped": ["fetch", "group_coordinator", "offset_fetch", "offset_commit"]}
OWN = [["alpha", "beta.x"], ["gamma-2", "delta"]]


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 3)
    code = st.sampled_from(RETRIABLE)
    fault = one_of(
        st.none(), st.tuples(st.just("err"), code, st.booleans()),
        st.tuples(st.just("err1"), code, i, st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 4, 8])),
        st.tuples(st.just("delay"), st.sampled_from([5, 60])),
        st.tuples(st.just("garbage"), st.sampled_from(["correlation", "cut", "tiny"])))

    def client(kind):
        use = st.tuples(st.just("use"), i, i, st.integers(1, 3))
        other = [use, st.tuples(st.just("fault"), st.sampled_from(APIS[kind]), fault),
                 st.tuples(st.just("move"), i, i, i)]
        if kind != "producer":
            other.append(st.tuples(st.just("append"), consuming.st_append(max_messages=3)))
        if kind == "grouped":
            other.append(st.tuples(st.just("commit"), st.sampled_from(["", "note"])))
        else:
            other.append(st.tuples(st.just("seek" if kind == "single" else "flush"), i, i))
        step = st.tuples(st.sampled_from([0, 0, 1, 7, 40]), one_of(*[use] * 2 + other))
        return st.tuples(
            st.just(kind), st_topology(max_brokers=2, max_topics=2, max_partitions=3),
            consuming.st_log(max_batches=3, max_messages=3), st.lists(step, min_size=1, max_size=8),
            st.integers(0, 3), st.booleans())

    one = one_of(client("producer"), client("single"), client("grouped"))
    return st.tuples(one, one, st.sampled_from(["apart", "apart", "shared"]),
                     st.sampled_from([0, 0, 3, 20]))


class Side(object):
    """One client with its cluster and what came of its calls."""

    def __init__(self, net, cluster, index, names, spec, info):
        self.index = index
        self.net, self.cluster, self.names, self.spec, self.info = net, cluster, names, spec, info
        self.kind, topology, appends, self.steps, self.config, self.flag = spec
        self.outcomes = []
        self.count = 0
        for name, leaders in zip(names, topology[1]):
            live = cluster.live()
            cluster.create_topic(name, dict((p, live[b % len(live)]) for p, b in enumerate(leaders)))
        self.names = names[:len(topology[1])]
        if self.kind != "producer":
            for a in appends:
                self.append(*a)
        self.client = None
        self.open = False

    def make(self):
        from kiel.clients import GroupedConsumer, Producer, SingleConsumer
        hosts = self.cluster.bootstrap()
        if self.kind == "producer":
            self.client = Producer(
                hosts, batch_size=[0, 1, 2, 3][self.config], compression=[None, 1, 2, None][self.config],
                key_maker=lambda m: b"k%d" % (m["n"] % 3),
                partitioner=lambda key, ps: sorted(ps)[key[1] % len(ps)])
        elif self.kind == "single":
            self.client = SingleConsumer(hosts, max_wait_time=[1, 5, 20, 5][self.config])
        else:
            self.client = GroupedConsumer(hosts, "work%d" % self.index, ["zk"], max_wait_time=5,
                                          autocommit=self.flag)

    def part(self, topic, partition):
        name = self.names[topic % len(self.names)]
        parts = self.cluster.topics[name]
        return name, parts[sorted(parts)[partition % len(parts)]]

    def append(self, topic, partition, count, codec, pad):
        _, part = self.part(topic, partition)
        recs = []
        for _ in range(count):
            recs.append((None, json.dumps({"n": self.count, "pad": "x" * pad}).encode()))
            self.count += 1
        part.append(recs, codec)

    async def call(self, what, awaitable):
        try:
            value = await awaitable
        except Exception as exc:
            self.outcomes.append((what, type(exc).__name__))
        else:
            self.outcomes.append((what, sorted(m["n"] for m in value) if what == "consume" else value))

    async def drive(self, start):
        if start:
            await asyncio.sleep(start / 1000.0)
        self.make()
        self.open = True
        await self.call("connect", self.client.connect())
        for ms, step in self.steps:
            if ms:
                await asyncio.sleep(ms / 1000.0)
            kind = step[0]
            if kind == "use":
                name = self.names[step[1] % len(self.names)]
                if self.kind != "producer":
                    await self.call("consume", self.client.consume(name))
                    continue
                for _ in range(step[3]):
                    self.count += 1
                    await self.call("produce", self.client.produce(name, {"n": self.count}))
            elif kind == "append":
                self.append(*step[1])
            elif kind == "commit":
                await self.call("commit", self.client.commit_offsets(step[1]))
            elif kind == "flush":
                await self.call("flush", self.client.flush())
            elif kind == "seek":
                name = self.names[step[1] % len(self.names)]
                start = [self.client.BEGINNING, self.client.END][step[2] % 2]
                await self.call("consume", self.client.consume(name, start=start))
            elif kind == "fault":
                self.cluster.faults.setdefault(step[1], []).append(step[2])
            elif kind == "move":
                _, part = self.part(step[1], step[2])
                live = self.cluster.live()
                part.leader = live[step[3] % len(live)]
        await self.call("close", self.client.close())
        self.open = False

    def sent(self):
        """What its brokers were sent, in each broker's order."""
        out = {}
        for e in self.cluster.trace:
            out.setdefault(e["broker"], []).append((e["api"], plain(unwrapped(e["body"]))))
        return out

    def stored(self):
        """What its partitions hold; in no order, as calls may overlap in the log only per client."""
        return dict((name, self.cluster.log_values(name)) for name in self.names)

    def committed(self):
        return sorted((k, plain(v)) for k, v in self.cluster.committed.items() if k[1] in self.names)


def unwrapped(body):
    """With the messages of compressed sets, as gzip tells the time."""
    return dict(body, topics=[dict(t, partitions=[
        dict(p, message_set=[m for _, m in wire.unwrap(p["message_set"])])
        if isinstance(p, dict) and "message_set" in p else p for p in t["partitions"]])
        if isinstance(t, dict) else t for t in body["topics"]]) if "topics" in body else body


def first_difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b):
        return next(x for x in (first_difference(a[k], b[k]) for k in a if a[k] != b[k]))
    if isinstance(a, list) and isinstance(b, list):
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return n, a[n:n + 1], b[n:n + 1]
    return "all", a, b


def same(a, b, what, kind, other):
    if a != b:
        check(False, "%s of a %s differ beside a %s, from number %s: alone %r, now %r", what, kind, other,
              *first_difference(a, b))


def plain(x):
    return re.sub(r"[-.\w]+:\d{5,}", "(the member)", repr(x))


def run(case, info):
    one, two, how, start = case
    starts = (0, start)
    shared = how == "shared"
    if shared:          # no faults: they would be the other's, too
        one, two = [s[:3] + ([(ms, st) for ms, st in s[3] if st[0] not in ("fault", "move")],) + s[4:]
                    for s in (one, two)]
    alone = []
    for i, spec in enumerate((one, two)):
        alone.append(play({i: spec}, shared, starts, info)[i])
    both = play({0: one, 1: two}, shared, starts, info)
    for i in (0, 1):
        a, b = alone[i], both[i]
        args = a.kind, both[1 - i].kind
        same(a.outcomes, b.outcomes, "the outcomes", *args)
        same(a.stored(), b.stored(), "the partitions", *args)
        same(a.committed(), b.committed(), "the committed offsets", *args)
        if not shared:
            same(a.sent(), b.sent(), "the requests", *args)
    info.label("%s and %s, %s" % (tuple(sorted([one[0], two[0]])) + (how,)))


def play(specs, shared, starts, info):
    with Net() as net, grouping.zk_world((0, 0, 0), net=net) as w:
        clusters, sides = {}, {}
        for i in (0, 1):
            if shared and i:
                clusters[i] = clusters[0]
                continue
            clusters[i] = Cluster(net, IDS[:2 if shared else (specs.get(i) or (0, (1,)))[1][0]],
                                  domain="" if not i else ".two")
        for i, spec in sorted(specs.items()):
            sides[i] = Side(net, clusters[i], i, OWN[i] if shared else TOPICS[:2], spec, info)
        futures = [(s, net.start(s.drive(starts[i]))) for i, s in sorted(sides.items())]
        for s, f in futures:
            must_finish(net, f, "the work of a %s%s" % (
                s.kind, " beside a %s" % sides[1 - i].kind if len(sides) > 1 else ""))
        net.settle()
        check(open_conns(net) == [], "connections left open: %s", open_conns(net))
        check(not grouping.unexpected(w.errors), "a callback failed: %r", w.errors)
        for c in clusters.values():
            check(not c.protocol_errors, "a broker received a malformed request: %s",
                  c.protocol_errors[:3])
        if len(sides) > 1:
            times = [[e["t"] for e in clusters[i].trace] for i in (0, 1)]
            if all(times) and (shared or max(t[0] for t in times) <= min(t[-1] for t in times)):
                info.nontrivial = True
        return sides
