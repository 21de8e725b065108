"""Histories of consuming, shared by the consumer checks."""
from kv.engine import check, one_of
from kv.scenario import IDLE, attempt, build, must_finish, outage_since, rarely, st_outage

CODECS = [0, 0, 1, 2]
HOLES = 4                           # added to a codec: offsets are missing, as in a compacted log


def st_log(max_batches=6, max_messages=5, holes=False):
    """[(topic, partition, number of messages, codec, padding)]"""
    from hypothesis import strategies as st
    return st.lists(st_append(max_messages, holes), max_size=max_batches)


def st_append(max_messages=5, holes=False, big=None):
    from hypothesis import strategies as st
    count = st.integers(1, max_messages)
    if big:
        count = rarely(count, st.just(big), 40)
    return st.tuples(st.integers(0, 2), st.integers(0, 3), count,
                     st.sampled_from(CODECS + ([HOLES, HOLES + 1] if holes else [])), st.sampled_from([0, 0, 5, 120]))


def st_fetch_fault(codes):
    from hypothesis import strategies as st
    code = st.sampled_from(codes)
    return one_of(
        st.tuples(st.just("err"), code, st.booleans()),
        st.tuples(st.just("err1"), code, st.integers(0, 5), st.booleans()),
        st.tuples(st.just("errs"), st.lists(st.sampled_from(list(codes) + [0]), min_size=2,
                                            max_size=4), st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 3, 4, 8, 15, 60])),
        st.tuples(st.just("delay"), st.sampled_from([5, 60, 900])),
        st.tuples(st.just("crash"), st.sampled_from([0, 10, 50]), st.booleans()),
        st.tuples(st.just("hide"), st.sampled_from([0, 5, 60])),
        st.tuples(st.just("move"), st.integers(0, 3), st.integers(0, 3)))


def st_events():
    from hypothesis import strategies as st
    i = st.integers(0, 5)
    ms = st.sampled_from([0, 2, 30])
    return [st.tuples(st.just("crash"), i, st.sampled_from([0, 10, 50]), ms),
            st.tuples(st.just("move"), i, i, i), st.tuples(st.just("drop"), i, st.booleans()),
            st.tuples(st.just("replica"), i, i, st.booleans()),
            st.tuples(st.just("election"), i, i, i, st.sampled_from([1, 10, 40])),
            st.tuples(st.just("restart"), i), st.tuples(st.just("sleep"), st.sampled_from(IDLE)),
            st.tuples(st.just("metaerr"), st.sampled_from([5, 9]), i, st.integers(1, 2))]


class Log(object):
    """Fills partitions with uniquely numbered messages."""

    def __init__(self, net, cluster, topology, info):
        self.net, self.cluster, self.info = net, cluster, info
        self.topics = build(cluster, topology)
        self.count = 0
        self.boundaries = {}        # (topic, partition) -> offsets where batches begin

    def part(self, topic, partition):
        name = self.topics[topic % len(self.topics)]
        parts = self.cluster.topics[name]
        pid = sorted(parts)[partition * 37 % len(parts)]        # like partition for up to 4
        return name, pid, parts[pid]

    def append(self, topic, partition, count, codec, pad):
        name, pid, part = self.part(topic, partition)
        recs = []
        for _ in range(count):
            recs.append((None, self.value(name, pid, pad)))
            self.count += 1
        starts = self.boundaries.setdefault((name, pid), [])
        if codec & HOLES:
            self.info.label("missing offsets")
        first = part.append(recs, codec & 3, holes=3 if codec & HOLES else 0)
        starts.extend([first] if codec else range(first, first + count))
        if codec and count > 1:
            self.info.label("compressed")

    def value(self, name, pid, pad):
        return ('{"n": %d, "t": "%s", "p": %d, "pad": "%s"}'
                % (self.count, name, pid, "x" * pad)).encode()

    def largest(self):
        sizes = [len(b[2]) for ps in self.cluster.topics.values() for p in ps.values()
                 for b in p.batches]
        return max(sizes or [1])


def crash_planned(cluster):
    return any(f and f[0] == "crash" for q in cluster.faults.values() for f in q)


def plan_faults(cluster, api, faults):
    """Queues faults, keeping one broker alive whatever happens."""
    live = len(cluster.live())
    planned = crash_planned(cluster)
    for f in faults:
        if f and f[0] == "crash":
            live -= 1
            if planned or live < 1:
                continue
        cluster.faults.setdefault(api, []).append(f)


def disturb(net, cluster, topics, step, info):
    """Executes one environment event; True if `step` was one."""
    kind = step[0]
    if kind == "crash":
        def crash():
            live = cluster.live()
            if len(live) > 1 and not crash_planned(cluster):
                cluster.crash(live[step[1] % len(live)], step[2])
                info.label("crash")
        if step[3]:
            net.loop.call_later(step[3] / 1000.0, crash)
        else:
            crash()
    elif kind == "outage":
        def outage():
            cluster.outage(step[2])
            info.label("outage")
        if step[1]:
            net.loop.call_later(step[1] / 1000.0, outage)
        else:
            outage()
    elif kind == "restart":
        down = [b for b in sorted(cluster.brokers) if not cluster.brokers[b].up]
        if down:
            cluster.restart(down[step[1] % len(down)])
    elif kind == "move":
        parts = cluster.topics[topics[step[1] % len(topics)]]
        part = parts[sorted(parts)[step[2] % len(parts)]]
        if not part.error:
            part.leader = cluster.pick(step[3])
            info.label("move")
    elif kind == "election":
        cluster.election(topics[step[1] % len(topics)], *step[2:])
        info.label("election")
    elif kind == "replica":
        parts = cluster.topics[topics[step[1] % len(topics)]]
        parts[sorted(parts)[step[2] % len(parts)]].replica_down = step[3]
    elif kind == "drop":
        b = cluster.brokers[sorted(cluster.brokers)[step[1] % len(cluster.brokers)]]
        for peer in list(b.peers.values()):
            peer.close(reset=step[2])
        b.peers.clear()
        info.label("drop")
    elif kind == "sleep":
        net.sleep(step[1] / 1000.0)
    elif kind == "metaerr":
        cluster.faults["metadata"] = [("err1", step[1], step[2], False)] * step[3]
        info.label("metadata error")
    else:
        return False
    return True


class Delivered(object):
    """What a consumer has handed out, per partition, in order."""

    def __init__(self):
        self.seen = {}

    def add(self, topic, values):
        check(isinstance(values, list), "consume() returned %r", values)
        for v in values:
            check(v["t"] == topic, "consume(%r) returned a message of %r", topic, v["t"])
            self.seen.setdefault((v["t"], v["p"]), []).append(v["n"])


def numbers(records):
    import json
    return [json.loads(v)["n"] for _, _, v in records]


def drain(net, cluster, consumer, topic, got, expected, start, rounds, consume=None):
    """Consumes until `expected` numbers per partition are there, or rounds without any run out."""
    cluster.hidden.clear()
    limit = rounds + sum(len(want) for want in expected.values())
    while rounds and limit:
        limit -= 1
        if all(len(got.seen.get((topic, p), [])) >= len(want) for p, want in expected.items()):
            return
        values = must_finish(net, (consume or consumer.consume)(topic, start), "consume()")
        got.add(topic, values)
        rounds -= not values
