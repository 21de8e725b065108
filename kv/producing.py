"""Histories of producing, shared by the producer checks."""
import json

from kv import wire
from kv.engine import one_of
from kv.scenario import (IDLE, RETRIABLE, TOPICS, attempt, build, must_finish, rarely, st_outage, st_stubborn,
                         st_topology)

HUGE = 5000                     # a batch size
KEYS = [None, b"", b"a", b"k1", b"\x00\xff"]


def st_transport_fault():
    from hypothesis import strategies as st
    return one_of(
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 3, 4, 8, 15])),
        st.tuples(st.just("delay"), st.sampled_from([5, 60, 900])),
        st.tuples(st.just("crash"), st.sampled_from([0, 10, 50]), st.booleans()),
        st.tuples(st.just("move"), st.integers(0, 3), st.integers(0, 3)))


def st_code_fault(codes):
    from hypothesis import strategies as st
    code = st.sampled_from(codes)
    return one_of(
        st.tuples(st.just("err"), code, st.booleans()),
        st.tuples(st.just("err1"), code, st.integers(0, 5), st.booleans()),
        st.tuples(st.just("errs"), st.lists(st.sampled_from(list(codes) + [0]), min_size=2,
                                            max_size=4), st.booleans()))


def st_steps(faults, events, bursts=True, topics=3, max_steps=14, concurrent=True,
             outages=False):
    """The steps of a history; every step is a plain tuple."""
    from hypothesis import strategies as st
    topic = st.integers(0, topics - 1)
    key = st.integers(0, len(KEYS) - 1)
    part = st.integers(0, 5)
    size = st.sampled_from([0, 1, 1, 5, 40, 300])
    one = st.tuples(st.just("produce"), topic, key, part, size)
    many = st.tuples(st.just("many"), topic, st.sampled_from([1100, 2500]))
    kinds = [one] * 4 + [st.just(("flush",)),
             st.tuples(st.just("burst"), st.lists(st.tuples(topic, key, part, size),
                                                  min_size=2, max_size=6),
                       # ms between the calls; None: one after the other
                       st.sampled_from([None, 0, 0, 1, 12]) if concurrent else st.none())]
    if faults is not None:
        kinds += [st.tuples(st.just("fault"), rarely(
            st.lists(one_of(st.none(), faults), min_size=1, max_size=3), st_stubborn(RETRIABLE)))] * 2
    if events:
        ms = st.sampled_from([0, 2, 30])
        i = st.integers(0, 5)
        kinds += [st.tuples(st.just("crash"), i, st.sampled_from([0, 10, 50]), ms),
                  st.tuples(st.just("move"), i, i, i), st.tuples(st.just("drop"), i, st.booleans()),
                  st.tuples(st.just("restart"), i), st.tuples(st.just("sleep"), st.sampled_from(IDLE)),
                  st.tuples(st.just("metaerr"), st.sampled_from([5, 9]), i, st.integers(1, 2)),
                  st.tuples(st.just("election"), i, i, i, st.sampled_from([1, 10, 40])),
                  st.tuples(st.just("grow"), i, i),
                  st.tuples(st.just("away"), i), st.tuples(st.just("back"))]
    if outages:
        kinds += [st_outage()]
    if bursts:
        kinds += [many]
    return st.lists(one_of(*kinds), min_size=1, max_size=max_steps)


def st_config(batches=(0, None, 1, 1, 2, 3, 5, 50)):
    from hypothesis import strategies as st
    return st.tuples(rarely(st.sampled_from(batches), st.just(HUGE), 12), st.sampled_from([None, None, 1, 2]),
                     st.sampled_from([-1, -1, 1, 2]), st.sampled_from([500, 1, 30000]))


def st_case(faults=None, events=False, batches=(0, None, 1, 1, 2, 3, 5, 50), max_steps=14,
            concurrent=True, outages=False):
    from hypothesis import strategies as st
    first = st.just([])
    if faults is not None:
        first = st.lists(one_of(st.none(), faults), max_size=4)
    return st.tuples(st_topology(), st_config(batches),
                     st_steps(faults, events, max_steps=max_steps, concurrent=concurrent,
                              outages=outages),
                     st.sampled_from([0.0, 0.0, 0.02]), first)


class Sent(object):
    """One message handed to produce()."""

    def __init__(self, n, topic, key, part, size):
        self.n, self.topic, self.key, self.want = n, topic, key, part
        self.obj = {"n": n, "k": KEYS.index(key), "p": part, "pad": "x" * size}
        self.value = json.dumps(self.obj, sort_keys=True).encode()
        self.accepted = False


class History(object):
    """Runs the steps against a simulated cluster and keeps what happened."""

    def __init__(self, net, cluster, case, info):
        self.net, self.cluster, self.info = net, cluster, info
        topology, self.config, self.steps, stale, first = case
        self.steps = [("fault", first)] + self.steps
        self.topics = build(cluster, topology)
        cluster.stale = stale
        self.messages = []
        self.partitioner_calls = []
        self.told_at = self.told_then = None
        batch, compression, acks, timeout = self.config
        from kiel.clients import Producer
        self.producer = Producer(
            cluster.bootstrap(), key_maker=lambda m: KEYS[m["k"]],
            partitioner=self.choose, batch_size=batch, compression=compression,
            required_acks=acks, ack_timeout=timeout)
        self.last_choice = None
        self.away = {}          # topics the cluster doesn't know of at the moment
        self.exempt = set()     # messages produced to one of those

    def choose(self, key, partitions):
        # what is chosen is a function of the key alone, so retries agree
        self.partitioner_calls.append((key, sorted(partitions), self.told()))
        return sorted(partitions)[KEYS.index(key) % len(partitions)]

    def told(self):
        """The partition lists brokers have told the client of, per topic, oldest first."""
        state = (len(self.cluster.trace), self.net.reads)
        if self.told_at != state:
            self.told_at, self.told_then = state, self.all_told()
        return self.told_then

    def all_told(self):
        out = {}
        for e in self.cluster.trace:
            if e["api"] == "metadata":
                self.hear(out, e)
        return out

    def hear(self, told, entry):
        answer = self.cluster.received(entry)
        for t in answer["topics"] if answer else ():
            pids = sorted(p["partition_id"] for p in t["partitions"])
            if pids and pids not in told.setdefault(t["name"], [])[-1:]:
                told[t["name"]].append(pids)

    def connect(self):
        must_finish(self.net, self.producer.connect(), "connect()")

    def new(self, topic, key, part, size):
        m = Sent(len(self.messages), self.topics[topic % len(self.topics)], KEYS[key], part, size)
        self.messages.append(m)
        if m.topic in self.away:
            self.exempt.add(m)
        return m

    def bring_back(self):
        """The topics that went away are back, as they were."""
        for name, parts in sorted(self.away.items()):
            for pid, part in sorted(parts.items()):
                if not self.cluster.brokers[part.leader].up:
                    part.leader = self.cluster.pick(pid)
                part.error = 0
            self.cluster.topics[name] = parts
        self.away.clear()

    def produce(self, m):
        self.accept(m, self.producer.produce(m.topic, m.obj), "produce()", self.net.now)

    def accept(self, m, awaitable, what, began):
        _, down = attempt(self.net, self.cluster, awaitable, what, began)
        if not down:
            m.accepted = True
        elif m.topic not in self.away:
            self.info.label("produce() found no brokers")

    def safe_crash(self, k, ms):
        live = self.cluster.live()
        if len(live) > 1:
            self.cluster.crash(live[k % len(live)], ms)
            self.info.label("crash")

    def step(self, step):
        net, cluster = self.net, self.cluster
        kind = step[0]
        if kind in ("move", "election", "grow", "away") and \
                self.topics[step[1] % len(self.topics)] in self.away:
            return
        if kind == "away":
            name = self.topics[step[1] % len(self.topics)]
            self.away[name] = cluster.topics.pop(name)
            self.info.label("topic away")
        elif kind == "back":
            self.bring_back()
        elif kind == "produce":
            self.produce(self.new(*step[1:]))
        elif kind == "flush":
            attempt(net, cluster, self.producer.flush(), "flush()")
        elif kind == "outage":
            def outage():
                cluster.outage(step[2])
                self.info.label("outage")
            if step[1]:
                net.loop.call_later(step[1] / 1000.0, outage)
            else:
                outage()
        elif kind == "many":
            for n in range(step[2] if self.config[0] == HUGE else 3):
                self.produce(self.new(step[1], n % len(KEYS), n % 5, 1))
            if self.config[0] == HUGE:
                self.info.label("a thousand messages in a batch")
        elif kind == "burst":
            ms = [self.new(*args) for args in step[1]]
            if step[2] is not None:
                futures, began = [], net.now
                for m in ms:
                    futures.append(net.start(self.producer.produce(m.topic, m.obj)))
                    if step[2]:
                        net.sleep(step[2] / 1000.0)
                for m, f in zip(ms, futures):
                    self.accept(m, f, "one of several concurrent produce() calls", began)
                self.info.label("concurrent produce")
            else:
                for m in ms:
                    self.produce(m)
        elif kind == "fault":
            faults = []
            live = len(cluster.live())
            for f in step[1]:
                if f and f[0] == "crash":
                    live -= 1
                    if live < 1:
                        continue
                faults.append(f)
            # crashes are only planned while somebody is sure to stay
            if any(f and f[0] == "crash" for q in cluster.faults.values() for f in q):
                faults = [f for f in faults if not (f and f[0] == "crash")]
            cluster.faults.setdefault("produce", []).extend(faults)
        elif kind == "crash":
            if any(f and f[0] == "crash" for q in cluster.faults.values() for f in q):
                return
            if step[3]:
                net.loop.call_later(step[3] / 1000.0, self.crash_later, step[1], step[2])
            else:
                self.safe_crash(step[1], step[2])
        elif kind == "restart":
            down = [b for b in sorted(cluster.brokers) if not cluster.brokers[b].up]
            if down:
                cluster.restart(down[step[1] % len(down)])
        elif kind == "move":
            parts = cluster.topics[self.topics[step[1] % len(self.topics)]]
            part = parts[sorted(parts)[step[2] % len(parts)]]
            if not part.error:
                part.leader = cluster.pick(step[3])
                self.info.label("move")
        elif kind == "drop":
            b = cluster.brokers[sorted(cluster.brokers)[step[1] % len(cluster.brokers)]]
            for peer in list(b.peers.values()):
                peer.close(reset=step[2])
            b.peers.clear()
            self.info.label("drop")
        elif kind == "sleep":
            net.sleep(step[1] / 1000.0)
        elif kind == "election":
            cluster.election(self.topics[step[1] % len(self.topics)], *step[2:])
            self.info.label("election")
        elif kind == "grow":
            parts = cluster.topics[self.topics[step[1] % len(self.topics)]]
            if len(parts) < 6:
                cluster.grow(self.topics[step[1] % len(self.topics)], cluster.pick(step[2]))
                self.info.label("partition added")
        elif kind == "metaerr":
            cluster.faults["metadata"] = [("err1", step[1], step[2], False)] * step[3]

    def crash_later(self, k, ms):
        if not any(f and f[0] == "crash" for q in self.cluster.faults.values() for f in q):
            self.safe_crash(k, ms)

    def close(self):
        """True if it was done, False if there were no brokers."""
        if len(self.messages) % 3:
            self.net.sleep(0.2)
        _, down = attempt(self.net, self.cluster, self.producer.close(), "close()")
        self.net.settle()
        return not down

    # ---------------------------------------------------------------- oracles
    def logs(self):
        """[(topic, partition, offset, key, value)] of everything in the cluster."""
        return [(t, p, o, k, v) for t in sorted(self.cluster.topics)
                for p, recs in sorted(self.cluster.log_values(t).items()) for o, k, v in recs]

    def attempts(self):
        """Per message value: [(trace index, partition, code or None if unanswered)]."""
        out = {}
        for i, e in enumerate(self.cluster.trace):
            if e["api"] != "produce":
                continue
            answer = self.cluster.received(e)
            codes = {}
            if answer is not None:
                for t in answer["topics"]:
                    for p in t["partitions"]:
                        codes[(t["name"], p["partition_id"])] = p["error_code"]
            for t in e["body"]["topics"]:
                for p in t["partitions"]:
                    code = codes.get((t["name"], p["partition_id"]))
                    for _, m in wire.unwrap(p["message_set"]):
                        out.setdefault((t["name"], m["value"]), []).append(
                            (i, p["partition_id"], code))
        return out
