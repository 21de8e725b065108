ID = "C26"
RULE = ("Groups of 1-3 GroupedConsumers (with autocommit or explicit commits) that join, leave, crash "
        "between calls, lose ZooKeeper connections (also past expiry) and consume and commit "
        "concurrently, with threads switching also between any two lines, on 1-3 brokers, while messages "
        "are appended, topics and partitions added, coordinators and leaders moved, coordinators shut "
        "down, all brokers down for a while and fetches, commits and offset fetches fail transiently; "
        "every commit must cover only messages handed out, and all messages must be handed out in the "
        "end, by the members the allocator function gives them to. Non-trivial: messages were handed out "
        "by at least two members, or both before and after a change of membership.")
QUICK, THOROUGH = 540, 9000

import asyncio
import struct

from kv import consuming, grouping
from kv.engine import check, one_of
from kv.scenario import IDS, TOPICS, build, must_finish, no_protocol_errors, st_topology, world

GROUP = "work"
WAIT = 10               # each member waits a little longer, which tells their fetches apart


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 2)
    action = one_of(
        st.tuples(st.just("join"), i), st.tuples(st.just("join"), i),
        st.tuples(st.just("leave"), i), st.tuples(st.just("crash"), i),
        st.tuples(st.just("consume"), i, i), st.tuples(st.just("consume"), i, i),
        st.tuples(st.just("consume"), i, i), st.tuples(st.just("consume"), i, i),
        st.tuples(st.just("commit"), i))
    event = one_of(
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("zkdrop"), i, st.sampled_from([0.01, 1.0, 10.5])),
        st.tuples(st.just("coordinator"), i, st.booleans()), st.tuples(st.just("move"), i, i, i),
        st.tuples(st.just("drop"), i, st.booleans()), consuming.st_outage(),
        st.tuples(st.just("grow"), i, i), st.tuples(st.just("topic"), i))
    calm = one_of(
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("coordinator"), i, st.booleans()), st.tuples(st.just("move"), i, i, i),
        st.tuples(st.just("grow"), i, i), st.tuples(st.just("topic"), i))
    step = st.tuples(st.lists(event, max_size=2), st.lists(action, min_size=1, max_size=4),
                     st.sampled_from([0, 0, 0, 0, 0.05, 12.0, 4000.0]))
    orderly = st.tuples(st.lists(calm, max_size=2), st.lists(action, min_size=1, max_size=1),
                        st.sampled_from([0] * 7 + [4000.0]))
    code = st.sampled_from([14, 15, 16])
    fault = one_of(
        st.none(), st.tuples(st.just("err"), code, st.booleans()),
        st.tuples(st.just("err1"), code, i, st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("delay"), st.sampled_from([5, 90])))
    fetch_fault = one_of(st.none(), st.none(), consuming.st_fetch_fault([3, 5, 6, 7]).filter(
        lambda f: f[0] != "crash"))
    faults = st.tuples(st.lists(fetch_fault, max_size=3), st.lists(fault, max_size=3),
                       st.lists(fault, max_size=3))
    def after_joins(steps):
        return st.tuples(st.integers(1, 3), steps).map(
            lambda x: [([], [("join", 0)], 0)] * x[0] + x[1])
    # members come and go while the others are in the middle of their calls
    busy = st.lists(one_of(
        st.tuples(st.just("consume"), i, i), st.tuples(st.just("consume"), i, i),
        st.tuples(st.just("commit"), i)), min_size=1, max_size=3)
    change = st.sampled_from([("join", 0), ("join", 0), ("leave", 0), ("leave", 1), ("crash", 1)])
    racing = st.tuples(st.lists(st.tuples(st.just("append"), consuming.st_append()), max_size=1),
                       one_of(busy, st.tuples(change, busy).map(lambda x: [x[0]] + x[1])),
                       st.sampled_from([0, 0, 0.02, 12.0]))
    log = consuming.st_log(max_batches=4)
    size = st.sampled_from(["big", "tight"])
    # where others of the group left off before: (partition, which beginning of a batch)
    prior = st.lists(st.tuples(i, i, i, st.just(False)), max_size=2)
    allocator = st.sampled_from([None, None, "chunks", "first"])
    return one_of(
        st.tuples(st.just("orderly"), st_topology(max_topics=2), log,
                  after_joins(st.lists(orderly, min_size=2, max_size=12)),
                  st.just(((), (), ())), st.just(True), size, grouping.st_schedule(), st.just(0),
                  prior, allocator),
        st.tuples(st.just("wild"), st_topology(max_topics=2), log,
                  after_joins(st.lists(racing, min_size=2, max_size=8)), st.just(((), (), ())),
                  st.booleans(), size, grouping.st_schedule([5, 20, 50]), st.just(0), prior, allocator),
        st.tuples(st.just("wild"), st_topology(max_topics=2), log,
                  after_joins(st.lists(step, min_size=1, max_size=9)),
                  one_of(st.just(((), (), ())), faults), st.booleans(), size,
                  grouping.st_schedule(), st.just(0), prior, allocator))


class Consumer(object):
    def __init__(self, w, cluster, autocommit, size, index, allocator):
        from kiel.clients import GroupedConsumer
        before = len(w.clients)
        self.consumer = GroupedConsumer(
            cluster.bootstrap(), GROUP, ["zk"], autocommit=autocommit, partition_allocator=allocator,
            max_wait_time=WAIT + index, max_bytes=size)
        self.client = w.clients[before]
        self.state = "new"
        self.since = len(cluster.trace) - 1


def run(case, info):
    import kiel.clients.consumer as module
    names = iter(range(100, 1000))
    module.id = lambda _: next(names)       # member names are made of it
    try:
        history(case, info)
    finally:
        del module.id


def history(case, info):
    from kazoo.exceptions import KazooException
    from kiel.exc import NoBrokersError
    kind, topology, appends, steps, faults, autocommit, size, schedule, lost, prior = case[:10]
    allocator = {"chunks": grouping.chunks, "first": grouping.first_takes_all}.get(
        (case[10:] or (None,))[0])
    with world(IDS[:topology[0]]) as (net, cluster), \
            grouping.zk_world(schedule, net=net) as w:
        log = consuming.Log(net, cluster, topology, info)
        for a in appends:
            log.append(*a)
        done = {}                   # (topic, partition) -> offset the group begins at
        for t, p, n, raw in prior:
            name, pid, part = log.part(t, p)
            edges = log.boundaries.get((name, pid), []) + [part.end]
            done[(name, pid)] = n if raw else edges[n % len(edges)]
            cluster.committed[(GROUP, name, pid)] = (done[(name, pid)], "")
            info.label("committed before")
        old = set(n for (name, pid), offset in done.items() for o, n in zip(
            [r[0] for r in cluster.topics[name][pid].records()],
            consuming.numbers(cluster.topics[name][pid].records())) if o < offset)
        for api, plan in zip(("fetch", "offset_fetch", "offset_commit"), faults):
            consuming.plan_faults(cluster, api, plan)
        deliveries = []             # (first, last index in the trace, [message numbers])
        handed = set()
        members = []
        dropped = set()
        by = {}
        orderly = kind == "orderly"     # one call at a time, and nothing goes wrong
        # room for one batch of any partition, at least
        most = max(map(len, topology[1]))
        room = 1 << 20 if size == "big" else 5000 + 1000 * (most if most > 4 else 0)

        async def act(m, action):
            kind, began = action[0], net.now
            try:
                if kind == "join":
                    await m.consumer.connect()
                    m.state = "up"
                elif kind == "leave":
                    await m.consumer.close()
                    m.state = "gone"
                elif kind == "consume":
                    await consume(m, log.topics[action[2] % len(log.topics)])
                elif kind == "commit":
                    await m.consumer.commit_offsets()
            except KazooException:
                if m not in dropped:
                    raise
                m.state = "gone"        # the user gives up on it
                w.crash(m.client)
            except NoBrokersError:
                check(consuming.outage_since(cluster, began), "%s finds no brokers, with %r there",
                      kind, cluster.live())
                if kind == "join":
                    m.state = "gone"
                    w.crash(m.client)

        async def consume(m, topic):
            first = len(cluster.trace)
            values = await m.consumer.consume(topic)
            check(isinstance(values, list), "consume() returned %r", values)
            last = len(cluster.trace)
            got = [v["n"] for v in values]
            for v in values:
                check(v["t"] == topic, "consume(%r) returned a message of %r", topic, v["t"])
            deliveries.append((first, last, got))
            if orderly:
                check(not handed.intersection(got), "messages %r are handed out again, with nothing "
                      "having gone wrong", sorted(handed.intersection(got)))
            check(not old.intersection(got), "messages %r are handed out, though committed before by "
                  "the group", sorted(old.intersection(got)))
            handed.update(got)
            for n in got:
                by.setdefault(m, set()).add(n)
                if any(x is not m for x in by):
                    info.nontrivial = True

        def find(index):
            ups = [m for m in members if m.state == "up"]
            return ups[index % len(ups)] if ups else None

        def gather(todo):
            async def both():
                await asyncio.gather(*[act(m, a) for m, a in todo])
            must_finish(net, both(), "one of %r" % [a[0] for _, a in todo])

        for events, actions, pause in steps:
            for e in events:
                if e[0] == "append":
                    log.append(*e[1])
                elif e[0] == "zkdrop":
                    m = find(e[1])
                    if m is not None:
                        dropped.add(m)
                        w.drop(m.client, e[2])
                        info.label("zookeeper connection lost")
                elif e[0] == "coordinator":
                    cluster.move_coordinator(GROUP, cluster.pick(e[1]), e[2])
                    info.label("coordinator moved")
                elif e[0] == "grow":
                    parts = cluster.topics[log.topics[e[1] % len(log.topics)]]
                    if len(parts) < 5:
                        from kv.sim.kafka import Partition
                        parts[len(parts)] = Partition(cluster.pick(e[2]))
                        info.label("partition added")
                elif e[0] == "topic":
                    rest = [t for t in TOPICS if t not in log.topics]
                    if rest:
                        cluster.create_topic(rest[0], {0: cluster.pick(e[1])})
                        log.topics = log.topics + rest[:1]
                        info.label("topic added")
                else:
                    consuming.disturb(net, cluster, log.topics, e, info)
            todo = []
            for a in actions:
                if a[0] == "join":
                    if sum(m.state == "up" for m in members) < 3:
                        m = Consumer(w, cluster, autocommit, room, len(members), allocator)
                        m.state = "joining"
                        members.append(m)
                        todo.append((m, a))
                        if handed:
                            info.nontrivial = True
                    continue
                m = find(a[1])
                # one thing at a time, except for consuming several topics
                if m is None or any(x is m and (a[0] != "consume" or b[0] != "consume" or
                                                a[2] % len(log.topics) == b[2] % len(log.topics))
                                    for x, b in todo):
                    continue
                if a[0] == "crash":
                    m.state = "gone"
                    w.crash(m.client)
                    info.label("crash")
                    pause = pause or (20.0 if orderly else 0)
                    continue
                if a[0] == "commit" and autocommit:
                    continue
                todo.append((m, a))
                info.label(a[0])
            if todo:
                gather(todo)
                if orderly and todo[0][1][0] != "consume":
                    pause = 20.0        # everybody has heard of it
            if pause:
                net.sleep(pause)
        # in the end: everybody still there, and one more, with nothing in the way
        cluster.faults.clear()
        if lost:
            for parts in cluster.topics.values():
                for p in parts.values():
                    p.truncate_before(lost)
        net.sleep(30.0)
        last = Consumer(w, cluster, autocommit, room, len(members), allocator)
        members.append(last)
        dropped.discard(last)
        gather([(last, ("join",))])
        net.sleep(30.0)
        total = set(consuming.numbers(r for t in log.topics for p in cluster.topics[t].values()
                                      for r in p.records())) - old
        rounds = 12 + 2 * len(total)
        for _ in range(rounds):
            if handed >= total:
                break
            for m in members:
                if m.state == "up":
                    for i in range(len(log.topics)):
                        gather([(m, ("consume", 0, i))])
                        if not autocommit:
                            gather([(m, ("commit",))])
        check(handed >= total, "messages %r are never handed out", sorted(total - handed)[:20])
        check(handed <= set(range(log.count)), "made-up messages: %r",
              sorted(handed - set(range(log.count))))
        follows(w, cluster, members, log.topics, allocator, gather)
        commits_cover_deliveries(cluster, log, deliveries, autocommit, old)
        fetches_resume(cluster, [m.since for m in members])
        for m in members:
            if m.state == "up":
                m.state = "leaving"
                gather([(m, ("leave",))])
        bad = grouping.unexpected(w.errors)
        check(not bad, "a callback failed: %r", bad)
        no_protocol_errors(cluster)


def follows(w, cluster, members, topics, allocator, gather):
    """A group at rest divides the partitions as the allocator function says."""
    from kiel.clients import grouped
    live = dict((m.consumer.name, m) for m in members if m.state == "up")
    expected = grouping.plain((allocator or grouped.naive_allocator)(
        sorted(live), sorted(grouping.stored_set(w))))
    for name, m in sorted(live.items()):
        first = len(cluster.trace)
        for _ in range(2):
            for i in range(len(topics)):
                gather([(m, ("consume", 0, i))])
        fetched = set((t["name"], p["partition_id"]) for e in cluster.trace[first:]
                      if e["api"] == "fetch" for t in e["body"]["topics"] for p in t["partitions"])
        own = set((t, p) for t, ps in expected.get(name, {}).items() for p in ps)
        check(fetched == own, "a member fetches %r, its share is %r", sorted(fetched), sorted(own))


def commits_cover_deliveries(cluster, log, deliveries, autocommit, old):
    numbers = {}                    # (topic, partition) -> [number of the message at each offset]
    for t in log.topics:
        for pid, p in cluster.topics[t].items():
            numbers[(t, pid)] = [(r[0], n) for r, n in zip(p.records(), consuming.numbers(p.records()))]
    for index, entry in enumerate(cluster.trace):
        for t, pid, offset in entry.get("committed") or ():
            wanted = set(n for o, n in numbers[(t, pid)] if o < offset) - old
            part = cluster.topics[t][pid]
            check(0 <= offset <= part.end, "offset %d is committed for %s:%d, the log has %d",
                  offset, t, pid, part.end)
            for first, last, got in deliveries:
                if last <= index or (autocommit and first <= index):
                    wanted.difference_update(got)
            check(not wanted, "offset %d is committed for %s:%d, though messages %r were never "
                  "handed out", offset, t, pid, sorted(wanted)[:10])


def fetches_resume(cluster, since):
    """Every fetch goes on where that member's last one ended, or resumes as committed.

    since: number of a member -> index in the trace from when on it has been there
    """
    positions = {}                  # (member, topic, partition) -> offsets it may be at
    told = {}                       # (topic, partition) -> [(index, offset)] given as committed
    owner = dict((e["conn"], e["body"]["max_wait_time"] - WAIT) for e in cluster.requests("fetch"))

    def at(member, key):
        start, at = positions.get((member,) + key, (since[member], set()))
        return at.union(o for i, o in told.get(key, ()) if i > start)

    for index, entry in enumerate(cluster.trace):
        body, answer = entry["body"], entry["answer"]
        if entry["api"] == "offset_commit" and entry["conn"] in owner:
            member = owner[entry["conn"]]
            for t in body["topics"]:
                for p in t["partitions"]:
                    key = (t["name"], p["partition_id"])
                    check(p["offset"] in at(member, key), "member %d commits offset %d of %s:%d, where "
                          "it is not at (%r)", member, p["offset"], key[0], key[1],
                          sorted(at(member, key)))
        if answer is None:
            continue
        if entry["api"] == "offset_fetch":
            for t in answer["topics"]:
                for p in t["partitions"]:
                    if not p["error_code"]:
                        told.setdefault((t["name"], p["partition_id"]), []).append(
                            (index, max(p["offset"], 0)))
        elif entry["api"] == "fetch":
            member = body["max_wait_time"] - WAIT
            for t, answers in zip(body["topics"], answer["topics"]):
                for p, a in zip(t["partitions"], answers["partitions"]):
                    key = (t["name"], p["partition_id"])
                    check(p["offset"] in at(member, key), "member %d fetches %s:%d from offset %d, neither where "
                          "it left off nor as committed (%r)", member, key[0], key[1], p["offset"],
                          sorted(at(member, key)))
                    positions[(member,) + key] = (index, set([p["offset"]] + end(a["message_set"])))


def end(raw):
    """[the offset after the last complete message of a set]"""
    out, pos = [], 0
    while pos + 12 <= len(raw):
        offset, size = struct.unpack(">qi", raw[pos:pos + 12])
        pos += 12 + size
        if pos <= len(raw):
            out = [offset + 1]
    return out
