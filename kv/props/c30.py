ID = "C30"
RULE = ("Producers, single and grouped consumers, closed after and in the middle of generated calls, "
        "connect() included, with slow, failing and crashing brokers, lost connections and generated "
        "thread schedules, then called again, also before close() is done: it and every call under way "
        "complete, and from then on nothing is sent, connected, kept open or owned any more; calls made "
        "since give and send nothing. Non-trivial: a call was under way when the client was closed, or a "
        "fault struck around then.")
QUICK, THOROUGH = 1200, 12000

import asyncio

from kv import consuming, grouping
from kv.engine import Violation, check, one_of
from kv.scenario import IDS, build, must_finish, no_protocol_errors, st_topology, world
from kv.sim.net import Deadlock, Runaway

GROUP = "work"


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 2)
    call = st.tuples(st.sampled_from(["call", "call", "call", "other"]), i)
    fault = one_of(
        st.none(), st.tuples(st.just("err"), st.sampled_from([5, 6, 7, 15, 16, 29]), st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("delay"), st.sampled_from([5, 60])),
        st.tuples(st.just("crash"), st.sampled_from([10, 50]), st.booleans()))
    faults = st.lists(st.tuples(st.sampled_from(
        ["metadata", "produce", "fetch", "offset", "offset_fetch", "offset_commit"]), fault), max_size=3)
    event = one_of(st.tuples(st.just("crash"), i, st.sampled_from([10, 50]), st.sampled_from([0, 2])),
                      st.tuples(st.just("drop"), i, st.booleans()),
                      st.tuples(st.just("move"), i, i, i), st.tuples(st.just("outage")),
                      st.tuples(st.just("zkdrop"), st.sampled_from([0.01, 2.0, 10.5, 25.0])))
    return st.tuples(st.sampled_from(["producer", "single", "grouped"]), st_topology(max_topics=2),
                     consuming.st_log(max_batches=3), st.lists(call, max_size=3),
                     faults, st.lists(event, max_size=2), st.lists(call, max_size=2),
                     st.sampled_from([0, 0.0005, 0.0015, 0.003, 0.01, 0.05]),
                     st.lists(call, min_size=1, max_size=3), st.sampled_from([5, 400]),
                     st.lists(call, max_size=2), st.sampled_from([0, 0.0005, 0.0015, 0.004, 0.04]),
                     # closed that long after connect() was called, in steps of 0.1 ms
                     one_of(st.none(), st.none(), st.none(), st.integers(0, 60)),
                     grouping.st_schedule())


def run(case, info):
    (kind, topology, appends, before, faults, events, during, after_ms, later, wait, amid,
     amid_ms, connecting, schedule) = case
    with world(IDS[:topology[0]]) as (net, cluster), \
            grouping.zk_world(schedule, net=net) as w:
        from kazoo.exceptions import KazooException
        from kiel import exc
        from kiel.clients import GroupedConsumer, Producer, SingleConsumer
        log = consuming.Log(net, cluster, topology, info)
        for a in appends:
            log.append(*a)
        if kind == "producer":
            c = Producer(cluster.bootstrap())
        elif kind == "single":
            c = SingleConsumer(cluster.bootstrap(), max_wait_time=wait)
        else:
            c = GroupedConsumer(cluster.bootstrap(), GROUP, ["zk"], max_wait_time=wait)
        counter, last, late = iter(range(10 ** 6)), [None], []

        def call(step):
            topic = log.topics[step[1] % len(log.topics)]
            if step[0] == "other":
                topic = "unheard-of"
            if kind == "producer":
                last[0] = next(counter)
                return c.produce(topic, last[0])
            return c.consume(topic, c.BEGINNING) if kind == "single" else c.consume(topic)

        if connecting is None:
            must_finish(net, c.connect(), "connect()")
            for step in before:
                must_finish(net, call(step), "a call")
        down = dropped = False
        for e in events:
            if e[0] == "outage":
                down = True
                for b in list(cluster.live()):
                    cluster.crash(b)
                info.label("outage")
            elif e[0] == "zkdrop":
                if kind == "grouped":
                    dropped = True
                    w.drop(c.allocator.conn, e[1])
                    info.label("zookeeper connection lost")
            elif not down:
                consuming.disturb(net, cluster, log.topics, e, info)
        for api, fault in faults:
            if not down:
                consuming.plan_faults(cluster, api, [fault])
        first = len(cluster.fault_log)
        if connecting is None:
            under_way = [net.start(call(step)) for step in during]
        else:
            under_way = [net.start(c.connect())]
            info.label("connecting")
            after_ms = connecting / 10000.0
        if after_ms:
            net.sleep(after_ms)
        if any(not t.done() for t in under_way):
            info.nontrivial = True
            info.label("under way")
        closing = net.start(c.close())
        if amid and amid_ms:
            net.sleep(amid_ms)
        still = not closing.done()
        for step in amid:
            late.append((net.start(call(step)), last[0]))
        if amid and still:
            info.label("called while closing")
        try:
            must_finish(net, closing, "close()")
        except exc.NoBrokersError:
            check(down or any(f[0] == "metadata" for f in cluster.fault_log[first:]), "close() finds no brokers, with %r there", cluster.live())
        except KazooException:
            check(dropped, "close() fails for want of zookeeper")
        if len(cluster.fault_log) > first or events:
            info.nontrivial = True
        info.label(kind)
        try:
            net.run(asyncio.wait(under_way, timeout=600)) if under_way else None
        except (Deadlock, Runaway) as error:
            raise Violation("a call under way when the client was closed never completes: %s" % error)
        for task in under_way:
            check(task.done(), "a call under way when the client was closed never completes")
            error = task.exception()
            check(error is None or isinstance(error, exc.NoBrokersError),
                  "a call under way when the client was closed raised %r", error)
        for task, number in late:
            result = must_finish(net, task, "a call made while closing")
            check(not result, "a call made while closing gives %r", result)
        quiet(net, cluster, kind, w, "after close()")
        refused = set(str(number).encode() for _, number in late)
        for name, parts in cluster.topics.items():
            for part in parts.values():
                for _, _, value in part.records() if kind == "producer" else ():
                    check(value not in refused, "a message produced while closing, %r, is sent", value)
        count, connects = len(cluster.trace), len(net.connects)
        for step in later:
            result = must_finish(net, call(step), "a call after close()")
            check(not result, "a call after close() gives %r", result)
        net.sleep(2.0)
        check(len(cluster.trace) == count, "a call after close() sends a %s request",
              cluster.trace[count]["api"] if len(cluster.trace) > count else None)
        check(len(net.connects) == connects, "a call after close() opens a connection")
        quiet(net, cluster, kind, w, "in the end")
        no_protocol_errors(cluster)


def quiet(net, cluster, kind, w, when):
    net.sleep(5.0)
    count, connects = len(cluster.trace), len(net.connects)
    check(not net.open_sockets(), "%s %d connections are still open", when, len(net.open_sockets()))
    net.sleep(60.0)
    check(len(cluster.trace) == count, "%s requests are still being sent", when)
    check(len(net.connects) == connects, "%s connections are still being opened", when)
    if kind == "grouped":
        check(not w.sessions, "%s the zookeeper session lives on", when)
        check(not w.children(grouping.MEMBERS_PATH), "%s the group still has the member %r", when,
              w.children(grouping.MEMBERS_PATH))
