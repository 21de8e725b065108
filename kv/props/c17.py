ID = "C17"
RULE = ("Logs on 1-3 brokers (1-3 topics of 1-124 partitions, compressed and plain batches, rarely of "
        "hundreds of messages, offsets missing) read from the beginning while more is appended, leaders "
        "move and are elected, brokers crash and return, connections drop, no broker is up for a while, "
        "or none knows of the topic, hours pass, fetch and offset requests fail with every error code but "
        "out-of-range, also dozens of times in a row, topics are consumed in turn or at the same time, "
        "fetch sizes cut batches; once things settle, what consume() handed out per partition is exactly "
        "the log, in order, nothing twice. Non-trivial: at least two messages and one fault, event, or "
        "cut fetch.")
QUICK, THOROUGH = 1500, 20000

from kv import consuming
from kv.engine import check, one_of
from kv.scenario import (IDS, FATAL, RETRIABLE, UNDOCUMENTED, must_finish, no_protocol_errors, open_conns,
                         rarely, st_stubborn, st_topology, world)

CODES = [c for c in RETRIABLE * 2 + FATAL + UNDOCUMENTED if c != 1]


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 2)
    fault = one_of(st.none(), consuming.st_fetch_fault(CODES))
    faults = rarely(st.lists(fault, min_size=1, max_size=3), st_stubborn([c for c in RETRIABLE if c != 1]))
    consume = st.tuples(st.just("consume"), i)
    append = consuming.st_append(holes=True, big=700).map(lambda a: ("append",) + a)
    step = one_of(consume, consume, consume, consume, append, append, append,
                     st.tuples(st.just("unknown"), st.sampled_from([0, 1, 3])),
                     st.tuples(st.just("together"), st.lists(i, min_size=2, max_size=3, unique=True),
                               st.sampled_from([0, 0, 1, 3, 25])),
                     st.tuples(st.just("while"), i, consuming.st_append(holes=True), st.sampled_from([1, 30])),
                     st.tuples(st.just("fault"), st.sampled_from(["fetch", "fetch", "offset"]), faults),
                     consuming.st_outage(), *consuming.st_events())
    return st.tuples(st_topology(), consuming.st_log(holes=True), st.lists(step, max_size=14),
                     st.sampled_from(["big", "big", "tight"]), st.sampled_from([0, 40, 1000]),
                     st.sampled_from([0.0, 0.0, 0.02]), st.lists(fault, max_size=2))


def run(case, info):
    topology, initial, steps, size, max_wait, stale, first = case
    with world(IDS[:topology[0]]) as (net, cluster):
        from kiel.clients import SingleConsumer
        log = consuming.Log(net, cluster, topology, info)
        cluster.stale = stale
        for a in initial:
            log.append(*a)
        args = {}
        if size == "tight":
            # one whole batch always fits, whatever the number of partitions asked for
            most = max(len(p) for p in cluster.topics.values())
            appends = [s[1:] for s in steps if s[0] == "append"] + \
                [s[2] for s in steps if s[0] == "while"] + list(initial)
            args["max_bytes"] = most * max([150 + (60 + a[4]) * a[2] for a in appends] or [200])
            info.label("tight")
        elif any(len(p) > 4 for p in cluster.topics.values()):
            args["max_bytes"] = 1 << 25         # enough for a batch for each of them
        c = SingleConsumer(cluster.bootstrap(), max_wait_time=max_wait, **args)
        must_finish(net, c.connect(), "connect()")
        consuming.plan_faults(cluster, "fetch", first)
        got = consuming.Delivered()

        def give(topic, awaitable, what, began=None):
            values, down = consuming.attempt(net, cluster, awaitable, what, began)
            if not down:
                got.add(topic, values)

        def consume(topic):
            give(topic, c.consume(topic, c.BEGINNING), "consume()")

        for step in steps:
            if step[0] == "append":
                log.append(*step[1:])
            elif step[0] == "consume":
                topic = log.topics[step[1] % len(log.topics)]
                consume(topic)
            elif step[0] == "unknown":
                began = net.now
                f = net.start(c.consume("nowhere"))
                net.sleep(step[1] / 1000.0)
                topic = log.topics[0]
                consume(topic)
                check(consuming.attempt(net, cluster, f, "consume()", began)[0] in ([], None),
                      "consume() of an unknown topic gave something")
            elif step[0] == "while":
                net.loop.call_later(step[3] / 1000.0, log.append, *step[2])
                topic = log.topics[step[1] % len(log.topics)]
                consume(topic)
                net.sleep(0.05)
            elif step[0] == "together":
                names = sorted(set(log.topics[i % len(log.topics)] for i in step[1]))
                futures, began = [], net.now
                for n in names[::-1] if step[1][0] > step[1][1] else names:
                    futures.append((n, net.start(c.consume(n, c.BEGINNING))))
                    if step[2]:
                        net.sleep(step[2] / 1000.0)
                for n, f in futures:
                    give(n, f, "one of several concurrent consume() calls", began)
                if len(names) > 1:
                    info.label("together")
            elif step[0] == "fault":
                consuming.plan_faults(cluster, step[1], step[2])
            else:
                consuming.disturb(net, cluster, log.topics, step, info)
        if log.count > 1 and (cluster.fault_log or size == "tight" or
                              any(s[0] in ("move", "drop") for s in steps)):
            info.nontrivial = True
        cluster.faults.clear()
        net.sleep(0.2)
        net.settle()
        for topic in log.topics:
            expected = dict((p, consuming.numbers(r)) for p, r in cluster.log_values(topic).items())
            consuming.drain(net, cluster, c, topic, got, expected, c.BEGINNING, 10 + 2 * log.count)
            for p, want in expected.items():
                have = got.seen.pop((topic, p), [])
                check(have == want, "partition %d of %r holds messages %r, consume() gave %r",
                      p, topic, want, have)
        check(not got.seen, "messages of unknown partitions: %r", got.seen)
        must_finish(net, c.close(), "close()")
        net.settle()
        no_protocol_errors(cluster)
        check(open_conns(net) == [], "connections left open after close(): %s", open_conns(net))
