ID = "C16"
RULE = ("Produce/flush/close sequences over 1-3 topics (also unknown and auto-created ones) on a quiet "
        "cluster, with pauses up to an hour, with batch sizes from none to larger than the history "
        "(thousands of messages too), where now and then a whole flush is refused for a retriable reason "
        "and joins the next batch; after every call the brokers hold exactly the messages of the "
        "completed batches, each partition in produce order, each flush being one request per leader; "
        "close() sends the rest and what is produced during or after it is ignored. Non-trivial: a batch "
        "of two or more messages completes, or close() flushes some.")
QUICK, THOROUGH = 1800, 20000

from kv import producing
from kv.engine import check, one_of
from kv.scenario import IDLE, IDS, RETRIABLE, must_finish, no_protocol_errors, open_conns, st_topology, world


def strategy():
    from hypothesis import strategies as st
    topic = st.integers(0, 3)
    key = st.integers(0, len(producing.KEYS) - 1)
    one = st.tuples(st.just("produce"), topic, key, st.just(0), st.sampled_from([0, 3, 60]))
    step = one_of(one, one, one, one, one, st.just(("flush",)),
                     st.tuples(st.just("unknown"), st.booleans()),
                     st.tuples(st.just("sleep"), st.sampled_from(IDLE[3:])),
                     st.tuples(st.just("many"), topic, st.sampled_from([1100, 2500])),
                     st.tuples(st.just("refuse"), st.sampled_from(RETRIABLE)))
    return st.tuples(st_topology(), producing.st_config((None, 0, 1, 2, 2, 3, 4, 7, 100)),
                     st.lists(step, max_size=25), st.just(0.0), st.just([]), st.booleans(),
                     st.lists(one, max_size=2))


def run(case, info):
    auto, late = case[5:]
    with world(IDS[:case[0][0]]) as (net, cluster):
        h = producing.History(net, cluster, case[:5], info)
        h.connect()
        batch = h.config[0]
        pending, stored = [], []
        if auto:
            # a topic the client has not heard of yet, there once it looks again
            cluster.create_topic("later", {0: IDS[0], 1: IDS[case[0][0] - 1]})
            h.topics = h.topics + ["later"]

        def refused(code):
            """The coming flush is refused, for now, by all brokers."""
            leaders = set(cluster.topics[m.topic][sorted(cluster.topics[m.topic])[
                producing.KEYS.index(m.key) % len(cluster.topics[m.topic])]].leader for m in pending)
            cluster.faults["produce"] = [("err", code, False)] * len(leaders)
            info.label("refused")

        def flushed(reqs_before, code=None):
            requests = cluster.requests("produce")[reqs_before:]
            per_leader = {}
            for m in pending:
                parts = cluster.topics[m.topic]
                pid = sorted(parts)[producing.KEYS.index(m.key) % len(parts)]
                per_leader.setdefault(parts[pid].leader, set()).add(m.n)
            check(sorted(e["broker"] for e in requests) == sorted(per_leader), "a flush of %d "
                  "messages made requests to brokers %s, their leaders are %s", len(pending),
                  sorted(e["broker"] for e in requests), sorted(per_leader))
            if len(pending) > 1:
                info.nontrivial = True
            if code is not None:
                check(not cluster.faults.get("produce"), "a request less than expected")
                return
            stored.extend(pending)
            del pending[:]

        def compare(when):
            expected = {}
            for m in stored:
                parts = cluster.topics[m.topic]
                pid = sorted(parts)[producing.KEYS.index(m.key) % len(parts)]
                expected.setdefault((m.topic, pid), []).append((m.key, m.value))
            actual = {}
            for t, p, _, k, v in h.logs():
                actual.setdefault((t, p), []).append((k, v))
            check(actual == expected, "after %s the logs hold %r, expected %r", when, actual, expected)

        code = None                 # what the next flush is refused with
        for step in h.steps:
            before = len(cluster.requests("produce"))
            if step[0] == "produce":
                m = h.new(*step[1:])
                pending.append(m)
                full = not batch or len(pending) >= batch
                if full and code is not None:
                    refused(code)
                h.produce(m)
                if full:
                    flushed(before, code)
                    code = None
            elif step[0] == "many":
                if batch == producing.HUGE and len(pending) + step[2] < batch:
                    for n in range(step[2]):
                        pending.append(h.new(step[1], n % len(producing.KEYS), 0, 1))
                        h.produce(pending[-1])
                    info.label("a thousand messages in a batch")
            elif step[0] == "flush":
                if pending and code is not None:
                    refused(code)
                h.step(step)
                flushed(before, code if pending else None)
                if pending:
                    code = None
            elif step[0] == "sleep":
                net.sleep(step[1] / 1000.0)
            elif step[0] == "refuse":
                code = step[1]
            elif step[0] == "unknown":
                must_finish(net, h.producer.produce("nowhere" if step[1] else "", {"n": -1}),
                            "produce() to an unknown topic")
                info.label("unknown topic")
            compare(step[0])
            check(h.producer.unsent_count == len(pending), "unsent_count is %d, %d messages wait",
                  h.producer.unsent_count, len(pending))
        before = len(cluster.requests("produce"))
        closing = net.start(h.producer.close())
        net.loop.call_soon(net.loop.stop)
        net.loop.run_forever()
        if pending:
            info.label("close flushes")
            info.nontrivial = True
        for step in late:
            must_finish(net, h.producer.produce(h.topics[0], {"n": -2}), "produce() while closing")
        must_finish(net, closing, "close()")
        flushed(before)
        compare("close()")
        for step in late:
            must_finish(net, h.producer.produce(h.topics[0], {"n": -3}), "produce() after close()")
        net.settle()
        compare("produce() after close()")
        no_protocol_errors(cluster)
        check(open_conns(net) == [], "connections left open after close(): %s", open_conns(net))
