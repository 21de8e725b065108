ID = "C19"
RULE = ("Logs mixing good messages with ones the deserializer refuses (invalid JSON, invalid UTF-8, null "
        "or empty values, or a custom deserializer raising assorted exceptions), at any place including "
        "the end of a batch or log and whole fetches of nothing else (up to hundreds in one), with fetch "
        "sizes from one message up, plus transient fetch faults; consume() must hand out exactly the good "
        "ones in order and never get stuck or fetch the bad ones again. Non-trivial: a bad message is "
        "followed by a good one or ends the log.")
QUICK, THOROUGH = 1200, 20000

import json

from kv import consuming
from kv.engine import check, one_of
from kv.scenario import IDS, RETRIABLE, must_finish, no_protocol_errors, rarely, st_topology, world

BAD = [b"{", b"", None, b"\xff\xfe", b"nope", b'{"n": 1} trailing']
ERRORS = [ValueError, KeyError, TypeError, RuntimeError, UnicodeDecodeError, StopIteration,
          AssertionError, ZeroDivisionError]


def strategy():
    from hypothesis import strategies as st
    message = one_of(st.just("good"), st.just("good"), st.integers(0, len(BAD) - 1))
    batch = st.tuples(st.integers(0, 2), st.integers(0, 3),
                      rarely(st.lists(message, min_size=1, max_size=4), st.lists(
                          message, min_size=1, max_size=4).map(lambda m: m * 180), 60), st.sampled_from(consuming.CODECS))
    fault = one_of(st.none(), st.none(), consuming.st_fetch_fault(RETRIABLE))
    return st.tuples(st_topology(max_topics=2), st.lists(batch, min_size=1, max_size=7),
                     st.sampled_from(["json", "json", "custom"]), st.integers(0, len(ERRORS) - 1),
                     st.sampled_from(["big", "tight"]), st.lists(fault, max_size=4))


def run(case, info):
    topology, batches, kind, error, size, faults = case
    with world(IDS[:topology[0]]) as (net, cluster):
        from kiel.clients import SingleConsumer
        log = consuming.Log(net, cluster, topology, info)
        good = {}
        last_bad = set()
        largest = 1
        for topic, partition, messages, codec in batches:
            name, pid, part = log.part(topic, partition)
            recs = []
            for m in messages:
                if m == "good":
                    log.count += 1
                    recs.append((None, log.value(name, pid, 0)))
                    good.setdefault((name, pid), []).append(log.count)
                    if (name, pid) in last_bad:
                        info.nontrivial = True
                else:
                    recs.append((None, BAD[m]))
                    last_bad.add((name, pid))
                    info.label("bad %r" % (BAD[m],))
            if messages[-1] != "good":
                info.nontrivial = True
            part.append(recs, codec)
            largest = max([largest] + [len(b[2]) for b in part.batches])
        total_messages = sum(len(b[2]) for b in batches)
        calls = []

        def custom(value):
            value = value.encode("utf-8") if isinstance(value, str) else value
            calls.append(value)
            if value in BAD:
                if ERRORS[error] is UnicodeDecodeError:
                    raise UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")
                raise ERRORS[error]("bad message")
            return json.loads(value)

        args = {}
        if total_messages > 100:
            # enough for a batch, whatever the number of partitions
            args["max_bytes"] = max(1 << 20, largest * max(len(p) for p in cluster.topics.values()))
            info.label("hundreds of messages in a batch")
        elif size == "tight":
            args["max_bytes"] = largest * max(len(p) for p in cluster.topics.values())
        c = SingleConsumer(cluster.bootstrap(), max_wait_time=20,
                           deserializer=custom if kind == "custom" else None, **args)
        must_finish(net, c.connect(), "connect()")
        consuming.plan_faults(cluster, "fetch", faults)
        got = consuming.Delivered()
        for topic in log.topics:
            parts = cluster.topics[topic]
            total = sum(p.end for p in parts.values())
            # every fetch that works moves every partition on, good or bad
            rounds = 3 + len(faults) + min(total, 100)
            for _ in range(rounds + total):
                values = must_finish(net, c.consume(topic, c.BEGINNING), "consume()")
                got.add(topic, values)
                if topic in cluster.hidden:
                    net.sleep(0.1)
                    continue
                rounds -= not values or total <= 100
                if not rounds:
                    break
            for pid, part in parts.items():
                have, want = got.seen.get((topic, pid), []), good.get((topic, pid), [])
                check(have == want, "partition %d of %r: good messages %r, consume() gave %r",
                      pid, topic, want, have)
            last = [e for e in cluster.requests("fetch") if e["body"]["topics"][0]["name"] == topic]
            asked = {}
            for e in last:
                for p in e["body"]["topics"][0]["partitions"]:
                    asked[p["partition_id"]] = p["offset"]
            for pid, part in parts.items():
                check(asked.get(pid) == part.end, "partition %d of %r ends at %d, the last fetch "
                      "asked for %r", pid, topic, part.end, asked.get(pid))
        if kind == "custom":
            once = [v for v in calls if v not in BAD]
            check(len(once) == len(set(once)), "good messages were deserialized more than once")
        must_finish(net, c.close(), "close()")
        no_protocol_errors(cluster)
