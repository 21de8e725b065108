ID = "C15"
RULE = ("Histories of producing, one call at a time or several at once, with leader moves, elections, "
        "added partitions, calls made while a lost broker is looked for, answers mixed per partition, "
        "retriable errors and lost connections; every request the brokers see must carry the configured "
        "acks, timeout and codec, only messages handed to produce() with their own topic, key and value, "
        "in the partition the partitioner picks from the topic's full partition list, and after an answer "
        "that calls for it metadata is re-read before producing again, so that a request never goes to a "
        "broker known not to lead, and not while all is well. Non-trivial: two topics or two partitions "
        "are written, or a retry happens.")
QUICK, THOROUGH = 1300, 20000

import random

from kv import producing, wire
from kv.engine import check, one_of
from kv.scenario import IDS, RETRIABLE, no_protocol_errors, world


def strategy():
    from hypothesis import strategies as st
    fault = one_of(producing.st_transport_fault(), producing.st_code_fault(RETRIABLE))
    concurrent = producing.st_case(fault, events=True)
    any_style = st.sampled_from(["default", "default", "custom", "quiet"])
    message = st.tuples(st.integers(0, 2), st.integers(0, len(producing.KEYS) - 1), st.just(0),
                        st.just(1))
    # somebody else is producing while the client looks for a lost broker
    gone = st.tuples(st.tuples(st.just("crash"), st.integers(0, 5), st.sampled_from([10, 50]), st.just(0)),
                     st.tuples(st.just("burst"), st.lists(message, min_size=4, max_size=8),
                               st.sampled_from([1, 12])))
    return one_of(
        st.tuples(producing.st_case(fault, events=True, concurrent=False), st.booleans(), any_style),
        st.tuples(concurrent, st.booleans(), any_style),
        st.tuples(st.builds(lambda case, events: case[:2] + (list(events) + case[2],) + case[3:],
                            concurrent, gone), st.just(False), st.just("custom")))


def quiet_in_the_end(h, info):
    """Once all is well there is no more reason to re-read metadata."""
    net, cluster = h.net, h.cluster
    h.bring_back()
    for q in cluster.faults.values():
        q.clear()
    for b in sorted(cluster.brokers):
        if not cluster.brokers[b].up:
            cluster.restart(b)
    for turn in range(4):
        net.sleep(4000.0 if turn == 3 and len(h.steps) % 4 == 3 else 1.0)
        before = len(cluster.trace)
        for topic in range(len(h.topics)):
            for key in range(len(producing.KEYS)):
                h.produce(h.new(topic, key, 0, 1))
        h.step(("flush",))
    asked = [e["api"] for e in cluster.trace[before:]]
    refused = [e for e in cluster.trace[before:] if e["api"] == "produce" and (
        cluster.received(e) is None or any(p["error_code"] for t in cluster.received(e)["topics"]
                                           for p in t["partitions"]))]
    if asked and not refused:
        info.label("quiet in the end")
        check("metadata" not in asked, "metadata is re-read while all is well: %r", asked)


def run(case, info):
    case, clean, style = case
    default_partitioner = style == "default"
    with world(IDS[:case[0][0]]) as (net, cluster):
        if clean:
            case = case[:2] + ([s for s in case[2] if s[0] in ("produce", "burst", "flush", "sleep")],
                               case[3], [])
        h = producing.History(net, cluster, case, info)
        if default_partitioner:
            from kiel.clients import Producer
            random.seed(1)
            h.producer = Producer(
                cluster.bootstrap(), key_maker=lambda m: producing.KEYS[m["k"]],
                batch_size=h.config[0], compression=h.config[1], required_acks=h.config[2],
                ack_timeout=h.config[3])
        h.connect()
        connected = len(cluster.trace)
        for step in h.steps:
            h.step(step)
        if style == "quiet":
            quiet_in_the_end(h, info)
        h.close()
        no_protocol_errors(cluster)
        batch, compression, acks, timeout = h.config
        known = dict(((m.topic, m.value), m) for m in h.messages)
        targets = set()
        sent_at = 0.0
        stale = None            # an answer that makes the client's metadata suspect
        concurrent = any(s[0] == "burst" and s[2] is not None for s in h.steps)
        told = {}               # topic -> partition lists the client was told of, oldest first
        for e in cluster.trace:
            if e["api"] == "metadata":
                stale = None
                h.hear(told, e)
            if e["api"] != "produce":
                continue
            body = e["body"]
            if stale and e["t"] > sent_at + 1e-5 and not concurrent:       # else: the same flush, to another broker
                check(False, "produced to broker %d without re-reading metadata after %s",
                      e["broker"], stale)
            check(body["required_acks"] == acks and body["timeout"] == timeout,
                  "request asks acks=%r timeout=%r, configured %r and %r", body["required_acks"],
                  body["timeout"], acks, timeout)
            seen = [(t["name"], p["partition_id"]) for t in body["topics"] for p in t["partitions"]]
            check(len(set(seen)) == len(seen), "a request names a partition twice: %r", seen)
            for t in body["topics"]:
                lists = told[t["name"]] if concurrent else told[t["name"]][-1:]
                for p in t["partitions"]:
                    targets.add((t["name"], p["partition_id"]))
                    check(p["message_set"], "an empty message set was produced to %r", t["name"])
                    for _, top in p["message_set"]:
                        check((top["attrs"] & 7) == (compression or 0),
                              "a message set uses codec %d, configured %r", top["attrs"] & 7,
                              compression)
                    for _, m in wire.unwrap(p["message_set"]):
                        check((t["name"], m["value"]) in known, "topic %r was sent %r, which was "
                              "never produced to it", t["name"], m["value"])
                        orig = known[(t["name"], m["value"])]
                        check(m["key"] == orig.key, "message %r was sent with key %r, the key maker "
                              "said %r", m["value"], m["key"], orig.key)
                        if default_partitioner:
                            check(any(p["partition_id"] in parts for parts in lists),
                                  "partition %d of %r does not exist", p["partition_id"], t["name"])
                        else:
                            want = [parts[producing.KEYS.index(orig.key) % len(parts)]
                                    for parts in lists]
                            check(p["partition_id"] in want, "message %r went to partition %d, the "
                                  "partitioner says %r", m["value"], p["partition_id"], want)
            answer = cluster.received(e)
            sent_at = e["t"]
            if answer is None:
                stale = "a lost connection"
            else:
                bad = [p["error_code"] for t in answer["topics"] for p in t["partitions"]
                       if p["error_code"] in RETRIABLE]
                if bad:
                    stale = "error %d" % bad[0]
            if stale:
                info.label("retry")
                info.nontrivial = True
        for key, partitions, told in h.partitioner_calls:
            lists = [ps for known in told.values() for ps in (known if concurrent else known[-1:])]
            check(partitions in lists, "the partitioner was offered %r, partitions are %r",
                  partitions, lists)
        if clean:
            check(not any(e["api"] == "metadata" for e in cluster.trace[connected:]),
                  "metadata is re-read in a quiet cluster")
            wrong = [e for e in cluster.requests("produce") if (cluster.received(e) is None or any(
                p["error_code"] for t in cluster.received(e)["topics"] for p in t["partitions"]))]
            check(not wrong, "in a quiet cluster a produce request was refused: %r", wrong[:1])
        if len(targets) > 1 and style != "quiet":
            info.nontrivial = True
