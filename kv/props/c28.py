ID = "C28"
RULE = ("Each request kind (produce, fetch, offset lookup, coordinator lookup, offset fetch, offset "
        "commit) answered with a run of 1-3 (rarely up to 75) error codes, documented or arbitrary "
        "16-bit, for all or one of 1-4 partitions, or a mix of them for each; by Kafka's documentation "
        "each code is retriable or final, and the clients must retry with fresh metadata, or give up on "
        "just that partition without failing. Non-trivial: the error was answered.")
QUICK, THOROUGH = 1500, 15000

from kv import consuming, grouping
from kv.engine import check, one_of
from kv.scenario import build, must_finish, no_protocol_errors, rarely, world

# marked retriable in the Kafka protocol guide, of the codes it had in these versions
RETRIABLE = frozenset([2, 3, 5, 6, 7, 14, 15, 16, 19, 20])
OUT_OF_RANGE, TOO_LARGE, NETWORK_EXCEPTION = 1, 12, 13
APIS = ["produce", "fetch", "offset", "group_coordinator", "offset_fetch", "offset_commit"]


def strategy():
    from hypothesis import strategies as st
    code = one_of(st.sampled_from(sorted(RETRIABLE)), st.integers(-1, 31),
                     st.integers(-2 ** 15, 2 ** 15 - 1)).filter(
        # in later guides only: not held against anyone
        lambda c: c not in (0, NETWORK_EXCEPTION))
    codes = one_of(st.lists(code, min_size=1, max_size=1), st.lists(code, min_size=1, max_size=3))
    mixed = st.lists(st.lists(one_of(code, code, st.just(0)), min_size=2, max_size=4),
                     min_size=1, max_size=3)
    codes = rarely(codes, st.tuples(codes, st.sampled_from([10, 25])).map(lambda t: t[0] * t[1]))
    return st.tuples(st.sampled_from(APIS), one_of(codes, mixed),
                     one_of(st.none(), st.integers(0, 3)),
                     st.lists(st.sampled_from([0, 7]), min_size=1, max_size=4), st.integers(0, 3))


def run(case, info):
    api, codes, which, leaders, extra = case
    with world((0, 7)) as (net, cluster):
        log = consuming.Log(net, cluster, (2, [leaders]), info)
        topic = log.topics[0]
        if isinstance(codes[0], list):
            faults = [("errs", c, False) for c in codes]
            info.label("mixed answers")
        elif which is not None and api != "group_coordinator":
            faults = [("err1", c, which, False) for c in codes]
        else:
            faults = [("err", c, False) for c in codes]
        info.label(api)

        def after(entry):
            """Was metadata read again after the entry?"""
            return any(e["api"] == "metadata" for e in cluster.trace[cluster.trace.index(entry):])

        def failed():
            return [e for e in cluster.requests(api) if set(answered(e).values()) - {0}]

        def arm():
            # a fault that hits only some partitions hits just those of one request
            cluster.faults[api] = list(faults)

        if api == "produce":
            producing(net, cluster, topic, codes, which, extra, arm, failed, after, info)
        elif api in ("fetch", "offset"):
            consumer(net, cluster, log, topic, api, codes, extra, arm, failed, after, info)
        else:
            grouped(net, cluster, log, topic, api, codes, extra, arm, failed, after, info)
        no_protocol_errors(cluster)


def answered(entry):
    """{partition: code} of the answer"""
    if "error_code" in entry["answer"]:
        return {0: entry["answer"]["error_code"]}
    return dict((p["partition_id"], p["error_code"]) for t in entry["answer"]["topics"]
                for p in t["partitions"])


def codes_of(entry):
    return set(answered(entry).values()) - {0}


def reloads(entries, after, ignore=()):
    # a lookup given up on (for one broker, or one partition) leaves that for later
    gave_up = any(x["api"] in ("offset", "offset_fetch") and codes_of(x) - RETRIABLE for x in entries)
    for e in entries:
        codes = codes_of(e) - set(ignore)
        if codes & RETRIABLE:
            check(gave_up or after(e), "codes %r were answered to a %s request, metadata is not read "
                  "again", sorted(codes), e["api"])
        elif codes:
            check(not after(e) or any(codes_of(x) & RETRIABLE for x in entries),
                  "codes %r were answered to a %s request, metadata is read again", sorted(codes),
                  e["api"])


def producing(net, cluster, topic, codes, which, extra, arm, failed, after, info):
    from kiel.clients import Producer
    p = Producer(cluster.bootstrap(), serializer=str, key_maker=str, batch_size=1 + extra,
                 partitioner=lambda key, pids: sorted(pids)[int(key) % len(pids)])
    must_finish(net, p.connect(), "connect()")
    arm()
    for n in range(1 + extra):
        must_finish(net, p.produce(topic, n), "produce()")
    must_finish(net, p.close(), "close()")
    info.nontrivial = bool(failed())
    reloads(failed(), after)
    fate = {}                       # value -> codes answered, in order
    for e in cluster.requests("produce"):
        for t in e["body"]["topics"]:
            for q in t["partitions"]:
                for _, m in q["message_set"]:
                    fate.setdefault(m["value"], []).append(answered(e)[q["partition_id"]])
    stored = [v for ps in cluster.log_values(topic).values() for _, _, v in ps]
    for n in range(1 + extra):
        value = b"%d" % n
        got = fate.get(value, [])
        check(got and all(c in RETRIABLE for c in got[:-1]), "a message answered with %r was sent "
              "%d times", got, len(got))
        check(got[-1] not in RETRIABLE, "a message answered with %r was not sent again", got)
        check(stored.count(value) == (got[-1] == 0), "a message answered with %r is stored %d times",
              got, stored.count(value))


def consumer(net, cluster, log, topic, api, codes, extra, arm, failed, after, info):
    from kiel.clients import SingleConsumer
    parts = cluster.topics[topic]
    for pid in parts:
        log.append(0, pid, 1 + extra, 0, 0)
    c = SingleConsumer(cluster.bootstrap(), max_wait_time=5)
    got = consuming.Delivered()
    must_finish(net, c.connect(), "connect()")

    def consume():
        got.add(topic, must_finish(net, c.consume(topic, c.BEGINNING), "consume()"))
    if api == "fetch":
        # the position must hold also when it is not the start
        consume()
        for pid in parts:
            log.append(0, pid, 1, 0, 0)
    arm()
    first = len(cluster.trace)
    consume()
    hit = failed()
    info.nontrivial = bool(hit)
    reloads(hit, after)
    if api == "offset":
        final = [e for e in hit if codes_of(e) - RETRIABLE]
        fetched = any(e["api"] == "fetch" for e in cluster.trace[first:])
        check(fetched == (not final), "offset lookups are answered with %r, and consume() %s",
              [answered(e) for e in hit], "fetches" if fetched else "gives up")
    else:
        asked = set(pid for e in hit for pid, code in answered(e).items() if code)
        for pid, part in parts.items():
            want = part.end - (1 if pid in asked else 0)
            check(len(got.seen.get((topic, pid), ())) == want, "partition %d failed: %s, messages "
                  "handed out: %r", pid, pid in asked, got.seen.get((topic, pid)))
    out_of_range = any(OUT_OF_RANGE in codes_of(e) for e in hit) and api == "fetch"
    cluster.faults.clear()
    if out_of_range:
        before = len(cluster.requests("offset"))
        consume()
        check(len(cluster.requests("offset")) > before, "the offset is out of range, and not looked "
              "up again")
        return
    consume()
    for pid, part in parts.items():
        have, want = got.seen.get((topic, pid), []), consuming.numbers(part.records())
        check(have == want, "partition %d: consumed %r, stored are %r", pid, have, want)


def grouped(net, cluster, log, topic, api, codes, extra, arm, failed, after, info):
    from kiel.clients import GroupedConsumer
    parts = cluster.topics[topic]
    for pid in parts:
        log.append(0, pid, 1 + extra, 0, 0)
    with grouping.zk_world((0, 0, 0), net=net) as w:
        c = GroupedConsumer(cluster.bootstrap(), "work", ["zk"], max_wait_time=5)
        if api == "group_coordinator":
            arm()
        must_finish(net, c.connect(), "connect()")
        hit = failed()
        if api == "group_coordinator":
            reloads(hit, after)
            sent = [answered(e)[0] for e in cluster.requests(api)]
            codes = [c[0] if isinstance(c, list) else c for c in codes]
            check(sent == until_final(codes), "coordinator lookups are answered with %r of %r",
                  sent, codes)
            info.nontrivial = True
            cluster.faults.clear()
        else:
            arm()
        first = len(cluster.trace)
        values = must_finish(net, c.consume(topic), "consume()")
        if api != "group_coordinator":
            hit = failed()
            info.nontrivial = bool(hit)
            # offsets being loaded and coordinators having moved say nothing about the metadata
            reloads(hit, after, ignore=(14, 15, 16, TOO_LARGE))
            sent = [codes_of(e) for e in cluster.requests(api)]
            for i, now in enumerate(sent):
                retried = now & RETRIABLE
                if api == "offset_commit":
                    retried = retried or TOO_LARGE in now
                elif now - RETRIABLE:
                    retried = False
                check(bool(retried) == (i < len(sent) - 1), "%s requests are answered with %r",
                      api, sent)
            final = bool(sent[-1])
        else:
            final = False
        numbers = sorted(v["n"] for v in values)
        everything = list(range(log.count))
        cluster.faults.clear()
        if api == "offset_fetch" and final:
            check(not numbers, "consume() gave %r without knowing the offsets", numbers)
            check(not any(e["api"] == "fetch" for e in cluster.trace[first:]), "fetched without offsets")
            numbers = sorted(v["n"] for v in must_finish(net, c.consume(topic), "consume()"))
        check(numbers == everything, "consume() gave %r, stored are %r", numbers, everything)
        if api == "offset_commit" and final:
            stored = set(p for e in cluster.requests(api) for p, c in answered(e).items() if not c)
            for p in parts:
                done = cluster.committed.get(("work", topic, p), (0, 0))[0]
                check((done == parts[p].end) == (p in stored), "commits of partition %d %s, committed is "
                      "%d", p, "succeeded" if p in stored else "failed", done)
        must_finish(net, c.commit_offsets(), "commit_offsets()")
        for pid, part in parts.items():
            done = cluster.committed.get(("work", topic, pid), (0, ""))[0]
            check(done == part.end, "partition %d is handed out to %d, committed to %d", pid, part.end,
                  done)
        must_finish(net, c.close(), "close()")
        check(not grouping.unexpected(w.errors), "a callback failed: %r", w.errors)


def until_final(codes):
    """The answers the client sees: faults up to the first final one, or all and then success."""
    out = []
    for c in codes:
        out.append(c)
        if c not in RETRIABLE:
            return out
    return out + [0]
