ID = "C27"
RULE = ("One GroupedConsumer consuming and committing (automatically or explicitly, with metadata up to "
        "and beyond what brokers accept, often resuming what an earlier one committed, maybe within a "
        "batch, sometimes while consuming) while coordinator lookups, offset fetches and commits fail for all or one of the "
        "partitions, or differently for each, with transient (also 30 times in a row), fatal and "
        "undocumented codes or lost connections, coordinators move, shut down or crash for a while no "
        "broker is up, an hour passes; transient errors are ridden out within the call, fatal ones end it "
        "quietly, nothing is handed out twice, left out or committed too far. Non-trivial: a fault hits a "
        "coordinator lookup, offset fetch or commit.")
QUICK, THOROUGH = 800, 12000

import asyncio

from kv import consuming, grouping
from kv.engine import check, one_of
from kv.scenario import (IDLE, IDS, FATAL, UNDOCUMENTED, build, must_finish, no_protocol_errors, rarely,
                         st_stubborn, st_topology, world)

GROUP = "work"
TRANSIENT = [14, 15, 16, 3, 5, 6, 7, 20]
GROUP_APIS = ["group_coordinator", "offset_fetch", "offset_commit"]
TOO_LARGE = 12
METADATA = ["", "m", "é" * 20, "x" * 61, "y" * 300]


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 2)
    fatal = [c for c in FATAL + UNDOCUMENTED if c != TOO_LARGE]
    transient = one_of(
        st.tuples(st.just("err"), st.sampled_from(TRANSIENT), st.booleans()),
        st.tuples(st.just("err1"), st.sampled_from(TRANSIENT), st.integers(0, 4), st.booleans()),
        st.tuples(st.just("errs"), st.lists(st.sampled_from(TRANSIENT + [0]), min_size=2, max_size=3),
                  st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 3, 4, 8, 11])),
        st.tuples(st.just("delay"), st.sampled_from([5, 90])))
    final = one_of(
        st.tuples(st.just("err"), st.sampled_from(fatal), st.just(False)),
        st.tuples(st.just("err1"), st.sampled_from(fatal), st.integers(0, 4), st.just(False)),
        st.tuples(st.just("errs"), st.lists(st.sampled_from(TRANSIENT + fatal + [0]), min_size=2,
                                            max_size=3), st.just(False)))
    faults = st.lists(st.tuples(st.sampled_from(GROUP_APIS + ["offset_commit"]), one_of(
        transient, transient, st.none(), final)), max_size=4)
    # the same trouble again and again
    faults = rarely(faults, st.tuples(faults, st.sampled_from(GROUP_APIS + ["offset_commit"]), st_stubborn(TRANSIENT)).map(
        lambda t: t[0] + [(t[1], f) for f in t[2]]))
    event = one_of(
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("append"), consuming.st_append()),
        st.tuples(st.just("coordinator"), i, st.booleans()), st.tuples(st.just("sleep"), st.sampled_from(IDLE[4:])),
        st.tuples(st.just("crash"), i, st.sampled_from([0, 10, 50]), st.sampled_from([0, 2])),
        st.tuples(st.just("drop"), i, st.booleans()), consuming.st_outage())
    op = one_of(st.tuples(st.just("consume"), i), st.tuples(st.just("consume"), i),
                   st.tuples(st.just("commit"), st.integers(-1, len(METADATA) - 1)),
                   st.tuples(st.just("while committing"), i, st.sampled_from([0, 0, 1, 3, 5])))
    return st.tuples(st_topology(max_topics=2), consuming.st_log(max_batches=3), faults,
                     st.lists(st.tuples(st.lists(event, max_size=2), faults, op),
                              min_size=1, max_size=6),
                     st.booleans(), st.sampled_from([4096, 60, 0]),
                     # batches consumed in an earlier life, and how many messages short of them
                     st.tuples(st.sampled_from([0, 0, 1, 2, 5]), st.sampled_from([0, 0, 1, 2])))


def run(case, info):
    from kiel.clients import GroupedConsumer
    from kiel.exc import NoBrokersError
    topology, appends, connect_faults, steps, autocommit, metadata_max, (earlier, short) = case
    with world(IDS[:topology[0]]) as (net, cluster), \
            grouping.zk_world((0, 0, 0), net=net) as w:
        log = consuming.Log(net, cluster, topology, info)
        got = consuming.Delivered()
        for n, a in enumerate(appends):
            log.append(*a)
            if n + 1 == min(earlier, len(appends)):
                for topic in log.topics:
                    for pid, part in cluster.topics[topic].items():
                        # in the middle of a batch, where other clients may well commit
                        done = max(part.end - short, min(part.end, 1))
                        if done:
                            cluster.committed[GROUP, topic, pid] = (done, "")
                            got.seen[topic, pid] = consuming.numbers(
                                r for r in part.records() if r[0] < done)
                        if any(first < done <= last for first, last, _, _ in part.batches):
                            info.label("resumed within a batch")
                info.label("resumed")
        cluster.metadata_max = metadata_max
        c = GroupedConsumer(cluster.bootstrap(), GROUP, ["zk"], autocommit=autocommit,
                            max_wait_time=5)

        suspect = set()                 # brokers lost sight of since they last answered a fetch

        def plan(faults):
            for api, fault in faults:
                cluster.faults.setdefault(api, []).append(fault)

        def call(what, awaitable):
            """Runs a call; -> (result, injected fatal faults, anything else that went wrong)"""
            first, began = (len(cluster.trace), len(cluster.fault_log)), net.now
            result, down = consuming.attempt(net, cluster, awaitable, what)
            fatal, disturbed = set(), len(cluster.live()) < topology[0]
            if down:
                result = []
            if consuming.outage_since(cluster, began):
                fatal.add("outage")
                suspect.update(cluster.brokers)
                disturbed = True
            for e in cluster.trace[first[0]:]:
                f = e["fault"]
                if e["api"] in GROUP_APIS and f:
                    info.nontrivial = True
                    info.label("%s %s" % (e["api"], f[0]))
                    if f[0] in ("err", "err1", "errs") and codes_of(e) - set(TRANSIENT):
                        fatal.add(e["api"])
            commits = [e for e in cluster.trace[first[0]:] if e["api"] == "offset_commit"]
            if commits and cluster.received(commits[-1]) and not fatal - {"offset_commit"}:
                left = codes_of(commits[-1]) & set(TRANSIENT + [TOO_LARGE])
                check(not left, "%s is content with a commit answered %r", what, sorted(left))
            if any(f[0] == "crash" for f in cluster.fault_log[first[1]:]):
                disturbed = True
            return result, fatal, disturbed

        plan(connect_faults)
        call("connect()", c.connect())
        suspicious(cluster, 0, suspect)
        for events, faults, op in steps:
            for e in events:
                if e[0] == "append":
                    log.append(*e[1])
                elif e[0] == "sleep":
                    net.sleep(e[1] / 1000.0)
                elif e[0] == "coordinator":
                    cluster.move_coordinator(GROUP, cluster.pick(e[1]), e[2])
                else:
                    consuming.disturb(net, cluster, log.topics, e, info)
                    if e[0] == "crash":
                        suspect.update(cluster.brokers)
                    else:
                        suspect.add(sorted(cluster.brokers)[e[1] % len(cluster.brokers)])
            plan(faults)
            if op[0] == "commit":
                metadata = METADATA[op[1]] if op[1] >= 0 else None
                first = len(cluster.trace)
                _, fatal, disturbed = call("commit_offsets()", c.commit_offsets(metadata))
                covered(cluster, got, first, None if fatal else metadata, metadata_max)
                if not fatal and not autocommit:
                    exact(cluster, got)
                suspicious(cluster, first, suspect)
                continue
            topic = log.topics[op[1] % len(log.topics)]
            if op[0] == "while committing":
                first = len(cluster.trace)

                async def both():
                    values, began = [], net.now
                    commit = c.commit_offsets()
                    await asyncio.sleep(op[2] / 1000.0)
                    for awaitable in c.consume(topic), commit:
                        try:
                            values.extend(await awaitable or [])
                        except NoBrokersError:
                            check(consuming.outage_since(cluster, began),
                                  "no brokers, it says, though they are up")
                    return values
                values, fatal, _ = call("consume() while committing", both())
                got.add(topic, values)
                if not fatal and not autocommit:
                    _, fatal, _ = call("commit_offsets()", c.commit_offsets())
                    if not fatal:
                        exact(cluster, got)
                covered(cluster, got, first, None, metadata_max)
                suspicious(cluster, first, suspect)
                info.label("consumed while committing")
                continue
            before = sum(len(x) for x in got.seen.values())
            left = sum(len(p.records()) for p in cluster.topics[topic].values()) - sum(
                len(x) for k, x in got.seen.items() if k[0] == topic)
            leaders = set(p.leader for p in cluster.topics[topic].values())
            broken = leaders & (suspect | crashed(cluster))
            first = len(cluster.trace)
            values, fatal, disturbed = call("consume()", c.consume(topic))
            got.add(topic, values)
            if len(values) < left:
                fetched = [e for e in cluster.trace[first:] if e["api"] == "fetch"]
                lost = [e for e in fetched if cluster.received(e) is None]
                check(disturbed or broken or lost or (fatal & {"offset_fetch", "group_coordinator"}
                                                      and not fetched),
                      "consume() gave %d of %d messages, with only transient trouble", len(values), left)
            covered(cluster, got, first, None, metadata_max)
            suspicious(cluster, first, suspect)
            if autocommit and not fatal and values:
                exact(cluster, got)
        cluster.faults.clear()
        net.sleep(1.0)
        rounds = 5
        for _ in range(rounds + log.count):
            more = 0
            for topic in log.topics:
                values = must_finish(net, c.consume(topic), "consume()")
                got.add(topic, values)
                more += len(values)
            rounds -= not more
            if not rounds:
                break
        must_finish(net, c.commit_offsets(), "commit_offsets()")
        for topic in log.topics:
            for pid, part in cluster.topics[topic].items():
                want, have = consuming.numbers(part.records()), got.seen.get((topic, pid), [])
                check(have == want, "%s:%d holds %r, handed out were %r", topic, pid, want, have)
                done = cluster.committed.get((GROUP, topic, pid), (0, ""))[0]
                check(done == part.end, "%s:%d was handed out to the end at %d, committed is %d",
                      topic, pid, part.end, done)
        must_finish(net, c.close(), "close()")
        check(not grouping.unexpected(w.errors), "a callback failed: %r", w.errors)
        no_protocol_errors(cluster)


def codes_of(e):
    """The error codes of an answer."""
    answer = e["answer"]
    if answer is None:
        return set()
    if "error_code" in answer:
        return {answer["error_code"]} - {0}
    return set(p["error_code"] for t in answer["topics"] for p in t["partitions"]) - {0}


def suspicious(cluster, first, suspect):
    for e in cluster.trace[first:]:
        if e["fault"] and e["fault"][0] in ("close", "reset", "cut"):
            suspect.add(e["broker"])
        elif e["api"] == "fetch" and cluster.received(e):
            suspect.discard(e["broker"])

def crashed(cluster):
    """Brokers that crashed since they last answered a fetch."""
    when = dict((f[1], f[2]) for f in cluster.fault_log if f[0] == "crash")
    for e in cluster.trace:
        if e["api"] == "fetch" and cluster.received(e) and e["t"] > when.get(e["broker"], e["t"]):
            del when[e["broker"]]
    return set(when)


def covered(cluster, got, first, metadata, metadata_max):
    """Nothing is committed beyond what was handed out; metadata is as given, or blank."""
    for e in cluster.trace[first:]:
        for t, pid, offset in e.get("committed") or ():
            have = len(got.seen.get((t, pid), ()))
            check(offset <= have, "offset %d of %s:%d is committed, %d messages were handed out",
                  offset, t, pid, have)
    if metadata is not None:
        for e in cluster.trace[first:]:
            if e["api"] == "offset_commit":
                for t in e["body"]["topics"]:
                    for p in t["partitions"]:
                        blank = len(metadata.encode()) > metadata_max and not p["metadata"]
                        blank = blank or any(
                            x["api"] == "offset_commit" and TOO_LARGE in codes_of(x)
                            for x in cluster.trace[first:])
                        check(p["metadata"] == metadata or blank, "metadata %r is sent as %r",
                              metadata, p["metadata"])


def exact(cluster, got):
    for (t, pid), numbers in got.seen.items():
        done = cluster.committed.get((GROUP, t, pid), (0, ""))[0]
        check(done == len(numbers), "%d messages of %s:%d were handed out, committed is %d",
              len(numbers), t, pid, done)
