ID = "C18"
RULE = ("Logs whose beginning has been trimmed (within a batch, too) and whose segments have ages; a first "
        "consume() with the default, BEGINNING, END, a datetime or a timedelta start, while offset requests fail "
        "transiently, now and then for long, connections drop, leaders move or are elected, brokers don't "
        "know of the topic for a moment, while another call re-reads metadata, in various time zones, or "
        "the topic only appears after connecting; then more is appended and other start values are "
        "passed; later the log may be trimmed past the reader or the topic deleted and created again. Per "
        "partition consume() must give exactly what lies from the requested start on. Non-trivial: a "
        "partition holds messages on both sides of its start, or a fault hit.")
QUICK, THOROUGH = 1200, 20000

import datetime
import os
import time

from kv import consuming
from kv.engine import check, one_of
from kv.scenario import IDS, RETRIABLE, must_finish, no_protocol_errors, rarely, st_stubborn, st_topology, world
from kv.sim.kafka import Partition

STARTS = ["default", "beginning", "end", "datetime", "timedelta"]
HOUR = 3600
# datetimes and timedeltas mean the same wherever the client runs
ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "X-14"]


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 3)
    fault = one_of(st.none(), consuming.st_fetch_fault(RETRIABLE))
    start = one_of(st.tuples(st.sampled_from(STARTS), st.integers(0, 6)),
                      st.tuples(st.sampled_from(STARTS), st.integers(0, 6)),
                      st.tuples(st.just("now"), st.just(0)))
    # ages (in hours) of the segments of every partition, oldest first
    ages = st.lists(st.lists(st.integers(0, 6), min_size=4, max_size=4), min_size=4, max_size=4)
    return st.tuples(
        st_topology(max_topics=2), consuming.st_log(8, 3), ages, st.lists(one_of(i, i, st.integers(4, 7)), min_size=4, max_size=4),
        start, st.lists(st.tuples(consuming.st_append(), start), max_size=4),
        rarely(st.lists(fault, max_size=3), st_stubborn(RETRIABLE)), st.lists(fault, max_size=2),
        st.sampled_from(["known", "known", "late"]), st.sampled_from([None, None, 0, 1, 2, 3, 4]),
        st.sampled_from(["seconds"]), st.booleans(),
        # a leader being elected while another call, begun earlier, is re-reading metadata
        one_of(st.none(), st.tuples(i, st.sampled_from([5, 9, "metadata"]),
                                       st.sampled_from([1, 10, 40]), st.sampled_from([0, 1, 3, 12]))),
        st.sampled_from(ZONES))


def as_start(start, consumer, base, unit_now):
    kind, hours = start
    if kind == "default":
        return None
    if kind == "beginning":
        return consumer.BEGINNING
    if kind == "end":
        return consumer.END
    if kind == "datetime":
        # half hours, so that no segment sits on the boundary
        return base - datetime.timedelta(seconds=int((hours - 0.5) * HOUR), microseconds=250000 * hours)
    if kind == "now":
        return datetime.timedelta(0)
    return datetime.timedelta(seconds=(hours - 0.5) * HOUR)


def first_offset(part, start):
    kind, hours = start
    if kind in ("default", "end"):
        return part.end
    if kind == "beginning":
        return part.start
    # the broker's rule: the newest segment not younger than the asked time
    fit = [b for b, age in part.ages if age >= hours and b >= part.start]
    return max(fit) if fit else part.start


def run(case, info):
    before = os.environ.get("TZ")
    os.environ["TZ"] = case[13]
    time.tzset()
    try:
        history(case, info)
    finally:
        os.environ.pop("TZ")
        if before is not None:
            os.environ["TZ"] = before
        time.tzset()


def history(case, info):
    (topology, initial, ages, trims, start, later, offset_faults, fetch_faults, known, cut, unit,
     drop, busy, _) = case
    with world(IDS[:topology[0]], clock=False) as (net, cluster):
        from kiel.clients import SingleConsumer
        log = consuming.Log(net, cluster, topology, info)
        for a in initial:
            log.append(*a)
        base = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        epoch = int((base - datetime.datetime(1970, 1, 1)).total_seconds())
        scale = 1000 if unit == "milliseconds" else 1
        index = 0
        for name in log.topics:
            for pid, part in sorted(cluster.topics[name].items()):
                edges = log.boundaries.get((name, pid), [])
                if edges:
                    trim = trims[index % 4]
                    # the log may well start in the middle of a batch (after a DeleteRecords)
                    part.truncate_before(edges[trim % 4 % len(edges)] + trim // 4)
                    if part.batches and part.batches[0][0] < part.start:
                        info.label("starts within a batch")
                bases = sorted(set([part.start] + [e for e in edges if e > part.start][:3]))
                hours = sorted(ages[index % 4], reverse=True)[:len(bases)]
                part.ages = list(zip(bases, hours))
                # a little before, as clocks differ in when the next second begins
                part.segments = [(b, (epoch - 5 - h * HOUR) * scale) for b, h in part.ages]
                index += 1
        hidden = None
        topic = log.topics[0]
        if known == "late":
            hidden = cluster.topics.pop(topic)
            if not cluster.topics:
                cluster.create_topic("other", {0: IDS[0]})
            info.label("late topic")
        c = SingleConsumer(cluster.bootstrap(), max_wait_time=20)
        must_finish(net, c.connect(), "connect()")
        if hidden is not None:
            cluster.topics[topic] = hidden
        if drop:
            for b in cluster.brokers.values():
                for peer in list(b.peers.values()):
                    peer.close()
                b.peers.clear()
            net.settle()
            info.label("dropped")
        parts = cluster.topics[topic]
        begin = dict((pid, first_offset(part, start)) for pid, part in parts.items())
        consuming.plan_faults(cluster, "offset", offset_faults)
        consuming.plan_faults(cluster, "fetch", fetch_faults)
        if any(parts[p].start < o < parts[p].end for p, o in begin.items()) or cluster.faults.get(
                "offset"):
            info.nontrivial = True
        info.label("start %s" % start[0])
        got = consuming.Delivered()
        other = [t for t in log.topics if t != topic and t in cluster.topics]
        aside = None
        if busy and other and known == "known":
            which, how, ms, gap = busy
            part = parts[sorted(parts)[which % len(parts)]]
            if how == "metadata":
                cluster.faults["metadata"] = [("err1", 9, 0, False), ("err1", 9, 0, False)]
            else:
                part.error = 5
                net.loop.call_later(ms / 1000.0, setattr, part, "error", 0)
            if ms == 10:
                for b in cluster.brokers.values():
                    for peer in list(b.peers.values()):
                        peer.close()
                    b.peers.clear()
            aside = net.start(c.consume("nowhere" if ms > 1 else other[0]))
            net.sleep(gap / 1000.0)
            info.label("metadata being read")
            info.nontrivial = True
        got.add(topic, must_finish(net, c.consume(topic, as_start(start, c, base, epoch)), "consume()"))
        hidings = 0
        while hidings < cluster.hidings:
            hidings += 1            # it may have found nothing to start from
            net.sleep(0.1)
            got.add(topic, must_finish(net, c.consume(topic, as_start(start, c, base, epoch)), "consume()"))
            info.label("hidden")
        if aside is not None:
            must_finish(net, aside, "consume() of another topic")
        for append, other in later:
            log.append(0, *append[1:])
            got.add(topic, must_finish(net, c.consume(topic, as_start(other, c, base, epoch)),
                                       "consume()"))
        cluster.faults.clear()
        net.settle()

        def compare(begin, when):
            expected = dict((pid, consuming.numbers([r for r in part.records() if r[0] >= begin[pid]]))
                            for pid, part in parts.items())
            consuming.drain(net, cluster, c, topic, got, expected, None, 10 + log.count)
            for pid, want in expected.items():
                have = got.seen.get((topic, pid), [])
                check(have == want, "%s, partition %d (log %d to %d) should be read from offset %d: "
                      "messages %r, consume() gave %r", when, pid, parts[pid].start, parts[pid].end,
                      begin[pid], want, have)

        compare(begin, "starting at %r" % (start,))
        if cut is not None and len(parts) == 1:
            # the log moves on without us: everything is determined anew
            pid, part = list(parts.items())[0]
            # another topic, read to its end from the beginning, is to stay where it is
            beside, read = [t for t in log.topics if t != topic and t in cluster.topics][:1], 0
            beside = beside if aside is None else []
            for t in beside:
                log.append(log.topics.index(t), 0, 2, 0, 0)
                read = consuming.Delivered()
                want = dict((p, consuming.numbers(x.records())) for p, x in cluster.topics[t].items())
                consuming.drain(net, cluster, c, t, read, want, c.BEGINNING, 10 + log.count)
                info.label("beside")
            if cut > 2 and part.end > 0:
                # the topic was deleted and created again
                end, kept = part.end, part.segments
                part = cluster.topics[topic][pid] = parts[pid] = Partition(part.leader)
                part.segments = kept[:1]
                if end > 2:
                    log.append(0, 0, min(2, end - 2), 0, 0)
                info.label("created again")
            else:
                for _ in range(2):
                    log.append(0, 0, 2, 0, 0)
                part.truncate_before(part.end - 1)
            again = ("beginning", 0) if cut not in (1, 4) else ("end", 0)
            expected = part.start if again[0] == "beginning" else part.end
            got.seen.clear()
            must_finish(net, c.consume(topic, as_start(start, c, base, epoch)), "consume()")
            # that call learnt the offset is gone; the next one determines it with its own start
            got.add(topic, must_finish(net, c.consume(topic, as_start(again, c, base, epoch)),
                                       "consume()"))
            log.append(0, 0, 1, 0, 0)
            compare({pid: expected}, "after falling out of range, starting at %r" % (again,))
            info.label("out of range")
            for t in beside:
                log.append(log.topics.index(t), 0, 1, 0, 0)
                for way in (("end", 0), ("beginning", 0)):
                    read.add(t, must_finish(net, c.consume(t, as_start(way, c, base, epoch)), "consume()"))
                for p, x in cluster.topics[t].items():
                    want, have = consuming.numbers(x.records()), read.seen.get((t, p), [])
                    check(have == want, "when another topic fell out of range, consume() gave %r of the "
                          "messages %r of partition %d of %r", have, want, p, t)
        no_protocol_errors(cluster)
