ID = "C20"
RULE = ("Consumers with generated wait, byte and deserializer limits reading several topics (in turn) of "
        "1-124 partitions on 1-3 brokers, at once or after an hour, with leader moves and transient "
        "faults; every fetch or offset request on the wire must come from a consumer (replica -1), name "
        "only the topic asked for, name each partition once across the round and only at a broker "
        "believed to lead it, carry the configured limits, share max_bytes between the partitions asked, "
        "and ask each partition for the first undelivered offset; metadata is not re-read while all is "
        "well. Non-trivial: a request covers two partitions, or messages were delivered.")
QUICK, THOROUGH = 780, 20000

from kv import consuming
from kv.engine import check, one_of
from kv.scenario import IDLE, IDS, RETRIABLE, must_finish, no_protocol_errors, st_topology, world


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 2)
    fault = one_of(st.none(), consuming.st_fetch_fault(RETRIABLE))
    step = one_of(
        st.tuples(st.just("consume"), i), st.tuples(st.just("consume"), i),
        st.tuples(st.just("consume"), i),
        consuming.st_append(holes=True).map(lambda a: ("append",) + a),
        st.tuples(st.just("fault"), st.sampled_from(["fetch", "offset"]),
                  st.lists(fault, min_size=1, max_size=2)),
        st.tuples(st.just("sleep"), st.sampled_from(IDLE[3:])),
        st.tuples(st.just("move"), st.integers(0, 5), st.integers(0, 5), st.integers(0, 5)))
    return st.tuples(st_topology(), consuming.st_log(holes=True), st.lists(step, max_size=12),
                     st.tuples(st.sampled_from([0, 7, 1000, 5000]), st.sampled_from([0, 1, 100, 4096]),
                               st.sampled_from([1024 * 1024, 3000, 5001, 100000])),
                     st.sampled_from(["beginning", "end"]))


def run(case, info):
    topology, initial, steps, limits, where = case
    with world(IDS[:topology[0]]) as (net, cluster):
        from kiel.clients import SingleConsumer
        log = consuming.Log(net, cluster, topology, info)
        for a in initial:
            log.append(*a)
        c = SingleConsumer(cluster.bootstrap(), max_wait_time=limits[0], min_bytes=limits[1],
                           max_bytes=limits[2])
        must_finish(net, c.connect(), "connect()")
        start = c.BEGINNING if where == "beginning" else c.END
        position = {}
        for step in steps:
            if step[0] == "append":
                log.append(*step[1:])
                continue
            if step[0] == "fault":
                consuming.plan_faults(cluster, step[1], step[2])
                continue
            if step[0] in ("move", "sleep"):
                consuming.disturb(net, cluster, log.topics, step, info)
                continue
            topic = log.topics[step[1] % len(log.topics)]
            before = len(cluster.trace)
            quiet = not any(cluster.faults.values())
            values = must_finish(net, c.consume(topic, start), "consume()")
            net.settle()
            entries = cluster.trace[before:]
            fetches = [e for e in entries if e["api"] == "fetch"]
            asked = []
            for e in entries:
                if e["api"] not in ("fetch", "offset"):
                    continue
                body = e["body"]
                check(body["replica_id"] == -1, "replica id %d in a consumer's request",
                      body["replica_id"])
                check([t["name"] for t in body["topics"]] == [topic], "consume(%r) asked for topics %r",
                      topic, [t["name"] for t in body["topics"]])
                if e["api"] == "offset":
                    for p in body["topics"][0]["partitions"]:
                        check(p["max_offsets"] >= 1 and p["time"] == (-2 if where == "beginning" else -1),
                              "an offset request for start %s asks %r", where, p)
                        answer = cluster.received(e)
                        if answer is not None:
                            for a in answer["topics"][0]["partitions"]:
                                if a["error_code"] == 0:
                                    position[(topic, a["partition_id"])] = a["offsets"][0]
            for e in fetches:
                body = e["body"]
                parts = body["topics"][0]["partitions"]
                check(parts, "a fetch request for no partition")
                if len(parts) > 1:
                    info.nontrivial = True
                check(body["max_wait_time"] == limits[0] and body["min_bytes"] == limits[1],
                      "fetch limits %r, configured %r", (body["max_wait_time"], body["min_bytes"]),
                      limits)
                share = limits[2] / float(len(parts))
                for p in parts:
                    asked.append(p["partition_id"])
                    check(share - 1 < p["max_bytes"] <= share, "max_bytes %d for one of %d partitions, "
                          "the total is %d", p["max_bytes"], len(parts), limits[2])
                    want = position.get((topic, p["partition_id"]))
                    check(p["offset"] == want, "partition %d of %r was asked for offset %r, the first "
                          "undelivered is %r", p["partition_id"], topic, p["offset"], want)
            check(sorted(asked) == sorted(set(asked)), "a partition was fetched twice in one call: %r",
                  sorted(asked))
            if quiet and fetches:
                # (a lost broker's partitions may be missing when something goes wrong)
                check(set(asked) == set(cluster.topics[topic]), "fetched partitions %r of %r",
                      sorted(set(asked)), sorted(cluster.topics[topic]))
                leaders = dict((p["partition_id"], e["broker"]) for e in fetches
                               for p in e["body"]["topics"][0]["partitions"])
                answered = [p["error_code"] for e in fetches if cluster.received(e)
                            for p in cluster.received(e)["topics"][0]["partitions"]]
                if not any(answered):
                    check(all(cluster.topics[topic][p].leader == b for p, b in leaders.items()),
                          "fetched from %r", leaders)
            seen = {}
            for v in values:
                seen.setdefault(v["p"], []).append(v["n"])
                info.nontrivial = True
            for e in fetches:
                answer = cluster.received(e)
                if answer is None:
                    continue
                for a in answer["topics"][0]["partitions"]:
                    pid = a["partition_id"]
                    n = len(seen.get(pid, []))
                    if n and a["error_code"] == 0:
                        # after the last one handed out
                        records = cluster.topics[topic][pid].records()
                        position[(topic, pid)] = 1 + records[
                            consuming.numbers(records).index(seen[pid][-1])][0]
        for q in cluster.faults.values():
            q.clear()
        for turn in range(3):
            net.sleep(4000.0 if turn == 2 and len(steps) % 4 == 3 else 1.0)
            before = len(cluster.trace)
            for topic in log.topics:
                must_finish(net, c.consume(topic, start), "consume()")
        last = cluster.trace[before:]
        refused = [e for e in last if e["api"] in ("fetch", "offset") and (
            cluster.received(e) is None or any(p["error_code"] for t in cluster.received(e)["topics"]
                                               for p in t["partitions"]))]
        if last and not refused:
            info.label("quiet in the end")
            check(not any(e["api"] == "metadata" for e in last),
                  "metadata is re-read while all is well: %r", [e["api"] for e in last])
        no_protocol_errors(cluster)
