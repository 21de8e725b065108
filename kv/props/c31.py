ID = "C31"
RULE = ("Two kinds of cases: (a) valid responses of every API kiel defines with bytes overwritten, "
        "removed, inserted and lengths inflated, or plain random bytes: decoding them ends promptly with "
        "a response or an error, and whatever an independent strict decoder accepts is decoded to the "
        "same values; (b) producers, single and grouped consumers whose brokers answer any request with "
        "unreadable frames (unknown correlation id, too short or negative sizes, contents cut or not "
        "adding up) at generated moments: every call completes, the connection is given up, nobody else's "
        "is, and no message is lost, repeated or left behind. Non-trivial: (a) the bytes differ from a "
        "valid response, (b) an unreadable answer was sent.")
QUICK, THOROUGH = 1400, 20000

import time

from kv import consuming, grouping, proto, wire
from kv.engine import Violation, check, one_of
from kv.scenario import IDS, build, must_finish, no_protocol_errors, open_conns, st_topology, world

HOW = ["correlation", "short", "cut", "count", "tiny", "negative"]
APIS = {"producer": ["produce", "metadata"], "single": ["fetch", "offset", "metadata"],
        "grouped": ["fetch", "group_coordinator", "offset_fetch", "offset_commit", "metadata"]}


def strategy():
    from hypothesis import strategies as st
    table = proto.response_classes()
    keys = sorted(table) + ["fetch", "metadata", "offset_fetch", "produce"]
    pos = st.integers(0, 400)
    edit = one_of(
        st.tuples(st.just("set"), pos, st.integers(0, 255)),
        st.tuples(st.just("set"), pos, st.sampled_from([0, 1, 0x7f, 0x80, 0xff])),
        st.tuples(st.just("cut"), pos, st.integers(1, 9)),
        st.tuples(st.just("add"), pos, st.binary(min_size=1, max_size=6)),
        st.tuples(st.just("int"), pos, st.sampled_from([-1, -2, 0, 1, 2, 255, 65536, -2 ** 31, 2 ** 31 - 1])),
        st.tuples(st.just("end"), pos, st.just(0)))
    mutated = st.sampled_from(keys).flatmap(lambda k: st.tuples(
        st.just("bytes"), st.just(k),
        st.builds(lambda v: wire.encode(table[k][0], proto.as_wire(table[k][0], v)),
                  proto.st_value(table[k][0])),
        st.lists(edit, min_size=1, max_size=3)))
    raw = st.tuples(st.just("bytes"), st.sampled_from(keys), st.binary(max_size=120), st.just([]))

    def client(kind):
        i = st.integers(0, 2)
        fault = st.tuples(st.sampled_from(APIS[kind]), one_of(st.none(), st.sampled_from(HOW),
                                                                 st.sampled_from(HOW)))
        step = st.tuples(st.lists(fault, max_size=2), i, st.integers(1, 3))
        return st.tuples(st.just(kind), st_topology(max_topics=2), consuming.st_log(max_batches=3),
                         st.lists(step, min_size=1, max_size=6), st.sampled_from([1, 2, 5]))

    return one_of(mutated, mutated, raw, client("producer"), client("single"), client("grouped"))


def apply(raw, edits):
    for op, pos, arg in edits:
        pos %= len(raw) + 1
        if op == "set":
            raw = raw[:pos] + bytes([arg]) + raw[pos + 1:]
        elif op == "cut":
            raw = raw[:pos] + raw[pos + arg:]
        elif op == "add":
            raw = raw[:pos] + arg + raw[pos:]
        elif op == "int":
            raw = raw[:pos] + (arg & 0xffffffff).to_bytes(4, "big") + raw[pos + 4:]
        elif op == "end":
            raw = raw[:pos]
    return raw


def run(case, info):
    if case[0] == "bytes":
        return run_bytes(case, info)
    return run_client(case, info)


def run_bytes(case, info):
    _, key, raw, edits = case
    schema, cls = proto.response_classes()[key]
    info.label("decode " + key)
    info.nontrivial = bool(edits)
    data = apply(raw, edits)
    try:
        want = wire.decode(schema, data)
        flat = logical(schema, want)
    except Exception:
        want = None
    started = time.process_time()
    try:
        got = cls.deserialize(data)
    except Exception as exc:
        got = exc
    check(time.process_time() - started < 5, "decoding %d bytes of a %s response takes %.1fs",
          len(data), key, time.process_time() - started)
    if want is None:
        return
    info.label("still valid")
    check(not isinstance(got, Exception), "a valid %s response is refused: %r", key, got)
    proto.expect_equal(schema, flat, got, key)


def logical(schema, value):
    """Message sets as (offset, key, value) of the messages in them."""
    if isinstance(schema, wire.Arr):
        return [logical(schema.item, v) for v in value]
    if isinstance(schema, wire.Struct):
        return dict((n, logical(t, value[n])) for n, t in schema.fields)
    if schema == wire.MSGSET:
        return [(off, m["key"], m["value"]) for off, m in wire.unwrap(value)]
    return value


def run_client(case, info):
    kind, topology, initial, steps, size = case
    info.label(kind)
    with world(IDS[:topology[0]]) as (net, cluster), \
            grouping.zk_world((0, 0, 0), net=net) as w:
        log = consuming.Log(net, cluster, topology, info)
        if kind == "producer":
            client = producer(cluster, size)
        else:
            for a in initial:
                log.append(*a)
            client = consumer(kind, cluster)
        must_finish(net, client.connect(), "connect()")
        got, sent = consuming.Delivered(), {}

        def use(topic_index, count):
            topic = log.topics[topic_index % len(log.topics)]
            if kind == "producer":
                for _ in range(count):
                    n = sum(map(len, sent.values()))
                    sent.setdefault(topic, []).append(n)
                    must_finish(net, client.produce(topic, {"n": n}), "produce()")
            else:
                args = (client.BEGINNING,) if kind == "single" else ()
                got.add(topic, must_finish(net, client.consume(topic, *args), "consume()"))

        for faults, topic_index, count in steps:
            for api, how in faults:
                if api == "fetch" and how == "cut":
                    how = "short"           # a message set may well be cut off
                if api == "group_coordinator" and how == "count":
                    how = "cut"             # there is no array in it
                if api == "metadata" and topology[0] == 1:
                    continue
                if api == "metadata":
                    # one at a time, so that the next broker asked answers
                    cluster.faults[api] = []
                cluster.faults.setdefault(api, []).append(how and ("garbage", how))
            if kind != "producer":
                log.append(topic_index, count, count, 0, 5)
            use(topic_index, count)
        given_up(net, cluster, info)
        cluster.faults.clear()
        if kind != "producer":
            for _ in range(3):
                for i in range(len(log.topics)):
                    use(i, 0)
        must_finish(net, client.close(), "close()")
        net.settle()
        check(open_conns(net) == [], "connections left open after close(): %s", open_conns(net))
        check(not grouping.unexpected(w.errors), "a callback failed: %r", w.errors)
        no_protocol_errors(cluster)
        for topic in log.topics:
            logs = dict((p, consuming.numbers(r) if kind != "producer" else
                         [json_n(v) for _, _, v in r]) for p, r in cluster.log_values(topic).items())
            if kind == "producer":
                stored = set(n for ns in logs.values() for n in ns)
                check(stored == set(sent.get(topic, ())), "%r holds messages %r, accepted were %r",
                      topic, sorted(stored), sent.get(topic, []))
                continue
            for p, want in logs.items():
                have = got.seen.get((topic, p), [])
                check(have == want, "partition %d of %r holds messages %r, consume() gave %r",
                      p, topic, want, have)


def json_n(value):
    import json
    return json.loads(value)["n"]


def given_up(net, cluster, info):
    """Connections that brought garbage are done for, the others are kept."""
    guilty, used = {}, {}
    for i, e in enumerate(cluster.trace):
        if e["conn"] in guilty:
            raise Violation("a %s request is sent over a connection that had brought an unreadable "
                            "%s answer" % (e["api"], guilty[e["conn"]]))
        if e["fault"] and e["fault"][0] == "garbage":
            guilty[e["conn"]] = e["api"]
            info.nontrivial = True
            info.label("%s %s" % e["fault"])
        if e["api"] != "metadata":
            used.setdefault(e["broker"], set()).add(e["conn"])
    bad = set(e["broker"] for e in cluster.trace if e["conn"] in guilty)
    for broker, conns in used.items():
        check(broker in bad or len(conns) == 1, "broker %d answered properly, yet its connection was "
              "replaced", broker)


def producer(cluster, size):
    from kiel.clients import Producer
    return Producer(cluster.bootstrap(), batch_size=size)


def consumer(kind, cluster):
    from kiel.clients import GroupedConsumer, SingleConsumer
    if kind == "single":
        return SingleConsumer(cluster.bootstrap(), max_wait_time=5)
    return GroupedConsumer(cluster.bootstrap(), "work", ["zk"], max_wait_time=5)
