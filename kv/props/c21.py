ID = "C21"
RULE = ("Sequences of arbitrary JSON values (nested, Unicode, lone-surrogate-free text, big numbers, "
        "falsy values) or, with custom serializers, arbitrary bytes and text, rarely more than a "
        "thousand, produced with generated keys, batch sizes and compression and consumed again through "
        "the default or matching deserializer; each partition yields equal values in the order produced. "
        "Non-trivial: at least two values, one of them not a plain object of ASCII strings.")
QUICK, THOROUGH = 1200, 20000

import base64
import zlib

from kv.engine import check, one_of
from kv.scenario import IDS, build, must_finish, no_protocol_errors, rarely, st_topology, world

KEYS = [None, "", "key", b"\x00\xff\x80", "ключ"]
FALSY = [0, 0.0, "", [], {}, False]


def strategy():
    from hypothesis import strategies as st
    text = st.text(st.characters(blacklist_categories=("Cs",)), max_size=12)
    scalar = one_of(st.booleans(), st.integers(-2 ** 70, 2 ** 70),
                       st.floats(allow_nan=False, allow_infinity=False), text,
                       st.sampled_from(FALSY))
    nested = st.recursive(one_of(st.none(), scalar), lambda inner: one_of(
        st.lists(inner, max_size=4), st.dictionaries(text, inner, max_size=4)), max_leaves=8)
    value = one_of(scalar, nested.filter(lambda v: v is not None),
                      st.text("ab", min_size=200, max_size=400))
    json_case = st.tuples(st.just("json"), st.lists(st.tuples(
        value, st.integers(0, 4), st.integers(0, 2)), max_size=10))
    raw = one_of(st.binary(max_size=20), st.binary(max_size=20), st.binary(min_size=100, max_size=400))
    raw_case = st.tuples(st.sampled_from(["raw", "deflate", "base64"]), st.lists(st.tuples(
        raw, st.integers(0, 4), st.integers(0, 2)), max_size=10))
    text_case = st.tuples(st.just("text"), st.lists(st.tuples(
        text, st.integers(0, 4), st.integers(0, 2)), max_size=10))
    any_case = one_of(json_case, json_case, raw_case, text_case)
    any_case = rarely(any_case, any_case.map(lambda c: (c[0], c[1] * 150)), 100)
    return st.tuples(st_topology(max_topics=2), any_case,
                     st.sampled_from([1, 1, 2, 3, 20, 2000]), st.sampled_from([None, 1, 2]),
                     st.sampled_from([0, 0, 7, 61]))


def raw_bytes(value):
    return value.encode("utf-8") if isinstance(value, str) else bytes(value)


CODERS = {
    "json": (None, None),
    "raw": (lambda v: v, raw_bytes),
    "deflate": (zlib.compress, lambda v: zlib.decompress(raw_bytes(v))),
    "base64": (lambda v: base64.b64encode(v).decode("ascii"), lambda v: base64.b64decode(v)),
    "text": (lambda v: v, lambda v: raw_bytes(v).decode("utf-8")),
}


def same(a, b):
    """Equality that tells True from 1 and 1 from 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def run(case, info):
    topology, (coder, items), batch, compression, chunk = case
    if len(items) > 10:
        chunk = 0
        info.label("many values")
    with world(IDS[:topology[0]], read_chunk=chunk, write_chunk=chunk) as (net, cluster):
        from kiel.clients import Producer, SingleConsumer
        topics = build(cluster, topology)
        serializer, deserializer = CODERS[coder]
        want = {}
        current = [None]
        p = Producer(cluster.bootstrap(), serializer=serializer, key_maker=lambda v: current[0],
                     partitioner=lambda k, ps: sorted(ps)[0], batch_size=batch,
                     compression=compression)
        most = max(len(p) for p in cluster.topics.values())
        c = SingleConsumer(cluster.bootstrap(), deserializer=deserializer, max_wait_time=10,
                           **({"max_bytes": most << 20} if most > 4 else {}))
        must_finish(net, p.connect(), "connect()")
        must_finish(net, c.connect(), "connect()")
        for value, key, t in items:
            topic = topics[t % len(topics)]
            current[0] = KEYS[key]
            must_finish(net, p.produce(topic, value), "produce()")
            want.setdefault(topic, []).append((KEYS[key], value))
        must_finish(net, p.close(), "close()")
        if len(items) > 1 and any(coder != "json" or not isinstance(v, dict) or not repr(v).isascii()
                                  for v, _, _ in items):
            info.nontrivial = True
        info.label(coder)
        for topic in topics:
            have, more = [], 3
            expected = [v for _, v in want.get(topic, [])]
            for _ in range(3 + len(items)):
                values = must_finish(net, c.consume(topic, c.BEGINNING), "consume()")
                have.extend(values)
                more -= not values or len(have) >= len(expected)
                if not more:
                    break
            check(len(have) == len(expected) and all(same(a, b) for a, b in zip(have, expected)),
                  "produced %r to %r, consumed %r", expected, topic, have)
            first = sorted(cluster.topics[topic])[0]
            keys = [k for _, k, _ in cluster.log_values(topic)[first]]
            expected = [None if k is None else raw_bytes(k) for k, _ in want.get(topic, [])]
            check(keys == expected, "keys %r are stored as %r", expected, keys)
        must_finish(net, c.close(), "close()")
        no_protocol_errors(cluster)
