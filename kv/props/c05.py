ID = "C05"
RULE = ("Fetch responses with several topics/partitions whose message sets are cut at every kind of byte "
        "position (in the offset, size, CRC, key, value, inside a compressed wrapper); kiel must give "
        "exactly the complete messages of each partition, and everything after a cut set intact. "
        "Non-trivial: a set is cut inside a message and another partition follows it, or wrapped messages "
        "precede the cut.")
QUICK, THOROUGH = 1400, 30000

from kv import proto, wire
from kv.engine import check, one_of


def st_entries(max_size=5):
    from hypothesis import strategies as st
    off = one_of(st.integers(0, 50), proto.st_int("i64").filter(lambda x: x >= 0))
    rec = st.tuples(off, proto.st_blob(), proto.st_blob())
    plain = rec.map(lambda r: ("m",) + r)
    wrapped = st.tuples(st.just("z"), st.sampled_from([1, 2]), st.integers(1, 64),
                        st.lists(rec, min_size=1, max_size=4))
    return st.lists(one_of(*[plain] * 2 + [wrapped]), max_size=max_size)


def strategy():
    from hypothesis import strategies as st
    part = st.tuples(proto.st_int("i32"), proto.st_int("i16"), proto.st_int("i64"), st_entries(),
                     one_of(st.none(), st.integers(1, 60), st.integers(1, 2000)))
    topic = st.tuples(proto.st_text(), st.lists(part, min_size=1, max_size=4))
    return st.lists(topic, min_size=1, max_size=2)


def encode_entries(entries):
    """-> list of (raw bytes, [flat messages])"""
    out = []
    for e in entries:
        if e[0] == "m":
            _, off, key, value = e
            key, value = proto.to_bytes(key), proto.to_bytes(value)
            out.append((wire.encode_set([(off, {"key": key, "value": value})]),
                        [(off, key, value)]))
        else:
            _, codec, block, recs = e
            flat = [(o, proto.to_bytes(k), proto.to_bytes(v)) for o, k, v in recs]
            inner = wire.encode_set([(o, {"key": k, "value": v}) for o, k, v in flat])
            body = wire.compress(codec, inner, block)
            out.append((wire.encode_set(
                [(flat[-1][0], {"key": None, "value": body, "attrs": codec})]), flat))
    return out


def run(case, info):
    produce = []
    expected = []
    for name, parts in case:
        plist = []
        for pid, err, hw, entries, cut in parts:
            enc = encode_entries(entries)
            raw = b"".join(r for r, _ in enc)
            if cut is not None and raw:
                keep = len(raw) - 1 - (cut - 1) % len(raw)
                raw = raw[:keep]
            pos, flat = 0, []
            for r, msgs in enc:
                pos += len(r)
                if pos > len(raw):
                    break
                flat.extend(msgs)
                if len(msgs) > 1:
                    info.label("wrapped")
            complete = pos <= len(raw) if enc else True
            plist.append({"partition_id": pid, "error_code": err, "highwater_mark_offset": hw,
                          "message_set": raw})
            expected.append((name, pid, err, hw, flat, complete))
        produce.append({"name": name, "partitions": plist})
    raw = wire.encode(wire.RESPONSES["fetch"], {"topics": produce})
    for i, e in enumerate(expected):
        if not e[5]:
            info.label("cut")
            if i + 1 < len(expected):
                info.nontrivial = True
                info.label("cut-then-more")
    if "wrapped" in info.labels and "cut" in info.labels:
        info.nontrivial = True

    response = proto.mod("fetch").FetchResponse.deserialize(raw)
    got = []
    for topic in response.topics:
        for p in topic.partitions:
            got.append((topic.name, p.partition_id, p.error_code, p.highwater_mark_offset,
                        [(o, proto.to_bytes(m.key), proto.to_bytes(m.value))
                         for o, m in p.message_set.messages]))
    check(len(got) == len(expected), "%d partitions decoded instead of %d",
          len(got), len(expected))
    for g, e in zip(got, expected):
        check(g[:4] == e[:4], "partition header %r decoded as %r", e[:4], g[:4])
        check(g[4] == e[4], "partition %r: messages %r instead of %r", e[:2], g[4], e[4])
