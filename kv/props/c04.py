ID = "C04"
RULE = ("Message lists (null/empty/binary/text keys and values; CRCs forged to sit on sign-bit and "
        "all-ones boundaries) rendered under each compression mode; an independent strict broker-side "
        "decoder must accept the bytes (sizes, CRCs) and recover the same messages in order. Non-trivial: "
        "at least two messages or a forged CRC.")
QUICK, THOROUGH = 2100, 30000

import struct

from kv import proto, wire
from kv.engine import Violation, check, one_of

CRCS = [0, 1, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF]


def strategy():
    from hypothesis import strategies as st
    big = st.tuples(st.binary(min_size=1, max_size=4), st.integers(1, 30000)).map(
        lambda t: ("rep", t[0], t[1]))
    blob = one_of(proto.st_blob(), proto.st_blob(), big)
    plain = st.tuples(blob, blob, st.none())
    forged = st.tuples(proto.st_blob(), st.binary(max_size=30), st.sampled_from(CRCS))
    return st.tuples(st.sampled_from([None, 1, 2]),
                     st.lists(one_of(*[plain] * 2 + [forged]), max_size=8))


def expand(v):
    if isinstance(v, tuple):
        return (v[1] * v[2])[:v[2]]
    return v


def run(case, info):
    codec, specs = case
    messages = proto.mod("messages")
    msgs = []
    for key, value, crc in specs:
        key, value = expand(key), expand(value)
        if crc is not None:
            value = proto.value_with_crc(proto.to_bytes(key), proto.to_bytes(value), crc)
            info.label("crc %08x" % crc)
        msgs.append((key, value))
    info.nontrivial = len(msgs) >= 2 or any(c is not None for _, _, c in specs)
    info.label("codec %s" % codec)

    mset = messages.MessageSet.compressed(codec, [
        messages.Message(magic=0, attributes=0, key=k, value=v) for k, v in msgs])
    fmt, data = mset.render()
    raw = struct.pack("!" + fmt, *data)
    size = struct.unpack(">i", raw[:4])[0]
    check(size == len(raw) - 4, "set announces %d bytes but has %d", size, len(raw) - 4)
    try:
        entries = wire.decode_set(raw[4:])
        flat = wire.unwrap(entries)
    except Exception as exc:
        raise Violation("the broker cannot read the message set: %s: %s" % (
            type(exc).__name__, exc))
    if codec:
        check(len(entries) == 1 and entries[0][1]["attrs"] == codec
              and entries[0][1]["key"] is None,
              "a compressed set must be one keyless message with attributes %d, got %r",
              codec, [(e[1]["attrs"], e[1]["key"]) for e in entries])
    else:
        check(len(entries) == len(msgs), "%d entries for %d messages", len(entries), len(msgs))
    got = [(m["key"], m["value"]) for _, m in flat]
    want = [(proto.to_bytes(k), proto.to_bytes(v)) for k, v in msgs]
    check(got == want, "the broker sees %r instead of %r", got, want)

    # and kiel reads back its own bytes
    parsed, end = messages.MessageSet.parse(raw, 0)
    check(end == len(raw), "parsing own set ended at %d of %d", end, len(raw))
    back = [(proto.to_bytes(m.key), proto.to_bytes(m.value)) for _, m in parsed.messages]
    check(back == want, "kiel reads back %r instead of %r", back, want)
