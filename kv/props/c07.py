ID = "C07"
RULE = ("Logs of batches (each plain, gzip or snappy, as different producers write them) presented to "
        "kiel as one fetched set; the decoded messages must be the flat sequence with the broker's own "
        "offsets, the same for every choice of compression of the batches. Non-trivial: at least one "
        "compressed batch of two or more messages.")
QUICK, THOROUGH = 1400, 30000

from kv import proto, wire
from kv.engine import check, one_of


def strategy():
    from hypothesis import strategies as st
    rec = st.tuples(proto.st_blob(), one_of(
        proto.st_blob(), st.tuples(st.integers(1, 40000), st.integers(0, 255))))
    batch = st.tuples(st.sampled_from([0, 1, 2]), st.integers(1, 40000),
                      st.lists(rec, min_size=1, max_size=6))
    return st.tuples(st.integers(0, 2 ** 40), st.lists(batch, min_size=1, max_size=5),
                     st.lists(st.integers(0, 3), min_size=1, max_size=6))


def expand(v):
    if isinstance(v, tuple):
        return bytes((v[1] + i * 7) % 256 for i in range(min(v[0], 500))) * (1 + v[0] // 500)
    return proto.to_bytes(v)


def run(case, info):
    base, batches, gaps = case
    messages = proto.mod("messages")
    offset, n = base, 0
    flat, raws = [], []
    for codec, block, recs in batches:
        recs = [(expand(k), expand(v)) for k, v in recs]
        entries = []
        for key, value in recs:
            offset += gaps[n % len(gaps)]       # compacted logs have holes
            n += 1
            entries.append((offset, {"key": key, "value": value}))
            flat.append((offset, key, value))
            offset += 1
        inner = wire.encode_set(entries)
        if codec:
            info.label("codec %d" % codec)
            if len(entries) > 1:
                info.nontrivial = True
            block = max(block, len(inner) // 2000 + 1)
            raws.append(wire.encode_set([(entries[-1][0], {
                "key": None, "value": wire.compress(codec, inner, block), "attrs": codec})]))
        else:
            raws.append(inner)
    raw = b"".join(raws)
    data = wire.encode(wire.MSGSET, raw)
    parsed, end = messages.MessageSet.parse(data, 0)
    check(end == len(data), "parse ended at %d of %d", end, len(data))
    got = [(o, proto.to_bytes(m.key), proto.to_bytes(m.value)) for o, m in parsed.messages]
    check(got == flat, "decoded %r instead of %r", _short(got), _short(flat))


def _short(msgs):
    return [(o, k if k is None else k[:20], v if v is None else (len(v), v[:20]))
            for o, k, v in msgs]
