ID = "C02"
RULE = ("Responses of every API kiel defines, encoded by an independent codec with fields over their full "
        "ranges (null/empty/non-UTF-8 strings, many topics/partitions/messages), decoded by kiel and "
        "compared field by field. Non-trivial: at least 4 leaf fields or a message.")
QUICK, THOROUGH = 1800, 40000

from kv import proto, wire
from kv.engine import check


def strategy():
    from hypothesis import strategies as st
    table = proto.response_classes()
    keys = sorted(table)
    heavy = ["fetch", "fetch", "metadata", "offset", "produce", "offset_fetch"]
    return st.sampled_from(keys + heavy).flatmap(
        lambda k: st.tuples(st.just(k), proto.st_value(table[k][0])))


def run(case, info):
    key, value = case
    schema, cls = proto.response_classes()[key]
    info.nontrivial = proto.count_leaves(schema, value) >= 4
    info.label(key)
    check(cls.api == key, "response class for %s says api %r", key, cls.api)
    raw = wire.encode(schema, proto.as_wire(schema, value))
    response = cls.deserialize(raw)
    proto.expect_equal(schema, value, response, key)
    if info.nontrivial:
        again = cls.deserialize(raw)
        check(again == response and response == again,
              "decoding the same bytes twice gives unequal responses")
