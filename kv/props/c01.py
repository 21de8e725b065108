ID = "C01"
RULE = ("Requests of every API kiel defines, with fields, arrays, strings, keys and values drawn over "
        "their full ranges; kiel's serialized bytes must equal those of an independent codec. "
        "Non-trivial: the request has at least 4 leaf fields or a message.")
QUICK, THOROUGH = 1800, 40000

from kv import proto, wire
from kv.engine import check


def strategy():
    from hypothesis import strategies as st
    table = proto.classes()
    keys = sorted(table)
    heavy = ["produce", "fetch", "offset", "offset_commit", "offset_fetch", "metadata"]
    return st.sampled_from(keys + heavy).flatmap(
        lambda k: st.tuples(st.just(k), proto.st_value(table[k][0], stringable=True)))


def run(case, info):
    key, value = case
    schema = proto.classes()[key][0]
    info.nontrivial = proto.count_leaves(schema, value) >= 4
    info.label(key)
    request = proto.build_request(key, value)
    api = proto.api_name_of(key)
    check(request.api == api, "request class for %s says api %r", key, request.api)
    got = request.serialize()
    check(isinstance(got, bytes), "serialize() returned %r", type(got))
    body = wire.encode(schema, proto.as_wire(schema, value))
    head = wire.encode(wire.REQUEST_HEADER, {
        "api_key": wire.API_KEYS[api], "api_version": 0,
        "correlation_id": request.correlation_id, "client_id": "kiel"})
    check(got == head + body, "%s request %r serialized as\n  %r\ninstead of\n  %r",
          key, value, got, head + body)
    check(request.serialize() == got, "serializing twice gives different bytes")
