"""Bridges between plain-literal protocol values and kiel's public protocol classes."""
import importlib
import struct

from kv import wire
from kv.engine import check, one_of


def mod(name):
    return importlib.import_module("kiel.protocol." + name)


def _m(name):
    return importlib.import_module("kiel.protocol." + name)


def classes():
    """api -> (schema, request class, {path of part: class})"""
    produce, fetch, offset, metadata = _m("produce"), _m("fetch"), _m("offset"), _m("metadata")
    oc, of, co = _m("offset_commit"), _m("offset_fetch"), _m("coordinator")
    jg, sg, hb, lg = _m("join_group"), _m("sync_group"), _m("heartbeat"), _m("leave_group")
    dg, ls = _m("describe_groups"), _m("list_groups")
    R, D = wire.REQUESTS, wire.DOC_REQUESTS

    def tp(m, t="TopicRequest", p="PartitionRequest"):
        return {"topics": getattr(m, t), "topics.partitions": getattr(m, p)}

    return {
        "produce": (R["produce"], produce.ProduceRequest, tp(produce)),
        "fetch": (R["fetch"], fetch.FetchRequest, tp(fetch)),
        "offset": (R["offset"], offset.OffsetRequest, tp(offset)),
        "metadata": (R["metadata"], metadata.MetadataRequest, {}),
        "offset_commit": (R["offset_commit"], oc.OffsetCommitV0Request, tp(oc)),
        "offset_fetch": (R["offset_fetch"], of.OffsetFetchRequest, {"topics": of.TopicRequest}),
        "group_coordinator": (R["group_coordinator"], co.GroupCoordinatorRequest, {}),
        "offset_commit_v1": (D["offset_commit_v1"], oc.OffsetCommitV1Request,
                             tp(oc, "TopicV1Request", "PartitionV1Request")),
        "offset_commit_v2": (D["offset_commit_v2"], oc.OffsetCommitV2Request, tp(oc)),
        "join_group": (D["join_group"], jg.JoinGroupRequest,
                       {"group_protocols": jg.GroupProtocol}),
        "heartbeat": (D["heartbeat"], hb.HeartbeatRequest, {}),
        "leave_group": (D["leave_group"], lg.LeaveGroupRequest, {}),
        "sync_group": (D["sync_group"], sg.SyncGroupRequest, {
            "assignments": sg.MemberAssignment, "assignments.assignment": sg.Assignment,
            "assignments.assignment.topics": sg.TopicAssignment}),
        "describe_groups": (D["describe_groups"], dg.DescribeGroupsRequest, {}),
        "list_groups": (D["list_groups"], ls.ListGroupsRequest, {}),
    }


def response_classes():
    R, D = wire.RESPONSES, wire.DOC_RESPONSES
    return {
        "produce": (R["produce"], _m("produce").ProduceResponse),
        "fetch": (R["fetch"], _m("fetch").FetchResponse),
        "offset": (R["offset"], _m("offset").OffsetResponse),
        "metadata": (R["metadata"], _m("metadata").MetadataResponse),
        "offset_commit": (R["offset_commit"], _m("offset_commit").OffsetCommitResponse),
        "offset_fetch": (R["offset_fetch"], _m("offset_fetch").OffsetFetchResponse),
        "group_coordinator": (R["group_coordinator"], _m("coordinator").GroupCoordinatorResponse),
        "join_group": (D["join_group"], _m("join_group").JoinGroupResponse),
        "heartbeat": (D["heartbeat"], _m("heartbeat").HeartbeatResponse),
        "leave_group": (D["leave_group"], _m("leave_group").LeaveGroupResponse),
        "sync_group": (D["sync_group"], _m("sync_group").SyncGroupResponse),
        "describe_groups": (D["describe_groups"], _m("describe_groups").DescribeGroupsResponse),
        "list_groups": (D["list_groups"], _m("list_groups").ListGroupsResponse),
    }


def api_name_of(key):
    return "offset_commit" if key.startswith("offset_commit") else key


def build(schema, cls_map, value, path=""):
    """Plain value -> kiel object for `schema` (attributes only, no top-level class)."""
    if isinstance(schema, wire.Arr):
        return [build(schema.item, cls_map, v, path) for v in value]
    if isinstance(schema, wire.Struct):
        kwargs = build_kwargs(schema, cls_map, value, path)
        return cls_map[path](**kwargs)
    if schema == wire.MSGSET:
        messages = _m("messages")
        return messages.MessageSet([
            (off, messages.Message(magic=0, attributes=0, key=k, value=v))
            for off, k, v in value
        ])
    return value


def build_kwargs(schema, cls_map, value, path):
    return dict(
        (name, build(t, cls_map, value[name], (path + "." + name) if path else name))
        for name, t in schema.fields)


def build_request(key, value):
    schema, cls, cls_map = classes()[key]
    return cls(**build_kwargs(schema, cls_map, value, ""))


def to_bytes(v):
    """kiel hands text back as str when it is valid UTF-8, as bytes otherwise."""
    if isinstance(v, str):
        return v.encode("utf-8")
    return v


def as_wire(schema, value):
    """Plain value -> what wire.encode wants (message sets as (offset, dict))."""
    if isinstance(schema, wire.Arr):
        return [as_wire(schema.item, v) for v in value]
    if isinstance(schema, wire.Struct):
        return dict((n, as_wire(t, value[n])) for n, t in schema.fields)
    if schema == wire.MSGSET:
        return [(off, {"key": to_bytes(k), "value": to_bytes(v)}) for off, k, v in value]
    if schema in (wire.STR, wire.BYTES) and not isinstance(value, (str, bytes, type(None))):
        return str(value)       # documented: values are "string-able"
    return value


def expect_equal(schema, expected, actual, where):
    """Compares a decoded kiel object with the plain value field by field."""
    if isinstance(schema, wire.Arr):
        actual = list(actual)
        check(len(actual) == len(expected), "%s: %d items instead of %d",
              where, len(actual), len(expected))
        for i, (e, a) in enumerate(zip(expected, actual)):
            expect_equal(schema.item, e, a, "%s[%d]" % (where, i))
    elif isinstance(schema, wire.Struct):
        for name, t in schema.fields:
            check(hasattr(actual, name), "%s: no field %s", where, name)
            expect_equal(t, expected[name], getattr(actual, name), where + "." + name)
    elif schema == wire.MSGSET:
        got = [(off, to_bytes(m.key), to_bytes(m.value)) for off, m in actual.messages]
        want = [(off, to_bytes(k), to_bytes(v)) for off, k, v in expected]
        check(got == want, "%s: messages %r instead of %r", where, got, want)
    elif schema in (wire.STR, wire.BYTES):
        check(to_bytes(actual) == to_bytes(expected), "%s: %r instead of %r",
              where, actual, expected)
    else:
        check(actual == expected, "%s: %r instead of %r", where, actual, expected)


# ---------------------------------------------------------------- strategies

RANGES = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}


def st_int(t):
    from hypothesis import strategies as st
    bits = RANGES[t]
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    return one_of(st.integers(lo, hi), st.sampled_from([lo, -1, 0, 1, hi]),
                     st.integers(max(lo, -5), min(hi, 40)))


def st_text(max_size=12):
    from hypothesis import strategies as st
    return one_of(
        st.text(st.characters(exclude_categories=["Cs"]), max_size=max_size),
        st.text("ab:,%s{\u00e9\u4e2d\U0001f600", max_size=max_size))


def st_blob(max_size=40):
    from hypothesis import strategies as st
    return one_of(st.none(), st.binary(max_size=max_size), st_text(),
                     st.sampled_from([b"", b"\x00", b"\xff\xfe", b"a" * 300]))


def st_msgset(max_size=4):
    from hypothesis import strategies as st
    return st.lists(st.tuples(st_int("i64"), st_blob(), st_blob()), max_size=max_size)


def st_value(schema, max_items=3, stringable=False):
    from hypothesis import strategies as st
    if isinstance(schema, wire.Arr):
        return st.lists(st_value(schema.item, max_items, stringable), max_size=max_items)
    if isinstance(schema, wire.Struct):
        if not schema.fields:
            return st.just({})
        return st.fixed_dictionaries(
            dict((n, st_value(t, max_items, stringable)) for n, t in schema.fields))
    if schema == wire.MSGSET:
        return st_msgset()
    if schema == wire.STR:
        base = [st.none(), st_text(), st.sampled_from(["", "a" * 200])]
        if stringable:
            base.append(st.integers(-10, 10 ** 6))
        return one_of(*base)
    if schema == wire.BYTES:
        return st_blob()
    return st_int(schema)


def count_leaves(schema, value):
    if isinstance(schema, wire.Arr):
        return sum(count_leaves(schema.item, v) for v in value)
    if isinstance(schema, wire.Struct):
        return sum(count_leaves(t, value[n]) for n, t in schema.fields)
    if schema == wire.MSGSET:
        return len(value)
    return 1


# -------------------------------------------------------------- crc forging

def forge_crc(prefix, target):
    """Four bytes b such that crc32(prefix + b) == target."""
    table = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        table.append(c)
    top = dict((c >> 24, i) for i, c in enumerate(table))
    # run the register backwards from the target, then forwards to learn the bytes
    want = target ^ 0xFFFFFFFF
    idx = []
    c = want
    for _ in range(4):
        i = top[c >> 24]
        idx.append(i)
        c = ((c ^ table[i]) << 8) & 0xFFFFFFFF
    idx.reverse()
    state = wire.crc32(prefix) ^ 0xFFFFFFFF
    out = bytearray()
    for i in idx:
        b = (state ^ i) & 0xFF
        out.append(b)
        state = (state >> 8) ^ table[(state ^ b) & 0xFF]
    out = bytes(out)
    assert wire.crc32(prefix + out) == target
    return out


def value_with_crc(key, value, target):
    """Extends `value` by four bytes so that the message's CRC is `target`."""
    body = bytearray(struct.pack(">bb", 0, 0))
    wire._enc_var(">i", key, body)
    body += struct.pack(">i", len(value) + 4) + value
    return value + forge_crc(bytes(body), target)
