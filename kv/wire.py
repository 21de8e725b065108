"""Independent implementation of the Kafka v0 wire format (the oracle's codec).

Written from the Kafka protocol guide; shares nothing with kiel.  Values are
plain dicts / lists / bytes / str / ints.
"""
import binascii
import gzip as _gzip
import io
import struct

import snappy as _snappy

I8, I16, I32, I64, STR, BYTES, MSGSET = "i8", "i16", "i32", "i64", "str", "bytes", "msgset"
_INT = {I8: ">b", I16: ">h", I32: ">i", I64: ">q"}

GZIP, SNAPPY = 1, 2


class WireError(ValueError):
    pass


class Arr(object):
    def __init__(self, item):
        self.item = item


class Struct(object):
    def __init__(self, *fields):
        self.fields = fields


def S(*fields):
    return Struct(*fields)


# ------------------------------------------------------------------ encoding

def encode(schema, value):
    out = bytearray()
    _enc(schema, value, out)
    return bytes(out)


def _enc(t, v, out):
    if isinstance(t, Struct):
        if set(v) != set(n for n, _ in t.fields):
            raise WireError("fields %r" % (sorted(v),))
        for name, ft in t.fields:
            _enc(ft, v[name], out)
    elif isinstance(t, Arr):
        out += struct.pack(">i", len(v))
        for item in v:
            _enc(t.item, item, out)
    elif t in _INT:
        out += struct.pack(_INT[t], v)
    elif t == STR:
        _enc_var(">h", v, out)
    elif t == BYTES:
        _enc_var(">i", v, out)
    elif t == MSGSET:
        raw = v if isinstance(v, (bytes, bytearray)) else encode_set(v)
        out += struct.pack(">i", len(raw)) + raw
    else:
        raise WireError("type %r" % (t,))


def _enc_var(fmt, v, out):
    if v is None:
        out += struct.pack(fmt, -1)
        return
    if isinstance(v, str):
        v = v.encode("utf-8")
    out += struct.pack(fmt, len(v)) + v


# ------------------------------------------------------------------ decoding

class Reader(object):
    def __init__(self, data, pos=0, end=None):
        self.data, self.pos = data, pos
        self.end = len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.pos + n > self.end:
            raise WireError("truncated: need %d bytes at %d of %d" % (n, self.pos, self.end))
        b = bytes(self.data[self.pos:self.pos + n])
        self.pos += n
        return b

    def int(self, t):
        fmt = _INT[t]
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))[0]


def decode(schema, data):
    """Strict: every byte must be consumed."""
    r = Reader(data)
    v = _dec(schema, r)
    if r.pos != r.end:
        raise WireError("%d trailing bytes" % (r.end - r.pos))
    return v


def _dec(t, r):
    if isinstance(t, Struct):
        return dict((name, _dec(ft, r)) for name, ft in t.fields)
    if isinstance(t, Arr):
        n = r.int(I32)
        if n < 0:
            raise WireError("negative array length %d" % n)
        return [_dec(t.item, r) for _ in range(n)]
    if t in _INT:
        return r.int(t)
    if t == STR:
        n = r.int(I16)
        return None if n == -1 else r.take(n).decode("utf-8")
    if t == BYTES:
        n = r.int(I32)
        return None if n == -1 else r.take(n)
    if t == MSGSET:
        n = r.int(I32)
        return decode_set(r.take(n))
    raise WireError("type %r" % (t,))


# ------------------------------------------------------------- message sets

def crc32(b):
    return binascii.crc32(b) & 0xFFFFFFFF


def encode_message(msg):
    """msg = {"key", "value", optional "attrs", "magic"}; keys/values bytes or None."""
    body = bytearray(struct.pack(">bb", msg.get("magic", 0), msg.get("attrs", 0)))
    _enc_var(">i", msg["key"], body)
    _enc_var(">i", msg["value"], body)
    return struct.pack(">I", crc32(bytes(body))) + bytes(body)


def encode_set(entries):
    out = bytearray()
    for offset, msg in entries:
        raw = encode_message(msg)
        out += struct.pack(">qi", offset, len(raw)) + raw
    return bytes(out)


def decode_set(raw):
    """Strict: sizes must agree, CRCs must match, nothing left over.

    Returns [(offset, {"key","value","attrs","magic"})] without unwrapping.
    """
    r = Reader(raw)
    out = []
    while r.pos < r.end:
        offset = r.int(I64)
        size = r.int(I32)
        m = Reader(r.take(size))
        crc = struct.unpack(">I", m.take(4))[0]
        if crc != crc32(m.data[4:]):
            raise WireError("bad crc %08x, computed %08x" % (crc, crc32(m.data[4:])))
        magic, attrs = m.int(I8), m.int(I8)
        if magic != 0:
            raise WireError("magic %d in a v0 message" % magic)
        key, value = _dec(BYTES, m), _dec(BYTES, m)
        if m.pos != m.end:
            raise WireError("%d stray bytes inside a message" % (m.end - m.pos))
        out.append((offset, {"key": key, "value": value, "attrs": attrs, "magic": magic}))
    return out


def compress(codec, raw, block=32 * 1024):
    if codec == GZIP:
        return gzip_compress(raw)
    if codec == SNAPPY:
        return xerial_compress(raw, block)
    raise WireError("codec %r" % codec)


def decompress(codec, raw):
    if codec == GZIP:
        return gzip_decompress(raw)
    if codec == SNAPPY:
        return xerial_decompress(raw)
    raise WireError("codec %r" % codec)


def gzip_compress(raw):
    buff = io.BytesIO()
    with _gzip.GzipFile(fileobj=buff, mode="wb", mtime=0) as fd:
        fd.write(raw)
    return buff.getvalue()


def gzip_decompress(raw):
    with _gzip.GzipFile(fileobj=io.BytesIO(raw), mode="rb") as fd:
        return fd.read()


XERIAL_MAGIC = b"\x82SNAPPY\x00"


def xerial_compress(raw, block=32 * 1024):
    """The snappy-java stream format Kafka uses."""
    out = bytearray(XERIAL_MAGIC + struct.pack(">ii", 1, 1))
    for i in range(0, len(raw), block):
        c = bytes(_snappy.compress(raw[i:i + block]))
        out += struct.pack(">i", len(c)) + c
    return bytes(out)


def xerial_decompress(raw):
    r = Reader(raw)
    if r.take(8) != XERIAL_MAGIC:
        raise WireError("not a snappy-java stream")
    version, compat = r.int(I32), r.int(I32)
    if version < 1 or compat != 1:
        raise WireError("snappy-java version %d/%d" % (version, compat))
    out = bytearray()
    while r.pos < r.end:
        out += bytes(_snappy.uncompress(r.take(r.int(I32))))
    return bytes(out)


def unwrap(entries):
    """What a broker stores logically: the flat list of messages of a set."""
    out = []
    for offset, msg in entries:
        codec = msg["attrs"] & 3
        if msg["attrs"] & ~3:
            raise WireError("attributes %d" % msg["attrs"])
        if not codec:
            out.append((offset, msg))
            continue
        if msg["value"] is None:
            raise WireError("compressed message without value")
        inner = decode_set(decompress(codec, msg["value"]))
        for _, m in inner:
            if m["attrs"]:
                raise WireError("compressed set nested in a compressed set")
        out.extend(inner)
    return out


# ------------------------------------------------------------------ schemas

def _topics(*fields):
    return Arr(S(("name", STR), ("partitions", Arr(S(*fields)))))


REQUEST_HEADER = S(("api_key", I16), ("api_version", I16),
                   ("correlation_id", I32), ("client_id", STR))

API_KEYS = {
    "produce": 0, "fetch": 1, "offset": 2, "metadata": 3, "offset_commit": 8,
    "offset_fetch": 9, "group_coordinator": 10, "join_group": 11, "heartbeat": 12,
    "leave_group": 13, "sync_group": 14, "describe_groups": 15, "list_groups": 16,
}

REQUESTS = {
    "produce": S(("required_acks", I16), ("timeout", I32),
                 ("topics", _topics(("partition_id", I32), ("message_set", MSGSET)))),
    "fetch": S(("replica_id", I32), ("max_wait_time", I32), ("min_bytes", I32),
               ("topics", _topics(("partition_id", I32), ("offset", I64), ("max_bytes", I32)))),
    "offset": S(("replica_id", I32),
                ("topics", _topics(("partition_id", I32), ("time", I64), ("max_offsets", I32)))),
    "metadata": S(("topics", Arr(STR))),
    "offset_commit": S(("group", STR), ("topics", _topics(
        ("partition_id", I32), ("offset", I64), ("metadata", STR)))),
    "offset_fetch": S(("group_name", STR),
                      ("topics", Arr(S(("name", STR), ("partitions", Arr(I32)))))),
    "group_coordinator": S(("group", STR)),
}

RESPONSES = {
    "produce": S(("topics", _topics(("partition_id", I32), ("error_code", I16), ("offset", I64)))),
    "fetch": S(("topics", _topics(("partition_id", I32), ("error_code", I16),
                                  ("highwater_mark_offset", I64), ("message_set", MSGSET)))),
    "offset": S(("topics", _topics(("partition_id", I32), ("error_code", I16),
                                   ("offsets", Arr(I64))))),
    "metadata": S(("brokers", Arr(S(("broker_id", I32), ("host", STR), ("port", I32)))),
                  ("topics", Arr(S(("error_code", I16), ("name", STR), ("partitions", Arr(S(
                      ("error_code", I16), ("partition_id", I32), ("leader", I32),
                      ("replicas", Arr(I32)), ("isrs", Arr(I32))))))))),
    "offset_commit": S(("topics", _topics(("partition_id", I32), ("error_code", I16)))),
    "offset_fetch": S(("topics", _topics(("partition_id", I32), ("offset", I64),
                                         ("metadata", STR), ("error_code", I16)))),
    "group_coordinator": S(("error_code", I16), ("coordinator_id", I32),
                           ("coordinator_host", STR), ("coordinator_port", I32)),
}

# APIs kiel only defines structures for: the layout its documentation declares
_ASSIGNMENT = S(("version", I16),
                ("topics", Arr(S(("name", STR), ("partitions", Arr(I32))))),
                ("user_data", BYTES))
DOC_REQUESTS = {
    "offset_commit_v1": S(("group", STR), ("generation", I32), ("consumer_id", I32),
                          ("topics", _topics(("partition_id", I32), ("offset", I64),
                                             ("timestamp", I64), ("metadata", STR)))),
    "offset_commit_v2": S(("group", STR), ("generation", I32), ("consumer_id", I32),
                          ("retention_time", I64),
                          ("topics", _topics(("partition_id", I32), ("offset", I64),
                                             ("metadata", STR)))),
    "join_group": S(("group_id", STR), ("session_timeout", I32), ("member_id", STR),
                    ("protocol_type", STR), ("group_protocols", Arr(S(
                        ("name", STR), ("version", I16), ("subscription", Arr(STR)),
                        ("user_data", BYTES))))),
    "heartbeat": S(("group_id", STR), ("generation_id", I32), ("member_id", STR)),
    "leave_group": S(("group_id", STR), ("member_id", STR)),
    "sync_group": S(("group_id", STR), ("generation_id", I32), ("member_id", STR),
                    ("assignments", Arr(S(("member_id", STR), ("assignment", _ASSIGNMENT))))),
    "describe_groups": S(("groups", Arr(STR))),
    "list_groups": S(),
}
DOC_RESPONSES = {
    "join_group": S(("error_code", I16), ("generation_id", I32), ("protocol", STR),
                    ("leader_id", STR), ("member_id", STR),
                    ("members", Arr(S(("member_id", STR), ("metadata", BYTES))))),
    "heartbeat": S(("error_code", I16)),
    "leave_group": S(("error_code", I16)),
    "sync_group": S(("error_code", I16), ("assignments", Arr(S(
        ("member_id", STR), ("assignment", _ASSIGNMENT))))),
    "describe_groups": S(("groups", Arr(S(
        ("error_code", I16), ("group_id", STR), ("state", STR), ("protocol_type", STR),
        ("protocol", STR), ("members", Arr(S(
            ("member_id", STR), ("client_id", STR), ("client_host", STR), ("metadata", BYTES),
            ("assignment", _ASSIGNMENT)))))))),
    "list_groups": S(("error_code", I16),
                     ("groups", Arr(S(("group_id", STR), ("protocol_type", STR))))),
}


def split_request(payload):
    """payload (without the size prefix) -> (header dict, api name, body dict)."""
    r = Reader(payload)
    header = _dec(REQUEST_HEADER, r)
    names = dict((k, n) for n, k in API_KEYS.items())
    if header["api_key"] not in names:
        raise WireError("api key %d" % header["api_key"])
    if header["api_version"] != 0:
        raise WireError("api version %d" % header["api_version"])
    api = names[header["api_key"]]
    body = _dec(REQUESTS[api], r)
    if r.pos != r.end:
        raise WireError("%d trailing bytes after a %s request" % (r.end - r.pos, api))
    return header, api, body
