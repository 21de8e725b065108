ID = "C03"
RULE = ("Randomly composed structures (nested parts, arrays of arrays, every primitive) with values over "
        "the full ranges, rendered and parsed back at an arbitrary offset in a larger buffer; and the "
        "same with one leaf pushed out of its range, which must be refused. Non-trivial: at least 3 "
        "leaves, or an out-of-range leaf.")
QUICK, THOROUGH = 1400, 30000

import struct

from kv import proto, wire
from kv.engine import Violation, check, one_of

LEAVES = ["i8", "i16", "i32", "i64", "str", "bytes"]


# a shape is a literal: leaf name | ("arr", shape) | ("part", (shape, ...))
def to_schema(shape):
    if isinstance(shape, str):
        return shape
    if shape[0] == "arr":
        return wire.Arr(to_schema(shape[1]))
    return wire.Struct(*[("f%d" % i, to_schema(s)) for i, s in enumerate(shape[1])])


def to_class(shape):
    p = proto.mod("primitives")
    part = proto.mod("part")
    if isinstance(shape, str):
        return {"i8": p.Int8, "i16": p.Int16, "i32": p.Int32, "i64": p.Int64,
                "str": p.String, "bytes": p.Bytes}[shape]
    if shape[0] == "arr":
        return p.Array.of(to_class(shape[1]))
    return type("GenPart", (part.Part,), {
        "parts": tuple(("f%d" % i, to_class(s)) for i, s in enumerate(shape[1]))})


def to_object(shape, cls, value):
    p = proto.mod("primitives")
    if isinstance(shape, str):
        return value
    if shape[0] == "arr":
        if isinstance(shape[1], str) or shape[1][0] == "arr":
            return [to_object(shape[1], None, v) for v in value]
        item = cls.item_class
        return [to_object(shape[1], item, v) for v in value]
    kwargs = {}
    for (name, sub), s in zip(cls.parts, shape[1]):
        kwargs[name] = to_object(s, sub, value[name])
    return cls(**kwargs)


def leaves(shape, value, path=()):
    if isinstance(shape, str):
        yield path, shape
    elif shape[0] == "arr":
        for i, v in enumerate(value):
            for x in leaves(shape[1], v, path + (i,)):
                yield x
    else:
        for i, s in enumerate(shape[1]):
            name = "f%d" % i
            for x in leaves(s, value[name], path + (name,)):
                yield x


def replace(value, path, new):
    if not path:
        return new
    if isinstance(value, list):
        return [replace(v, path[1:], new) if i == path[0] else v for i, v in enumerate(value)]
    out = dict(value)
    out[path[0]] = replace(value[path[0]], path[1:], new)
    return out


def arrays_of_arrays_of_parts(shape):
    """An array whose items are arrays of parts: the leaf class is needed one level down."""
    if isinstance(shape, str):
        return False
    if shape[0] == "arr":
        return not isinstance(shape[1], str) and shape[1][0] == "arr" \
            and not isinstance(shape[1][1], str)
    return any(arrays_of_arrays_of_parts(s) for s in shape[1])


def strategy():
    from hypothesis import strategies as st
    leaf = st.sampled_from(LEAVES)
    scalar_arrays = one_of(
        leaf.map(lambda s: ("arr", s)), leaf.map(lambda s: ("arr", ("arr", s))))

    def part_of(child):
        return st.lists(child, min_size=1, max_size=4).map(lambda l: ("part", tuple(l)))

    level0 = part_of(one_of(leaf, scalar_arrays))
    level1 = part_of(one_of(leaf, scalar_arrays, level0, level0.map(lambda s: ("arr", s))))
    level2 = part_of(one_of(leaf, scalar_arrays, level1, level1.map(lambda s: ("arr", s))))

    @st.composite
    def case(draw):
        shape = draw(one_of(level0, level1, level2))
        value = draw(proto.st_value(to_schema(shape), max_items=3))
        pad = draw(st.tuples(st.binary(max_size=6), st.binary(max_size=6)))
        bad = draw(one_of(st.none(), st.tuples(
            st.integers(0, 50), st.sampled_from([1, -1]), st.sampled_from([0, 1, 1000, 2 ** 64]))))
        return (shape, value, pad, bad)
    return case()


def pack(obj):
    fmt, data = obj.render()
    return struct.pack("!" + fmt, *data)


def run(case, info):
    shape, value, (before, after), bad = case
    schema, cls = to_schema(shape), to_class(shape)
    all_leaves = list(leaves(shape, value))
    if bad is not None and all_leaves:
        index, sign, extra = bad
        path, kind = all_leaves[index % len(all_leaves)]
        if kind == "bytes":
            bad = None
        elif kind == "str":
            too_big = "x" * (32768 + min(extra, 40000))
        else:
            bits = proto.RANGES[kind]
            too_big = (2 ** (bits - 1) + extra) if sign > 0 else (-2 ** (bits - 1) - 1 - extra)
    else:
        bad = None
    if bad is not None:
        info.nontrivial = True
        info.label("out-of-range " + kind)
        obj = to_object(shape, cls, replace(value, path, too_big))
        try:
            raw = pack(obj)
        except Exception:
            return
        raise Violation("%s value %r was rendered as %r instead of being refused" % (
            kind, str(too_big)[:40], raw[:80]))

    info.nontrivial = len(all_leaves) >= 3
    obj = to_object(shape, cls, value)
    raw = pack(obj)
    want = wire.encode(schema, value)
    check(raw == want, "rendered %r instead of %r", raw, want)
    parsed, end = cls.parse(before + raw + after, len(before))
    check(end == len(before) + len(raw), "parse of %d bytes at %d ended at %d",
          len(raw), len(before), end)
    proto.expect_equal(schema, value, parsed, "value")
    same = to_object(shape, cls, value)
    check(obj == same and same == obj, "structures with equal contents compare unequal")
    for path, kind in all_leaves[:6]:
        if kind in proto.RANGES:
            leaf = value
            for step in path:
                leaf = leaf[step]
            other = to_object(shape, cls, replace(value, path, leaf - 1 if leaf > 0 else leaf + 1))
            check(not (obj == other), "structures differing at %r compare equal", path)
            info.label("inequality")
