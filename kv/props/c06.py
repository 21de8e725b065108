ID = "C06"
RULE = ("Payloads of 0 bytes to 200 kB, some of 4 MB (repetitive, random, mixed; lengths near multiples "
        "of the 32 kB block) under gzip and snappy: kiel's own round trip, independent decoder reads "
        "kiel's output, and kiel reads independently framed output with other block sizes, gzip levels, "
        "headers and members. Non-trivial: more than one block, or a foreign block size with several "
        "blocks.")
QUICK, THOROUGH = 160, 6000

import gzip
import io
import random

from kv import wire
from kv.engine import check, one_of


def strategy():
    from hypothesis import strategies as st
    B = 32 * 1024
    length = one_of(
        st.integers(0, 64), st.integers(0, 3000), st.integers(0, 200000),
        st.tuples(st.integers(1, 5), st.integers(-20, 20)).map(lambda t: max(0, t[0] * B + t[1])))
    length = one_of(*[length] * 30 + [st.integers(900000, 4000000)])
    kind = st.sampled_from(["zero", "pattern", "random", "mixed"])
    block = one_of(st.sampled_from([1, 2, 7, 16, 100, 1024, B - 1, B, B + 1, 65536]),
                      st.integers(1, 70000))
    return st.tuples(st.sampled_from(["gzip", "snappy"]), kind, length,
                     st.integers(0, 2 ** 32), block,
                     st.tuples(st.integers(0, 9), st.booleans(), st.booleans(), st.booleans()))


def foreign(codec, data, block, style):
    """As other implementations may write it."""
    level, named, split, hollow = style
    if codec == "gzip":
        half = len(data) // 2 if split else len(data)
        pieces = [data[:half], data[half:]] if split else [data]
        if hollow:
            pieces.append(b"")
        out = io.BytesIO()
        for piece in pieces:        # one member each
            with gzip.GzipFile("a name" if named else "", "wb", level, out,
                               mtime=12345 if named else 0) as fd:
                fd.write(piece)
        return out.getvalue()
    raw = wire.compress(wire.SNAPPY, data, block)
    if split:                       # versions are for information
        raw = raw[:8] + wire.struct.pack(">ii", 1 + level, 1) + raw[16:]
    if hollow:                      # a block of nothing
        raw += wire.struct.pack(">i", 1) + b"\x00"
    return raw


def make(kind, length, seed):
    rng = random.Random(seed)       # seed is part of the case: a pure function of it
    if kind == "zero":
        return b"\x00" * length
    if kind == "pattern":
        unit = rng.randbytes(rng.randint(1, 50))
        return (unit * (length // len(unit) + 1))[:length]
    if kind == "random":
        return rng.randbytes(length)
    half = length // 2
    return rng.randbytes(half) + b"ab" * ((length - half) // 2) + b"c" * ((length - half) % 2)


def run(case, info):
    codec, kind, length, seed, block, style = case
    import kiel.compression.gzip as kgzip
    import kiel.compression.snappy as ksnappy
    module = {"gzip": kgzip, "snappy": ksnappy}[codec]
    number = {"gzip": wire.GZIP, "snappy": wire.SNAPPY}[codec]
    data = make(kind, length, seed)
    if length // max(1, block) > 3000:
        block = max(block, length // 3000)
    if length > 1 << 20:
        info.label("megabytes")
    info.label(codec)
    if length > 32 * 1024:
        info.nontrivial = True
        info.label("multi-block")
    if length > block:
        info.nontrivial = True
        info.label("foreign-multi-block")
    packed = module.compress(data)
    check(isinstance(packed, bytes), "compress returned %r", type(packed))
    check(module.decompress(packed) == data, "%s round trip of %d bytes lost data", codec, length)
    check(wire.decompress(number, packed) == data,
          "an independent %s decoder reads kiel's output differently", codec)
    check(module.decompress(wire.compress(number, data, block)) == data,
          "kiel misreads %s data framed in blocks of %d", codec, block)
    check(module.decompress(foreign(codec, data, block, style)) == data,
          "kiel misreads %s data written in the style %r", codec, style)
