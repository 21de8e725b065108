ID = "C22"
RULE = ("Member lists of 0-40 and partition lists of 0-200 over 0-6 topics, with names of every shape "
        "Kafka allows, given sorted as documented; the default allocation must give every partition to "
        "exactly one listed member as the integer it is, counts differing by at most one, and the same "
        "for equal arguments. Non-trivial: at least two members and three partitions.")
QUICK, THOROUGH = 4500, 60000

from kv.engine import check, one_of


def strategy():
    from hypothesis import strategies as st
    member = one_of(st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=12),
                       st.tuples(st.sampled_from(["host", "db01.example.com", "a"]),
                                 st.integers(1, 10 ** 15)).map(lambda t: "%s:%d" % t))
    topic = st.text("abcXYZ019._-", min_size=1, max_size=8)
    partitions = st.dictionaries(topic, st.sets(one_of(
        st.integers(0, 12), st.integers(0, 2 ** 31 - 1)), max_size=40).map(sorted), max_size=6)
    return st.tuples(st.sets(member, max_size=40).map(sorted), partitions)


def run(case, info):
    from kiel.clients import grouped
    members, topics = case
    names = sorted("%s:%d" % (t, p) for t, ps in topics.items() for p in ps)
    info.nontrivial = len(members) >= 2 and len(names) >= 3
    args = list(members), list(names)
    mapping = grouped.naive_allocator(*args)
    check(args == (members, names), "the allocator changed its arguments")
    seen = []
    counts = dict((m, 0) for m in members)
    for m in list(mapping):
        check(m in counts, "allocated to %r, not a member", m)
        for t in list(mapping[m]):
            check(len(set(mapping[m][t])) == len(mapping[m][t]), "partitions repeated: %r",
                  mapping[m][t])
            for p in mapping[m][t]:
                check(type(p) is int, "partition id %r is not an integer", p)
                seen.append("%s:%d" % (t, p))
                counts[m] += 1
    check(sorted(seen) == (names if members else []), "members %r, partitions %r: allocated %r",
          members, names, sorted(seen))
    if members:
        check(max(counts.values()) - min(counts.values()) <= 1,
              "uneven allocation: %r", counts)
        fewer = [m for m in members if counts[m] < max(counts.values())]
        info.label("uneven" if fewer else "even")
    again = grouped.naive_allocator(list(members), list(names))
    check(again == mapping, "equal arguments gave different allocations")
