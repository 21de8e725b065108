ID = "C29"
RULE = ("Dicts (plain, ordered, default), deques, lists and sets of arbitrary, also falsy and repeated, "
        "elements drained while elements are added to and taken from them between steps, stopped early, "
        "resumed by a second drain or drained by two at once; every element comes out exactly once or is "
        "still inside, a deque first to last, a list last to first, and the end comes only when it is "
        "empty. Non-trivial: two or more elements and a change to the container while it is being "
        "drained.")
QUICK, THOROUGH = 6000, 60000

from kv.engine import check, one_of

KINDS = ["dict", "ordered", "default", "deque", "list", "set"]


def strategy():
    from hypothesis import strategies as st
    value = one_of(st.sampled_from([None, 0, "", False, b"", ()]), st.integers(-3, 3),
                      st.text("ab", max_size=2), st.tuples(st.integers(0, 2)))
    step = one_of(st.tuples(st.just("next"), st.integers(0, 1)),
                     st.tuples(st.just("next"), st.integers(0, 1)),
                     st.tuples(st.just("add"), value, value), st.tuples(st.just("take")),
                     st.tuples(st.just("stop"), st.integers(0, 1)))
    return st.tuples(st.sampled_from(KINDS), st.lists(st.tuples(value, value), max_size=6),
                     st.lists(step, max_size=14))


def run(case, info):
    import collections
    from kiel.iterables import drain
    kind, initial, steps = case
    box = {"dict": dict, "ordered": collections.OrderedDict, "deque": collections.deque,
           "default": lambda: collections.defaultdict(list), "list": list, "set": set}[kind]()
    inside = []                 # what must be in there, in order of arrival

    def add(key, value):
        if kind in ("dict", "ordered", "default"):
            for item in inside:
                if item[0] == key:
                    item[1] = value
                    break
            else:
                inside.append([key, value])
            box[key] = value
        elif kind == "set":
            if key not in [i[0] for i in inside]:
                inside.append([key])
            box.add(key)
        else:
            inside.append([key])
            box.append(key)

    def gone(got):
        """Takes what came out off the model."""
        item = list(got) if kind in ("dict", "ordered", "default") else [got]
        match = [i for i in inside if same(i, item)]
        check(match, "%r came out of a %s holding %r", got, kind, inside)
        if kind == "deque":
            check(same(inside[0], item), "%r came out of a deque starting with %r", got, inside[0])
        if kind == "list":
            check(same(inside[-1], item), "%r came out of a list ending with %r", got, inside[-1])
        for n, i in enumerate(inside):
            if i is (match[-1] if kind == "list" else match[0]):
                del inside[n]
                break

    def intact():
        have = [list(i) for i in box.items()] if hasattr(box, "items") else [[i] for i in box]
        check(len(have) == len(inside) and all(any(same(h, i) for i in inside) for h in have),
              "the %s holds %r, should hold %r", kind, have, inside)

    for key, value in initial:
        add(key, value)
    size = len(inside)
    drains = [drain(box), drain(box)]
    intact()
    started = set()
    for step in steps:
        if step[0] == "next":
            empty = not inside
            started.add(step[1])
            try:
                got = next(drains[step[1]])
            except StopIteration:
                check(empty, "the end, with %r left inside", inside)
                drains[step[1]] = drain(box)
            else:
                check(not empty, "%r came out of an empty %s", got, kind)
                gone(got)
        elif step[0] == "add":
            add(step[1], step[2])
            info.nontrivial = info.nontrivial or (started and size >= 2)
        elif step[0] == "take" and inside:
            gone(box.popleft() if kind == "deque" else
                 box.popitem() if hasattr(box, "popitem") else box.pop())
            info.nontrivial = info.nontrivial or (started and size >= 2)
        elif step[0] == "stop":
            drains[step[1]].close()
            drains[step[1]] = drain(box)
        intact()
    info.nontrivial = bool(info.nontrivial)
    for got in drains[0]:
        gone(got)
        intact()
        check(len(inside) < 100, "no end")
    check(not box and not inside, "drained, and still holds %r", box)
    check(list(drain(box)) == [], "an empty %s yields something", kind)
    info.label(kind)


def same(a, b):
    return a == b
