ID = "C23"
RULE = ("Groups of 1-5 members, each with its own threads and ZooKeeper session, that start (also at the "
        "same time), stop, crash, lose their connection briefly or past session expiry, also again right "
        "after they are back, and add or remove partitions, the set of which somebody may delete, under "
        "generated thread schedules (switching also between any two lines) and delays, with default and "
        "custom allocator functions; once at rest every live member holds the same allocation: the "
        "function applied to the sorted live members and the shared set. Non-trivial: two or more "
        "members, and a change after the first one was up.")
QUICK, THOROUGH = 990, 12000

from kv import grouping
from kv.engine import check, one_of


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 4)
    parts = st.dictionaries(st.sampled_from(["t", "u.v", "w-1"]),
                            st.sets(st.integers(0, 11), min_size=1, max_size=5).map(sorted),
                            min_size=1, max_size=3)
    action = one_of(
        st.tuples(st.just("start"), i, parts), st.tuples(st.just("start"), i, parts),
        st.tuples(st.just("stop"), i), st.tuples(st.just("crash"), i),
        st.tuples(st.just("drop"), i, st.sampled_from([0.01, 1.0, 9.0, 10.5, 30.0])),
        # once back, the connection is lost again after so many operations
        st.tuples(st.just("drop"), i, st.sampled_from([1.0, 10.5, 30.0]), st.integers(0, 4)),
        st.tuples(st.just("add"), i, parts), st.tuples(st.just("remove"), i, parts))
    step = st.tuples(st.lists(action, min_size=1, max_size=4), st.sampled_from([0, 0, 0.05, 5.0, 60.0]))
    wiped = st.just(([("wipe",)], 0))       # somebody deletes the set
    return st.tuples(st.sampled_from(["naive", "naive", "chunks", "first"]),
                     st.lists(one_of(*[step] * 9 + [wiped]), min_size=1, max_size=7),
                     grouping.st_schedule())


def run(case, info):
    from kazoo.exceptions import KazooException, NodeExistsError
    kind, steps, schedule = case
    with grouping.zk_world(schedule) as w:
        from kiel.clients import grouped
        fn = {"naive": grouped.naive_allocator, "chunks": grouping.chunks,
              "first": grouping.first_takes_all}[kind]
        members = [grouping.Member(w, n, fn, told=n != 3) for n in range(5)]
        again = {}              # client -> [epoch it was lost in, operations left]

        def hook(client, name, path, when):
            if when == "after" and client in again and client.epoch > again[client][0]:
                again[client][1] -= 1
                if again[client][1] < 0:
                    del again[client]
                    w.drop(client, 1.0)

        w.op_hook = hook
        changes = 0
        ever = set()
        certain = {}            # partition -> whether it is in the set, if that can be told
        for actions, pause in steps:
            if actions == [("wipe",)]:
                grouping.settle(w, 60.0)
                w.wipe(grouping.SET_PATH)
                grouping.settle(w, 60.0)
                if not any(m.state == "up" for m in members):
                    certain.clear()     # nobody was there to know it
                info.label("set deleted")
                continue
            todo = []
            change = {}
            for a in actions:
                wanted = {"start": ["new"], "drop": ["up", "starting"]}.get(a[0], ["up"])
                fit = [m for m in members if m.state in wanted and
                       (a[0] == "drop" or all(x is not m for _, x, _ in todo))]
                if not fit:
                    continue
                m = fit[a[1] % len(fit)]
                call = None
                if a[0] == "start" and m.state == "new":
                    m.state = "starting"
                    call = lambda m=m, seed=a[2]: m.start(seed)
                    ever |= grouping.partition_names(a[2])
                elif a[0] == "stop" and m.state == "up":
                    m.state = "stopping"
                    call = m.stop
                elif a[0] == "crash" and m.state == "up":
                    call = m.crash
                elif a[0] == "drop" and m.state in ("up", "starting"):
                    call = lambda m=m, outage=a[2]: w.drop(m.client, outage)
                    if a[3:]:
                        again[m.client] = [m.client.epoch, a[3]]
                        info.label("lost again")
                    m.dropped = True
                    info.label("expired" if a[2] > w.SESSION_TIMEOUT else "suspended")
                elif a[0] == "add" and m.state == "up":
                    call = lambda m=m, parts=a[2]: m.allocator.add_partitions(parts)
                    ever |= grouping.partition_names(a[2])
                elif a[0] == "remove" and m.state == "up":
                    call = lambda m=m, parts=a[2]: m.allocator.remove_partitions(parts)
                if call is not None:
                    todo.append((a[0], m, call))
                    if a[0] in ("start", "add", "remove"):
                        for name in grouping.partition_names(a[2]):
                            change.setdefault(name, set()).add(a[0] != "remove")
            for name, ways in change.items():       # those of a round come in any order
                certain[name] = ways.pop() if len(ways) == 1 else None
            tasks = grouping.together(w, [(k, c) for k, _, c in todo], "members' calls")
            for (k, m, _), task in zip(todo, tasks):
                changes += 1
                error = task.error
                if error is not None and not (m.dropped and isinstance(error, KazooException)):
                    raise error
                if k == "start":
                    m.state = "up"
                if k == "stop":
                    m.state = "dead"
                    if error is None:
                        check(m.client.stopped and m.client.ended,
                              "stop() leaves the zookeeper connection open")
                if error is not None and k in ("start", "stop"):
                    m.crash()           # the user gives up on it
                info.label(k)
            if pause:
                grouping.settle(w, pause)
        grouping.settle(w, 120.0)
        live = sorted(m.name for m in members if m.state == "up")
        check(w.children(grouping.MEMBERS_PATH) in (live, None if not live else live),
              "live members are %r, the group's members are %r", live,
              w.children(grouping.MEMBERS_PATH))
        stored = grouping.stored_set(w)
        check(stored <= ever, "the set holds partitions nobody added: %r", stored - ever)
        if not any(m.dropped for m in members):
            for name, there in sorted(certain.items()):
                check(there is None or there == (name in stored), "partition %s is %s the set, though "
                      "%s last", name, "in" if name in stored else "not in",
                      "added" if there else "removed")
        for m in members:
            if m.state != "up":
                continue
            expected = grouping.plain(fn(live, sorted(stored)))
            check(m.mapping() == expected, "%s holds the allocation %r, should be %r (members %r, "
                  "partitions %r)", m.name, m.mapping(), expected, live, sorted(stored))
            mine = expected.get(m.name, {})
            have = dict((t, ps) for t, ps in m.allocation().items() if ps)
            check(have == mine, "%s: own allocation is %r, should be %r", m.name, have, mine)
            check(not m.told or not (mine or m.snapshots) or
                  m.snapshots[-1:] == [grouping.plain({"me": mine})],
                  "%s was not told of its last rebalance", m.name)
        bad = grouping.unexpected(w.errors)
        if any(m.dropped for m in members):
            # somebody returned twice at once, and was there already
            bad = [x for x in bad if not isinstance(x, NodeExistsError)]
        check(not bad, "a callback failed: %r", bad)
        if len(live) + sum(m.state == "dead" for m in members) >= 2 and changes >= 3:
            info.nontrivial = True
