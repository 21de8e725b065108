ID = "C24"
RULE = ("2-4 clients adding and removing overlapping groups of elements of one shared set at the same "
        "time, each with a few calls in a row, under generated thread schedules (switching also between "
        "any two lines), with connections dropped (also past expiry) and clients crashing before or after "
        "any ZooKeeper operation, or the set's node removed and recreated; the history of stored values "
        "must be one sequential order of the calls that respects real time, and every surviving watcher "
        "ends with the stored set. Non-trivial: two calls of different clients overlap in time.")
QUICK, THOROUGH = 990, 12000

from kv import grouping
from kv.engine import check

PATH = "/groups/set"


def strategy():
    from hypothesis import strategies as st
    items = st.sets(st.integers(0, 4), min_size=1, max_size=3).map(sorted)
    call = st.tuples(st.sampled_from(["add", "add", "remove"]), items)
    fault = st.tuples(st.sampled_from(["drop", "drop", "crash"]), st.integers(0, 3),
                      st.integers(0, 25), st.booleans(), st.sampled_from([0.01, 3.0, 11.0]))
    return st.tuples(st.lists(st.lists(call, max_size=3), min_size=2, max_size=4),
                     st.lists(fault, max_size=2), grouping.st_schedule(),
                     st.sampled_from([None, None, [], [0, 3]]))


def run(case, info):
    import json
    from kazoo.client import KazooClient
    from kazoo.exceptions import KazooException
    from kiel.zookeeper import SharedSet
    plan, faults, schedule, initial = case
    with grouping.zk_world(schedule) as w:
        seen = [[] for _ in plan]
        clients, sets = [], []
        if initial is not None:
            # left behind by an earlier generation of the group
            w.create("/groups", b"", 0, False)
            w.create(PATH, json.dumps([str(i) for i in initial]).encode(), 0, False)
        for i in range(len(plan)):
            c = KazooClient(hosts="zk")
            clients.append(c)
            # whatever a callback returns is of no interest to anybody
            sets.append(SharedSet(c, PATH, lambda data, i=i: (seen[i].append(data), False)[1]))

        def begin(i):
            clients[i].start()
            sets[i].start()
        for t in grouping.together(w, [("start", lambda i=i: begin(i)) for i in range(len(plan))],
                                   "start()"):
            if t.error is not None:
                raise t.error
        history = []                # stored values, in order
        original = w.set

        def recording(path, value, version):
            result = original(path, value, version)
            if path == PATH:
                history.append((w.sched.steps, read(value)))
            return result
        w.set = recording

        def read(value):
            check(isinstance(value, bytes), "the stored value is %r", value)
            items = json.loads(value.decode()) if value else []
            check(isinstance(items, list) and len(set(items)) == len(items),
                  "the stored set is %r", items)
            return frozenset(items)

        first = read(w.data(PATH))
        counts = [0] * len(plan)
        due = [f for f in faults if f[1] < len(plan)]
        hit = set()

        def hook(client, op, path, when):
            i = client.index
            for f in due:
                if f[1] == i and counts[i] == f[2] and (when == "after") == f[3]:
                    due.remove(f)
                    hit.add(i)
                    if f[0] == "crash":
                        dead.add(i)
                        w.crash(client)
                    else:
                        w.drop(client, f[4])
                    info.label(f[0])
                    break
            if when == "after":
                counts[i] += 1
        dead = set()
        w.op_hook = hook
        calls = []                  # [client, kind, items, invoked, returned or None]

        def work(i):
            for kind, items in plan[i]:
                items = frozenset(str(x) for x in items)
                record = [i, kind, items, w.sched.steps, None]
                calls.append(record)
                try:
                    (sets[i].add_items if kind == "add" else sets[i].remove_items)(set(items))
                except KazooException:
                    if i not in hit:
                        raise           # otherwise it may or may not have taken effect
                    if i in dead:
                        return
                else:
                    record[4] = w.sched.steps

        for t in grouping.together(w, [("work", lambda i=i: work(i)) for i in range(len(plan))],
                                   "add_items() / remove_items()", dead.__contains__):
            if t.error is not None:
                raise t.error
        grouping.settle(w, 120.0)
        final = read(w.data(PATH))
        states = [first]
        for _, value in history:
            states.append(value)
        check(states[-1] == final, "the stored set changed outside set(): %r", states)
        check(linearizable(calls, states), "no order of the calls %r explains the stored values %r",
              [c[:3] for c in calls], [sorted(s) for s in states])
        for i in range(len(plan)):
            check(all(isinstance(s, set) for s in seen[i]), "on_change was given %r", seen[i])
            if i not in dead:
                check(seen[i] and seen[i][-1] == final, "client %d last heard of %r, the set is %r",
                      i, seen[i][-1:], sorted(final))
            order = [s for s in states]
            at = 0
            for s in seen[i]:
                while at < len(order) and order[at] != s:
                    at += 1
                check(at < len(order), "client %d saw %r, stored were %r", i,
                      [sorted(x) for x in seen[i]], [sorted(x) for x in states])
        locks = w.children(PATH + "/lock") or []
        check(not locks, "the lock is still held: %r", locks)
        bad = grouping.unexpected(w.errors)
        check(not bad, "a callback failed: %r", bad)
        for a in calls:
            for b in calls:
                if a[0] < b[0] and a[4] and b[4] and a[3] < b[4] and b[3] < a[4]:
                    info.nontrivial = True


def linearizable(calls, states):
    """Some order of the calls, in line with real time, writes exactly these states."""
    n = len(calls)
    full = (1 << n) - 1
    seen = set()

    def go(done, at):
        if done == full:
            return at == len(states) - 1
        if (done, at) in seen:
            return False
        seen.add((done, at))
        # a call that must come before any other not yet placed
        earliest = min([calls[j][4] for j in range(n)
                        if not done >> j & 1 and calls[j][4] is not None] or [None],
                       key=lambda x: float("inf") if x is None else x)
        for j in range(n):
            if done >> j & 1:
                continue
            i, kind, items, invoked, returned = calls[j]
            if earliest is not None and invoked > earliest:
                continue
            if returned is None and go(done | 1 << j, at):
                return True         # never took effect
            new = states[at] | items if kind == "add" else states[at] - items
            if new == states[at]:
                if go(done | 1 << j, at):
                    return True
            if at + 1 < len(states) and states[at + 1] == new:
                if go(done | 1 << j, at + 1):
                    return True
        return False

    return go(0, 0)
