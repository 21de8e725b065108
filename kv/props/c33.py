ID = "C33"
RULE = ("A client of a generated kind goes through the same generated round of work again and again: "
        "calls, retriable errors, lost connections, unreadable answers, leader moves, changes of "
        "membership, lost ZooKeeper connections and sessions; after every third round, at rest, whatever "
        "it holds on to is counted: the contents of everything reachable from it, its sockets, watches "
        "and listeners. What it holds must not grow with every round. Non-trivial: a fault takes effect "
        "in the round.")
QUICK, THOROUGH = 160, 6000

import gc
import sys
import types

from kv import consuming, grouping
from kv.engine import check, one_of
from kv.scenario import IDS, RETRIABLE, build, finishes, must_finish, open_conns, st_topology, world

APIS = {"producer": ["produce", "metadata"], "single": ["fetch", "offset", "metadata"],
        "grouped": ["fetch", "group_coordinator", "offset_fetch", "offset_commit"]}


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 3)
    code = st.sampled_from(RETRIABLE)
    fault = one_of(
        st.tuples(st.just("err"), code, st.booleans()),
        st.tuples(st.just("err1"), code, i, st.booleans()),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 4, 8])),
        st.tuples(st.just("delay"), st.sampled_from([5, 60])),
        st.tuples(st.just("garbage"), st.sampled_from(["correlation", "cut", "tiny"])))

    def client(kind):
        use = st.tuples(st.just("use"), i, i, st.integers(1, 3))
        bad = [st.tuples(st.just("fault"), st.sampled_from(APIS[kind]), fault),
                 st.tuples(st.just("fault"), st.sampled_from(APIS[kind]), fault),
                 st.tuples(st.just("move"), i, i), st.tuples(st.just("drop"), i, st.booleans()),
                 st.tuples(st.just("bounce"), i), st.just(("unknown",)), st.just(("poison",))]
        if kind == "grouped":
            bad += [st.tuples(st.just("commit"), st.sampled_from(["", "note"])), st.just(("peer",)),
                      st.tuples(st.just("outage"), st.sampled_from([0.5, 3.0, 30.0]))]
        if kind == "single":
            bad.append(st.tuples(st.just("seek"), i, i))
        return st.tuples(
            st.just(kind), st_topology(max_brokers=2, max_topics=2, max_partitions=3),
            st.builds(lambda a, b, c, d: a + [b] + c + [d], st.lists(use, max_size=2),
                      one_of(*bad), st.lists(one_of(*[use] * 2 + bad), max_size=4), use),
            st.integers(0, 3), st.booleans())

    return one_of(client("producer"), client("single"), client("grouped"))


def run(case, info):
    kind, topology, steps, config, flag = case
    with world(IDS[:topology[0]]) as (net, cluster), \
            grouping.zk_world((0, 0, 0), net=net) as w:
        topics = build(cluster, topology)
        c = make(kind, cluster, config, flag)
        must_finish(net, c.connect(), "connect()")
        sizes = []
        for n in range(12):
            one_round(net, cluster, w, kind, c, topics, steps, n, info)
            if n % 3 == 2:
                sizes.append(held(c, cluster, net, w))
        for what in sizes[0]:
            seen = [s[what] for s in sizes]
            grown = [b - a for a, b in zip(seen, seen[1:])]
            check(min(grown) < 3, "a %s at rest, after 3, 6, 9 and 12 equal rounds, has %r %s", kind,
                  seen, what)
        must_finish(net, c.close(), "close()")
        net.settle()
        check(open_conns(net) == [], "connections left open: %s", open_conns(net))
        info.label(kind)


def make(kind, cluster, config, flag):
    from kiel.clients import GroupedConsumer, Producer, SingleConsumer
    hosts = cluster.bootstrap()
    if kind == "producer":
        return Producer(hosts, batch_size=[0, 1, 2, 3][config], compression=[None, 1, 2, None][config],
                        key_maker=lambda m: b"k%d" % (m["n"] % 3),
                        partitioner=lambda key, ps: sorted(ps)[key[1] % len(ps)])
    if kind == "single":
        return SingleConsumer(hosts, max_wait_time=5)
    return GroupedConsumer(hosts, "work", ["zk"], max_wait_time=5, autocommit=flag)


def attempt(net, awaitable, what):
    """Completes, if in an error for want of brokers."""
    from kiel.exc import NoBrokersError
    finishes(net, awaitable, what, allowed=(NoBrokersError,))


def one_round(net, cluster, w, kind, c, topics, steps, n, info):
    first = len(cluster.trace)
    leaders = dict(((name, pid), part.leader) for name in topics
                   for pid, part in cluster.topics[name].items())
    count = 0
    for step in steps:
        name = topics[step[1] % len(topics)] if len(step) > 1 and isinstance(step[1], int) else topics[0]
        if step[0] == "use":
            for _ in range(step[3]):
                count += 1
                if kind == "producer":
                    attempt(net, c.produce(name, {"n": count}), "produce()")
                else:
                    parts = cluster.topics[name]
                    parts[sorted(parts)[step[2] % len(parts)]].append([(None, b'{"n": 1}')])
            if kind != "producer":
                attempt(net, c.consume(name), "consume()")
        elif step[0] == "fault":
            cluster.faults.setdefault(step[1], []).append(step[2])
        elif step[0] == "move":
            parts = cluster.topics[name]
            for part in [p for p in parts.values() if not p.error]:
                part.leader = cluster.live()[(part.leader + step[2]) % len(cluster.live())]
        elif step[0] == "drop":
            b = cluster.brokers[sorted(cluster.brokers)[step[1] % len(cluster.brokers)]]
            for peer in list(b.peers.values()):
                peer.close(reset=step[2])
            b.peers.clear()
            info.nontrivial = True
        elif step[0] == "bounce" and len(cluster.live()) > 1:
            cluster.crash(cluster.live()[step[1] % len(cluster.live())], 10)
            info.nontrivial = True
        elif step[0] == "unknown":
            call = c.consume("nosuch%d" % n) if kind != "producer" else c.produce("nosuch%d" % n, {"n": 0})
            attempt(net, call, "a call with an unknown topic")
        elif step[0] == "poison" and kind != "producer":
            cluster.topics[name][0].append([(None, b"{")])
            attempt(net, c.consume(name), "consume()")
        elif step[0] == "commit":
            attempt(net, c.commit_offsets(step[1]), "commit_offsets()")
        elif step[0] == "seek":
            start = [c.BEGINNING, c.END][step[2] % 2]
            attempt(net, c.consume(name, start=start), "consume()")
        elif step[0] == "outage":
            w.clients[0]._lose(step[1])
            net.sleep(40.0)
            info.nontrivial = True
        elif step[0] == "peer":
            peer = grouping.Member(w, n % 4, grouping.chunks)
            peer.start(dict((t, sorted(cluster.topics[t])) for t in topics))
            net.sleep(3.0)
            peer.stop()
            net.sleep(3.0)
            info.nontrivial = True
    # to rest: whatever failed is made up for
    cluster.faults.clear()
    net.sleep(0.2)
    for (name, pid), leader in leaders.items():
        cluster.topics[name][pid].leader = leader
        cluster.topics[name][pid].error = 0
    for _ in range(3):
        for name in topics:
            if kind == "producer":
                must_finish(net, c.produce(name, {"n": 0}), "produce()")
                must_finish(net, c.flush(), "flush()")
            else:
                must_finish(net, c.consume(name), "consume()")
    if kind == "grouped":
        must_finish(net, c.commit_offsets(), "commit_offsets()")
    net.settle()
    if any(e["fault"] for e in cluster.trace[first:]):
        info.nontrivial = True
    del cluster.trace[:]
    del cluster.fault_log[:]
    del w.ops[:]


SKIP = (type, types.ModuleType, types.BuiltinFunctionType, types.CodeType, types.FrameType,
        types.TracebackType)


def held(client, cluster, net, w):
    roots = [client]
    for name, module in sorted(sys.modules.items()):
        if module is not None and (name == "kiel" or name.startswith("kiel.")):
            for x in list(vars(module).values()):
                if isinstance(x, type) and x.__module__.startswith("kiel"):
                    roots.extend(v for v in list(vars(x).values()) if not isinstance(v, SKIP))
                elif not isinstance(x, SKIP):
                    roots.append(x)
    seen, todo, total = set(), list(roots), 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, SKIP):
            continue
        module = type(x).__module__ or ""
        if module.split(".")[0] in ("kv", "asyncio", "logging", "hypothesis", "concurrent"):
            continue
        seen.add(id(x))
        if isinstance(x, types.FunctionType):
            todo.extend(c for c in x.__closure__ or ())
            todo.extend(x.__defaults__ or ())
            todo.extend(vars(x).values())
            continue
        if isinstance(x, (dict, list, set, frozenset, tuple)) or hasattr(type(x), "popleft"):
            total += len(x)
        elif isinstance(x, (str, bytes, bytearray)):
            total += len(x) // 64
            continue
        if isinstance(x, dict) and "__builtins__" in x:
            continue            # a module's globals
        if not isinstance(x, (int, float)):
            todo.extend(gc.get_referents(x))
    client_zk = [c for c in w.clients if not c.stopped]
    return {
        "things held": total,
        "open connections": len(open_conns(net)) * 3,
        "ZooKeeper watches": sum(len(fns) for c in client_zk for k in c.watches.values()
                                 for fns in k.values()) * 3,
        "connection listeners": sum(len(c.listeners) for c in client_zk) * 3,
        "ZooKeeper clients": len(client_zk) * 3,
    }
