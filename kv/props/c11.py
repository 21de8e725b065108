ID = "C11"
RULE = ("Histories of broker crashes, restarts (also under another address), brokers down at first or "
        "unknown then, additions, dropped connections, leader moves and slow elections, topic "
        "creation/deletion (of up to 124 partitions), idle hours, stale or erroneous metadata (also for "
        "dozens of answers), with metadata refreshes (also several at once, or cut short) in between; a "
        "refresh after things settle must know exactly the cluster's topics, partitions, leaders and live "
        "brokers, each refresh on its own connects to the brokers it hears of, and no refresh may hang or "
        "fail while a broker is reachable. Non-trivial: at least one disruptive event took effect.")
QUICK, THOROUGH = 1800, 16000

from kv.engine import check, one_of
from kv.scenario import (IDLE, IDS, RETRIABLE, TOPICS, build, must_finish, no_protocol_errors, open_conns,
                         st_topology, world)


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 5)
    ms = st.sampled_from([0, 1, 3, 5, 30])
    gaps = st.lists(st.sampled_from([0, 0, 1, 4, 12]), min_size=1, max_size=3)
    event = one_of(
        st.tuples(st.just("crash"), i, ms), st.tuples(st.just("restart"), i, ms, st.booleans()),
        st.tuples(st.just("move"), i, i, i), st.tuples(st.just("create"), i, i),
        st.tuples(st.just("delete"), i), st.tuples(st.just("add"), ms),
        st.tuples(st.just("drop"), i, st.booleans()), st.tuples(st.just("dropall"), st.booleans()),
        st.tuples(st.just("slow"), i, i, st.sampled_from([1, 10, 40, 400])),
        st.tuples(st.just("metaerr"), st.sampled_from([9, 5, 5]), i, st.sampled_from([1, 1, 2, 3, 30])),
        st.tuples(st.just("replica"), i, i, st.booleans()),
        st.tuples(st.just("heal")), st.tuples(st.just("heal")), st.tuples(st.just("heal")),
        st.tuples(st.just("heals"), gaps),
        st.tuples(st.just("metafault"), st.integers(0, 3), one_of(
            st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
            st.tuples(st.just("cut"), st.sampled_from([0, 3, 4, 8, 15])),
            st.tuples(st.just("delay"), st.sampled_from([5, 30])))),
        st.tuples(st.just("sleep"), st.sampled_from(IDLE)))
    # one of two refreshes under way at once loses its broker, the other finds the cluster changed
    closing = one_of(st.tuples(st.just("close"), st.booleans()),
                        st.tuples(st.just("reset"), st.booleans()),
                        st.tuples(st.just("cut"), st.sampled_from([0, 3, 4, 8, 15])))
    change = one_of(
        st.tuples(st.just("drop"), i, st.booleans()), st.tuples(st.just("add"), st.just(0)),
        st.tuples(st.just("crash"), i, st.just(0)),
        st.tuples(st.just("restart"), i, st.just(0), st.booleans()))
    collision = st.tuples(
        change, one_of(change, st.tuples(st.just("metafault"), st.sampled_from([1, 1, 1, 0, 2]),
                                            closing)),
        st.tuples(st.just("heals"), gaps))
    events = st.lists(one_of(*[event.map(lambda e: (e,))] * 6 + [collision]), max_size=12).map(
        lambda groups: [e for g in groups for e in g])
    return st.tuples(st_topology(max_brokers=4), events,
                     st.sampled_from([0.0, 0.0, 0.01, 0.05]),
                     st.sets(st.sampled_from(IDS), max_size=2),
                     st.sampled_from([0, 0, 1, 2]),     # brokers known at first (0: all)
                     st.booleans())                     # those are all gone in the end


def run(case, info):
    topology, events, stale, asleep, few, retire = case
    with world(IDS[:topology[0]]) as (net, cluster):
        from kiel.cluster import Cluster
        build(cluster, topology)
        cluster.stale = stale
        boot = sorted(cluster.brokers)[:few or None]
        c = Cluster(cluster.bootstrap(boot))
        for b in sorted(asleep & set(cluster.brokers)):
            if [x for x in cluster.live() if x in boot] == [b]:
                continue
            cluster.crash(b)
            info.label("broker down at first")
        must_finish(net, c.start(), "start()")
        fresh = [0]
        changes = [0]               # so many times a broker or connection came or went
        # somebody is always there to answer
        spare = 1 + any(ev[0] == "metafault" for ev in events)

        def crash(k, ms=0):
            live = cluster.live()
            b = live[k % len(live)]
            if len([x for x in live if x != b and x in boot]) >= spare:
                cluster.crash(b)
                changes[0] += 1
                info.label("crash")
                info.nontrivial = True

        def restart(k, elsewhere=False):
            down = [x for x, b in sorted(cluster.brokers.items()) if not b.up]
            if down:
                b = down[k % len(down)]
                if elsewhere and len([x for x in boot if x != b]) >= spare:
                    cluster.brokers[b].port += 100
                    info.label("another address")
                    if b in boot:
                        boot.remove(b)
                cluster.restart(b)
                changes[0] += 1
                info.label("restart")

        def later(ms, fn, *args):
            if ms:
                net.loop.call_later(ms / 1000.0, fn, *args)
            else:
                fn(*args)

        def added(b):
            cluster.restart(b)
            changes[0] += 1

        def refresh():
            """What a refresh that nothing came in between of has to achieve by itself."""
            before, quiet = changes[0], not cluster.faults.get("metadata")
            must_finish(net, c.heal(), "heal()")
            listed = cluster.listings[-1]
            without = [b for b in listed if b not in c and cluster.brokers[b].up]
            check(not without, "heal() is done, but brokers %s it was told of are not connected", without)
            if quiet and changes[0] == before:
                usable = sorted(i for i in c if not c[i].closing)
                gone = sorted(set(cluster.live()) - set(usable))
                check(not gone, "heal() left brokers %s, all up, without a usable connection", gone)
                check(set(usable) <= set(listed), "heal() kept connections to %s, told of %s", usable, listed)

        def agrees():
            live = cluster.live()
            usable = sorted(i for i in c if not c[i].closing)
            check(usable == live, "usable connections to brokers %s while %s are alive", usable, live)
            known = dict((name, sorted(parts)) for name, parts in c.topics.items() if parts)
            truth = dict((name, sorted(parts)) for name, parts in cluster.topics.items() if parts)
            check(known == truth, "knows topics %r, the cluster has %r", known, truth)
            for name, parts in cluster.topics.items():
                for pid, part in parts.items():
                    check(c.get_leader(name, pid) == part.leader, "leader of %s/%d is %r, not %r",
                          name, pid, c.get_leader(name, pid), part.leader)

        for ev in events:
            kind = ev[0]
            names = sorted(cluster.topics)
            if kind == "crash":
                later(ev[2], crash, ev[1])
            elif kind == "restart":
                later(ev[2], restart, ev[1], ev[3])
            elif kind == "move" and names:
                parts = cluster.topics[names[ev[1] % len(names)]]
                part = parts[sorted(parts)[ev[2] % len(parts)]] if parts else None
                live = cluster.live()
                if part and not part.error:
                    part.leader = live[ev[3] % len(live)]
                    info.label("move")
            elif kind == "create":
                live = cluster.live()
                fresh[0] += 1
                cluster.create_topic("new%d" % fresh[0], dict(
                    (p, live[(p + ev[2]) % len(live)]) for p in range(ev[1])))
                info.label("create")
            elif kind == "delete" and names:
                del cluster.topics[names[ev[1] % len(names)]]
                info.label("delete")
            elif kind == "add":
                new = max(cluster.brokers) + 1
                cluster.add_broker(new, up=False)
                later(ev[1], added, new)
                info.label("add broker")
            elif kind == "drop":
                b = cluster.brokers[sorted(cluster.brokers)[ev[1] % len(cluster.brokers)]]
                for peer in list(b.peers.values()):
                    peer.close(reset=ev[2])
                b.peers.clear()
                info.label("drop")
                info.nontrivial = True
            elif kind == "dropall":
                for b in cluster.brokers.values():
                    for peer in list(b.peers.values()):
                        peer.close(reset=ev[1])
                    b.peers.clear()
                info.label("drop all")
                info.nontrivial = True
            elif kind == "slow" and names:
                parts = cluster.topics[names[ev[1] % len(names)]]
                if parts:
                    part = parts[sorted(parts)[ev[2] % len(parts)]]
                    part.error = 5

                    def elected(part=part):
                        if cluster.brokers[part.leader].up:
                            part.error = 0
                    net.loop.call_later(ev[3] / 1000.0, elected)
                    info.label("election")
                    info.nontrivial = True
            elif kind == "replica" and names:
                parts = cluster.topics[names[ev[1] % len(names)]]
                if parts:
                    parts[sorted(parts)[ev[2] % len(parts)]].replica_down = ev[3]
                    info.label("replica down")
            elif kind == "metaerr":
                cluster.faults["metadata"] = [("err1", ev[1], ev[2], False)] * ev[3]
                info.label("metadata error %d" % ev[1])
                info.nontrivial = True
            elif kind == "metafault" and len([x for x in cluster.live() if x in boot]) >= spare:
                cluster.faults["metadata"] = [None] * ev[1] + [ev[2]]
                info.label("refresh interrupted")
                info.nontrivial = True
            elif kind == "heal":
                refresh()
            elif kind == "heals":
                calls = [net.start(c.heal())]
                for ms in ev[1]:
                    if ms:
                        net.sleep(ms / 1000.0)
                    calls.append(net.start(c.heal()))
                for f in calls:
                    must_finish(net, f, "one of several concurrent heal() calls")
                info.label("concurrent")
            elif kind == "sleep":
                net.sleep(ev[1] / 1000.0)
        net.settle()
        cluster.faults.clear()
        must_finish(net, c.heal(), "heal() of a stable cluster")
        net.settle()
        no_protocol_errors(cluster)
        agrees()
        some = sorted(cluster.topics)[::2]
        if some:
            response = must_finish(net, c.get_metadata(some), "get_metadata() of some topics")
            check(sorted(t.name for t in response.topics) == some,
                  "metadata of %r was asked for, and read of %r", some,
                  sorted(t.name for t in response.topics))
        rest = [x for x in cluster.live() if x not in boot]
        if retire and rest:
            # those known at first are needed no longer once others are known
            for b in boot:
                cluster.crash(b)
            net.sleep(1)
            must_finish(net, c.heal(), "heal() without the bootstrap hosts")
            net.settle()
            agrees()
            info.label("bootstrap hosts gone")
            info.nontrivial = True
        c.stop()
        net.settle()
        check(open_conns(net) == [], "connections left open after stop(): %s", open_conns(net))
