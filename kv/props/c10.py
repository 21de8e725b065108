ID = "C10"
RULE = ("Bootstrap lists (also of dozens of hosts) mixing usable brokers (with and without a port) with "
        "unknown hosts, refused ports, hosts that accept and hang up or reset before, during or after the "
        "metadata answer, and hosts talking garbage, over clusters of 1-4 brokers, near or far; "
        "connecting must succeed iff a usable host is listed, using the first one in order, and leave "
        "exactly one live connection per broker. Non-trivial: a bad host precedes a usable one, or all "
        "are bad.")
QUICK, THOROUGH = 2100, 25000

from kv.engine import check, one_of
from kv.scenario import (IDS, RETRIABLE, TOPICS, build, must_finish, finishes, no_protocol_errors,
                         open_conns, rarely, st_topology, world)

BAD = ["unknown", "refused", "eof", "reset", "partial", "garbage", "eof-at-once"]


class BadHost(object):
    def __init__(self, kind):
        self.kind = kind
        self.hits = 0

    def on_connect(self, peer):
        self.hits += 1
        if self.kind == "eof-at-once":
            peer.close()

    def on_data(self, peer, data):
        if self.kind == "eof":
            peer.close()
        elif self.kind == "reset":
            peer.close(reset=True)
        elif self.kind == "partial":
            peer.send(b"\x00\x00\x01\x00" + data[8:12] + b"\x00\x00")
            peer.close()
        elif self.kind == "garbage":
            peer.send(b"HTTP/1.1 400 Bad Request\r\n\r\n")
            peer.close()

    def on_client_close(self, peer):
        pass


def strategy():
    from hypothesis import strategies as st
    entry = one_of(
        st.tuples(st.sampled_from(BAD), st.booleans()),
        st.tuples(st.just("good"), st.integers(0, 3)))
    entries = st.lists(entry, min_size=1, max_size=5)
    many = st.builds(lambda bad, n, rest: [bad] * n + rest,         # of no use at all
                     st.tuples(st.sampled_from(BAD), st.booleans()), st.integers(6, 40), entries)
    return st.tuples(st_topology(max_brokers=4), rarely(entries, many, 12),
                     st.booleans(), st.booleans(),
                     st.sampled_from([0.001] * 7 + [0.4, 20.0]))     # how far away everybody is


def run(case, info):
    topology, entries, default_port, as_client, latency = case
    with world(IDS[:topology[0]], latency=latency) as (net, cluster):
        from kiel.cluster import Cluster
        from kiel.clients import Producer
        from kiel.exc import NoBrokersError
        build(cluster, topology)
        ids = sorted(cluster.brokers)
        if default_port:
            for b in cluster.brokers.values():
                net.listeners.pop((b.host, b.port))
                b.port = 9092
                net.listen(b.host, 9092, b)
        hosts, kinds, bad_servers = [], [], []
        for i, (kind, arg) in enumerate(entries):
            if kind == "good":
                b = cluster.brokers[ids[arg % len(ids)]]
                hosts.append(b.host if default_port else "%s:%d" % (b.host, b.port))
                kinds.append(b.id)
                continue
            name = "x%d" % i
            port = 9092 if arg else 7000 + i
            hosts.append(name if arg else "%s:%d" % (name, port))
            kinds.append(None)
            if kind == "unknown":
                bad_servers.append(None)
                continue
            net.hosts.add(name)
            server = None
            if kind != "refused":
                server = BadHost(kind)
                net.listen(name, port, server)
            bad_servers.append(server)
        good = [k for k in kinds if k is not None]
        info.nontrivial = None in kinds and (not good or kinds.index(good[0]) > 0)
        info.label("no usable host" if not good else
                   "usable first" if kinds[0] is not None else "usable later")
        if as_client:
            client = Producer(hosts)
            c, connect = client.cluster, client.connect
        else:
            client = None
            c = Cluster(hosts)
            connect = c.start
        _, error = finishes(net, connect(), "connecting", (NoBrokersError,))
        no_protocol_errors(cluster)
        if not good:
            check(error is not None, "connecting succeeded without any usable host")
            net.settle()
            check(open_conns(net) == [], "connections left open after a failed start: %s",
                  open_conns(net))
            return
        check(error is None, "connecting raised %r although %s is usable", error,
              hosts[kinds.index(good[0])])
        first = [e for e in cluster.trace if e["api"] == "metadata"][0]
        check(first["broker"] == good[0], "metadata came from broker %d, not from the first "
              "usable bootstrap host (broker %d)", first["broker"], good[0])
        tried = [a for a in net.connects]
        later = hosts[kinds.index(good[0]) + 1:]
        brokers = set((b.host, b.port) for b in cluster.brokers.values())
        for h in later:
            host, _, port = h.partition(":")
            addr = (host, int(port or 9092))
            check(addr in brokers or addr not in tried,
                  "bootstrap host %s was contacted although an earlier one was usable", h)
        net.settle()
        check(sorted(c) == ids, "connected to brokers %s of %s", sorted(c), ids)
        for i in ids:
            check(i in c and not c[i].closing, "no usable connection to broker %d", i)
            check((c[i].host, c[i].port) == (cluster.brokers[i].host, cluster.brokers[i].port),
                  "broker %d is reached at %s:%s", i, c[i].host, c[i].port)
        check(open_conns(net) == sorted(brokers), "open connections %s instead of one per broker",
              open_conns(net))
        for name, parts in cluster.topics.items():
            check(sorted(c.topics.get(name, [])) == sorted(parts),
                  "topic %s known with partitions %r", name, c.topics.get(name))
            for pid, part in parts.items():
                check(c.get_leader(name, pid) == part.leader, "leader of %s/%d is %r, not %r",
                      name, pid, c.get_leader(name, pid), part.leader)
        if client is None:
            c.stop()
        else:
            must_finish(net, client.close(), "close()")
        net.settle()
        check(open_conns(net) == [], "connections left open after stopping: %s", open_conns(net))
