"""Helpers shared by the cluster-level checks."""
import contextlib

from kv.engine import Violation, check, one_of
from kv.sim.kafka import Cluster
from kv.sim.net import Deadlock, Net, Runaway


@contextlib.contextmanager
def world(broker_ids=(1,), **net_args):
    elect = net_args.pop("elect", 0.02)
    net = Net(**net_args)
    with net:
        yield net, Cluster(net, broker_ids, elect=elect)


def must_finish(net, awaitable, what):
    """Runs to completion; a hang or a hot loop is a violation."""
    try:
        return net.run(awaitable)
    except Deadlock as exc:
        raise Violation("%s never completes: %s" % (what, exc))
    except Runaway as exc:
        raise Violation("%s never completes: %s" % (what, exc))


def finishes(net, awaitable, what, allowed=()):
    """As must_finish, but the given exceptions are acceptable outcomes (returned)."""
    try:
        return must_finish(net, awaitable, what), None
    except allowed as exc:
        return None, exc


def outage_since(cluster, began):
    return any(a <= cluster.net.now and began <= b for a, b in cluster.outages)


def attempt(net, cluster, awaitable, what, began=None):
    """As must_finish, but while no broker is up the call may raise NoBrokersError; (result, raised)."""
    from kiel.exc import NoBrokersError
    began = net.now if began is None else began
    result, error = finishes(net, awaitable, what, (NoBrokersError,))
    check(error is None or outage_since(cluster, began), "%s failed though brokers are up: %r", what, error)
    return result, error is not None


def no_protocol_errors(cluster):
    check(not cluster.protocol_errors, "a broker received a malformed request: %s",
          cluster.protocol_errors[:3])


def open_conns(net):
    return sorted(s.addr for s in net.open_sockets())


# ---------------------------------------------------------------- strategies

IDS = [0, 1, 5, 1001]           # of the brokers there are at first

IDLE = [0, 2, 30, 2, 30, 5000, 4000000]      # milliseconds: more than an hour, too


def st_outage():
    """No broker is up for a while, from now or a little later on."""
    from hypothesis import strategies as st
    return st.tuples(st.just("outage"), st.sampled_from([0, 0, 1, 2, 3, 5, 30]),
                     st.sampled_from([3, 20, 100]))


def st_stubborn(codes, shapes=(12, 30)):
    """The same refusal again and again."""
    from hypothesis import strategies as st
    return st.tuples(st.sampled_from(codes), st.sampled_from(shapes)).map(
        lambda t: [("err", t[0], False)] * t[1])


def rarely(common, rare, share=15):
    # (one_of() would be flattened, and the ends of a range are drawn far more often)
    from hypothesis import strategies as st
    return st.integers(0, share * 10 - 1).flatmap(
        lambda k: rare if k // 10 == share // 2 else common)


def st_leaders(broker_ids, max_partitions=4):
    from hypothesis import strategies as st
    return st.lists(st.sampled_from(broker_ids), min_size=1, max_size=max_partitions)


def st_topology(max_brokers=3, max_topics=3, max_partitions=4, names=None):
    """(number of brokers, [[leader of partition 0, 1, ...] per topic])"""
    from hypothesis import strategies as st
    return st.integers(1, max_brokers).flatmap(lambda n: st.tuples(
        st.just(n), st.lists(rarely(
            st_leaders(IDS[:n], max_partitions),
            st_leaders(IDS[:n], max_partitions).map(lambda l: l * 31), 30),
                             min_size=1, max_size=max_topics)))


TOPICS = ["alpha", "beta.x", "gamma-2"]


def build(cluster, topology):
    for name, leaders in zip(TOPICS, topology[1]):
        cluster.create_topic(name, dict(enumerate(leaders)))
    return TOPICS[:len(topology[1])]


RETRIABLE = [2, 3, 5, 6, 7, 14, 15, 16, 19, 20]
FATAL = [-1, 1, 4, 8, 9, 10, 11, 17, 18, 21, 22, 29, 31]
UNDOCUMENTED = [13, 32, 33, 35, 42, 77, 1000, -2, -30000, 32767]
