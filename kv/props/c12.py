ID = "C12"
RULE = ("Rounds of requests sent at once to 1-4 brokers through a Client subclass (plain, coroutine and "
        "missing handlers), each broker answering promptly, late, with errors, hanging up, resetting, "
        "cutting its answer or dying, some connections being lost beforehand, or all brokers dying on the "
        "way; the result must hold exactly the answering brokers' handler results, each handled once in "
        "arrival order, and a round that lost a broker or asked for a refresh must leave fresh cluster "
        "knowledge. Non-trivial: two or more brokers of which one fails or answers late.")
QUICK, THOROUGH = 1500, 20000

from kv.engine import check, one_of
from kv.scenario import IDS, finishes, must_finish, no_protocol_errors, open_conns, world

KINDS = ["metadata", "metadata", "offset", "offset", "group_coordinator"]


def strategy():
    from hypothesis import strategies as st
    fault = one_of(
        st.just(None), st.just(None),
        st.tuples(st.just("delay"), st.sampled_from([5, 20, 100, 700])),
        st.tuples(st.just("close"), st.booleans()), st.tuples(st.just("reset"), st.booleans()),
        st.tuples(st.just("cut"), st.sampled_from([0, 1, 4, 7, 8, 12, 20])),
        st.tuples(st.just("crash"), st.just(0), st.booleans()),
        st.just(("lost",)))
    target = st.tuples(st.sampled_from(KINDS), fault, st.booleans())
    rnd = st.tuples(st.lists(one_of(st.none(), target), min_size=4, max_size=4),
                    st.booleans(), st.integers(0, 3), st.booleans(),
                    # all brokers go down that many ms after the requests are sent
                    st.sampled_from([None] * 6 + [1, 2.1, 2.5, 3.1, 7.5, 30]))
    return st.tuples(st.integers(1, 4), st.lists(rnd, min_size=1, max_size=4),
                     st.sampled_from([0, 3, 30]))


def run(case, info):
    brokers, rounds, handler_ms = case
    with world(IDS[:brokers]) as (net, cluster):
        from tornado import gen
        from kiel.clients.client import Client
        from kiel.exc import NoBrokersError, UnhandledResponseError
        from kiel.protocol import coordinator, metadata, offset
        cluster.create_topic("t", dict((p, IDS[p % brokers]) for p in range(4)))
        calls = []

        class Probe(Client):
            ask_heal = None

            def handle_metadata_response(self, response):
                calls.append(("metadata", response.correlation_id))
                if self.ask_heal == response.correlation_id:
                    self.heal_cluster = True
                return ("metadata", response.correlation_id, len(response.brokers) > 0)

            @gen.coroutine
            def handle_offset_response(self, response):
                calls.append(("offset", response.correlation_id))
                if handler_ms:
                    yield gen.sleep(handler_ms / 1000.0)
                if self.ask_heal == response.correlation_id:
                    self.heal_cluster = True
                raise gen.Return(("offset", response.correlation_id, response.topics[0].name == "t"))

            @gen.coroutine
            def wind_down(self):
                pass

        client = Probe(cluster.bootstrap())
        must_finish(net, client.connect(), "connect()")

        for targets, ask_heal, move, restore, dark in rounds:
            if restore and cluster.live() != sorted(cluster.brokers):
                for b in sorted(cluster.brokers):
                    cluster.restart(b)
                net.settle()
                if ask_heal:
                    must_finish(net, client.cluster.heal(), "heal()")
                info.label("restored")
            del calls[:]
            cluster.faults.clear()
            live = cluster.live()
            crashes = 0
            requests, expected, arrival, lost, unhandled = {}, {}, [], False, []
            client.ask_heal = None
            for b, target in zip(sorted(cluster.brokers), targets):
                if target is None:
                    continue
                kind, fault, refresh = target
                if b not in live:
                    fault = ("gone",)
                if fault and fault[0] == "crash":
                    if crashes + 1 >= len(live):
                        fault = None            # somebody has to stay
                    else:
                        crashes += 1
                if kind == "metadata":
                    req = metadata.MetadataRequest(topics=["t"])
                elif kind == "offset":
                    req = offset.OffsetRequest(replica_id=-1, topics=[offset.TopicRequest(
                        name="t", partitions=[offset.PartitionRequest(
                            partition_id=0, time=-1, max_offsets=1)])])
                else:
                    req = coordinator.GroupCoordinatorRequest(group="g")
                requests[b] = req
                if fault == ("lost",):
                    for peer in list(cluster.brokers[b].peers.values()):
                        peer.close(reset=refresh)
                    cluster.brokers[b].peers.clear()
                    net.settle()
                elif fault and fault != ("gone",):
                    cluster.faults[(kind, b)] = [fault]
                if fault and fault[0] != "delay" or b not in client.cluster:
                    lost = True
                    continue
                if kind == "group_coordinator":
                    unhandled.append(kind)
                expected[b] = (kind, req.correlation_id, True)
                arrival.append((fault[1] if fault else 0, (kind, req.correlation_id)))
                if ask_heal and refresh:
                    client.ask_heal = req.correlation_id
            if not requests:
                continue
            if len(requests) > 1 and (lost or any(a[0] for a in arrival)):
                info.nontrivial = True
            healed = lost or client.ask_heal is not None
            if healed:
                # knowledge that only a refresh can provide
                part = cluster.topics["t"][move]
                others = [b for b in live if b != part.leader]
                if others and not part.error:
                    part.leader = others[move % len(others)]
            if dark and not unhandled:
                net.loop.call_later(dark / 1000.0, cluster.outage, 1000)
                result, error = finishes(net, client.send(requests), "send()", (NoBrokersError,))
                check(error is None or not calls, "send() raised %r, dropping the results of %r",
                      error, calls)
                kept = [] if error else sorted(v[:2] for v in result.values())
                check(kept == sorted(calls), "send() gave %r, handled were %r", kept, sorted(calls))
                cluster.faults.clear()
                net.sleep(2.0)
                must_finish(net, client.cluster.heal(), "heal()")
                client.heal_cluster = False
                info.label("no broker up")
                continue
            result, error = finishes(net, client.send(requests), "send()",
                                     allowed=(UnhandledResponseError,))
            if unhandled:
                check(isinstance(error, UnhandledResponseError) and "group_coordinator" in str(error),
                      "an answer without a handler gave %r / %r", result, error)
                info.label("unhandled")
                client.heal_cluster = False
                net.settle()
                must_finish(net, client.cluster.heal(), "heal()")
                continue
            check(error is None, "send() raised %r", error)
            check(dict(result) == expected, "send() to %s gave %r, expected %r", sorted(requests),
                  dict(result), expected)
            check(sorted(calls) == sorted(e[:2] for e in expected.values()),
                  "handlers were called with %r, expected %r", calls, expected)
            times = [a[0] for a in arrival]
            if len(set(times)) == len(times) and not handler_ms:
                check(calls == [a[1] for a in sorted(arrival)], "answers handled in order %r, "
                      "they arrived in order %r", calls, sorted(arrival))
            if lost:
                info.label("lost")
            if healed:
                info.label("healed")
                view = client.cluster
                for pid, part in cluster.topics["t"].items():
                    check(view.get_leader("t", pid) == part.leader, "after a round that needed a "
                          "refresh the leader of partition %d is thought to be %r, not %r",
                          pid, view.get_leader("t", pid), part.leader)
                check(sorted(b for b in view if not view[b].closing) == cluster.live(),
                      "usable connections %s after a refresh while %s are alive",
                      sorted(b for b in view if not view[b].closing), cluster.live())
        must_finish(net, client.close(), "close()")
        net.settle()
        no_protocol_errors(cluster)
        check(open_conns(net) == [], "connections left open after close(): %s", open_conns(net))
