ID = "C08"
RULE = ("1-10 (rarely 300) requests of random APIs sent on 1-2 connections at random moments; the broker "
        "answers in a random order, with random delays up to minutes, its bytes cut into random chunks or "
        "several answers arriving in one, rarely one of megabytes, also as correlation ids reach the end "
        "of their range; every request's result must be exactly the answer carrying its own correlation "
        "id, promptly. Non-trivial: at least 3 requests with at least one answered out of order.")
QUICK, THOROUGH = 2400, 25000

from kv import proto, wire
from kv.engine import check, one_of
from kv.scripted import APIS, ScriptedServer, frame, request, response_body
from kv.sim.net import Net


def strategy():
    from hypothesis import strategies as st
    req = st.tuples(st.sampled_from(APIS), st.integers(0, 1), st.integers(0, 8),
                    one_of(st.just(0), st.integers(0, 4000)))
    return st.tuples(
        st.lists(req, min_size=1, max_size=10),
        st.lists(st.integers(0, 20), min_size=10, max_size=10),     # answer delay ms, by index
        st.permutations(range(10)),
        one_of(st.just(0), st.integers(1, 7), st.integers(1, 2000)),   # chunk
        st.integers(0, 3), st.sampled_from([True, True, False]),
        st.sampled_from([0.0, 0.0, 0.002, 0.05]),
        # a process that has been sending requests for weeks
        one_of(st.none(), st.none(), st.integers(0, 10)),
        # one answer of megabytes
        st.sampled_from([None] * 59 + [650000, 9000000]),
        # slow brokers; many requests at once
        st.sampled_from([1] * 12 + [5000, 100000]), st.sampled_from([1] * 25 + [30]))


def run(case, info):
    from kiel.protocol import request as module
    before = getattr(module, "last_id", None)
    if before is not None and case[7] is not None:
        module.last_id = 2 ** 31 - 1 - case[7]
        info.label("ids used up")
    try:
        history(case, info)
    finally:
        if before is not None:
            module.last_id = before


def history(case, info):
    reqs, delays, perm, chunk, gap, hold, coalesce, _, huge, slow, times = case
    if slow > 1:
        delays = [d * slow for d in delays]
        reqs = [r[:2] + (r[2] * slow,) + r[3:] for r in reqs]
        info.label("minutes between request and answer")
    if times > 1:
        reqs = reqs * times
        info.label("many requests")
    if huge:
        reqs = [("fetch",) + reqs[0][1:3] + (huge,)] + list(reqs[1:])
        chunk = max(chunk, 65536) if chunk else 0
        info.label("huge answer")
    net = Net(read_chunk=chunk, coalesce=coalesce, time_limit=1e7)
    with net:
        from kiel.connection import Connection
        arrived = []
        order = sorted(range(len(reqs)), key=lambda i: (perm[i % 10], i))
        by_corr = {}
        seen = {}

        def answer(i):
            peer, header = seen[i]
            api, _, _, pad = reqs[i]
            raw = frame(api, header["correlation_id"], response_body(api, i + 1, pad))
            if gap:
                cut = len(raw) * gap // 4
                peer.send(raw[:cut], delay=delays[i % 10] / 1000.0)
                peer.send(raw[cut:], delay=0.001)
            else:
                peer.send(raw, delay=delays[i % 10] / 1000.0)

        answered = []

        def pump():
            # with `hold`, answer only when everything has arrived: in the permuted order
            if hold:
                if len(seen) == len(reqs):
                    for i in order:
                        answered.append(i)
                        answer(i)
                return

        def on_request(peer, header, api, body):
            i = by_corr[header["correlation_id"]]
            arrived.append((i, api, body))
            check(i not in seen, "request %d arrived twice", i)
            seen[i] = (peer, header)
            if hold:
                pump()
            else:
                answered.append(i)
                net.loop.call_later(delays[order[i] % 10] / 1000.0, answer, i)

        server = ScriptedServer(on_request)
        net.listen("b", 9092, server)
        conns = [Connection("b", 9092), Connection("b", 9092)]
        for c in conns:
            net.run(c.connect())
        futures, bodies = [], []
        for i, (api, ci, wait, _) in enumerate(reqs):
            if wait and i:
                net.sleep(wait / 1000.0)
            r, body = request(api, i + 1)
            check(r.correlation_id not in by_corr, "correlation id %d used twice",
                  r.correlation_id)
            by_corr[r.correlation_id] = i
            bodies.append((api, body))
            futures.append(conns[ci].send(r))
        net.settle()
        check(not server.errors, "the broker could not parse a request: %s", server.errors)
        got = sorted((i, api, body) for i, api, body in arrived)
        want = [(i, api, proto.as_wire(wire.REQUESTS[api], body))
                for i, (api, body) in enumerate(bodies)]
        check([g[0] for g in got] == [w[0] for w in want], "requests %r arrived of %d",
              [g[0] for g in got], len(reqs))
        for g, w in zip(got, want):
            check(g == w, "the broker received %r instead of %r", g, w)
        for i, f in enumerate(futures):
            api, pad = reqs[i][0], reqs[i][3]
            check(f.done(), "request %d (%s) was answered but never completed", i, api)
            check(f.exception() is None, "request %d (%s) failed: %r", i, api, f.exception())
            expected = response_body(api, i + 1, pad)
            check(f.result().api == api, "request %d (%s) got a %s response", i, api,
                  f.result().api)
            proto.expect_equal(wire.RESPONSES[api], expected, f.result(), "response %d" % i)
        per_conn = [[i for i in answered if reqs[i][1] == ci] for ci in (0, 1)]
        if len(reqs) >= 3 and any(p != sorted(p) for p in per_conn):
            info.nontrivial = True
            info.label("out of order")
        if len(set(r[1] for r in reqs)) == 2:
            info.label("two connections")
        for c in conns:
            check(not c.closing, "a healthy connection was marked as closing")
            c.close()
        net.settle()
