ID = "C09"
RULE = ("1-6 requests on a connection that is then lost at a generated point: end-of-file or reset at any "
        "byte of any response, before or after any request, a local close() or abort(), unreadable bytes, "
        "unknown correlation ids; sends also after the loss. Every request must finish: its own response "
        "if that was fully delivered before an orderly loss, otherwise an error, never a hang or "
        "another's answer. Non-trivial: at least one request was pending at the loss.")
QUICK, THOROUGH = 2700, 30000

from kv import proto, wire
from kv.engine import check
from kv.scripted import APIS, ScriptedServer, frame, request, response_body
from kv.sim.net import Net

FAULTS = ["eof", "reset", "close", "abort", "garbage", "unknown-id", "bad-size", "bad-body"]


def strategy():
    from hypothesis import strategies as st
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(APIS), st.sampled_from([0, 0, 50])),
                 min_size=1, max_size=6),
        st.sampled_from(FAULTS),
        st.integers(0, 6),              # responses delivered in full before the fault
        st.integers(0, 200),            # bytes of the next response delivered before it
        st.integers(0, 2),              # sends after the loss
        st.sampled_from([0, 0, 1, 5]),  # read chunk
        st.binary(max_size=30),
        st.sampled_from([0.0, 0.0005, 0.001, 0.002, 0.01]),   # when the fault hits, after
        st.booleans(),                  # requests sent before the connection read loop runs
        st.sampled_from([0.0, 0.0, 0.002, 0.05]))   # answers that close together arrive as one


def run(case, info):
    reqs, fault, full, partial, late, chunk, junk, when, eager, coalesce = case
    net = Net(read_chunk=chunk, coalesce=coalesce)
    with net:
        from kiel.connection import Connection
        from kiel.exc import BrokerConnectionError
        from tornado.iostream import StreamClosedError
        full = min(full, len(reqs))
        corr = {}
        state = {"n": 0, "faulted": False}
        conn = Connection("b", 9092)

        def on_request(peer, header, api, body):
            if state["faulted"]:
                return
            i = corr[header["correlation_id"]]
            raw = frame(api, header["correlation_id"], response_body(api, i + 1, reqs[i][1]))
            if state["n"] < full:
                state["n"] += 1
                peer.send(raw)
            if state["n"] < full or (state["n"] == full == i + 1 and i + 1 < len(reqs)):
                return
            state["faulted"] = True
            if i + 1 > full:
                cut = min(partial, len(raw) - 1)
                if fault == "bad-body":
                    # right frame, body cut short: cannot be decoded
                    body = raw[8:8 + min(partial, len(raw) - 9)]
                    bad = wire.struct.pack(">ii", 4 + len(body), header["correlation_id"]) + body
                    peer.send(bad)
                if fault in ("eof", "reset", "close", "abort"):
                    peer.send(raw[:cut])
            if fault in ("eof", "reset"):
                peer.close(delay=when, reset=fault == "reset")
            elif fault == "garbage":
                peer.send(junk)
                peer.close(delay=when)
            elif fault == "unknown-id":
                peer.send(frame(api, 0x7ffffff0, response_body(api, 99)))
                if partial % 3 == 0:        # it is kiel that ends it otherwise
                    peer.close(delay=when)
            elif fault == "bad-size":
                peer.send(wire.struct.pack(">ii", -5 if partial % 2 else 2, 1))
                if partial % 3 == 0:
                    peer.close(delay=when)
            elif fault == "bad-body":
                if partial % 3 == 0 or api == "fetch" or i + 1 <= full:
                    peer.close(delay=when)
            elif fault == "close":
                net.loop.call_later(when, conn.close)
            elif fault == "abort":
                net.loop.call_later(when, conn.abort)

        server = ScriptedServer(on_request)
        net.listen("b", 9092, server)
        net.run(conn.connect())
        if not eager:
            net.sleep(0.005)
        futures = []
        for i, (api, _) in enumerate(reqs):
            r, _ = request(api, i + 1)
            corr[r.correlation_id] = i
            futures.append(conn.send(r))
        net.settle()
        check(not server.errors, "the broker could not parse a request: %s", server.errors)
        lost = net.now
        pending = 0
        for i, f in enumerate(futures):
            api, pad = reqs[i]
            check(f.done(), "request %d of %d is still pending after the connection was lost (%s)",
                  i, len(futures), fault)
            error = f.exception()
            if error is None:
                if fault == "bad-body" and api == "fetch" and i == full:
                    continue        # a fetched set may legitimately be cut off
                check(i < full, "request %d completed without having been answered: %r",
                      i, f.result())
                proto.expect_equal(wire.RESPONSES[api], response_body(api, i + 1, pad),
                                   f.result(), "response %d" % i)
            else:
                pending += 1
                # orderly loss: what was delivered before it counts
                check(i >= full or fault in ("reset", "close", "abort", "garbage", "unknown-id",
                                             "bad-size", "bad-body"),
                      "request %d was answered before the loss but failed: %r", i, error)
                if fault in ("eof", "reset", "close", "abort"):
                    check(isinstance(error, (BrokerConnectionError, StreamClosedError)),
                          "request %d failed with %r, not a connection error", i, error)
        if full < len(reqs):
            check(pending >= 1 or fault == "bad-body", "a request that got no answer did not fail")
        check(conn.closing, "the lost connection does not report itself as closing")
        check(not net.open_sockets(), "the socket of the lost connection is still open")
        for k in range(late):
            r, _ = request(APIS[k], 50 + k)
            f = conn.send(r)
            net.settle()
            check(f.done(), "a request sent on a lost connection stays pending")
            check(isinstance(f.exception(), (BrokerConnectionError, StreamClosedError)),
                  "a request sent on a lost connection gave %r", f.exception())
        check(net.now - lost < 1.0, "failing late requests took %.1f s", net.now - lost)
        if pending:
            info.nontrivial = True
            info.label(fault)
