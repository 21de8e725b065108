ID = "C13"
RULE = ("Histories of producing (batch sizes 0-50 or thousands, every compression, concurrent calls, "
        "explicit flushes) against 1-3 brokers with produce requests answered by retriable errors, for "
        "all or one partition and up to 30 times in a row, hung up on, reset, cut, delayed, brokers "
        "crashing and returning, leaders moving, elections and metadata errors, topics unknown for a "
        "while, no broker being up for a while, idle hours, brokers near or far; after close() every "
        "accepted message is in its topic's log. Non-trivial: at least one fault or event hit while "
        "messages were outstanding.")
QUICK, THOROUGH = 2100, 25000

from kv import producing
from kv.engine import check, one_of
from kv.scenario import IDS, FATAL, RETRIABLE, UNDOCUMENTED, no_protocol_errors, open_conns, world


def strategy():
    from hypothesis import strategies as st
    fault = one_of(producing.st_transport_fault(), producing.st_code_fault(RETRIABLE),
                      producing.st_code_fault(RETRIABLE + FATAL + UNDOCUMENTED))
    # half a minute to a broker and back: whatever happens takes its time
    return st.tuples(producing.st_case(fault, events=True, outages=True),
                     st.sampled_from([0.001] * 14 + [15.0]))


def run(case, info):
    case, latency = case
    with world(IDS[:case[0][0]], latency=latency, time_limit=1e7) as (net, cluster):
        h = producing.History(net, cluster, case, info)
        h.connect()
        for step in h.steps:
            h.step(step)
        if not h.close():
            info.label("close() found no brokers")
            return
        no_protocol_errors(cluster)
        stored = set((t, v) for t, _, _, _, v in h.logs())
        attempts = h.attempts()
        for m in h.messages:
            tries = attempts.get((m.topic, m.value), [])
            if m in h.exempt or m.topic in h.away or not m.accepted:
                continue
            refused = tries and tries[-1][2] is not None and tries[-1][2] != 0 \
                and tries[-1][2] not in RETRIABLE
            if refused:
                info.label("refused for good")
                continue
            check((m.topic, m.value) in stored, "message %d accepted for %r is not in the log after "
                  "close(); sent %d times, answers %r", m.n, m.topic, len(tries),
                  [t[2] for t in tries])
            if any(t[2] != 0 for t in tries):
                info.label("retried")
                info.nontrivial = True
        check(open_conns(net) == [], "connections left open after close(): %s", open_conns(net))
