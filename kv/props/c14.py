ID = "C14"
RULE = ("The histories of C13 with more partition-selective answers; from the brokers' trace of requests "
        "and answers actually received: once a message was answered with success or a non-retriable code "
        "it is never sent again, no request repeats a message, and with no faults at all each message is "
        "stored exactly once. Non-trivial: some request was answered with different codes for its "
        "partitions, or a message was sent twice.")
QUICK, THOROUGH = 1400, 25000

from kv import producing
from kv.engine import check, one_of
from kv.scenario import IDS, FATAL, RETRIABLE, UNDOCUMENTED, no_protocol_errors, world


def strategy():
    from hypothesis import strategies as st
    fault = one_of(producing.st_code_fault(RETRIABLE), producing.st_code_fault(RETRIABLE),
                      producing.st_code_fault(FATAL + UNDOCUMENTED), producing.st_transport_fault())
    return st.tuples(producing.st_case(fault, events=False, batches=(1, 3, 5, 5, 50, None),
                                      outages=True),
                     st.booleans())


def run(case, info):
    case, clean = case
    with world(IDS[:case[0][0]]) as (net, cluster):
        h = producing.History(net, cluster, case, info)
        h.connect()
        for step in h.steps:
            if not (clean and step[0] == "fault"):
                h.step(step)
        h.close()           # not done if no broker is up, but nothing is sent twice either way
        no_protocol_errors(cluster)
        for e in cluster.requests("produce"):
            answer = cluster.received(e)
            if answer is None:
                continue
            codes = set(p["error_code"] for t in answer["topics"] for p in t["partitions"])
            if len(codes) > 1:
                info.nontrivial = True
                info.label("mixed answer")
        for (topic, value), tries in h.attempts().items():
            indexes = [t[0] for t in tries]
            check(len(set(indexes)) == len(indexes), "a request carried message %r twice", value)
            for i, (_, partition, code) in enumerate(tries[:-1]):
                info.nontrivial = True
                check(code is None or code in RETRIABLE, "message %r was sent again although its "
                      "attempt %d was answered with code %r", value, i + 1, code)
                info.label("retried after loss" if code is None else "retried after code")
        copies = {}
        for t, _, _, _, v in h.logs():
            copies[(t, v)] = copies.get((t, v), 0) + 1
        if not [f for f in cluster.fault_log if f[0] == "produce" or f[0] == "crash"]:
            check(sorted(copies.items()) == sorted(((m.topic, m.value), 1) for m in h.messages),
                  "without any fault the logs hold %r", sorted(copies.items())[:5])
            info.label("clean")
