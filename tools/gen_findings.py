"""Writes known_findings.json (run by hand; no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = [
    ("C18", ((1, [[0]]), [(0, 0, 2, 0, 0), (0, 0, 2, 0, 0)], [[6, 5, 1, 1]] * 4, [0, 0, 0, 0],
             ("timedelta", 3), [], [], [], "known", None, "milliseconds", False, None, "UTC0"),
     "start times are sent in seconds, though the offset API of Kafka takes milliseconds: a datetime or "
     "timedelta start reads from the beginning of the log (tests pin the seconds)",
     "messages [1, 2, 3], consume() gave [0, 1, 2, 3]"),
    ("C26", ("wild", (1, [[0]]), [(0, 0, 5, 0, 0)], [], ((), (), ()), True, "big", (0, 0, 0), 3, []),
     "a grouped consumer whose committed offset has been trimmed from the log fetches that offset forever "
     "and gets nothing any more",
     "messages [3, 4] are never handed out"),
    ("C26", ("wild", (1, [[0]]), [(0, 0, 5, 1, 0)], [], ((), (), ()), True, "big", (0, 0, 0), 0,
             [(0, 0, 3, True)]),
     "starting at an offset inside a compressed batch hands out the whole batch, including the messages "
     "before that offset (tests pin that messages below the fetch offset are handed out)",
     "messages [0, 1, 2] are handed out, though committed before"),
]

FIXED = """
C01 6b7ab0c heartbeat requests could not be built or serialized
C01 026f79b version 1 offset commits were serialized without the partition count
C06 03020cb a snappy block of fewer than five compressed bytes was dropped when decompressing
C04 dbc8724 a message whose CRC is exactly 2**31 could not be serialized
C05 712740f a message cut off at the end of a fetched set swallowed the fields after the set
C09 22a07d3 aborting a connection raised AttributeError (set_exc_info) and left its requests pending
C09 c41c24e requests pending when a connection was lost or closed stayed pending forever
C10 ca9ae69 a bootstrap host that accepts but never answers properly ended connecting
C11 e552e4b healing with one topic missing forgot all the healthy topics
C11 14e281a gathering metadata raised when connections changed meanwhile
C11 6495bd0 once every connection was lost no broker was ever found again
C11 038ba13 concurrent refreshes left connections open that nobody owned
C13 af9bbf5 messages of produce requests that were never answered were lost
C13 3b887d2 flushing raised KeyError and lost messages of topics whose partitions were unknown
C13 e809e63 messages to be retried were lost when the producer was closed
C28 4cc5f4b an undocumented error code raised KeyError
C19 fc47fcf a message that cannot be deserialized was fetched again and again
C19 473ec5e deserialized values such as 0, "" or [] were not handed out
C20 39465b0 consuming a topic not known yet skipped determining its offsets properly
C18 ae9b963 fractional start times could not be serialized
C18 d01831a partitions whose start offset lookup failed were read from offset 0
C23 d58f4a2 members that both put back a deleted set of partitions failed in their callbacks
C17 f661ae8 messages fetched by a call that then found no broker to refresh metadata from were lost
C12 f661ae8 results of brokers that answered were dropped when metadata could not be refreshed afterwards
C26 e9feb4b messages were lost, yet committed later, if no broker was up for the automatic commit
C27 8c99fa4 what was consumed during a commit of offsets was taken for committed
C27 57bc6b5 determining the coordinator failed during a refresh of the cluster
C30 8ed522f a grouped consumer closed while connecting joined its group nevertheless
C08 75a643d correlation ids outgrew their field in long-lived processes
C23 5cde704 concurrent changes of members and partitions could leave an outdated allocation
C26 506614b a rebalance in the middle of a call had partitions fetched and committed from stale offsets
C18 4f336ef a partition without a leader while another call re-read metadata was started at offset 0
C15 4f336ef keyed messages went to other partitions while a leader was being elected
C18 0e0eea7 a topic not in the metadata for a moment while its offsets were determined was read from offset 0, wherever the start was asked to be
C27 7c3ab67 a group's offset committed within a compressed batch (another client's, or a trimmed log's start): messages before it were handed out once more
C18 d88b666 a start before the whole log raised IndexError
C12 27c82ad sending to a broker that had left the cluster raised KeyError
C24 064f2e6 the shared set was stored as str, which kazoo refuses
C24 03aeb91 removing partitions while iterating over them skipped some
C23 6207f2e more members than partitions raised KeyError
C25 5b3edcc a member whose session was lost never rejoined the group
C25 8eeea89 joining raised NoNodeError when a stale node of the same name expired meanwhile
C24 cf12340 creating the shared set when it was missing failed
C27 4db30c8 commits and offset fetches went to the old coordinator forever once it moved or died
C26 fc7e1f4 offsets fetched before a rebalance were used after it
C26 f84b31f offset -1 (nothing committed) was fetched from
C27 66aa08e a commit failing for one partition of a topic was forgotten when another one succeeded
C26 cf952fe offsets of partitions since taken over by others were committed
C26 975a9ed a partition not in the known metadata raised KeyError on every consume
C30 9ac80e2 the ZooKeeper session lived on when leaving the group failed
C30 0d6fa07 broker connections stayed open when winding down failed
C30 89a55da a grouped consumer closed while consuming still committed
C31 6fbf44d a response of negative size was waited for forever
C31 7e7c7ab one broker's unreadable metadata failed the whole refresh
"""

if __name__ == "__main__":
    fixed = []
    for line in FIXED.strip().splitlines():
        prop, commit, what = line.split(" ", 2)
        fixed.append("fixed: property=%s %s %s" % (prop, commit, what))
    with open(os.path.join(HERE, "known_findings.json"), "w") as fd:
        json.dump({"findings": [dict(property=p, case=repr(c), what=w, expect=e)
                                for p, c, w, e in FINDINGS], "fixed": fixed}, fd, indent=1)
        fd.write("\n")
