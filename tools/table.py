PBT = "property-based testing (Hypothesis)"

prop("C01", "Requests are encoded exactly as the Kafka protocol specifies",
     "Every request kiel can build, with any field values the API allows, serializes to exactly the bytes "
     "the Kafka protocol prescribes: request header with the right API key, version, the request's own "
     "correlation id and client id, then each field in order with null and empty kept apart. "
     "Serializing the same request again gives the same bytes.",
     ["inputs"], "every request type, every value of every field, any number of topics, partitions, messages",
     "Unit tests render one or two hand-written requests per API with small ASCII values; the statement is "
     "over all field values, nestings, nulls and counts.",
     ["kiel/protocol/request.py", "kiel/protocol/part.py", "kiel/protocol/primitives.py",
      "kiel/protocol/produce.py", "kiel/protocol/fetch.py", "kiel/protocol/offset_commit.py",
      "kiel/protocol/join_group.py", "kiel/protocol/heartbeat.py"],
     [("Request.serialize writes the header and all parts", "kiel/protocol/request.py"),
      ("Part.render concatenates declared parts in order", "kiel/protocol/part.py")],
     PBT + ": differential against an independent encoder", TRUST_CODEC)

prop("C02", "Responses are decoded faithfully, field by field",
     "Every response a broker can send for the APIs kiel defines decodes to an object that carries exactly "
     "the values encoded, in order, with null, empty and arbitrary binary data kept apart.",
     ["inputs"], "every response type, all values, any number of array elements, arbitrary bytes in strings",
     "Unit tests decode one or two fixed byte strings per API; wrong widths, signs, null handling or order "
     "only show on other values.",
     ["kiel/protocol/response.py", "kiel/protocol/part.py", "kiel/protocol/primitives.py",
      "kiel/protocol/fetch.py", "kiel/protocol/metadata.py", "kiel/protocol/offset.py",
      "kiel/protocol/describe_groups.py", "kiel/protocol/sync_group.py"],
     [("Response.deserialize / Part.parse", "kiel/protocol/response.py, kiel/protocol/part.py"),
      ("primitive parse functions", "kiel/protocol/primitives.py")],
     PBT + ": differential against an independent encoder", TRUST_CODEC)

prop("C03", "The type primitives compose, round-trip and refuse what does not fit",
     "Any structure composed of the protocol primitives, arrays and parts parses back from its own "
     "rendering to an equal value wherever it sits in a buffer, consuming exactly its own bytes; equality "
     "is true exactly for equal values. A value that does not fit its field is refused with an error, "
     "never silently truncated or wrapped.",
     ["inputs", "programs"], "all nestings of primitives, arrays and parts; all values, in and out of range",
     "Tests cover each primitive with one or two values and no nesting, offsets or boundary values.",
     ["kiel/protocol/primitives.py", "kiel/protocol/part.py"],
     [("Primitive.render/parse, Array.of, Part.render/parse/__eq__", "kiel/protocol/primitives.py, kiel/protocol/part.py")],
     PBT + ": round trip over generated types, plus out-of-range mutation", TRUST_CODEC)

prop("C04", "Produced message sets are valid for a strict broker and lose nothing",
     "A message set rendered under any compression mode is accepted by a strict decoder (sizes and CRCs "
     "correct for every message, compressed or not) and contains exactly the given messages, in order, "
     "with null and empty keys and values kept apart.",
     ["inputs"], "all message lists, keys, values, CRC values (including sign-bit boundaries), codecs",
     "Tests check two fixed messages; CRC sign boundaries and large, empty or null payloads need specific "
     "inputs.",
     ["kiel/protocol/messages.py", "kiel/compression/snappy.py", "kiel/compression/gzip.py"],
     [("Message.render CRC", "kiel/protocol/messages.py"),
      ("MessageSet.compressed", "kiel/protocol/messages.py")],
     PBT + ": differential against an independent strict decoder", TRUST_CODEC)

prop("C05", "A truncated message set yields its complete messages and harms nothing else",
     "When a broker cuts a partition's message set at any byte, decoding the fetch response yields exactly "
     "the messages wholly contained before the cut, and every partition, topic and field after it is "
     "decoded intact.",
     ["inputs"], "every cut position in every partition of a multi-partition fetch response, plain and compressed",
     "Tests cut one single-partition set at one place.",
     ["kiel/protocol/messages.py", "kiel/protocol/fetch.py"],
     [("MessageSet.parse stops at the set's own end", "kiel/protocol/messages.py")],
     PBT + ": generated cut positions against an independent model of the complete messages", TRUST_CODEC)

prop("C06", "Compression round-trips any payload and interoperates both ways",
     "For gzip and snappy, decompressing what kiel compressed returns the original bytes for every payload "
     "of any size, an independent decoder accepts kiel's output, and kiel decompresses what other "
     "implementations write in the framing Kafka uses, whatever their block sizes, levels and headers.",
     ["inputs"], "all payloads and lengths including empty and multi-block, all foreign block sizes",
     "Tests compress one short and one long string; block-boundary lengths and foreign framings are not reached.",
     ["kiel/compression/gzip.py", "kiel/compression/snappy.py"],
     [("xerial block framing", "kiel/compression/snappy.py")],
     PBT + ": round trip and differential against an independent codec", TRUST_CODEC)

prop("C07", "Compression is transparent to what is read from a fetched set",
     "The sequence of messages and offsets read from a fetched message set depends only on the log's "
     "content, not on how producers batched or compressed it: each message appears once, in order, with "
     "the offset the broker assigned, its own key and value.",
     ["inputs", "histories"], "all splits of a log into plain, gzip and snappy batches, logs with offset gaps",
     "Tests decode a single compressed batch of two messages.",
     ["kiel/protocol/messages.py"],
     [("nested sets are flattened while parsing", "kiel/protocol/messages.py")],
     PBT + ": metamorphic (same log, different batching and compression)", TRUST_CODEC)

prop("C08", "Concurrent requests each get their own response, however the bytes arrive",
     "With any number of requests in flight on any number of connections, every request completes with "
     "exactly the response that carries its correlation id on its connection, regardless of the order of "
     "the answers, their delays and how the bytes are split into reads. "
     "Correlation ids in use are unique and a completed request never blocks another.",
     ["schedules", "inputs"], "all answer orders, delays, chunkings and request mixes",
     "Tests use a mocked stream with one request at a time.",
     ["kiel/connection.py", "kiel/protocol/request.py"],
     [("pending futures by correlation id", "kiel/connection.py"),
      ("read loop", "kiel/connection.py")],
     PBT + ": simulated broker with generated schedules, response identity oracle", TRUST_NET)

prop("C09", "When a connection is lost every pending request fails promptly, none hangs",
     "However and whenever a connection ends (orderly close, reset at any byte, local close or abort, "
     "unreadable or unmatched data), every request on it completes: with its own response if that had "
     "fully arrived, otherwise with an error, and later sends fail at once. The connection then no longer "
     "reads, and its socket is closed.",
     ["crash_points", "fault_sequences", "schedules"],
     "every byte position of every response as the loss point, every kind of loss, any number of pending requests",
     "Tests trigger one StreamClosedError with at most one pending request.",
     ["kiel/connection.py", "kiel/exc.py"],
     [("abort fails all pending futures", "kiel/connection.py")],
     PBT + ": fault injection at generated byte positions", TRUST_NET)

prop("C10", "Connecting works if any listed bootstrap host is usable",
     "Connecting tries the listed hosts in order and succeeds exactly when one of them answers, however the "
     "others fail (unknown, refusing, hanging up at any point, talking garbage); otherwise it fails with "
     "the no-brokers error. Afterwards there is exactly one live connection per live broker and no stray one.",
     ["configurations", "fault_sequences"], "all bootstrap lists mixing good and bad hosts, ports present or absent, clusters of 1-4 brokers",
     "Tests cover one good host, or all bad by one way of failing.",
     ["kiel/cluster.py", "kiel/connection.py"],
     [("Cluster.start / get_metadata", "kiel/cluster.py")],
     PBT + ": simulated cluster, fault injection per host", TRUST_NET)

prop("C11", "After any history a metadata refresh reflects the real cluster",
     "After any history of broker crashes, returns, additions, leader moves, topic creation and deletion, "
     "lost connections and metadata errors, a refresh made once things settle knows exactly the cluster's "
     "topics, partitions, leaders and live brokers. No refresh, alone or concurrent with others, hangs, "
     "fails while some broker is reachable, forgets healthy topics, or leaks connections.",
     ["histories", "fault_sequences", "schedules"], "all event histories and interleavings of refreshes up to the generated bounds",
     "Tests heal once from one canned metadata response with mocked connections.",
     ["kiel/cluster.py"],
     [("Cluster.heal, process_brokers, process_topics, add/remove brokers", "kiel/cluster.py")],
     PBT + ": stateful histories against a simulated cluster as the model", TRUST_NET)

prop("C12", "Sending to several brokers isolates each broker's failure",
     "A round of requests to several brokers returns exactly the handler results of the brokers that "
     "answered, each response handled once, in order of arrival, whether handlers are plain or "
     "asynchronous; a broker that fails or is unknown spoils no other's result, even if no broker is left. A round that lost a broker, or whose handler asked for it, "
     "refreshes the client's cluster knowledge before it returns.",
     ["fault_sequences", "schedules"], "all combinations of per-broker behaviours, delays and losses over 1-4 brokers",
     "Tests send to two mocked connections with one failing in one way.",
     ["kiel/clients/client.py", "kiel/iterables.py", "kiel/cluster.py"],
     [("Client.send gathers with drain, heals on loss", "kiel/clients/client.py")],
     PBT + ": fault injection per broker, exact result model", TRUST_NET)

prop("C13", "No accepted message is lost: close() returns only after it is stored",
     "Every message accepted by a producer before close() is in its topic's log once close() has returned, "
     "through any history of retriable errors, lost connections, broker crashes (even of all at once), "
     "leader moves and elections that eventually ends. Delivery is at least once, and close() completes.",
     ["fault_sequences", "histories", "schedules"],
     "all produce/flush/close histories, batch sizes, compressions, and per-partition fault sequences",
     "Tests check the retry list after single canned responses, never the log after a whole history.",
     ["kiel/clients/producer.py", "kiel/clients/client.py", "kiel/cluster.py"],
     [("unsent messages kept and retried, wind_down on close", "kiel/clients/producer.py")],
     PBT + ": stateful histories with fault injection, broker log as oracle", TRUST_NET)

prop("C14", "Answered messages are never sent again; no message is sent needlessly twice",
     "Once a broker's answer reporting success or a non-retriable error for a message's partition has been "
     "received, that message is never sent again, even when other partitions of the same request must be "
     "retried. No request carries a message twice, and with no faults each message is stored exactly once.",
     ["fault_sequences", "histories"], "all histories with partition-selective error codes",
     "Tests look at one response with one error code at a time.",
     ["kiel/clients/producer.py"],
     [("only failed partitions' messages go back to unsent", "kiel/clients/producer.py")],
     PBT + ": stateful histories, broker request trace as oracle", TRUST_NET)

prop("C15", "Produce requests carry what was configured, addressed to the right place",
     "Every produce request has the configured acks, timeout and compression and holds only messages handed "
     "to the producer, each with its own topic, serialized value and key, in the partition the partitioner "
     "chooses from the topic's full partition list, sent to the broker believed to lead it. "
     "After an answer that calls for it metadata is re-read before producing again, and not while all is well.",
     ["inputs", "histories"], "all configurations, keys, topics, topologies and retry histories",
     "Tests use one topic, one partition and fixed keys.",
     ["kiel/clients/producer.py", "kiel/cluster.py"],
     [("flush groups messages by leader, topic, partition", "kiel/clients/producer.py")],
     PBT + ": broker-side request trace against the configuration", TRUST_NET)

prop("C16", "Batching: messages go out exactly when a batch completes, in order",
     "On a quiet cluster, after every produce(), flush() and close() the brokers hold exactly the messages "
     "of the batches completed so far, each partition in the order produced, each flush being one request "
     "per leader; a batch refused for a retriable reason is part of the next one. close() sends the rest; what is produced during or after it is ignored.",
     ["histories", "configurations"], "all call sequences and batch sizes, known, unknown and auto-created topics",
     "Tests check two or three calls with one batch size.",
     ["kiel/clients/producer.py"],
     [("produce/flush batching", "kiel/clients/producer.py")],
     PBT + ": stateful, reference model of the broker logs", TRUST_NET)

prop("C17", "consume() hands out each partition's log exactly once, in order, across faults",
     "The values consume() returns for a partition are exactly the messages stored there from its starting "
     "point on, in order, without gaps or repetition, while messages are appended, leaders move, brokers "
     "crash and return, connections drop, requests fail, and other topics are consumed. "
     "No consume() call hangs, nor raises because of such events unless no broker is up at all, and then "
     "it loses nothing either.",
     ["histories", "fault_sequences", "schedules"], "all event and fault histories up to the generated bounds, plain and compressed batches on whole-batch boundaries",
     "Tests consume one or two canned responses; they cannot see gaps or repetition across faults.",
     ["kiel/clients/consumer.py", "kiel/clients/single.py", "kiel/clients/client.py"],
     [("offsets advance per message handed out", "kiel/clients/consumer.py")],
     PBT + ": stateful histories with fault injection, broker log as oracle", TRUST_NET)

prop("C18", "Consuming starts where asked, and restarts sensibly when out of range",
     "The first consume() of a topic starts each partition at the point asked for (default end of the log, "
     "BEGINNING, END, a datetime or a timedelta ago), through transient errors while that is being "
     "determined, and a later call's start value does not move the reader. If the position is no longer "
     "in the log, consuming carries on from the start value given, without failing.",
     ["inputs", "histories", "fault_sequences"], "all start values, trimmed logs with aged segments, fault sequences during offset lookup",
     "Tests check the request built for each start kind and one canned response.",
     ["kiel/clients/single.py", "kiel/clients/consumer.py", "kiel/protocol/offset.py"],
     [("determine_offsets via the offset API", "kiel/clients/single.py"),
      ("out-of-range drops the synced flag", "kiel/clients/consumer.py")],
     PBT + ": simulated trimmed logs, positional oracle", TRUST_NET)

prop("C19", "Messages that cannot be deserialized are skipped and never block the rest",
     "consume() returns exactly the messages the deserializer accepts, in order; any message it rejects, "
     "by whatever exception and wherever it lies in the log, is skipped once and neither stops the "
     "others nor is fetched again.",
     ["inputs", "histories"], "all placements of bad messages, exception types, fetch sizes",
     "Tests have one bad message between good ones in one response.",
     ["kiel/clients/consumer.py"],
     [("deserialize_messages skips and advances", "kiel/clients/consumer.py")],
     PBT + ": broker log as oracle, custom and JSON deserializers", TRUST_NET)

prop("C20", "Fetch requests respect limits, leadership and the read position",
     "Every fetch names only the topic asked for, each of its partitions once per round at the broker "
     "believed to lead it, from the first offset not yet handed out, with the configured wait and minimum "
     "bytes and the configured maximum shared between the partitions asked of that broker. "
     "Consumers always identify themselves as such (replica -1) and don't re-read metadata while all is well.",
     ["inputs", "configurations", "histories"], "all limits, topologies, leader moves and fault histories",
     "Tests compare one fetch request to an expected one.",
     ["kiel/clients/consumer.py", "kiel/clients/single.py"],
     [("consume() builds one request per leader", "kiel/clients/consumer.py")],
     PBT + ": broker-side request trace against the model position", TRUST_NET)

prop("C21", "What is produced is what is consumed, end to end",
     "Any sequence of JSON values produced with default settings, or any values with matching custom "
     "serializers and deserializers, is read back by a consumer of the topic as equal values, each partition "
     "in the order produced, for every key, batch size and compression. A JSON null is the one value that "
     "is not handed out.",
     ["inputs", "configurations"], "all JSON values, binary values, keys, batch sizes, codecs",
     "Producer and consumer are tested apart, with fixed small values.",
     ["kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/protocol/messages.py", "kiel/compression"],
     [("serializer, message set, compression, deserializer", "kiel/clients/producer.py, kiel/clients/consumer.py")],
     PBT + ": end-to-end round trip over a simulated broker", TRUST_NET)


prop("C22", "The default allocation is complete, disjoint, balanced and deterministic",
     "For any sorted members and partitions, the default allocation gives every partition to exactly one "
     "member, as an integer under its own topic name, invents none, and the numbers of partitions any two "
     "members get differ by at most one. The same arguments always give the same allocation.",
     ["inputs", "configurations"], "all member and partition lists, all legal names",
     "Tests have one fixed allocation of a few partitions.",
     ["kiel/clients/grouped.py"],
     [("naive_allocator", "kiel/clients/grouped.py")],
     PBT + ": invariants over generated inputs", TRUST_CODEC)

prop("C23", "Group members agree on who owns what once membership settles",
     "Once a group is at rest after any history of members starting, stopping, crashing, losing their "
     "ZooKeeper connection or session and of partitions added or removed (even their set deleted by somebody), "
     "every live member holds the same allocation, which is the allocator function applied to the sorted live "
     "members and the sorted shared partitions. A member told of a change by its callback then owns what its allocation says.",
     ["histories", "schedules", "fault_sequences"], "all membership histories of up to 5 members, thread schedules, notification delays",
     "Tests call the callbacks by hand with a mocked kazoo client.",
     ["kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py", "kiel/zookeeper/shared_set.py"],
     [("PartitionAllocator.handle_members_change / handle_partitions_change / rebalance",
       "kiel/zookeeper/allocator.py")],
     PBT + ": stateful histories under a generated thread scheduler against simulated ZooKeeper", TRUST_ZK)

prop("C24", "The shared set is linearizable: no concurrent change is lost",
     "The stored contents of a shared set follow one sequential order of all add and remove calls that "
     "respects real time, whatever clients run at once, crash or lose their connection. "
     "Every surviving member's callback ends with the stored set.",
     ["schedules", "crash_points", "histories"], "2-4 clients, all interleavings of their ZooKeeper operations, crashes before or after any of them",
     "Tests use a mocked client with a single caller.",
     ["kiel/zookeeper/shared_set.py"],
     [("add_items and remove_items under a zookeeper lock", "kiel/zookeeper/shared_set.py")],
     PBT + ": generated schedules and crash points, linearizability oracle", TRUST_ZK)

prop("C25", "The party consists of exactly the members that joined and are still there",
     "Once at rest, the party consists of exactly the names whose latest process joined and has not left, "
     "died or lost its session since, also when a process comes back under its old name before its old "
     "session is gone. Every live watcher has been told exactly that.",
     ["histories", "schedules", "crash_points"], "all join, leave, crash, reconnect and restart histories of up to 4 names",
     "Tests call join and leave once with a mocked client.",
     ["kiel/zookeeper/party.py"],
     [("ephemeral node, waiting for a stale one to go", "kiel/zookeeper/party.py")],
     PBT + ": stateful histories under generated schedules against simulated ZooKeeper", TRUST_ZK)

prop("C26", "A consumer group never commits past or loses a message across rebalances",
     "Through any history of members joining, leaving and crashing, of topics growing, coordinators and "
     "leaders moving and transient failures, every offset committed for a group covers only messages that "
     "were handed out to some member, and each message is handed out to some member in the end. While "
     "membership changes only in an orderly way with commits in between, no message is handed out twice.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "groups of 1-3 members over up to 3 topics, all generated histories of membership, cluster and fault events",
     "Tests run one consumer with canned responses and a mocked allocator.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py", "kiel/zookeeper/allocator.py"],
     [("handle_rebalance commits and forgets offsets", "kiel/clients/grouped.py"),
      ("offsets fetched from the coordinator", "kiel/clients/grouped.py")],
     PBT + ": stateful histories, broker logs and committed offsets as oracle", TRUST_ZK)

prop("C27", "Grouped consuming rides out transient coordinator errors and commits exactly",
     "Transient failures of coordinator lookups, offset fetches and commits, for all or some partitions, "
     "are retried within the call until they pass, and fatal ones end the call without raising. "
     "A commit without fatal errors stores exactly the number of messages handed out for each partition, "
     "with the metadata given, or blank if brokers call it too large; what is consumed while it is under "
     "way is left to the next.",
     ["fault_sequences", "histories"], "all fault sequences on group APIs, codes per partition, metadata sizes",
     "Tests check one response with one code at a time.",
     ["kiel/clients/grouped.py", "kiel/protocol/offset_commit.py", "kiel/protocol/offset_fetch.py"],
     [("handle_offset_fetch_response / handle_commit_response / determine_coordinator",
       "kiel/clients/grouped.py")],
     PBT + ": fault injection, committed offsets at the broker as oracle", TRUST_ZK)

prop("C28", "Every error code is handled as Kafka documents it: retried or given up on",
     "Whatever error code a broker answers for a partition in any API kiel's clients use, a code Kafka marks "
     "retriable is retried with fresh cluster knowledge until it passes and affects the outcome no further. "
     "Any other code, known or not, affects only its own partition, never makes a call fail or hang, and is "
     "not retried.",
     ["inputs", "configurations"], "every 16-bit error code, in every API, for any subset of partitions, in runs of 1-3",
     "Tests cover a handful of codes in a handful of handlers.",
     ["kiel/protocol/errors.py", "kiel/clients/producer.py", "kiel/clients/consumer.py",
      "kiel/clients/single.py", "kiel/clients/grouped.py"],
     [("errors.retriable / errors.fatal", "kiel/protocol/errors.py")],
     PBT + ": error injection, classification table from the protocol guide", TRUST_ZK)

prop("C29", "Draining yields each element exactly once, whatever is added meanwhile",
     "Draining yields each element of the container exactly once, also those added while it is drained, "
     "by one drain or several, and ends only when the container is empty; an element not yet yielded is "
     "still inside. Deques drain first to last and lists last to first.",
     ["inputs", "histories"], "all containers the docstring lists, all elements, all interleavings of changes and steps",
     "Tests drain one fixed container of each kind.",
     ["kiel/iterables.py"],
     [("drain", "kiel/iterables.py")],
     PBT + ": stateful, multiset model", TRUST_CODEC)

prop("C30", "close() ends a client completely and cuts short whatever is under way",
     "close() of any client completes whatever the cluster and ZooKeeper do, and so does every call under "
     "way. From then on the client sends nothing, opens and keeps open no connection, owns no partition in "
     "its group and has left it; calls made since close() was called hand out and accept nothing.",
     ["histories", "schedules", "fault_sequences"], "closing before, during and after generated calls, faults and outages around it",
     "Tests close an idle, mocked client.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/grouped.py", "kiel/cluster.py",
      "kiel/zookeeper/allocator.py"],
     [("Client.close, wind_down, Cluster.stop", "kiel/clients/client.py, kiel/cluster.py")],
     PBT + ": stateful histories with closes at generated moments", TRUST_ZK)

prop("C31", "Unreadable answers harm only their own connection, never the client or data",
     "Decoding any bytes ends promptly with a response or an error, and bytes that are a valid response "
     "decode to its values. A client sent unreadable frames by a broker, at any moment and in answer to any "
     "request, completes every call, gives up just that connection, and neither loses, repeats nor leaves "
     "behind a message once the broker answers properly.",
     ["inputs", "fault_sequences"], "all byte strings, all mutations of valid responses, malformed frames in answer to any request",
     "Tests decode well-formed responses only.",
     ["kiel/connection.py", "kiel/protocol/primitives.py", "kiel/protocol/messages.py", "kiel/cluster.py",
      "kiel/clients/client.py"],
     [("socket_error_handling aborts the connection", "kiel/connection.py"),
      ("parse functions", "kiel/protocol")],
     PBT + ": mutation fuzzing against a strict decoder, garbage injection into histories", TRUST_ZK)

prop("C32", "Clients in one process do not affect one another",
     "Two clients of any kind that run side by side in one process, of separate clusters or of one, with "
     "whatever calls, faults and closes of their own, behave each as it would alone: its calls end the same "
     "way, its brokers are sent the same requests and it stores and commits the same.",
     ["histories", "schedules", "fault_sequences"], "pairs of histories of calls and faults, overlapping in time",
     "Tests never run two clients at once.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py",
      "kiel/cluster.py", "kiel/connection.py"],
     [("all state is kept per instance", "kiel/clients, kiel/cluster.py, kiel/connection.py")],
     PBT + ": differential, each history alone against both at once", TRUST_ZK)

prop("C33", "A client at rest holds no more however long it has worked",
     "Whatever calls, errors, lost connections, unreadable answers, leader moves, rebalances and lost "
     "sessions a client goes through again and again, what it holds once at rest does not grow with their "
     "number: neither records of requests, messages or brokers nor connections, watches or listeners.",
     ["histories", "fault_sequences"], "rounds of calls and faults, repeated any number of times",
     "Tests stop after a handful of calls.",
     ["kiel/connection.py", "kiel/cluster.py", "kiel/clients/producer.py", "kiel/clients/consumer.py",
      "kiel/clients/grouped.py", "kiel/zookeeper/allocator.py"],
     [("records of requests are dropped with their answers", "kiel/connection.py, kiel/clients/producer.py"),
      ("heal() drops lost connections", "kiel/cluster.py")],
     PBT + ": metamorphic, repetition of a generated round of work", TRUST_ZK)
