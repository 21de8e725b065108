From 6b7ab0c6b3757fd1ba9154ed28d62ba419adc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 01/52] fix: declare heartbeat parts as (name, class) pairs

---
 kiel/protocol/heartbeat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kiel/protocol/heartbeat.py b/kiel/protocol/heartbeat.py
index aa8d518..edfc193 100644
--- a/kiel/protocol/heartbeat.py
+++ b/kiel/protocol/heartbeat.py
@@ -24,9 +24,9 @@ class HeartbeatRequest(Request):
     api = "heartbeat"
 
     parts = (
-        "group_id", String,
-        "generation_id", Int32,
-        "member_id", String,
+        ("group_id", String),
+        ("generation_id", Int32),
+        ("member_id", String),
     )
 
 
@@ -40,5 +40,5 @@ class HeartbeatResponse(Response):
     api = "heartbeat"
 
     parts = (
-        "error_code", Int16
+        ("error_code", Int16),
     )
-- 
2.43.0


From 026f79bbe94b77b3ec3d459d850e709944f51cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 02/52] fix: render v1 offset commit partitions as an array

---
 kiel/protocol/offset_commit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/offset_commit.py b/kiel/protocol/offset_commit.py
index e611f15..5f7ff8a 100644
--- a/kiel/protocol/offset_commit.py
+++ b/kiel/protocol/offset_commit.py
@@ -78,7 +78,7 @@ class TopicV1Request(Part):
     """
     parts = (
         ("name", String),
-        ("partitions", PartitionV1Request),
+        ("partitions", Array.of(PartitionV1Request)),
     )
 
 
-- 
2.43.0


From 03020cb7126d583ec9a4731691a22954f5f7ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 03/52] fix: decompress every snappy block, however small

---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From dbc87242bf93005c3a3b4e018c3c0ff7c806b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 04/52] fix: render messages whose crc is exactly 2**31

---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From 712740f616ccec27b8a56be6089b1a1e4ed63af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 05/52] fix: keep a truncated message set from reading past its
 end

---
 kiel/protocol/messages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..94f962c 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -123,7 +123,9 @@ class MessageSet(object):
         if size is None:
             size, offset = Int32.parse(buff, offset)
 
-        end = offset + size
+        end = offset + max(size, 0)
+        # a cut off message must not be completed with what follows the set
+        buff = buff[:end]
 
         messages = []
         while not offset == end:
@@ -142,7 +144,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From 22a07d3be35af723b54fb2e06dd0b0d13679dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 06/52] fix: abort a connection with set_exception, futures
 have no set_exc_info

---
 kiel/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..4c3c540 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -169,7 +169,7 @@ class Connection(object):
             _, pending = self.pending.popitem()
             exc_info = sys.exc_info()
             if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
+                pending.set_exception(exc_info[1])
             else:
                 pending.set_exception(
                     BrokerConnectionError(self.host, self.port)
-- 
2.43.0


From c41c24e83871577d4ab0e67639f722ba4ea11e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/52] fix: fail pending requests when a connection is lost or
 closed

---
 kiel/connection.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index 4c3c540..bf137ac 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -76,23 +76,36 @@ class Connection(object):
     def close(self):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
-        underlying stream.
+        underlying stream.  Requests still waiting on a response are failed,
+        as it will never come.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(BrokerConnectionError(self.host, self.port))
+
+    def fail_pending(self, error):
+        """
+        Puts all pending futures into an error state.
+        """
+        self.api_correlation.clear()
+        while self.pending:
+            _, pending = self.pending.popitem()
+            pending.set_exception(error)
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Handles the StreamClosedError case by setting the ``closing`` flag and
+        failing the pending requests, logs any unexpected exceptions with a
+        failure message.
         """
         try:
             yield
         except iostream.StreamClosedError:
             self.closing = True
+            self.fail_pending(BrokerConnectionError(self.host, self.port))
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -163,17 +176,11 @@ class Connection(object):
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
+        error = sys.exc_info()[1]
+        if error is not None:
+            self.fail_pending(error)
+
         self.close()
-        self.api_correlation.clear()
-        while self.pending:
-            _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exception(exc_info[1])
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From ca9ae69d9ba3767142f3f6ad91519bdc41ede6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 08/52] fix: try the next bootstrap host when one fails to
 answer

---
 kiel/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..89e2e5a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -92,6 +92,7 @@ class Cluster(object):
 
             try:
                 yield conn.connect()
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -99,8 +100,6 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
             conn.close()
             break
 
-- 
2.43.0


From e552e4bd81b8eb201e68de1d2fc71718849f4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 09/52] fix: do not forget healthy topics while healing others

---
 kiel/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 89e2e5a..1d9a5ff 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -138,7 +138,8 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            # all topics, as what is processed replaces what is known
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
-- 
2.43.0


From 14e281a1b9b26760c01a536540e80ef7f103b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 10/52] fix: survive connections changing while metadata is
 gathered

---
 kiel/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 1d9a5ff..98b402e 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -157,7 +157,7 @@ class Cluster(object):
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
-- 
2.43.0


From 6495bd03cacb6fdcecdc3671c358679c7c83ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 11/52] fix: fall back to the bootstrap hosts once every
 connection is lost

---
 kiel/cluster.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 98b402e..73b149c 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -25,6 +25,7 @@ class Cluster(object):
     """
     def __init__(self, bootstrap_hosts):
         self.bootstrap_hosts = bootstrap_hosts
+        self.stopped = False
 
         self.conns = {}
         self.topics = collections.defaultdict(list)
@@ -78,6 +79,18 @@ class Cluster(object):
         request.  Once a metadata request is successful the `heal()` method
         is called.
         """
+        response = yield self.bootstrap()
+
+        log.info("Metadata gathered, setting up connections.")
+        yield self.heal(response)
+
+    @gen.coroutine
+    def bootstrap(self):
+        """
+        Retrieves metadata from the first bootstrap host that provides it.
+
+        If none of the hosts do, a ``NoBrokersError`` is raised.
+        """
         response = None
 
         for host in self.bootstrap_hosts:
@@ -86,11 +99,10 @@ class Cluster(object):
             else:
                 port = DEFAULT_KAFKA_PORT
 
-            conn = Connection(host, int(port))
-
             log.info("Using bootstrap host '%s'", host)
 
             try:
+                conn = Connection(host, int(port))
                 yield conn.connect()
                 response = yield conn.send(metadata.MetadataRequest(topics=[]))
             except (iostream.StreamClosedError, BrokerConnectionError):
@@ -106,8 +118,7 @@ class Cluster(object):
         if not response:
             raise NoBrokersError
 
-        log.info("Metadata gathered, setting up connections.")
-        yield self.heal(response)
+        raise gen.Return(response)
 
     @gen.coroutine
     def heal(self, response=None):
@@ -150,7 +161,8 @@ class Cluster(object):
         to a set of topics.
 
         Each connection in the cluster is tried until one works.  If no
-        connection in the cluster responds, a ``NoBrokersError`` is raised.
+        connection in the cluster responds the bootstrap hosts are tried
+        again, a ``NoBrokersError`` is raised if those don't either.
         """
         log.debug("Gathering metadata (topics=%s)", topics)
         if topics is None:
@@ -167,7 +179,11 @@ class Cluster(object):
                 continue
 
         if not response:
-            raise NoBrokersError
+            if self.stopped:
+                raise NoBrokersError
+
+            log.warn("No connection left, falling back to bootstrap hosts.")
+            response = yield self.bootstrap()
 
         raise gen.Return(response)
 
@@ -266,5 +282,7 @@ class Cluster(object):
         """
         Simple method that calls ``close()`` on each connection.
         """
+        self.stopped = True
+
         for conn in self.conns.values():
             conn.close()
-- 
2.43.0


From 038ba13b9a8bb0ac5c4f42f06fce90b17e098809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 12/52] fix: keep concurrent refreshes from leaking broker
 connections

---
 kiel/cluster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 73b149c..d3e782a 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -208,6 +208,10 @@ class Cluster(object):
             try:
                 conn = Connection(broker.host, broker.port)
                 yield conn.connect()
+                if self.stopped or broker.broker_id in self.conns:
+                    # stopped or connected to elsewhere in the meantime
+                    conn.close()
+                    continue
                 self.conns[broker.broker_id] = conn
             except iostream.StreamClosedError:
                 log.warn(
@@ -225,7 +229,8 @@ class Cluster(object):
                 continue
 
         for broker_id in to_drop:
-            self.conns[broker_id].abort()
+            if broker_id in self.conns:
+                self.conns[broker_id].abort()
 
         raise gen.Return(missing)
 
-- 
2.43.0


From af9bbf5daa3ea7f63149fdf72b9b5306897957c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 13/52] fix: queue messages for retry when their request is
 never answered

---
 kiel/clients/producer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..b6affdb 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -187,7 +187,15 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            # anything without a response by now won't ever get one
+            for request in six.itervalues(requests):
+                unanswered = self.sent.pop(request.correlation_id, {})
+                for topic, partitions in six.iteritems(unanswered):
+                    for msgs in six.itervalues(partitions):
+                        self.unsent[topic].extend(msgs)
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 3b887d2a266b2b9d4907dc1f974c976c6a0f5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 14/52] fix: keep messages of topics with no known partitions
 for a retry

---
 kiel/clients/producer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index b6affdb..92dd925 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -150,10 +150,12 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            partitions = self.cluster.topics.get(topic)
+            if not partitions:
+                to_retry[topic].extend(msgs)
+                continue
             for msg in msgs:
-                partition = self.partitioner(
-                    msg.key, self.cluster.topics[topic]
-                )
+                partition = self.partitioner(msg.key, partitions)
                 leader = self.cluster.get_leader(topic, partition)
                 if leader not in self.cluster:
                     to_retry[topic].append(msg)
-- 
2.43.0


From e809e63e154954642fd52d25d4d70c33882741f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 15/52] fix: retry messages while winding down instead of
 losing them

---
 kiel/clients/producer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 92dd925..4cf82cb 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -236,5 +236,13 @@ class Producer(Client):
     def wind_down(self):
         """
         Flushes the unsent messages so that none are lost when closing down.
+
+        Messages queued up to be retried are flushed again, unless the topic
+        they belong to is gone.
         """
-        yield self.flush()
+        while self.unsent:
+            yield self.flush()
+
+            for topic in set(self.unsent) - set(self.cluster.topics):
+                log.error("Topic %s is gone, dropping its messages.", topic)
+                self.unsent.pop(topic)
-- 
2.43.0


From 4cc5f4bab130b6836ed4cd0eb563db78ef4db40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 16/52] fix: log error codes that are not documented instead of
 raising

---
 kiel/clients/consumer.py | 2 +-
 kiel/clients/grouped.py  | 4 ++--
 kiel/clients/producer.py | 2 +-
 kiel/clients/single.py   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..4739c2f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,7 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..6cc1739 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -203,7 +203,7 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +276,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 4cf82cb..ba84f2a 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -227,7 +227,7 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code), topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..7a3f018 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,7 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code), topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From fc47fcfe0548b2aa22badfe55f3d77251c95b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 17/52] fix: advance past messages that cannot be deserialized

---
 kiel/clients/consumer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4739c2f..1f79b9f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -182,11 +182,14 @@ class BaseConsumer(Client):
         If an error is encountered when deserializing it is logged and the
         offending message is skipped.
 
-        After each successful deserialization the ``self.offsets`` entry for
+        After each message, skipped or not, the ``self.offsets`` entry for
         the particular topic/partition pair is incremented.
         """
         messages = []
         for offset, msg in partition.message_set.messages:
+            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
+                self.offsets[topic_name][partition.partition_id] = offset + 1
+
             try:
                 value = self.deserializer(msg.value)
             except Exception:
@@ -197,9 +200,5 @@ class BaseConsumer(Client):
                 continue
 
             messages.append(value)
-#            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
-            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
-                self.offsets[topic_name][partition.partition_id] = offset + 1
-#            log.debug("%d", self.offsets[topic_name][partition.partition_id])
 
         return messages
-- 
2.43.0


From 473ec5e9917e9a4ec640f522e1af23acc088a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 18/52] fix: deliver values that happen to be falsy

---
 kiel/clients/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 1f79b9f..37acb3d 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -131,7 +131,7 @@ class BaseConsumer(Client):
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-            if msg # Skip empty messages
+            if msg is not None  # falsy values are values nonetheless
             # BUG: troubleshoot why there are None values
         ])
 
-- 
2.43.0


From 39465b0b1b28bb769a6c4c325e29f4becdf8cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 19/52] fix: determine offsets only once the topic is known

---
 kiel/clients/consumer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 37acb3d..74bfc7d 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -74,12 +74,12 @@ class BaseConsumer(Client):
         """
         Fetches from a given topics returns a list of deserialized values.
 
-        If the given topic is not known to have synced offsets, a call to
-        `determine_offsets()` is made first.
-
         If a topic is unknown entirely the cluster's ``heal()`` method is
         called and the check retried.
 
+        If the given topic is not known to have synced offsets, a call to
+        `determine_offsets()` is made first.
+
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
         deserialized results and returns a flattened list.
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
@@ -103,6 +95,14 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                raise gen.Return([])
+            self.synced_offsets.add(topic)
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
-- 
2.43.0


From ae9b96376f8f3965a7a0f2bfd1fc75a49648e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 20/52] fix: use whole seconds for start times, offset requests
 take integers

---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 7a3f018..8278949 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -135,10 +135,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = int(now - start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From d01831a2f434f634c763da3872a27d4d25b878c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 21/52] fix: determine every start offset before fetching

---
 kiel/clients/single.py | 48 +++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 8278949..006ecd7 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -52,7 +52,8 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic.  This is repeated for partitions without a usable response until
+        there are none left.
         """
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
@@ -69,22 +70,29 @@ class SingleConsumer(BaseConsumer):
                 ]
             )
 
-        requests = collections.defaultdict(request_factory)
-
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
-            requests[leader].topics[0].partitions.append(
-                offset.PartitionRequest(
-                    partition_id=partition_id,
-                    time=offset_time,
-                    max_offsets=1
+        determined = set()
+
+        while not determined.issuperset(self.allocation[topic]):
+            requests = collections.defaultdict(request_factory)
+
+            for partition_id in self.allocation[topic]:
+                if partition_id in determined:
+                    continue
+                leader = self.cluster.get_leader(topic, partition_id)
+                requests[leader].topics[0].partitions.append(
+                    offset.PartitionRequest(
+                        partition_id=partition_id,
+                        time=offset_time,
+                        max_offsets=1
+                    )
                 )
+
+            log.debug(
+                "Sending offset request to %d leaders.", len(requests.keys())
             )
+            results = yield self.send(requests)
 
-        log.debug(
-            "Sending offset request to %d leaders.", len(requests.keys())
-        )
-        yield self.send(requests)
+            determined.update(*results.values())
 
         raise gen.Return(True)
 
@@ -96,9 +104,13 @@ class SingleConsumer(BaseConsumer):
         the ``self.offsets`` structure.
 
         A retriable error code response will cause the cluster's ``heal()``
-        method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        method to be called at the end of processing and the offending
+        partition's offset to be requested again.
+
+        Returns the list of partition IDs that had their offset determined.
         """
+        determined = []
+
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
@@ -109,9 +121,9 @@ class SingleConsumer(BaseConsumer):
                 if offset>=0:
                     self.offsets[topic][partition.partition_id] = offset
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
+                determined.append(partition.partition_id)
             elif code in errors.retriable:
                 self.heal_cluster = True
-                self.synced_offsets.discard(topic)
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
@@ -119,6 +131,8 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
+        return determined
+
     @gen.coroutine
     def wind_down(self):
         """
-- 
2.43.0


From d88b666325262770a0f5f86b1fa5f012becfae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 22/52] fix: start at the beginning when the start point
 precedes the whole log

---
 kiel/clients/single.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 006ecd7..f797d8f 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -4,6 +4,7 @@ import datetime
 import logging
 import time
 
+import six
 from tornado import gen
 
 from kiel.exc import NoOffsetsError
@@ -71,6 +72,7 @@ class SingleConsumer(BaseConsumer):
             )
 
         determined = set()
+        times = collections.defaultdict(lambda: offset_time)
 
         while not determined.issuperset(self.allocation[topic]):
             requests = collections.defaultdict(request_factory)
@@ -82,7 +84,7 @@ class SingleConsumer(BaseConsumer):
                 requests[leader].topics[0].partitions.append(
                     offset.PartitionRequest(
                         partition_id=partition_id,
-                        time=offset_time,
+                        time=times[partition_id],
                         max_offsets=1
                     )
                 )
@@ -92,7 +94,13 @@ class SingleConsumer(BaseConsumer):
             )
             results = yield self.send(requests)
 
-            determined.update(*results.values())
+            for offsets in results.values():
+                for partition_id, found in six.iteritems(offsets):
+                    if found:
+                        determined.add(partition_id)
+                    else:
+                        # the start point precedes everything in the log
+                        times[partition_id] = self.BEGINNING
 
         raise gen.Return(True)
 
@@ -107,21 +115,23 @@ class SingleConsumer(BaseConsumer):
         method to be called at the end of processing and the offending
         partition's offset to be requested again.
 
-        Returns the list of partition IDs that had their offset determined.
+        Returns a dictionary of partition ID -> offsets for the successes.
         """
-        determined = []
+        found = {}
 
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                found[partition.partition_id] = partition.offsets
+                if not partition.offsets:
+                    continue
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
                     self.offsets[topic][partition.partition_id] = offset
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
-                determined.append(partition.partition_id)
             elif code in errors.retriable:
                 self.heal_cluster = True
             else:
@@ -131,7 +141,7 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
-        return determined
+        return found
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 27c82adcc323a108a0daea31de7b1ce925e9d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 23/52] fix: treat brokers missing from the cluster as lost
 when sending

---
 kiel/clients/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..8d935dc 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -73,9 +73,14 @@ class Client(object):
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
+        if any(broker not in self.cluster for broker in request_by_broker):
+            log.info("Broker connection is gone.")
+            self.heal_cluster = True
+
         iterator = gen.WaitIterator(**{
             str(broker_id): self.cluster[broker_id].send(request)
             for broker_id, request in six.iteritems(request_by_broker)
+            if broker_id in self.cluster
         })
 
         results = {}
-- 
2.43.0


From 064f2e6bf789292efee727600a6272daef58e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 24/52] fix: store the shared set as bytes

---
 kiel/zookeeper/shared_set.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..72548ad 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -83,12 +83,13 @@ class SharedSet(object):
 
     def serialize(self, data):
         """
-        Serializes the set data as a list in a JSON string.
+        Serializes the set data as a list in a JSON string, in bytes as that
+        is what zookeeper stores.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
         Parses a given JSON string as a list, converts to a python set.
         """
-        return set(json.loads(data or "[]"))
+        return set(json.loads((data or b"[]").decode("utf-8")))
-- 
2.43.0


From 03aeb91fd09b69ccdb6a3cd16819acd04f4e2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 25/52] fix: remove each of the partitions listed for a topic

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..44fe116 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -239,8 +239,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 6207f2ecd5620c91b8f6d423f1ae066a530486fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 26/52] fix: allow for consumers without any allocation

---
 kiel/zookeeper/allocator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 44fe116..2d96323 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -66,8 +66,11 @@ class PartitionAllocator(object):
     def allocation(self):
         """
         Property representing the topics allocated for a specific consumer.
+
+        Empty if nothing is allocated to the consumer, e.g. it isn't known as
+        a member yet.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From 5b3edccc1373031f3bab02701a83f65bf270c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 27/52] fix: rejoin the group once a lost session is
 re-established

---
 kiel/zookeeper/allocator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 2d96323..d0a0d0e 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -45,6 +45,8 @@ class PartitionAllocator(object):
 
         self.conn = client.KazooClient(hosts=",".join(self.zk_hosts))
         self.connected = threading.Event()
+        self.joined = False
+        self.session_lost = False
 
         self.members = set()
         self.members_collected = threading.Event()
@@ -108,6 +110,7 @@ class PartitionAllocator(object):
         attempt(self.party.start)
         attempt(self.shared_set.start)
         attempt(self.party.join)
+        self.joined = not f.done()
         attempt(self.add_partitions, seed_partitions)
 
         if f.done():
@@ -132,6 +135,8 @@ class PartitionAllocator(object):
 
         attempt = create_attempter(f)
 
+        self.joined = False
+
         attempt(self.party.leave)
         attempt(self.conn.stop)
         attempt(self.conn.close)
@@ -154,16 +159,23 @@ class PartitionAllocator(object):
 
         Responsible for updating the ``connected`` threading event such that
         it is only set if/when the kazoo connection is live.
+
+        Membership in the ``Party`` ends along with the session, so once a
+        connection is re-established after a lost session it is joined again.
         """
         if state == client.KazooState.LOST:
             log.info("Zookeeper session lost!")
             self.connected.clear()
+            self.session_lost = True
         elif state == client.KazooState.SUSPENDED:
             log.info("Zookeeper connection suspended!")
             self.connected.clear()
         else:
             log.info("Zookeeper connection (re)established.")
             self.connected.set()
+            if self.session_lost and self.joined:
+                self.conn.handler.spawn(self.conn.retry, self.party.join)
+            self.session_lost = False
 
     def on_group_members_change(self, new_members):
         """
-- 
2.43.0


From 8eeea895d46ced4c151ca641388ed2c94ee128c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 28/52] fix: join the party even if a stale node expires
 meanwhile

---
 kiel/zookeeper/party.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..a9efc4a 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -65,6 +65,10 @@ class Party(object):
             txn.delete(path)
             txn.create(path, ephemeral=True)
             txn.commit()
+            # the node may have expired in the meantime, with nothing to delete
+            # the transaction is rolled back
+            if not self.client.exists(path):
+                self.client.create(path, ephemeral=True, makepath=True)
 
     def leave(self):
         """
-- 
2.43.0


From cf123405d746c0c0226fd9df99756e0ccddc21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 29/52] fix: populate a missing partition set with bytes

---
 kiel/zookeeper/allocator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index d0a0d0e..f71fa00 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -208,7 +208,10 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            self.conn.create(
+                self.partition_path,
+                value=self.shared_set.serialize(self.partitions)
+            )
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From 4db30c89c264755280e88726853b6ed48fbcc0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 30/52] fix: determine the coordinator again once it moved or
 is lost

---
 kiel/clients/grouped.py | 50 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6cc1739..31c397a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -112,10 +112,34 @@ class GroupedConsumer(BaseConsumer):
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id)
                 if determined:
                     break
 
+    @gen.coroutine
+    def send_to_coordinator(self, request):
+        """
+        Sends a request to the group's coordinator, returns its result.
+
+        If the coordinator is not known, or lost before it gives an answer, it
+        is determined (again) first.  Returns ``None`` if there is no way of
+        determining it.
+        """
+        while True:
+            if self.coordinator_id is None:
+                yield self.determine_coordinator()
+
+            coordinator_id = self.coordinator_id
+            if coordinator_id is None:
+                raise gen.Return(None)
+
+            results = yield self.send({coordinator_id: request})
+            if coordinator_id in results:
+                raise gen.Return(results[coordinator_id])
+
+            log.info("Coordinator %s gave no answer.", coordinator_id)
+            self.coordinator_id = None
+
     def handle_group_coordinator_response(self, response):
         """
         Handler for consumer metadata api responses.
@@ -139,6 +163,13 @@ class GroupedConsumer(BaseConsumer):
 
         return determined
 
+    def check_coordinator(self, code):
+        """
+        Forgets the coordinator if an error code says it no longer is one.
+        """
+        if code in (errors.coordinator_not_available, errors.not_coordinator):
+            self.coordinator_id = None
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -147,6 +178,8 @@ class GroupedConsumer(BaseConsumer):
         Simple matter of sending an OffsetFetchRequest to the coordinator
         broker.
 
+        Raises a ``NoOffsetsError`` exception if there is no coordinator.
+
         .. note::
 
           The ``start`` argument is actually ignored, it exists so that the
@@ -164,8 +197,9 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            retry = yield self.send_to_coordinator(request)
+            if retry is None:
+                raise exc.NoOffsetsError
 
     def handle_offset_fetch_response(self, response):
         """
@@ -199,6 +233,7 @@ class GroupedConsumer(BaseConsumer):
                 retry = True
             elif code in errors.retriable:
                 self.heal_cluster = True
+                self.check_coordinator(code)
                 retry = True
             else:
                 log.error(
@@ -240,8 +275,12 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        result = yield self.send_to_coordinator(request)
+        if result is None:
+            log.error("No coordinator to commit offsets with.")
+            return
+
+        retry, adjust_metadata = result
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -270,6 +309,7 @@ class GroupedConsumer(BaseConsumer):
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
+                    self.check_coordinator(code)
                 elif code == errors.offset_metadata_too_large:
                     retry = True
                     adjust_metadata = True
-- 
2.43.0


From fc7e1f4f92728e974f56913b115c696ff5fcabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 31/52] fix: determine offsets again if rebalanced in the
 meantime

---
 kiel/clients/consumer.py | 5 +++++
 kiel/clients/grouped.py  | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 74bfc7d..5e7f7b6 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -45,6 +45,7 @@ class BaseConsumer(Client):
             lambda: collections.defaultdict(int)
         )
         self.synced_offsets = set()
+        self.rebalances = 0
 
     @property
     def allocation(self):
@@ -96,11 +97,15 @@ class BaseConsumer(Client):
             raise gen.Return([])
 
         if topic not in self.synced_offsets:
+            rebalances = self.rebalances
             try:
                 yield self.determine_offsets(topic, start)
             except NoOffsetsError:
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
+            if rebalances != self.rebalances:
+                log.info("Rebalanced while determining offsets for %s", topic)
+                raise gen.Return([])
             self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 31c397a..63230a6 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -50,7 +50,7 @@ class GroupedConsumer(BaseConsumer):
         self.allocator = PartitionAllocator(
             zk_hosts, self.group_name, self.name,
             allocator_fn=partition_allocator or naive_allocator,
-            on_rebalance=self.synced_offsets.clear
+            on_rebalance=self.handle_rebalance
         )
 
         self.topics_to_commit = set()
@@ -63,6 +63,13 @@ class GroupedConsumer(BaseConsumer):
         """
         return self.allocator.allocation
 
+    def handle_rebalance(self):
+        """
+        Callback for the allocator, has all offsets determined anew.
+        """
+        self.rebalances += 1
+        self.synced_offsets.clear()
+
     @gen.coroutine
     def connect(self):
         """
-- 
2.43.0


From f84b31f06ef6f196353586acb963c31cf5eab9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 32/52] fix: start at offset zero if nothing has been committed

---
 kiel/clients/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 63230a6..f9520b8 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -231,7 +231,10 @@ class GroupedConsumer(BaseConsumer):
                     partition.offset, self.group_name, topic,
                     partition.partition_id
                 )
-                self.offsets[topic][partition.partition_id] = partition.offset
+                # an offset of -1 means there has been no commit yet
+                self.offsets[topic][partition.partition_id] = max(
+                    partition.offset, 0
+                )
             elif code == errors.offsets_load_in_progress:
                 log.info(
                     "Offsets load in progress for topic %s partition %s" +
-- 
2.43.0


From 66aa08ed7817846199bdcc9c597630323b59852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 33/52] fix: retry the commit of partitions that failed beside
 others

---
 kiel/clients/grouped.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index f9520b8..2b860d1 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -312,10 +312,16 @@ class GroupedConsumer(BaseConsumer):
         adjust_metadata = False
 
         for topic in response.topics:
+            if all(
+                    partition.error_code == errors.no_error
+                    for partition in topic.partitions
+            ):
+                self.topics_to_commit.discard(topic.name)
+
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
+                    continue
                 elif code in errors.retriable:
                     retry = True
                     self.heal_cluster = True
-- 
2.43.0


From cf952fefa53d46ede3006fe47c50da96975492af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 34/52] fix: commit only offsets determined since the last
 rebalance

---
 kiel/clients/grouped.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 2b860d1..1196dc9 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -282,6 +282,7 @@ class GroupedConsumer(BaseConsumer):
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
                 if topic in self.topics_to_commit
+                and topic in self.synced_offsets
             ]
         )
 
-- 
2.43.0


From 975a9edda67b39503f3e28decbf6a4be6deb71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 35/52] fix: consume allocated partitions missing from the
 known metadata once it is reloaded

---
 kiel/clients/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 5e7f7b6..7f511eb 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -110,7 +110,12 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+            try:
+                leader = self.cluster.get_leader(topic, partition_id)
+            except KeyError:
+                log.info("No known leader for %s|%s", topic, partition_id)
+                self.heal_cluster = True
+                continue
             ordered[leader].append(partition_id)
 
         requests = {}
-- 
2.43.0


From 9ac80e2246eac5e993e17766d7377d71a6cc7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 36/52] fix: end the zookeeper session when leaving the group
 fails

---
 kiel/zookeeper/allocator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index f71fa00..71de8a8 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -138,8 +138,14 @@ class PartitionAllocator(object):
         self.joined = False
 
         attempt(self.party.leave)
-        attempt(self.conn.stop)
-        attempt(self.conn.close)
+
+        # membership ends along with the session, even if leaving failed
+        for disconnect in (self.conn.stop, self.conn.close):
+            try:
+                disconnect()
+            except Exception as e:
+                if not f.done():
+                    f.set_exception(e)
 
         if not f.done():
             f.set_result(None)
-- 
2.43.0


From 0d6fa07a46a3629ae6ac77cb7a1f8f2046511456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 37/52] fix: close broker connections when winding down fails

---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 8d935dc..8f6df50 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 89a55daf9d81d7646cc118af332754b1f12b96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 38/52] fix: no commits by a grouped consumer once it is closed

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1196dc9..6572137 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -92,6 +92,9 @@ class GroupedConsumer(BaseConsumer):
         """
         result = yield super(GroupedConsumer, self).consume(topic)
 
+        if self.closing:  # too late to commit anything
+            raise gen.Return(result)
+
         if topic not in self.synced_offsets:
             raise gen.Return([])
 
-- 
2.43.0


From 6fbf44d480b526e5ca7661b24bbb4632a123d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 39/52] fix: refuse responses of an impossible size instead of
 waiting on them

---
 kiel/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kiel/connection.py b/kiel/connection.py
index bf137ac..ea72812 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -198,6 +198,8 @@ class Connection(object):
         """
         raw_size = yield self.stream.read_bytes(size_struct.size)
         size = size_struct.unpack(raw_size)[0]
+        if size < correlation_struct.size:
+            raise ValueError("Invalid response size: %d" % size)
 
         raw_correlation = yield self.stream.read_bytes(correlation_struct.size)
         correlation_id = correlation_struct.unpack_from(raw_correlation)[0]
-- 
2.43.0


From 7e7c7ab3ee5e8c1a98aef753a8d0fd955829c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 40/52] fix: gather metadata elsewhere if one broker's answer
 is unreadable

---
 kiel/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index d3e782a..1ff8e29 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -177,6 +177,9 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception("Error gathering metadata.")
+                continue
 
         if not response:
             if self.stopped:
-- 
2.43.0


From 4f336efbc63d18f02cd94a738d11c22fcdd93363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 41/52] fix: partitions without a leader were forgotten while
 metadata is re-read

---
 kiel/cluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 1ff8e29..fa677c2 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -260,6 +260,9 @@ class Cluster(object):
                 continue
             if topic.error_code == errors.replica_not_available:
                 missing.add(topic.name)
+                if topic.name in self.topics:  # until there is news
+                    topics[topic.name] = self.topics[topic.name]
+                    leaders[topic.name] = self.leaders[topic.name]
                 continue
 
             for partition in topic.partitions:
@@ -269,15 +272,14 @@ class Cluster(object):
                         topic.name, partition.partition_id
                     )
                     missing.add(topic.name)
-                    continue
-                if partition.leader not in self.conns:
+                elif partition.leader not in self.conns:
                     log.warn(
                         "Leader for %s|%s not in current connections.",
                         topic.name, partition.partition_id
                     )
                     missing.add(topic.name)
-                    continue
 
+                # partitions exist with or without a leader
                 topics[topic.name].append(partition.partition_id)
                 leaders[topic.name][partition.partition_id] = partition.leader
 
-- 
2.43.0


From 75a643d91b01cec7f45de8fe2d36b97398453354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 42/52] fix: correlation ids outgrew their field in long-lived
 processes

---
 kiel/protocol/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..27858e7 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -25,11 +25,12 @@ def generate_correlation_id():
     Creates a new ``correlation_id`` for requests.
 
     Increments the ``last_id`` value so each generated ID is unique for
-    this machine and process.
+    this machine and process.  The IDs start over once they no longer fit into
+    the 32-bit signed integer they're sent as.
     """
     global last_id
 
-    last_id += 1
+    last_id = (last_id + 1) & 0x7fffffff
 
     return last_id
 
-- 
2.43.0


From 5cde704651a569cad78196e09eda8be47e93ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 43/52] fix: concurrent changes of members and partitions could
 leave an outdated allocation

---
 kiel/zookeeper/allocator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 71de8a8..fba7408 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -63,6 +63,8 @@ class PartitionAllocator(object):
         )
 
         self.mapping = {}
+        # members and partitions change in different threads
+        self.rebalance_lock = threading.RLock()
 
     @property
     def allocation(self):
@@ -279,6 +281,13 @@ class PartitionAllocator(object):
         If an ``on_rebalance`` callback is configured it is called once
         done.
         """
+        with self.rebalance_lock:
+            self.reallocate()
+
+    def reallocate(self):
+        """
+        Does the work of `rebalance()`, for one thread at a time.
+        """
         log.info("Rebalancing partitions for group '%s'", self.group_name)
         members = sorted(self.members)
         partitions = sorted(self.partitions)
-- 
2.43.0


From 506614bdef1764a573065b48b25943a939c4651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 44/52] fix: a rebalance in the middle of a call mixed up
 positions and allocations

---
 kiel/clients/consumer.py | 29 ++++++++++++++++++++-------
 kiel/clients/grouped.py  | 42 ++++++++++++++++++++++++++--------------
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 7f511eb..4b76841 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -2,6 +2,7 @@ import collections
 import logging
 import json
 import socket
+import threading
 
 import six
 from tornado import gen
@@ -46,6 +47,8 @@ class BaseConsumer(Client):
         )
         self.synced_offsets = set()
         self.rebalances = 0
+        # held wherever offsets are matched up with the allocation
+        self.allocation_lock = threading.RLock()
 
     @property
     def allocation(self):
@@ -88,11 +91,11 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.cluster.heal()
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.allocation.get(topic):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
@@ -103,13 +106,25 @@ class BaseConsumer(Client):
             except NoOffsetsError:
                 log.error("Unable to determine offsets for topic %s", topic)
                 raise gen.Return([])
-            if rebalances != self.rebalances:
-                log.info("Rebalanced while determining offsets for %s", topic)
+            with self.allocation_lock:
+                if rebalances != self.rebalances:
+                    log.info(
+                        "Rebalanced while determining offsets for %s", topic
+                    )
+                    raise gen.Return([])
+                self.synced_offsets.add(topic)
+
+        with self.allocation_lock:
+            if topic not in self.synced_offsets:
+                log.info("Rebalanced before fetching from %s", topic)
                 raise gen.Return([])
-            self.synced_offsets.add(topic)
+            positions = {
+                partition_id: self.offsets[topic][partition_id]
+                for partition_id in self.allocation.get(topic, [])
+            }
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation[topic]:
+        for partition_id in positions:
             try:
                 leader = self.cluster.get_leader(topic, partition_id)
             except KeyError:
@@ -129,7 +144,7 @@ class BaseConsumer(Client):
                     fetch.TopicRequest(name=topic, partitions=[
                         fetch.PartitionRequest(
                             partition_id=partition_id,
-                            offset=self.offsets[topic][partition_id],
+                            offset=positions[partition_id],
                             max_bytes=max_partition_bytes,
                         )
                         for partition_id in partitions
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6572137..757d672 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -52,6 +52,7 @@ class GroupedConsumer(BaseConsumer):
             allocator_fn=partition_allocator or naive_allocator,
             on_rebalance=self.handle_rebalance
         )
+        self.allocation_lock = self.allocator.rebalance_lock
 
         self.topics_to_commit = set()
         self.autocommit = autocommit
@@ -196,11 +197,15 @@ class GroupedConsumer(BaseConsumer):
           signature remains consistent with the other consumer classes.
         """
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
+        partitions = list(self.allocation.get(topic, []))
+        if not partitions:  # rebalanced in the meantime
+            return
+
         request = offset_fetch.OffsetFetchRequest(
             group_name=self.group_name,
             topics=[
                 offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
+                    name=topic, partitions=partitions
                 )
             ]
         )
@@ -269,7 +274,27 @@ class GroupedConsumer(BaseConsumer):
             metadata = "committed by %s" % self.name
 
         log.debug("Committing offsets for consumer group %s", self.group_name)
-        request = offset_commit.OffsetCommitV0Request(
+        with self.allocation_lock:
+            request = self.commit_request(metadata)
+
+        result = yield self.send_to_coordinator(request)
+        if result is None:
+            log.error("No coordinator to commit offsets with.")
+            return
+
+        retry, adjust_metadata = result
+
+        if adjust_metadata:
+            log.warn("Offset commit metadata '%s' was too long.", metadata)
+            metadata = ""
+        if retry:
+            yield self.commit_offsets(metadata=metadata)
+
+    def commit_request(self, metadata):
+        """
+        Returns a request to commit the offsets of what there is to commit.
+        """
+        return offset_commit.OffsetCommitV0Request(
             group=self.group_name,
             topics=[
                 offset_commit.TopicRequest(
@@ -289,19 +314,6 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        result = yield self.send_to_coordinator(request)
-        if result is None:
-            log.error("No coordinator to commit offsets with.")
-            return
-
-        retry, adjust_metadata = result
-
-        if adjust_metadata:
-            log.warn("Offset commit metadata '%s' was too long.", metadata)
-            metadata = ""
-        if retry:
-            yield self.commit_offsets(metadata=metadata)
-
     def handle_offset_commit_response(self, response):
         """
         Handles responses from the "offset commit" api.
-- 
2.43.0


From 8ed522fd375c3be5215c7ef709cb5a55d02bb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 45/52] fix: a grouped consumer closed while connecting joined
 its group nevertheless

---
 kiel/clients/grouped.py     | 3 +++
 kiel/zookeeper/allocator.py | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 757d672..7aa2d8d 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -80,6 +80,9 @@ class GroupedConsumer(BaseConsumer):
         and calls `determine_coordinator()`.
         """
         yield super(GroupedConsumer, self).connect()
+        if self.closing:  # too late to join the group
+            return
+
         yield self.allocator.start(self.cluster.topics)
         yield self.determine_coordinator()
 
diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index fba7408..69a3764 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -137,9 +137,10 @@ class PartitionAllocator(object):
 
         attempt = create_attempter(f)
 
-        self.joined = False
+        joined, self.joined = self.joined, False
 
-        attempt(self.party.leave)
+        if joined:
+            attempt(self.party.leave)
 
         # membership ends along with the session, even if leaving failed
         for disconnect in (self.conn.stop, self.conn.close):
-- 
2.43.0


From 8c99fa4e934ad444a88b8104285aab8b390ed058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 46/52] fix: what was consumed during a commit of offsets was
 taken for committed

---
 kiel/clients/grouped.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 7aa2d8d..3ead96b 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -55,6 +55,7 @@ class GroupedConsumer(BaseConsumer):
         self.allocation_lock = self.allocator.rebalance_lock
 
         self.topics_to_commit = set()
+        self.consumed = collections.defaultdict(int)
         self.autocommit = autocommit
 
     @property
@@ -103,6 +104,7 @@ class GroupedConsumer(BaseConsumer):
             raise gen.Return([])
 
         self.topics_to_commit.add(topic)
+        self.consumed[topic] += 1
 
         if self.autocommit:
             yield self.commit_offsets()
@@ -279,8 +281,16 @@ class GroupedConsumer(BaseConsumer):
         log.debug("Committing offsets for consumer group %s", self.group_name)
         with self.allocation_lock:
             request = self.commit_request(metadata)
+        consumed = dict(self.consumed)
 
         result = yield self.send_to_coordinator(request)
+
+        # there is more to commit if more was consumed in the meantime
+        self.topics_to_commit.update(
+            topic.name for topic in request.topics
+            if self.consumed[topic.name] != consumed.get(topic.name, 0)
+        )
+
         if result is None:
             log.error("No coordinator to commit offsets with.")
             return
-- 
2.43.0


From 57bc6b58fc57a717f12f121c75ee3c26ff5008ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 47/52] fix: determining the coordinator failed during a
 refresh of the cluster

---
 kiel/clients/grouped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 3ead96b..6fd9e4a 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -123,6 +123,9 @@ class GroupedConsumer(BaseConsumer):
         request = coordinator.GroupCoordinatorRequest(group=self.group_name)
         determined = False
         while not determined:
+            if not list(self.cluster):  # maybe just being refreshed
+                yield self.cluster.heal()
+
             broker_ids = list(self.cluster)
             if not broker_ids:
                 raise exc.NoBrokersError
-- 
2.43.0


From d58f4a2bb946e0dec501955a9325496c70968db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 48/52] fix: members that both put back a deleted set of
 partitions failed

---
 kiel/zookeeper/allocator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 69a3764..8cfce9a 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -217,10 +217,13 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(
-                self.partition_path,
-                value=self.shared_set.serialize(self.partitions)
-            )
+            try:
+                self.conn.create(
+                    self.partition_path,
+                    value=self.shared_set.serialize(self.partitions)
+                )
+            except exceptions.NodeExistsError:
+                log.debug("Partitions were populated by another member.")
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From f661ae89e49cd33f8b8f9c5da62eedea0ec540fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 49/52] fix: messages were lost if the cluster could not be
 healed after they were fetched

---
 kiel/clients/client.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 8f6df50..2903617 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -3,7 +3,9 @@ import logging
 import six
 from tornado import gen, iostream
 
-from kiel.exc import BrokerConnectionError, UnhandledResponseError
+from kiel.exc import (
+    BrokerConnectionError, NoBrokersError, UnhandledResponseError
+)
 from kiel.cluster import Cluster
 
 
@@ -108,7 +110,13 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
-            self.heal_cluster = False
+            try:
+                yield self.cluster.heal()
+                self.heal_cluster = False
+            except NoBrokersError:
+                if not results:
+                    raise
+                # what was handled is not to be lost, the next call heals
+                log.error("No brokers available to heal the cluster with.")
 
         raise gen.Return(results)
-- 
2.43.0


From e9feb4b0d60cdee9255d992331baab0cc390b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 50/52] fix: messages were lost, yet committed, if no broker
 was up for the automatic commit

---
 kiel/clients/grouped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 6fd9e4a..e47dd71 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -107,7 +107,11 @@ class GroupedConsumer(BaseConsumer):
         self.consumed[topic] += 1
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except exc.NoBrokersError:
+                # what was consumed is not to be lost, the next call commits
+                log.error("No brokers available to commit offsets with.")
 
         raise gen.Return(result)
 
-- 
2.43.0


From 0e0eea73c9f601962bc0a0063888431878b43177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 51/52] fix: don't take a topic that vanished while determining
 offsets for synced

---
 kiel/clients/single.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index f797d8f..ef8976a 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -102,6 +102,10 @@ class SingleConsumer(BaseConsumer):
                         # the start point precedes everything in the log
                         times[partition_id] = self.BEGINNING
 
+        if not self.allocation[topic]:
+            log.error("Topic %s is gone, no offsets to determine.", topic)
+            raise NoOffsetsError
+
         raise gen.Return(True)
 
     def handle_offset_response(self, response):
-- 
2.43.0


From 7c3ab675de5895920b2566ed9faae4759f8455ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 52/52] fix: don't hand out what precedes the position within a
 compressed batch

---
 kiel/clients/consumer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 4b76841..fef503f 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -209,9 +209,19 @@ class BaseConsumer(Client):
 
         After each message, skipped or not, the ``self.offsets`` entry for
         the particular topic/partition pair is incremented.
+
+        Messages that precede that entry but came along with later ones are
+        not given.
         """
         messages = []
-        for offset, msg in partition.message_set.messages:
+        found = partition.message_set.messages
+        # compressed messages come as a whole, even if the position is amidst
+        position = self.offsets[topic_name][partition.partition_id]
+        amidst = bool(found) and found[-1][0] >= position
+        for offset, msg in found:
+            if amidst and 0 <= offset < position:
+                continue
+
             if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
                 self.offsets[topic_name][partition.partition_id] = offset + 1
 
-- 
2.43.0

