"""A small Kafka cluster (protocol v0) on the simulated network.

It keeps the truth the oracles compare against: partition logs, committed
offsets, and a trace of every request received and what was done with it.

Fault plan: `faults[api]` is a list consumed one entry per request of that api
(None = behave).  Entries are literals:

  ("err", code, applied)      every partition answers `code`; the write is done iff applied
  ("err1", code, k, applied)  only the k-th partition (mod count) answers `code`
  ("errs", codes, applied)    the i-th partition answers codes[i % len]; 0 = behave
  ("close", applied)          connection closed without an answer
  ("reset", applied)          connection reset without an answer
  ("cut", n)                  applied, n bytes of the answer sent, connection closed
  ("delay", ms)               applied, answered late
  ("crash", ms, applied)      the broker dies (all its connections) and is back after ms;
                              0 = never.  Its leaderships move to a live broker after `elect`
  ("garbage", how)            applied, the answer is unreadable, see _garble()
  ("move", k, to, applied)    leadership of the k-th partition asked for moves first (-> error 6)
"""
import struct

from kv import wire

NO_ERROR, OFFSET_OUT_OF_RANGE, UNKNOWN_TP, LEADER_NOT_AVAILABLE, NOT_LEADER = 0, 1, 3, 5, 6
REQUEST_TIMED_OUT, METADATA_TOO_LARGE, COORD_NOT_AVAILABLE, NOT_COORD = 7, 12, 15, 16


class Partition(object):
    def __init__(self, leader):
        self.leader = leader
        self.batches = []           # (first, last, raw bytes, [(offset, key, value)])
        self.start = 0
        self.end = 0
        self.error = 0              # metadata error (leader election in progress)
        self.replica_down = False   # metadata error 9, though with a leader to go to
        self.segments = [(0, 0)]    # (base offset, time in ms) for time-based lookups

    def append(self, records, codec=0, block=32768, holes=0):
        """records: [(key, value)] bytes; stored as one batch if compressed.

        With holes, so many offsets are missing before every other record, as in a compacted log.
        """
        first = self.end
        flat = []
        for i, (key, value) in enumerate(records):
            self.end += holes if i % 2 == 0 else 0
            flat.append((self.end, key, value))
            self.end += 1
        inner = [(o, {"key": k, "value": v}) for o, k, v in flat]
        if codec:
            raw = wire.encode_set([(flat[-1][0], {
                "key": None, "attrs": codec,
                "value": wire.compress(codec, wire.encode_set(inner), block)})])
            self.batches.append((first, flat[-1][0], raw, flat))
        else:
            for (o, k, v), entry in zip(flat, inner):
                self.batches.append((o, o, wire.encode_set([entry]), [(o, k, v)]))
        return first

    def truncate_before(self, offset):
        self.start = min(offset, self.end)
        self.batches = [b for b in self.batches if b[1] >= self.start]

    def records(self):
        return [r for b in self.batches for r in b[3] if r[0] >= self.start]

    def read(self, offset, max_bytes):
        out = bytearray()
        for first, last, raw, _ in self.batches:
            if last < offset:
                continue
            out += raw
            if len(out) >= max_bytes:
                break
        return bytes(out[:max_bytes])


class Broker(object):
    def __init__(self, cluster, broker_id, host, port):
        self.cluster = cluster
        self.id = broker_id
        self.host, self.port = host, port
        self.up = False
        self.listed_until = 0.0     # stale metadata still names a dead broker
        self.buffers = {}
        self.peers = {}
        self.busy = {}              # peer id -> waiting requests (answers stay in order)

    # -- network side
    def on_connect(self, peer):
        self.buffers[peer.id] = bytearray()
        self.peers[peer.id] = peer

    def on_client_close(self, peer):
        self.peers.pop(peer.id, None)

    def on_data(self, peer, data):
        buf = self.buffers[peer.id]
        buf += data
        while len(buf) >= 4 and not peer.closed:
            size = struct.unpack(">i", buf[:4])[0]
            if size < 0 or size > 1 << 27:
                self.cluster.protocol_errors.append("request size %d" % size)
                peer.close(reset=True)
                return
            if len(buf) < 4 + size:
                return
            payload = bytes(buf[4:4 + size])
            del buf[:4 + size]
            try:
                header, api, body = wire.split_request(payload)
            except (wire.WireError, UnicodeDecodeError) as exc:
                self.cluster.protocol_errors.append(str(exc))
                peer.close(reset=True)
                return
            self.cluster.handle(self, peer, header, api, body)

    def start(self):
        self.up = True
        self.cluster.net.listen(self.host, self.port, self)

    def stop(self):
        self.up = False
        self.cluster.net.unlisten(self.host, self.port)
        for peer in list(self.peers.values()):
            peer.close(reset=self.cluster.reset_on_crash)
        self.peers.clear()
        self.buffers.clear()


class Cluster(object):
    def __init__(self, net, broker_ids=(1,), elect=0.02, domain=""):
        self.net = net
        self.brokers = {}
        self.topics = {}
        self.committed = {}         # (group, topic, partition) -> (offset, metadata)
        self.coordinator = {}       # group -> broker id
        self.hidden = set()         # topics brokers know nothing of at the moment
        self.hidings = 0
        self.retired = {}           # broker id -> what it says instead of NOT_COORD
        self.loading_until = 0.0
        self.faults = {}
        self.trace = []             # dicts, see handle()
        self.protocol_errors = []
        self.auto_create = 0        # partitions given to topics asked for by name
        self.elect = elect
        self.stale = 0.0
        self.reset_on_crash = True
        self.metadata_max = 4096
        self.on_event = None
        self.fault_log = []
        self.listings = []          # the brokers each metadata answer named
        self.outages = []       # (from, to): times no broker was up
        self.answer_cut = 0
        self.domain = domain
        for b in broker_ids:
            self.add_broker(b)

    # ---------------------------------------------------------------- control
    def add_broker(self, broker_id, up=True):
        b = Broker(self, broker_id, "b%d%s" % (broker_id, self.domain), 9000 + broker_id)
        self.brokers[broker_id] = b
        self.net.hosts.add(b.host)
        if up:
            b.start()
        return b

    def create_topic(self, name, leaders):
        """leaders: {partition id: broker id}"""
        self.topics[name] = dict((p, Partition(l)) for p, l in leaders.items())

    def election(self, name, k, to, ms):
        """Gives the k-th partition another leader, in so many milliseconds."""
        parts = self.topics[name]
        part = parts[sorted(parts)[k % len(parts)]]
        if part.error:
            return
        part.error = LEADER_NOT_AVAILABLE
        part.leader = self.pick(to)

        def elected():
            if self.brokers[part.leader].up:
                part.error = 0
        self.net.loop.call_later(ms / 1000.0, elected)

    def grow(self, name, leader):
        """Adds a partition to a topic."""
        self.topics[name][len(self.topics[name])] = Partition(leader)

    def bootstrap(self, ids=None):
        return ["%s:%d" % (b.host, b.port) for i, b in sorted(self.brokers.items())
                if ids is None or i in ids]

    def live(self):
        return [i for i, b in sorted(self.brokers.items()) if b.up]

    def crash(self, broker_id, ms=0):
        b = self.brokers[broker_id]
        if not b.up:
            return
        b.stop()
        b.listed_until = self.net.now + self.stale
        self.fault_log.append(("crash", broker_id, self.net.now))
        for topic in self.topics.values():
            for p in topic.values():
                if p.leader == broker_id:
                    p.error = LEADER_NOT_AVAILABLE
        self.net.loop.call_later(self.elect, self._elect, broker_id)
        if ms:
            self.net.loop.call_later(ms / 1000.0, self.restart, broker_id)

    def outage(self, ms):
        """All brokers are down for a while."""
        self.outages.append((self.net.now, self.net.now + ms / 1000.0))
        for broker_id in self.live():
            self.crash(broker_id, ms)
        for broker_id in sorted(self.brokers):      # those that were down before
            self.net.loop.call_later(ms / 1000.0, self.restart, broker_id)

    def pick(self, n):
        """One of the brokers that are up, if any."""
        live = self.live() or sorted(self.brokers)
        return live[n % len(live)]

    def _elect(self, gone):
        live = self.live()
        if self.brokers[gone].up:
            live = [gone]
        if not live:
            return
        for ti, (_, topic) in enumerate(sorted(self.topics.items())):
            for pid, p in sorted(topic.items()):
                if p.leader == gone:
                    p.leader = live[(ti + pid) % len(live)]
                    p.error = 0
        for group, c in sorted(self.coordinator.items()):
            if c == gone:
                self.coordinator[group] = live[0]

    def restart(self, broker_id):
        b = self.brokers[broker_id]
        if not b.up:
            b.start()
            for topic in self.topics.values():
                for p in topic.values():
                    if not self.brokers[p.leader].up:
                        p.leader = broker_id
                    if p.error and p.leader == broker_id:
                        p.error = 0
            for group, c in self.coordinator.items():
                if not self.brokers[c].up:
                    self.coordinator[group] = broker_id

    def hide(self, name, seconds):
        """Brokers don't know of the topic for a while, as when they have just come up."""
        self.hidden.add(name)
        self.hidings += 1
        self.net.loop.call_later(seconds, self.hidden.discard, name)

    def move_coordinator(self, group, to, shut_down):
        """Makes another broker the coordinator; one that shut down no longer is one for anybody."""
        self.retired = {}
        if shut_down:
            self.retired[self.coordinator_of(group)] = COORD_NOT_AVAILABLE
        self.coordinator[group] = to

    def coordinator_of(self, group):
        if group not in self.coordinator:
            live = self.live() or sorted(self.brokers)
            self.coordinator[group] = live[sum(group.encode()) % len(live)]
        return self.coordinator[group]

    # --------------------------------------------------------------- requests
    def handle(self, broker, peer, header, api, body):
        queue = self.faults.get((api, broker.id)) or self.faults.get(api)
        fault = queue.pop(0) if queue else None
        entry = {"t": self.net.now, "broker": broker.id, "conn": peer.id, "api": api,
                 "corr": header["correlation_id"], "body": body, "fault": fault,
                 "answer": None}
        self.trace.append(entry)
        kind = fault[0] if fault else None
        if fault:
            self.fault_log.append((api, fault, self.net.now))
        delay = 0.0
        if kind == "move":
            self._move(api, body, fault[1], fault[2])
            kind = None
        if kind == "hide":
            for t in body["topics"]:
                self.hide(t["name"], fault[1] / 1000.0)
            kind = None
        if kind in ("close", "reset"):
            if fault[1]:
                self._answer(broker, api, body, entry)
            peer.close(reset=kind == "reset")
            return
        if kind == "crash":
            if fault[2]:
                self._answer(broker, api, body, entry)
            self.crash(broker.id, fault[1])
            return
        if kind == "delay":
            delay = fault[1] / 1000.0
        if kind == "err":
            answer = self._answer(broker, api, body, entry, fail=(fault[1], None, fault[2]))
        elif kind == "err1":
            answer = self._answer(broker, api, body, entry, fail=(fault[1], fault[2], fault[3]))
        elif kind == "errs":
            answer = self._answer(broker, api, body, entry, fail=(fault[1], None, fault[2]))
        else:
            answer = self._answer(broker, api, body, entry)
        if api == "produce" and body["required_acks"] == 0:
            return
        cut = fault[1] if kind == "cut" else None
        if api == "fetch" and kind is None and self._empty(answer):
            deadline = self.net.now + max(0, body["max_wait_time"]) / 1000.0
            self._long_poll(broker, peer, header, body, entry, deadline)
            return
        self._reply(peer, header, api, answer, entry, delay, cut)

    def _reply(self, peer, header, api, answer, entry, delay=0.0, cut=None):
        payload = struct.pack(">i", header["correlation_id"]) + \
            wire.encode(wire.RESPONSES[api], answer)
        raw = struct.pack(">i", len(payload)) + payload
        if entry["fault"] and entry["fault"][0] == "garbage":
            peer.send(self._garble(entry["fault"][1], header["correlation_id"], payload))
            return
        if cut is not None:
            peer.send(raw[:min(cut, len(raw) - 1)])
            peer.close()
            return
        if delay:
            self.net.loop.call_later(delay, self._send_answer, peer, raw, entry, answer)
        else:
            self._send_answer(peer, raw, entry, answer)

    @staticmethod
    def _garble(how, correlation_id, payload):
        """A frame no client can take for the answer."""
        if how == "correlation":
            payload = struct.pack(">i", (correlation_id ^ 0x5a5a5a5a) & 0x7fffffff) + payload[4:]
        elif how == "short":
            payload = payload[:5]
        elif how == "cut":
            payload = payload[:-1]
        elif how == "count":
            # the first array claims more than there is
            payload = payload[:4] + struct.pack(">i", 1 << 20) + payload[8:]
        elif how == "tiny":
            return struct.pack(">i", 2) + payload[:2]
        elif how == "negative":
            return struct.pack(">i", -5) + payload
        return struct.pack(">i", len(payload)) + payload

    def _send_answer(self, peer, raw, entry, answer):
        if peer.closed:
            return
        peer.send(raw)
        entry["answer"] = answer
        entry["answered_at"] = self.net.now
        entry["until"] = (peer.sock, peer.queued)

    @staticmethod
    def received(entry):
        """The answer, if the client got all of it."""
        if entry["answer"] is None:
            return None
        sock, end = entry["until"]
        return entry["answer"] if sock.read_total >= end else None

    def _empty(self, answer):
        for t in answer["topics"]:
            for p in t["partitions"]:
                if p["error_code"] or p["message_set"]:
                    return False
        return True

    def _long_poll(self, broker, peer, header, body, entry, deadline):
        """Waits, as a broker does, until there is something to say or time is up."""
        if peer.closed:
            return
        answer = self._answer(broker, "fetch", body, entry)
        if not self._empty(answer) or self.net.now >= deadline - 1e-9:
            self._reply(peer, header, "fetch", answer, entry)
            return
        step = min(0.01, deadline - self.net.now)
        self.net.loop.call_later(step, self._long_poll, broker, peer, header, body, entry, deadline)

    def _move(self, api, body, k, to):
        asked = [(t["name"], p["partition_id"]) for t in body.get("topics", [])
                 for p in t["partitions"]] if api in ("produce", "fetch", "offset") else []
        live = self.live()
        if asked and live:
            name, pid = asked[k % len(asked)]
            part = self.topics.get(name, {}).get(pid)
            if part is not None and not part.error:
                part.leader = live[to % len(live)]

    def _answer(self, broker, api, body, entry, fail=None):
        return getattr(self, "_do_" + api)(broker, body, entry, fail)

    def _each(self, body, fail):
        """Yields (topic, partition request, injected code, apply?)."""
        flat = [(t, p) for t in body["topics"] for p in t["partitions"]]
        for i, (t, p) in enumerate(flat):
            code, apply = 0, True
            if fail is not None:
                which = fail[1]
                if isinstance(fail[0], (list, tuple)):
                    code = fail[0][i % len(fail[0])]
                    apply = fail[2] or not code
                elif which is None or which % len(flat) == i:
                    code, apply = fail[0], fail[2]
            yield t["name"], p, code, apply

    def _grouped(self, body, results):
        out = []
        it = iter(results)
        for t in body["topics"]:
            out.append({"name": t["name"], "partitions": [next(it) for _ in t["partitions"]]})
        return {"topics": out}

    def _lead_error(self, broker, name, pid):
        part = self.topics.get(name, {}).get(pid)
        if part is None or name in self.hidden:
            return None, UNKNOWN_TP
        if part.leader != broker.id:
            return part, NOT_LEADER
        if part.error:
            return part, part.error
        return part, 0

    def _do_metadata(self, broker, body, entry, fail):
        names = body["topics"] or sorted(set(self.topics) - self.hidden)
        for name in names:
            if name not in self.topics and self.auto_create:
                live = self.live()
                self.create_topic(name, dict(
                    (i, live[i % len(live)]) for i in range(self.auto_create)))
        brokers = [{"broker_id": b.id, "host": b.host, "port": b.port}
                   for _, b in sorted(self.brokers.items())
                   if b.up or self.net.now < b.listed_until]
        self.listings.append([b["broker_id"] for b in brokers])
        topics = []
        for i, name in enumerate(names):
            code = 0
            if fail is not None and (fail[1] is None or fail[1] % len(names) == i):
                code = fail[0]
            if name not in self.topics or name in self.hidden:
                topics.append({"error_code": UNKNOWN_TP, "name": name, "partitions": []})
                continue
            parts = []
            for pid, p in sorted(self.topics[name].items()):
                perr = p.error or (9 if p.replica_down else 0)
                leader = -1 if perr == LEADER_NOT_AVAILABLE else p.leader
                if code == LEADER_NOT_AVAILABLE:
                    perr, leader = code, -1
                parts.append({"error_code": perr, "partition_id": pid, "leader": leader,
                              "replicas": [p.leader], "isrs": [p.leader]})
            terr = code if code not in (0, LEADER_NOT_AVAILABLE) else 0
            topics.append({"error_code": terr, "name": name,
                           "partitions": [] if terr else parts})
        return {"brokers": brokers, "topics": topics}

    def _do_produce(self, broker, body, entry, fail):
        results = []
        entry["appended"] = []
        for name, p, code, apply in self._each(body, fail):
            part, err = self._lead_error(broker, name, p["partition_id"])
            first = -1
            if not err and apply:
                batch = []
                try:
                    flat = wire.unwrap(p["message_set"])
                except Exception as exc:
                    self.protocol_errors.append("unreadable message set: %r" % exc)
                    flat, err = [], 2
                first = part.end
                for off, m in p["message_set"]:
                    codec = m["attrs"] & 3
                    recs = [(m["key"], m["value"])] if not codec else [
                        (x["key"], x["value"])
                        for _, x in wire.unwrap([(off, m)])]
                    part.append(recs, codec)
                    batch.extend(recs)
                entry["appended"].append((name, p["partition_id"], first, batch))
            err = code or err
            results.append({"partition_id": p["partition_id"], "error_code": err,
                            "offset": -1 if err else first})
        return self._grouped(body, results)

    def _do_fetch(self, broker, body, entry, fail):
        results = []
        for name, p, code, _ in self._each(body, fail):
            part, err = self._lead_error(broker, name, p["partition_id"])
            err = code or err
            raw, hw = b"", -1
            if not err:
                hw = part.end
                if p["offset"] < part.start or p["offset"] > part.end:
                    err = OFFSET_OUT_OF_RANGE
                else:
                    raw = part.read(p["offset"], p["max_bytes"])
            results.append({"partition_id": p["partition_id"], "error_code": err,
                            "highwater_mark_offset": hw, "message_set": raw})
        return self._grouped(body, results)

    def _do_offset(self, broker, body, entry, fail):
        results = []
        for name, p, code, _ in self._each(body, fail):
            part, err = self._lead_error(broker, name, p["partition_id"])
            err = code or err
            offsets = []
            if not err:
                if p["time"] == -1:
                    offsets = [part.end]
                elif p["time"] == -2:
                    offsets = [part.start]
                else:
                    offsets = [b for b, t in sorted(part.segments, reverse=True)
                               if t <= p["time"]]
                offsets = offsets[:p["max_offsets"]]
            results.append({"partition_id": p["partition_id"], "error_code": err,
                            "offsets": offsets})
        return self._grouped(body, results)

    def _coord_error(self, broker, group):
        if self.coordinator_of(group) != broker.id:
            return self.retired.get(broker.id, NOT_COORD)
        return 0

    def _do_group_coordinator(self, broker, body, entry, fail):
        c = self.coordinator_of(body["group"])
        err = fail[0] if fail is not None else 0
        if isinstance(err, (list, tuple)):
            err = err[0]
        if not self.brokers[c].up:
            err = err or COORD_NOT_AVAILABLE
        if err:
            return {"error_code": err, "coordinator_id": -1, "coordinator_host": "",
                    "coordinator_port": -1}
        b = self.brokers[c]
        return {"error_code": 0, "coordinator_id": b.id, "coordinator_host": b.host,
                "coordinator_port": b.port}

    def _do_offset_fetch(self, broker, body, entry, fail):
        out = []
        flat = [(t["name"], pid) for t in body["topics"] for pid in t["partitions"]]
        i = 0
        for t in body["topics"]:
            parts = []
            for pid in t["partitions"]:
                err = self._coord_error(broker, body["group_name"])
                if fail is not None and (fail[1] is None or fail[1] % len(flat) == i):
                    err = fail[0]
                    if isinstance(err, (list, tuple)):
                        err = err[i % len(err)]
                i += 1
                off, meta = -1, ""
                if not err:
                    off, meta = self.committed.get((body["group_name"], t["name"], pid), (-1, ""))
                parts.append({"partition_id": pid, "offset": off, "metadata": meta,
                              "error_code": err})
            out.append({"name": t["name"], "partitions": parts})
        return {"topics": out}

    def _do_offset_commit(self, broker, body, entry, fail):
        results = []
        entry["committed"] = []
        for name, p, code, apply in self._each(body, fail):
            err = self._coord_error(broker, body["group"])
            if not err and len((p["metadata"] or "").encode()) > self.metadata_max:
                err = METADATA_TOO_LARGE
            if not err and apply:
                self.committed[(body["group"], name, p["partition_id"])] = (
                    p["offset"], p["metadata"])
                entry["committed"].append((name, p["partition_id"], p["offset"]))
            results.append({"partition_id": p["partition_id"], "error_code": code or err})
        return self._grouped(body, results)

    # ---------------------------------------------------------------- oracles
    def log_values(self, topic):
        """{partition: [(offset, key, value)]}"""
        return dict((pid, p.records()) for pid, p in self.topics[topic].items())

    def requests(self, api):
        return [e for e in self.trace if e["api"] == api]
