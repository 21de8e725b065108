"""A scripted broker end for Connection-level checks (C08, C09, C31)."""
import struct

from kv import wire


class ScriptedServer(object):
    """Collects whole requests per connection and hands them to a callback."""

    def __init__(self, on_request):
        self.on_request = on_request
        self.buffers = {}
        self.peers = []
        self.errors = []

    def on_connect(self, peer):
        self.buffers[peer.id] = bytearray()
        self.peers.append(peer)

    def on_data(self, peer, data):
        buf = self.buffers[peer.id]
        buf += data
        while len(buf) >= 4:
            size = struct.unpack(">i", buf[:4])[0]
            if size < 0 or size > 1 << 26:
                self.errors.append("request announces %d bytes" % size)
                del buf[:]
                return
            if len(buf) < 4 + size:
                return
            payload = bytes(buf[4:4 + size])
            del buf[:4 + size]
            try:
                header, api, body = wire.split_request(payload)
            except wire.WireError as exc:
                self.errors.append(str(exc))
                continue
            self.on_request(peer, header, api, body)

    def on_client_close(self, peer):
        pass


APIS = ["produce", "fetch", "offset", "metadata", "offset_commit", "offset_fetch",
        "group_coordinator"]


def request(api, tag):
    """A kiel request of the given api, tagged."""
    from kv import proto
    body = {
        "produce": {"required_acks": 1, "timeout": tag, "topics": []},
        "fetch": {"replica_id": -1, "max_wait_time": tag, "min_bytes": 1, "topics": []},
        "offset": {"replica_id": tag, "topics": []},
        "metadata": {"topics": ["t%d" % tag]},
        "offset_commit": {"group": "g%d" % tag, "topics": []},
        "offset_fetch": {"group_name": "g%d" % tag, "topics": []},
        "group_coordinator": {"group": "g%d" % tag},
    }[api]
    return proto.build_request(api, body), body


def response_body(api, tag, pad=0):
    """A response only the request with this tag may receive."""
    name = "t%d" % tag + "x" * min(pad, 4000)
    return {
        "produce": {"topics": [{"name": name, "partitions": [
            {"partition_id": tag, "error_code": 0, "offset": tag}]}]},
        "fetch": {"topics": [{"name": name, "partitions": [
            {"partition_id": tag, "error_code": 0, "highwater_mark_offset": tag,
             "message_set": [(tag, None, ("v%d" % tag).encode() * (1 + pad))]}]}]},
        "offset": {"topics": [{"name": name, "partitions": [
            {"partition_id": tag, "error_code": 0, "offsets": [tag, 0]}]}]},
        "metadata": {"brokers": [{"broker_id": tag, "host": name, "port": 1}], "topics": []},
        "offset_commit": {"topics": [{"name": name, "partitions": [
            {"partition_id": tag, "error_code": 0}]}]},
        "offset_fetch": {"topics": [{"name": name, "partitions": [
            {"partition_id": tag, "offset": tag, "metadata": name, "error_code": 0}]}]},
        "group_coordinator": {"error_code": 0, "coordinator_id": tag,
                              "coordinator_host": name, "coordinator_port": 1},
    }[api]


def frame(api, correlation_id, body):
    from kv import proto
    schema = wire.RESPONSES[api]
    payload = struct.pack(">i", correlation_id) + wire.encode(schema, proto.as_wire(schema, body))
    return struct.pack(">i", len(payload)) + payload
