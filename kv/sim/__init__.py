"""Simulated environment: virtual-time loop and network, Kafka cluster, Zookeeper.

kiel runs unmodified on a real asyncio/tornado loop whose clock and sockets are
simulated; nothing leaves the process.
"""


def install():
    """Called once, before kiel is imported."""
    import socket
    socket.gethostname = lambda: "kv-host"
    from kv.sim import net, zk
    net.install()
    zk.install()
