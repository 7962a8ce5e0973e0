"""A whole service, as createService makes it, on the fake reactor."""
import collections
import cPickle
import struct

import ref
import seams
import stream

HOST = "this-host"
RULES = "\n* => fast IF below 5\n* => slow IF above 7 2"

CpuTimes = collections.namedtuple("CpuTimes", "user system idle")


def stub_process():
    """A psutil that knows this process."""
    import psutil
    psutil.Process.memory_info = lambda self: (1000, 200)
    psutil.Process.cpu_percent = lambda self: 12.5
    psutil.Process.memory_percent = lambda self: 2.5
    psutil.Process.num_threads = lambda self: 3
    psutil.Process.cpu_times = lambda self: (seams.clock.now, 5.0)
    psutil.Process.io_counters = lambda self: (1, 2, 3, seams.clock.now)
    psutil.Process.connections = lambda self: []
    psutil.cpu_times = lambda percpu=False: CpuTimes(
        seams.clock.now, 3.0, 4.0)


caches = {}


def cached(original):
    """Finding the plugins again takes longer than all the rest, and so
    does asking each of Twisted's own what it is."""
    def getCache(module):
        if module not in caches:
            import os
            folder = os.path.join(os.environ.get("VERIF_REPO", "/repo"),
                                  "twisted", "plugins")
            ours = [name[:-3] for name in os.listdir(folder)
                    if name.endswith(".py")]
            found = original(module)
            caches[module] = dict((name, found[name]) for name in found
                                  if name in ours)
        return caches[module]
    getCache.cached = True
    return getCache


class Pickle(object):

    @staticmethod
    def dumps(data, protocol=2):
        return cPickle.dumps(data, 2)


def forget():
    """What is global, as in a process that has just started."""
    from twisted.python import log
    from carbon import instrumentation
    import carbon.client
    # Jython's cPickle does not take the keyword argument that carbon uses.
    carbon.client.pickle = Pickle
    if hasattr(log, "info"):
        del log.info
    instrumentation.stats.clear()


class Service(object):

    def __init__(self, x, options, lists=None):
        """C{options} are those that differ from the default."""
        from fakereactor import reactor
        from txstatsd import service
        import platform
        from twisted import plugin
        platform.node = lambda: HOST
        if not hasattr(plugin.getCache, "cached"):
            plugin.getCache = cached(plugin.getCache)
        forget()
        stub_process()
        self.x = x
        self.reactor = reactor
        reactor.reset()
        self.log = seams.start_log()
        self.options = service.StatsDOptions()
        for name, value in options.items():
            self.options[name] = value
        for name, values in (lists or {}).items():
            self.options[name] = list(values)
        self.options["plugin_sli"] = [("rules", RULES)]
        self.service = service.createService(self.options, reactor)
        self.received = {}     # connector: bytes that were decoded

    def start(self):
        self.service.startService()

    def udp_port(self):
        for port in self.reactor.udp:
            if port.port == self.options["listen-port"] and port.listening:
                return port

    def tcp_port(self, number):
        for port in self.reactor.tcp:
            if port.port == number and port.listening:
                return port

    def datagram(self, data, address=("192.0.2.9", 3333)):
        self.udp_port().protocol.datagramReceived(data, address)

    def accept(self):
        for connector in self.reactor.connectors:
            if connector.state == "connecting":
                connector.accept()

    def carbon(self):
        """What arrived at carbon since the last time:
        [(path, value, timestamp, destination)]"""
        result = []
        for connector in self.reactor.connectors:
            for number, transport in enumerate(connector.transports):
                data = transport.value()
                start = self.received.get((connector, number), 0)
                while len(data) - start >= 4:
                    size, = struct.unpack("!I", data[start:start + 4])
                    if len(data) - start - 4 < size:
                        break
                    for path, (stamp, value) in cPickle.loads(
                            data[start + 4:start + 4 + size]):
                        result.append((path, value, stamp,
                                       (connector.host, connector.port)))
                    start += 4 + size
                self.received[connector, number] = start
        return result

    def get(self, path, port):
        transport = self.tcp_port(port).connect()
        transport.receive("GET %s HTTP/1.0\r\nHost: localhost\r\n\r\n" % path)
        head, body = transport.value().split("\r\n\r\n", 1)
        return int(head.split()[1]), body

    def errors(self):
        return [str(e.get("failure") or e) for e in self.log.errors] + [
            repr(e) for e in self.reactor.errors]


class Names(object):
    """The names that a mode prescribes."""

    def __init__(self, compliance, dump, prefix, instance):
        if prefix is None:
            prefix = "statsd"
        self.gauge = "stats.gauge.%s.value"
        if compliance and not dump:
            self.model = stream.Compliant()
            self.internal = "statsd."
            self.sli = "stats.SLI."
            self.distinct = "stats.pdistinct."
        elif compliance:
            # The logging processor takes the place of the compliant one.
            self.model = stream.Extended("")
            self.internal = "statsd."
            self.sli = self.distinct = ""
        else:
            self.model = stream.Extended(prefix)
            self.internal = "%s.%s." % (prefix, instance or HOST)
            self.sli = self.distinct = prefix and prefix + "."
        if not compliance or dump:
            self.gauge = self.model.prefix + "%s.value"
