"""From calls of the client API to what arrives at carbon."""
import math

from core import Case
import p_c18
import ref
import seams
import world

ASSUMPTIONS = [
    "what the network delivers arrives whole and once, in any order that is "
    "within the bound",
    "counts of distinct items are estimates, compared only with 1 and with "
    "the number of items sent plus those that one item may seem to be"]

INTERVAL = 10000

# (kind, name, arguments): what the application reports.
CALLS = [("increment", "c", (3,)), ("decrement", "c", (1,)),
         ("timing", "t", (0.25,)), ("timing", "t", (0.0015,)),
         ("gauge", "g", (7,)), ("meter", "m", (2,)), ("sli", "s", (4,)),
         ("sli_error", "s", ()), ("increment", "x y/z", ()),
         ("report", "p", ("item", "pd"))]
SAMPLED = [("increment", "c", (4, 0.5)), ("increment", "d", (1, 0.1)),
           ("decrement", "c", (2, 0.3)), ("timing", "t", (0.5, 0.5)),
           ("gauge", "g", (9, 0.5)), ("increment", "c", (3,))]


class Wire(object):
    """What is on its way: [(where to, data)]"""

    def __init__(self):
        self.waiting = []


class TCPLines(object):
    """A client that sends lines."""

    def __init__(self, wire):
        self.wire = wire

    def write(self, data, *args):
        self.wire.waiting.append(("tcp", data))


class Ledger(object):
    """What was delivered, and what has to come of it."""

    def __init__(self, names, compliance):
        self.names, self.compliance = names, compliance
        self.values = {}
        # Whether samples may have come at the very time of a flush.
        self.at_once = False

    def deliver(self, sent):
        kind, name, value, rate = sent
        key = ref.normalize(name)
        if kind == "c" and self.compliance:
            value = value / (rate or 1)
        self.values.setdefault((kind, key), []).append(value)

    def verify(self, x, received, complete):
        """Everything received from carbon, over all flushes, adds up."""
        figures = {}
        once = set()
        for path, value, stamp, where in received:
            x.check((path, stamp) not in once,
                    "%s arrives twice at %d" % (path, stamp))
            once.add((path, stamp))
            figures.setdefault(path, []).append((stamp, value))
        figures = dict((path, [v for _, v in sorted(values)])
                       for path, values in figures.items())
        used = set()

        def take(path):
            used.add(path)
            x.check(path in figures, "%s does not arrive: %r" % (
                path, sorted(figures)))
            return figures[path]

        def total(path, wanted):
            got = math.fsum(take(path))
            x.check(ref.close(got, wanted, 1e-6),
                    "%s adds up to %r and not %r: %r" % (
                        path, got, wanted, figures[path]))

        def last(path, wanted):
            got = take(path)[-1]
            x.check(ref.close(got, wanted, 1e-6), "%s is %r and not %r" % (
                path, got, wanted))
        prefix = self.names.model
        for (kind, key), values in self.values.items():
            if self.compliance:
                if kind == "c":
                    total("stats_counts." + key, math.fsum(values))
                    total("stats." + key, math.fsum(values) / (
                        INTERVAL / 1000.0))
                elif kind == "g":
                    last("stats.gauge.%s.value" % key, values[-1])
                elif kind == "m":
                    last("stats.meter.%s.count" % key, math.fsum(values))
                    # The rates are per second, over whole intervals.
                    total("stats.meter.%s.rate" % key,
                          math.fsum(values) / (INTERVAL / 1000.0))
                elif kind == "ms":
                    path = "stats.timers." + key
                    total(path + ".count", len(values))
                    x.check(ref.close(min(take(path + ".lower")),
                                      min(values)), "lower of " + path)
                    x.check(ref.close(max(take(path + ".upper")),
                                      max(values)), "upper of " + path)
                    for figure in (".mean", ".upper_90"):
                        for got in take(path + figure):
                            x.check(min(values) <= got <= max(values),
                                    path + figure)
            else:
                path = prefix.prefix + key
                if kind == "c":
                    last(path + ".count", values[-1])
                elif kind == "g":
                    last(path + ".value", values[-1])
                elif kind == "m":
                    last(path + ".count", math.fsum(values))
                    total(path + ".rate",
                          math.fsum(values) / (INTERVAL / 1000.0))
                elif kind == "ms":
                    last(path + ".count", len(values))
                    x.check(ref.close(max(take(path + ".max")), max(values),
                                      1e-6), "max of " + path)
                    if not self.at_once:
                        total(path + ".rate",
                              len(values) / (INTERVAL / 1000.0))
                    else:
                        # Over no time, a timer's rate is told as 0.
                        take(path + ".rate")
                    for figure in (".min", ".mean", ".99percentile",
                                   ".999percentile", ".stddev"):
                        for got in take(path + figure):
                            x.check(0 <= got <= max(values), path + figure)
            if kind == "sli":
                path = self.names.sli + key
                good = [v for v in values if v != "error"]
                total(path + ".count", len(values))
                total(path + ".error", len(values) - len(good))
                total(path + ".count_fast", len([v for v in good if v < 5]))
                total(path + ".count_slow", len([v for v in good if v > 9]))
            elif kind == "pd":
                path = self.names.distinct + key
                for figure in (".count", ".count_1min", ".count_1hour",
                               ".count_1day"):
                    for got in take(path + figure):
                        x.check(1 <= got <= len(set(values)) + 2,
                                "%s is %r" % (path + figure, got))
        own = (self.names.internal,
               self.names.gauge.split("%s")[0] + world.HOST + ".")
        for path in figures:
            x.check(path in used or path.startswith(own),
                    "%s arrives and nobody sent it" % path)
        x.outcome(tuple(sorted((p, len(v), round(v[-1], 3))
                               for p, v in figures.items() if p in used)))
        return figures


class Draws(object):
    """Random draws that the explorer decides: sent, or left out."""

    def __init__(self, x):
        self.x = x
        self.sent = True

    def random(self):
        return 0.0 if self.sent else 0.999


class Scene(object):

    def __init__(self, x, kind, compliance, accept=True, options=None):
        from txstatsd.client import (
            ConsistentHashingClient, StatsDClientProtocol,
            TwistedStatsDClient, UdpStatsDClient)
        from txstatsd.metrics.metrics import Metrics
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        self.x = x
        self.kind = kind
        given = {"statsd-compliance": int(compliance),
                 "flush-interval": INTERVAL, "listen-tcp-port": 7001}
        given.update(options or {})
        self.world = w = world.Service(x, given)
        self.others = []
        self.reactor = w.reactor
        w.start()
        if accept:
            w.accept()
        self.names = world.Names(compliance, 0, None, None)
        self.ledger = Ledger(self.names, compliance)
        self.wire = Wire()
        self.network = p_c18.Network()
        self.connection = None
        if kind == "tcp":
            client = TCPLines(self.wire)
            self.connection = w.tcp_port(7001).connect()
        elif kind == "twisted":
            client = TwistedStatsDClient.create("127.0.0.1", 8125)
            self.port = w.reactor.listenUDP(0, StatsDClientProtocol(client))
        else:
            count = 3 if kind == "sharded" else 1
            for n in range(count):
                self.network.answers["10.1.0.%d" % n, 8125] = [
                    ("10.1.0.%d" % n, 8125)]
            self.originals = p_c18.install(self.network)
            clients = [UdpStatsDClient("10.1.0.%d" % n, 8125)
                       for n in range(count)]
            client = clients[0]
            if kind == "sharded":
                client = ConsistentHashingClient(clients)
            client.connect()
        factory = Metrics if compliance else ExtendedMetrics
        self.metrics = factory(client)
        self.received = []
        self.counters = {}
        self.calls = 0
        self.draws = Draws(x)

    def pump(self):
        """What the client wrote is on the wire."""
        if self.kind == "twisted":
            self.reactor.run_threadcalls()
            for data, address in self.port.written:
                self.x.equal(("127.0.0.1", 8125), address, "address")
                self.wire.waiting.append(("udp", data))
            del self.port.written[:]
        elif self.kind in ("plain", "sharded"):
            for socket in self.network.sockets:
                for data, address, fault in socket.sent:
                    self.wire.waiting.append(("udp", data))
                del socket.sent[:]

    def call(self, method, name, arguments):
        """Call the API; what is sent is remembered with the data."""
        x = self.x
        before = len(self.wire.waiting)
        x.op((method, name) + arguments)
        rate = arguments[1] if len(arguments) == 2 and isinstance(
            arguments[1], float) and arguments[1] < 1 else None
        self.draws.sent = rate is None or not x.choose(2)
        seams.rng.oracle = self.draws
        try:
            getattr(self.metrics, method)(name, *arguments)
        finally:
            seams.rng.oracle = None
        self.pump()
        kind = {"increment": "c", "decrement": "c", "timing": "ms",
                "gauge": "g", "meter": "m", "sli": "sli",
                "sli_error": "sli", "report": "pd"}[method]
        value = arguments[0] if arguments else 1
        if method == "decrement":
            value = -value
        elif method == "timing":
            value = value * 1000
        elif method == "sli_error":
            value = "error"
        if kind == "c" and not self.ledger.compliance:
            self.counters[name] = self.counters.get(name, 0) + value
            value = self.counters[name]
        new = self.wire.waiting[before:]
        if not self.draws.sent:
            x.equal([], new, "sent although the draw was against it")
            return
        x.equal(1, len(new), "messages sent by %s" % method)
        way, data = new[0]
        self.wire.waiting[before:] = [(way, data, (kind, name, value, rate))]

    def deliver(self, index=0):
        way, data, sent = self.wire.waiting.pop(index)
        self.x.op("deliver %s" % data)
        if way == "tcp":
            self.connection.receive(data + "\r\n")
        else:
            self.world.datagram(data)
        self.ledger.deliver(sent)

    def collect(self):
        self.received += self.world.carbon()

    def finish(self):
        """Deliver all and wait for two flushes."""
        while self.wire.waiting:
            self.deliver()
        self.reactor.settle()
        self.world.accept()
        for _ in range(2):
            self.reactor.advance(INTERVAL / 1000.0)
            self.reactor.settle()
        self.collect()
        figures = self.ledger.verify(self.x, self.received, True)
        self.x.equal([], self.world.errors(), "errors")
        return figures

    def close(self):
        if self.kind in ("plain", "sharded"):
            p_c18.restore(self.originals)


def with_scene(body):
    def run(x, *args, **kwargs):
        scene = Scene(x, *args, **kwargs)
        try:
            body(x, scene)
        finally:
            scene.close()
    return run


def histories(depth, calls, kinds):
    """Calls, deliveries in or out of order, turns and flushes."""
    def body(x, scene):
        for _ in range(depth):
            moves = list(range(len(calls)))
            if scene.wire.waiting:
                moves.append("deliver")
            if len(scene.wire.waiting) > 1:
                moves.append("last")
            moves.append("flush")
            if scene.reactor.due().time <= seams.clock.now + 1e-6:
                moves.append("turn")
            move = x.pick(moves)
            if move == "deliver":
                scene.deliver()
            elif move == "last":
                scene.deliver(len(scene.wire.waiting) - 1)
            elif move == "turn":
                x.op("turn")
                scene.reactor.turn()
                scene.collect()
            elif move == "flush":
                # To the beginning of the next flush, or a bit into this one.
                x.op("flush")
                scene.reactor.settle()
                scene.reactor.advance(scene.reactor.due().time -
                                      seams.clock.now - 0.001)
                seams.clock.now = scene.reactor.due().time
                for _ in range(12):
                    scene.reactor.turn()
                scene.collect()
            else:
                scene.call(*calls[move])
            x.state((scene.kind, len(scene.wire.waiting), len(scene.received),
                     repr(sorted(scene.ledger.values.items()))))
        scene.finish()

    def start(x):
        with_scene(body)(x, x.pick(kinds), bool(x.choose(2)))
    return start


def midflush(bound_moves):
    """Deliveries at every step of a flush."""
    def body(x, scene):
        scene.ledger.at_once = True
        for call in CALLS:
            scene.call(*call)
        for _ in range(x.pick([10, 5, 0])):
            scene.deliver()
        scene.reactor.advance(9.999)
        for call in CALLS[:4] + CALLS[5:7]:
            scene.call(*call)
        seams.clock.now = scene.reactor.due().time
        while scene.reactor.due().time <= seams.clock.now + 1e-6:
            if scene.wire.waiting and x.choose(2, [0, 1]):
                scene.deliver()
                if len(scene.wire.waiting) > 5 and x.choose(2, [0, 1]):
                    for _ in range(5):
                        scene.deliver()
            scene.reactor.turn()
        scene.collect()
        x.state((scene.kind, len(scene.wire.waiting), len(scene.received)))
        scene.finish()

    def start(x):
        with_scene(body)(x, x.pick(["twisted", "tcp"]), bool(x.choose(2)))
    return start


def late(x):
    """Carbon accepts the connection late, or takes it up again."""
    def body(x, scene):
        accepted = False
        for number in range(4):
            for call in CALLS[number:number + 5]:
                scene.call(*call)
            while scene.wire.waiting:
                scene.deliver()
            action = x.pick(["none", "accept", "refuse"])
            x.op(action)
            for connector in scene.reactor.connectors:
                if connector.state == "connecting" and action == "accept":
                    connector.accept()
                elif connector.state == "connecting" and action == "refuse":
                    connector.refuse()
            scene.reactor.advance(INTERVAL / 1000.0)
            scene.reactor.settle()
            scene.collect()
            x.state((number, action, len(scene.received)))
        for _ in range(4):
            scene.reactor.advance(5)
            scene.world.accept()
        scene.finish()
    with_scene(body)(x, x.pick(["twisted", "plain"]), bool(x.choose(2)),
                     accept=False, options={"max-datapoints-per-message":
                                            x.pick([1, 7, 1000])})


def cases(tier):
    thorough = tier == "thorough"
    kinds = ["twisted", "tcp", "plain", "sharded"]
    yield Case("histories", histories(4 if thorough else 3, CALLS[:-1],
                                      ["plain"]), split=90)
    yield Case("kinds", histories(3 if thorough else 2, CALLS, kinds),
               split=60)
    yield Case("sampled", histories(4 if thorough else 3, SAMPLED,
                                    ["twisted"]), split=90)
    yield Case("few", histories(6 if thorough else 5,
                                [CALLS[0], CALLS[3]], ["twisted"]), split=90)
    yield Case("midflush", midflush(0), bound=2 if thorough else 1, split=60)
    yield Case("late", late, split=60)
