"""The whole service stopped, and started again, at any moment."""
import math

from core import Case
import ref
import seams
import world

ASSUMPTIONS = [
    "the service is only started again once what stopService returned has "
    "fired, as ports cannot be opened twice",
    "carbon's client manager forgets its destinations when it is stopped: "
    "for restarts, one that keeps what it is given takes its place",
    "HTTP and TCP connections that clients had made are theirs to close, as "
    "with any Twisted server",
    "a flush under way when the service stops may go on to its end"]

INTERVAL = 10000
REDIRECT_UDP = "any => redirect_udp stats.example.com 9999"
REDIRECT_TCP = "any => redirect_tcp 10.9.9.9 7777"
REDIRECT_HOST = "any => redirect_udp 10.8.8.8 9999"


class Carbon(object):
    """Stands in for carbon's client manager."""

    made = []

    def __new__(cls, router):
        from twisted.application.service import Service

        class Manager(Service):

            def __init__(self):
                self.got = []
                self.destinations = []

            def startClient(self, destination):
                self.destinations.append(destination)

            def sendDatapoint(self, metric, datapoint):
                self.got.append((metric, datapoint[1], datapoint[0]))
        manager = Manager()
        cls.made.append(manager)
        return manager


class Scene(object):

    def __init__(self, x, options, stub=True):
        import carbon.client
        self.x = x
        original = carbon.client.CarbonClientManager
        if stub:
            del Carbon.made[:]
            carbon.client.CarbonClientManager = Carbon
        try:
            self.world = world.Service(x, options)
        finally:
            carbon.client.CarbonClientManager = original
        self.stub = Carbon.made[0] if stub else None
        self.reactor = self.world.reactor
        self.options = self.world.options
        self.routing = options.get("routing", "")
        self.compliance = options.get("statsd-compliance", 1)
        self.running = False
        self.stopping = None
        self.connection = None
        self.sent = 0
        self.started = None
        self.flushed = 0
        self.verify_stopped("before it is started")

    # What can be done.

    def start(self):
        self.x.op("start")
        self.world.start()
        self.running = True
        self.started = seams.clock.now
        self.published_before = self.stamps()
        x, r = self.x, self.reactor
        x.check(self.world.udp_port() is not None, "no UDP port")
        for name in ("listen-tcp-port", "http-port"):
            if self.options[name] is not None:
                x.check(self.world.tcp_port(self.options[name]) is not None,
                        "no port %s" % name)
        self.connection = None

    def stop(self):
        from twisted.internet import defer
        self.x.op("stop")
        self.running = False
        fired = []
        defer.maybeDeferred(self.world.service.stopService).addBoth(
            fired.append)
        self.stopping = fired
        # From now on nothing new is begun.
        self.x.check(not [p for p in self.reactor.tcp if p.listening],
                     "TCP ports still listen")
        self.x.check(not [p for p in self.reactor.udp if p.listening],
                     "UDP ports still listen")

    def ready(self):
        return not self.running and (self.stopping is None or
                                     len(self.stopping) > 0)

    def sample(self):
        self.x.op("sample")
        self.world.datagram("a:1|c")
        self.sent += 1

    def line(self):
        self.x.op("line")
        if self.connection is None:
            self.connection = self.world.tcp_port(
                self.options["listen-tcp-port"]).connect()
        self.connection.receive("a:1|c\r\n")
        self.sent += 1

    def moves(self):
        r = self.reactor
        moves = []
        if self.running:
            moves += ["stop", "sample", "line", "flush"]
        elif self.ready():
            moves.append("start")
        if self.resolutions():
            moves += ["resolve", "fail"]
        if [c for c in r.connectors if c.state == "connecting" and
            c.port == 7777]:
            moves += ["accept", "refuse"]
        if [c for c in r.connectors if c.state == "connected" and
            c.port == 7777]:
            moves.append("lose")
        moves += ["turn", "wait"]
        return moves

    def resolutions(self):
        return [d for name, d in self.reactor.resolutions if not d.called]

    def do(self, move):
        from twisted.internet import error
        r = self.reactor
        if move in ("start", "stop", "sample", "line"):
            return getattr(self, move)()
        self.x.op(move)
        if move == "turn":
            r.turn()
        elif move == "wait":
            r.advance(3)
        elif move == "flush":
            # To where the next flush begins, and some steps into it.
            r.settle()
            target = min([c.time for c in r.calls
                          if c.time > seams.clock.now + 1e-6] +
                         [seams.clock.now + 10])
            r.advance(max(0, target - seams.clock.now - 0.0005))
            seams.clock.now = max(seams.clock.now, target)
            for _ in range(4):
                r.turn()
        elif move == "resolve":
            self.resolutions()[0].callback("192.0.2.50")
        elif move == "fail":
            self.resolutions()[0].errback(error.DNSLookupError("no"))
        else:
            for connector in r.connectors:
                if connector.port != 7777:
                    continue
                if connector.state == "connecting":
                    getattr(connector, move)()
                    break
                if move == "lose" and connector.state == "connected":
                    connector.transport.drop()
                    break

    def stamps(self):
        if self.stub is None:
            return 0
        return len(set(m[2] for m in self.stub.got))

    # What has to hold.

    def verify_stopped(self, when):
        """Nothing is left, once what was begun has come to its end."""
        r, x = self.reactor, self.x
        r.settle()
        x.equal([], [(c.time - seams.clock.now, c.f) for c in r.calls],
                "calls that are left %s" % when)
        x.equal([], [p.port for p in r.udp + r.tcp if p.listening],
                "ports that are open %s" % when)
        x.equal([], [(c.host, c.port, c.state) for c in r.connectors
                     if c.state != "disconnected"],
                "connections %s" % when)
        x.check(self.stopping is None or self.stopping, "stopService is not "
                "done %s" % when)
        if self.stopping:
            x.check(not hasattr(self.stopping[0], "getTraceback"),
                    "stopService failed: %s" % self.stopping[0])
        got = len(self.stub.got) if self.stub else 0
        r.advance(100)
        if self.stub:
            x.equal(got, len(self.stub.got), "sent while it is stopped")
        x.equal([], [c.f for c in r.calls], "calls long after")

    def finish(self):
        x = self.x
        if self.running:
            self.stop()
        self.verify_stopped("after the stop")
        # As at first.
        self.start()
        self.accept_all()
        before = len(self.stub.got)
        for _ in range(3):
            self.sample()
        self.line()
        forwarded = self.forwarded()
        x.check(not forwarded or forwarded[-1] == "a:1|c",
                "forwarded: %r" % forwarded)
        self.reactor.advance(9.9)
        own = [m for m in self.stub.got[before:]]
        x.equal([], own, "flushed too soon after the start")
        self.reactor.advance(0.1)
        self.reactor.settle()
        fresh = self.stub.got[before:]
        paths = [m[0] for m in fresh]
        x.equal(1, paths.count("statsd.numStats" if self.compliance else
                               "statsd.this-host.numStats"),
                "flushes in an interval")
        if self.compliance:
            x.equal(self.sent, math.fsum(
                m[1] for m in self.stub.got if m[0] == "stats_counts.a"),
                "samples received")
        else:
            x.equal(1, [m for m in self.stub.got
                        if m[0] == "statsd.a.count"][-1][1], "counter")
        code, body = self.world.get("/status", self.options["http-port"])
        x.equal(200, code, "status")
        if "report" in self.options and self.options["report"]:
            self.reactor.advance(60)
            self.reactor.settle()
            names = [m[0] for m in self.stub.got[before:]
                     if "proc.threads" in m[0]]
            x.check(names, "no reports within a minute")
        self.stop()
        self.verify_stopped("after the last stop")
        x.equal([], [e for e in self.world.errors()
                     if "DNSLookupError" not in e], "errors")

    def accept_all(self):
        for d in self.resolutions():
            d.callback("192.0.2.50")
        for connector in self.reactor.connectors:
            if connector.state == "connecting":
                connector.accept()
        self.reactor.settle()

    def forwarded(self):
        self.reactor.settle()
        result = []
        if "redirect_udp" in self.routing:
            for port in self.reactor.udp:
                if port.port == 0:
                    result += [data for data, _ in port.written]
            if not result:
                # The name could not be resolved.
                assert any(d.called for _, d in self.reactor.resolutions)
        elif "redirect_tcp" in self.routing:
            for connector in self.reactor.connectors:
                if connector.port == 7777:
                    for transport in connector.transports:
                        result += transport.value().split("\r\n")[:-1]
        return result


CONFIGURATIONS = [("", None), (REDIRECT_UDP, None), (REDIRECT_TCP, None),
                  (REDIRECT_TCP + "\n" + REDIRECT_HOST, "process,io")]


def settings(compliance, routing, report):
    options = {"statsd-compliance": compliance, "flush-interval": INTERVAL,
               "listen-tcp-port": 7001, "http-port": 8080,
               "routing": routing}
    if report:
        options["report"] = report
    return options


def restarts(depth, configurations, modes=(1, 0)):
    def body(x):
        routing, report = x.pick(configurations)
        scene = Scene(x, settings(x.pick(list(modes)), routing, report))
        scene.start()
        for _ in range(depth):
            scene.do(x.pick(scene.moves()))
            x.state((routing, scene.running, scene.sent,
                     len(scene.stub.got), len(scene.reactor.calls),
                     tuple(c.state for c in scene.reactor.connectors)))
        scene.finish()
        x.outcome((routing, scene.sent, len(scene.stub.got)))
    return body


def during_flush(x):
    """Stopped at every step of a flush, and started again later."""
    routing, report = x.pick(CONFIGURATIONS)
    scene = Scene(x, settings(x.pick([1, 0]), routing, report))
    scene.start()
    scene.accept_all()
    for data in ["a:1|c", "b:2|g", "t:3|ms", "m:4|m"]:
        scene.world.datagram(data)
    scene.sent += 1
    scene.reactor.advance(9.9995)
    seams.clock.now = scene.reactor.due().time
    steps = x.choose(60)
    for _ in range(steps):
        scene.reactor.turn()
    x.op(steps)
    scene.stop()
    turns = x.choose(3)
    for _ in range(turns):
        scene.reactor.turn()
    if turns and scene.ready():
        scene.start()
        scene.sample()
    scene.finish()
    x.state((routing, steps, turns))
    x.outcome(len(scene.stub.got))


def real(x):
    """With carbon's own client manager, that sent all there was to send."""
    routing, report = x.pick(CONFIGURATIONS)
    scene = Scene(x, settings(x.pick([1, 0]), routing, report), stub=False)
    points = x.choose(4)
    scene.start()
    if points >= 1 or x.choose(2):
        scene.accept_all()
    if points >= 2:
        scene.sample()
        scene.line()
    if points >= 3:
        scene.reactor.advance(10)
        scene.reactor.settle()
        x.check(scene.world.carbon(), "nothing is sent")
    x.op(points)
    scene.stop()
    for _ in range(4):
        scene.reactor.advance(10)
    scene.verify_stopped("after the stop")
    x.equal([], scene.world.errors(), "errors")
    x.state((routing, report, points))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("restarts", restarts(5 if thorough else 4,
                                    CONFIGURATIONS[1:3], [1]), split=90)
    yield Case("plain", restarts(7 if thorough else 5, CONFIGURATIONS[:1]),
               split=60)
    yield Case("many", restarts(4 if thorough else 3, CONFIGURATIONS[3:]),
               split=60)
    yield Case("during-flush", during_flush, split=60)
    yield Case("real", real, split=8)
