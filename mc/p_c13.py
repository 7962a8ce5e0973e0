"""Redirection over TCP, through every sequence of connection events."""
import re

from core import Case
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "connections are fakes with the interface and the order of calls of "
    "Twisted's: they may be refused, lost, paused and resumed at any time",
    "what is written between the service's stop and the end of its "
    "connection may be sent or not"]

LONG = 2 * 3600.0
RULES = ("path_like drop* => drop\n"
         "path_like a* => redirect_tcp 192.0.2.7 2000\n"
         "metric_type g => set_metric_type m\n")


def build(rules):
    from twisted.application.service import MultiService
    from txstatsd.server.router import Router
    import p_c12
    reactor.reset()
    seams.reseed()
    recorder = p_c12.Recorder.build()
    service = MultiService()
    router = Router(recorder, rules, service)
    ready = []
    router.ready.addCallback(ready.append)
    return router, recorder, service, ready


def live():
    return [c for c in reactor.connectors if c.state != "disconnected"]


class World(object):

    def __init__(self, x, rules):
        self.x = x
        self.log = seams.start_log()
        self.router, self.recorder, self.service, self.ready = build(rules)
        self.dropped = 0
        self.running = False
        self.accepted = 0
        self.paused = False
        self.sent = 0
        self.transport = None
        self.expected = []
        self.maybe = None

    def connector(self):
        connectors = live()
        self.x.check(len(connectors) <= 1, "%d connections at a time"
                     % len(connectors))
        return connectors[0] if connectors else None

    def enabled(self):
        """The events possible now, the likeliest first, with their cost."""
        events = []
        connector = self.connector()
        if connector is not None and connector.state == "connecting":
            events += ["accept", "refuse"]
        elif connector is not None:
            events.append("message")
            events.append("resume" if self.paused else "pause")
            events.append("lose")
        if reactor.due() is not None:
            events.append("wait")
        if "message" not in events:
            events.append("message")
        events.append("other")
        events.append("stop" if self.running else "start")
        return events

    def do(self, event):
        x = self.x
        x.op(event)
        connector = self.connector()
        if event == "accept":
            self.transport = connector.accept()
            self.accepted += 1
            self.paused = False
            self.dropped = 0
            self.expected = []
            x.check(self.transport.producer is not None and
                    self.transport.producer[1], "the redirect is not "
                    "registered as a push producer")
        elif event == "refuse":
            connector.refuse()
        elif event == "lose":
            stopping = connector.transport.disconnecting
            connector.transport.drop()
            if self.running and not stopping:
                # However long it took to get this one.
                due = reactor.due()
                x.check(due is not None and due.time - seams.clock.now <= 10,
                        "the next attempt after a loss is %s" % (
                            due and "in %.1f s" % (
                                due.time - seams.clock.now)))
        elif event == "pause":
            self.transport.producer[0].pauseProducing()
            self.paused = True
            self.paused_at = seams.clock.now
        elif event == "resume":
            seen = len(self.log.messages)
            self.transport.producer[0].resumeProducing()
            self.paused = False
            told = " ".join(" ".join(map(str, event["message"]))
                            for event in self.log.messages[seen:])
            x.check(re.search(r"\b%d\b" % self.dropped, told),
                    "%d messages were dropped and told is %r" % (
                        self.dropped, told))
            seconds = seams.clock.now - self.paused_at
            x.check(any(abs(float(n) - seconds) <= 1
                        for n in re.findall(r"[-\d.]*\d", told)),
                    "the redirect was paused for %.1f s and told is %r" % (
                        seconds, told))
            self.dropped = 0
        elif event == "wait":
            call = reactor.due()
            seams.clock.now = max(seams.clock.now, call.time)
            reactor.run_call(call)
        elif event == "start":
            self.service.startService()
            self.running = True
        elif event == "stop":
            self.service.stopService()
            self.running = False
        elif event in ("message", "other"):
            self.message(event == "message")
        self.check()

    def message(self, matching):
        x = self.x
        self.sent += 1
        key = "%s%d" % ("a" if matching else "b", self.sent)
        extra = ["", "|@0.5"][self.sent % 2]
        kind = ["c", "g"][self.sent % 3 == 0]
        self.recorder.got = []
        before = self.transport and self.transport.value()
        self.router.process("%s:%d|%s%s" % (key, self.sent, kind, extra))
        left = "m" if kind == "g" else kind
        x.equal([(left, key)], [(g[0], g[1]) for g in self.recorder.got],
                "what the processor got of the message")
        if self.transport is None:
            return
        line = "%s:%d|%s%s\r\n" % (key, self.sent, kind, extra)
        written = self.transport.value()[len(before):]
        wanted = matching and not self.paused and self.transport.connected
        if matching and self.paused and self.transport.connected:
            self.dropped += 1
        if self.transport.connected and self.transport.disconnecting:
            x.check(written in ("", line), "written on the way down: %r"
                    % written)
        else:
            x.equal(line if wanted else "", written, "written for %s" % key)

    def check(self):
        x = self.x
        self.connector()
        x.equal([], reactor.errors, "errors in the reactor")
        for connector in reactor.connectors:
            x.equal(("192.0.2.7", 2000), (connector.host, connector.port),
                    "where the redirect connects")
        x.state((self.running, self.paused, len(reactor.calls),
                 [c.state for c in reactor.connectors].count("connecting"),
                 self.transport and (self.transport.connected,
                                     self.transport.disconnecting),
                 self.accepted))

    def finish(self):
        """From wherever it got to, it goes on as it should."""
        x = self.x
        if not self.running:
            reactor.advance(LONG)
            x.equal(0, len(live()), "connections once the service stopped")
            x.equal(0, len(reactor.calls), "calls once the service stopped")
            self.do("start")
        # It gets at most that far apart from another attempt.
        for event in ("", "refuse", "refuse", "accept"):
            if event:
                self.do(event)
            if event != "accept" and self.connector() is None:
                reactor.advance(LONG)
            x.check(self.connector() is not None, "no connection, and no "
                    "attempt in two hours, after %s" % event)
            if self.connector().state == "connected":
                if self.transport.disconnecting:
                    reactor.advance(LONG)
                    x.check(self.connector() is not None,
                            "no attempt in two hours")
                    continue
                break
        if self.connector().state == "connecting":
            self.do("accept")
        if self.paused:
            self.do("resume")
        self.do("message")
        reactor.advance(1)
        x.equal(1, len(self.ready), "times that the router became ready")
        self.do("stop")
        reactor.advance(LONG)
        x.equal(0, len(live()), "connections after the last stop")
        x.equal(0, len(reactor.calls), "calls after the last stop")


def events(depth, started, rules=RULES):
    def body(x):
        world = World(x, rules)
        if started:
            world.do("start")
        for _ in range(depth):
            possible = world.enabled()
            world.do(x.pick(possible))
        if not world.accepted:
            x.equal([], world.ready, "ready without a connection")
        world.finish()
        x.outcome((world.accepted, world.sent, len(reactor.connectors)))
    return body


def flapping(cycles):
    """Connections that are refused, made and lost, over and over."""
    def body(x):
        world = World(x, RULES)
        world.do("start")
        for _ in range(cycles):
            for _ in range(x.pick([0, 1, 5])):
                world.do("refuse")
                world.do("wait")
            world.do("accept")
            world.do("message")
            for _ in range(x.pick([0, 1, 3])):
                if not world.paused:
                    world.do("pause")
                world.do("message")
            if world.paused and x.choose(2):
                world.do("resume")
                world.do("message")
            reactor.advance(x.pick([0, LONG]))
            world.do("lose")
            world.do("wait")
        x.outcome(world.accepted)
    return body


def texts(x):
    """What the rules left of it, whatever it is, is what is written."""
    world = World(x, x.pick([
        "any => redirect_tcp 192.0.2.7 2000",
        "any => set_metric_type g dup\nany => redirect_tcp 192.0.2.7 2000",
        "any => rewrite ^a b\nany => redirect_tcp 192.0.2.7 2000\n"
        "any => drop",
        "any => redirect_tcp 192.0.2.7 2000\nany => rewrite ^a b dup"]))
    import p_c12
    world.service.startService()
    transport = world.connector().accept()
    rules = [tuple(part.strip() for part in line.split("=>"))
             for line in world.router.rules_config.split("\n")]
    lines = ""
    for value, kind, extra in [("1", "c", ""), ("", "c", ""), ("2.5", "", ""),
                               ("x", "y", "|"), ("1", "c", "|@0.25"),
                               ("-7e3", "ms", "|abc")]:
        world.router.process("a.b:%s|%s%s" % (value, kind, extra))
        x.op((value, kind, extra))
        metrics = [(kind, "a.b")]
        for rule in rules:
            if rule[1].startswith("redirect"):
                lines += "".join("%s:%s|%s%s\r\n" % (n, value, k, extra)
                                 for k, n in metrics)
            metrics = [r for k, n in metrics
                       for r in p_c12.interpret([rule], k, n)]
        x.equal(lines, transport.value(), "what is written")
    x.equal([], reactor.errors, "errors in the reactor")


def floods(sizes):
    """Many messages, while it is paused and while it is not."""
    def body(x):
        world = World(x, "path_like a* => redirect_tcp 192.0.2.7 2000\n"
                      "metric_type g => set_metric_type m\n")
        for event in ("start", "accept"):
            world.do(event)
        for _ in range(2):
            size = x.pick(sizes)
            for paused in x.pick([(False, True), (True, False)]):
                if paused:
                    world.do("pause")
                for number in range(size):
                    world.do("message")
                    if number % 50 == 7:
                        seams.clock.now += 10.5
                if paused:
                    world.do("resume")
        world.do("message")
    return body


def two(depth):
    """Two redirects do not get into each other's way."""
    rules = ("any => redirect_tcp 192.0.2.7 2000\n"
             "any => redirect_tcp 192.0.2.8 2001\n")

    def body(x):
        router, recorder, service, ready = build(rules)
        service.startService()
        connectors = dict((c.host, c) for c in reactor.connectors)
        hosts = ("192.0.2.7", "192.0.2.8")
        x.equal(sorted(hosts), sorted(connectors), "hosts to connect to")
        paused = set()
        written = dict((host, "") for host in hosts)
        number = 0
        connected = set()
        for _ in range(depth):
            host = hosts[x.choose(2)]
            c = connectors[host]
            moves = ["message"]
            if c.state == "connecting":
                moves += ["accept", "refuse"]
            elif c.state == "connected":
                moves += ["lose", "resume" if host in paused else "pause"]
            elif reactor.due():
                moves += ["wait"]
            move = x.pick(moves)
            x.op((host, move))
            if move == "accept":
                c.accept()
                written[host] = ""
                paused.discard(host)
                connected.add(host)
            elif move == "refuse":
                c.refuse()
            elif move == "lose":
                c.transport.drop()
                paused.discard(host)
            elif move in ("pause", "resume"):
                getattr(c.transport.producer[0], move + "Producing")()
                (paused.add if move == "pause" else paused.discard)(host)
            elif move == "wait":
                reactor.advance(LONG)
            else:
                number += 1
                router.process("a%d:1|c" % number)
                for h in hosts:
                    if connectors[h].state == "connected" and h not in paused:
                        written[h] += "a%d:1|c\r\n" % number
            for h in hosts:
                if connectors[h].state == "connected":
                    x.equal(written[h], connectors[h].transport.value(),
                            "written to %s" % h)
            reactor.settle()
            x.equal(len(connected) == 2, bool(ready), "router ready")
            x.state((tuple(sorted(connected)), tuple(sorted(paused)),
                     tuple(connectors[h].state for h in hosts)))
        x.equal(number, len(recorder.got), "messages processed")
        x.equal([], reactor.errors, "errors in the reactor")
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("events", events(8 if thorough else 6, True), split=100)
    yield Case("unstarted", events(7 if thorough else 5, False), split=50)
    yield Case("flapping", flapping(3 if thorough else 2), split=40)
    yield Case("floods", floods([3, 400] + [1500] * thorough), split=8)
    yield Case("texts", texts)
    yield Case("two", two(6 if thorough else 5), split=50)
