"""The Twisted client, through every history of what happens to it."""
import socket

from core import Case
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "port, resolver and socket are fakes with Twisted's interface, the port "
    "is only opened again once it is closed",
    "what cannot wait because 1000 messages do already is lost"]

HOST = "stats.example.com"
FAULTS = [None, socket.error(11, "try again"), OverflowError("port"),
          TypeError("host"), socket.gaierror(8, "no such host")]


class Mistake(Exception):
    """A callback of the application fails."""


class World(object):

    def __init__(self, x, host, faults=0, hooks=()):
        from txstatsd.client import StatsDClientProtocol, TwistedStatsDClient
        self.x = x
        self.hooks = hooks
        seams.start_log()
        reactor.reset()
        self.connected, self.disconnected, self.failures = [], [], []
        self.expected = []      # (datagram, address, number of message)
        self.queue = []
        self.number = 0
        self.results = {}
        self.wanted = {}
        self.host = None if host == HOST else host
        self.open = False
        self.port = None
        self.pending_close = None
        self.failed = False
        self.faults = faults
        self.turning = False
        # Written when it was too late to be sent before the port closed.
        self.doomed = set()
        self.client = TwistedStatsDClient.create(
            host, 8125, connect_callback=self.on_connect,
            disconnect_callback=lambda: self.disconnected.append(1),
            resolver_errback=self.failures.append)
        self.protocol = StatsDClientProtocol(self.client)
        self.resolutions = int(self.host is not None)
        x.equal(self.resolutions, len(self.connected), "connect callbacks")

    def on_connect(self):
        self.connected.append(1)
        if "connect" in self.hooks:
            self.write()

    def write(self):
        self.number += 1
        number = self.number
        data = "m%d:1|c" % (0 if "equal" in self.hooks else number)

        def callback(result):
            self.x.check(number not in self.results,
                         "the callback of message %d is called again" % number)
            self.results[number] = result
            if "callback" in self.hooks and self.number < 6:
                self.write()
            if "mistake" in self.hooks:
                raise Mistake()
        # Calling this model before the client makes it right for writes
        # from within callbacks.
        if self.open and self.host and self.turning and self.pending_close:
            self.doomed.add(number)
        elif self.open and self.host:
            self.expected.append((data, (self.host, 8125), number))
        elif len(self.queue) < 1000:
            self.queue.append((data, number))
        if "bare" in self.hooks or "equal" in self.hooks:
            self.client.write(data)
        else:
            self.client.write(data, callback)

    def progress(self):
        if self.open and self.host:
            for data, number in self.queue:
                self.expected.append((data, (self.host, 8125), number))
            self.queue = []

    def moves(self):
        moves = ["write"]
        if reactor.threadcalls or reactor.due():
            moves.append("turn")
        if self.port is None:
            moves.append("open")
        elif self.open and not self.pending_close:
            moves.append("close")
        if self.host is None and not self.failed:
            moves += ["resolve", "fail"]
        elif self.host is not None and "again" in self.hooks:
            moves.append("again")
        return moves

    def do(self, move):
        x = self.x
        x.op(move)
        if move == "write":
            self.write()
        elif move == "turn":
            self.turning = True
            reactor.turn()
            self.turning = False
            if self.pending_close:
                self.pending_close = None
                self.open = False
                self.port = None
        elif move == "open":
            self.open = True
            self.progress()
            self.port = reactor.listenUDP(0, self.protocol)
            if self.faults:
                faults = []
                self.port.faults = faults
                self.inject(self.port)
        elif move == "close":
            self.port.stopListening()
            self.pending_close = True
        elif move in ("resolve", "again"):
            self.host = "192.0.2.%d" % (self.resolutions + 1)
            self.resolutions += 1
            self.progress()
            if move == "resolve":
                reactor.resolutions[0][1].callback(self.host)
            else:
                self.client.host_resolved(self.host)
        elif move == "fail":
            from twisted.internet import error
            reactor.resolutions[0][1].errback(error.DNSLookupError())
            self.failed = True

    def inject(self, port):
        """Every write of the port may fail, in every way there is."""
        original = port.write
        world = self

        def write(data, address=None):
            fault = FAULTS[world.x.choose(
                len(FAULTS), [0] + [1] * (len(FAULTS) - 1))]
            number = int(data[1:data.index(":")])
            if fault is not None:
                world.wanted[number] = None
                world.x.op(repr(fault))
                port.written.append((data, address))
                raise fault
            return original(data, address)
        port.write = write

    def verify(self, last=False):
        x = self.x
        got = [(d, a) for p in reactor.udp for d, a in p.written
               if int(d[1:d.index(":")]) not in self.doomed]
        expected = [(d, a) for d, a, n in self.expected]
        if last:
            x.equal(expected, got, "datagrams sent at last")
        else:
            x.equal(expected[:len(got)], got, "datagrams sent")
        x.equal(self.resolutions, len(self.connected), "connect callbacks")
        x.equal(int(self.failed), len(self.failures), "resolver errbacks")
        if "bare" not in self.hooks and "equal" not in self.hooks:
            sent = [int(d[1:d.index(":")]) for d, a in got]
            x.equal(sorted(sent), sorted(set(self.results) - self.doomed),
                    "messages whose callback was called")
            if last:
                x.check(self.doomed <= set(self.results),
                        "a callback is never called")
            for number in sent:
                x.equal(self.wanted.get(number, len("m%d:1|c" % number)),
                        self.results[number], "result of message %d" % number)
        unexpected = [e for e in reactor.errors if not isinstance(e, Mistake)]
        x.equal([], unexpected, "errors in the reactor")


def events(host, depth, hooks=(), faults=0, fill=0):
    def body(x):
        world = World(x, host, faults, hooks)
        for _ in range(fill):
            world.write()
        for _ in range(depth):
            world.do(x.pick(world.moves()))
            world.verify()
            x.state((world.host is None, world.open, len(world.queue),
                     len(reactor.threadcalls), len(world.results),
                     len(world.expected), world.failed))
        while reactor.due() or reactor.threadcalls:
            world.do("turn")
        world.verify()
        # Bring it up, to see that nothing is left behind.
        if world.host is None and not world.failed:
            world.do("resolve")
        if world.port is None:
            world.do("open")
        reactor.settle()
        world.do("write")
        reactor.settle()
        world.verify(last=True)
        world.do("close")
        reactor.settle()
        x.equal(len(reactor.udp), len(world.disconnected),
                "disconnect callbacks")
        x.outcome((tuple(n for d, a, n in world.expected),
                   tuple(sorted(world.results.items()))))
    return body


def cases(tier):
    thorough = tier == "thorough"
    more = 1 if thorough else 0
    yield Case("name", events(HOST, 8 + more), split=100)
    yield Case("address", events("192.0.2.1", 9 + more), split=50)
    yield Case("again", events(HOST, 7 + more, ("again",)), split=50)
    yield Case("writes-in-callbacks", events(
        HOST, 7 + more, ("connect", "callback")), split=50)
    yield Case("mistakes", events(HOST, 7 + more, ("mistake",)), split=50)
    yield Case("bare", events(HOST, 7 + more, ("bare",)), split=50)
    yield Case("equal", events(HOST, 6 + more, ("equal",)), split=50)
    yield Case("faults", events("192.0.2.1", 5 + more, faults=1),
               bound=2 + more, split=50)
    yield Case("faults-name", events(HOST, 5 + more, ("mistake",), faults=1),
               bound=1 + more, split=50)
    yield Case("full", events(HOST, 4, fill=998), split=30)
