"""A reactor whose every event is raised by the harness."""
import sys

import seams


class FakeAddress(object):

    def __init__(self, host, port, type="TCP"):
        self.host, self.port, self.type = host, port, type

    def __repr__(self):
        return "%s:%s" % (self.host, self.port)


class FakeDelayedCall(object):

    def __init__(self, reactor, time, number, f, args, kwargs):
        self.reactor = reactor
        self.time = time
        self.number = number
        self.f, self.args, self.kwargs = f, args, kwargs
        self.called = self.cancelled = False

    def getTime(self):
        return self.time

    def active(self):
        return not (self.called or self.cancelled)

    def cancel(self):
        from twisted.internet import error
        if self.cancelled:
            raise error.AlreadyCancelled()
        if self.called:
            raise error.AlreadyCalled()
        self.cancelled = True
        self.reactor.calls.remove(self)

    def delay(self, seconds):
        self.time += seconds

    def reset(self, seconds):
        self.time = seams.clock.now + seconds


class FakeUDPPort(object):
    """What reactor.listenUDP returns: a port and a transport in one."""

    def __init__(self, reactor, port, protocol, interface, size):
        self.reactor = reactor
        self.port, self.protocol, self.interface = port, protocol, interface
        self.size = size
        self.written = []
        self.faults = []
        self.listening = True
        self.closed = False
        protocol.makeConnection(self)

    def getHost(self):
        return FakeAddress(self.interface or "0.0.0.0", self.port, "UDP")

    def write(self, data, address=None):
        if self.closed:
            raise AttributeError("socket")
        if self.faults:
            fault = self.faults.pop(0)
            if fault is not None:
                raise fault
        self.written.append((data, address))
        return len(data)

    def stopListening(self):
        from twisted.internet import defer
        if not self.listening:
            return defer.succeed(None)
        self.listening = False
        self.reactor.callLater(0, self.lose)
        self.lost = defer.Deferred()
        return self.lost

    def lose(self):
        # Like Twisted: in the next turn, and then there is no socket.
        self.protocol.doStop()
        self.closed = True
        self.lost.callback(None)

    loseConnection = stopListening


class FakeTCPTransport(object):

    disconnecting = False

    def __init__(self, reactor, protocol, lost=None):
        self.reactor = reactor
        self.protocol = protocol
        self.lost = lost
        self.connected = True
        self.written = []
        self.producer = None
        self.reads_paused = False

    def write(self, data):
        if self.connected:
            self.written.append(data)

    def writeSequence(self, data):
        for piece in data:
            self.write(piece)

    def value(self):
        return "".join(self.written)

    def receive(self, data):
        """Data comes in.  Like Twisted, see tcp.Connection.doRead: what the
        protocol returns, if anything, is why to end the connection."""
        if self.protocol.dataReceived(data) is not None:
            self.drop()

    def registerProducer(self, producer, streaming):
        self.producer = (producer, streaming)

    def unregisterProducer(self):
        self.producer = None

    def pauseProducing(self):
        self.reads_paused = True

    def resumeProducing(self):
        self.reads_paused = False

    def stopProducing(self):
        self.loseConnection()

    def getPeer(self):
        return FakeAddress("192.0.2.1", 4321)

    def getHost(self):
        return FakeAddress("127.0.0.1", 1234)

    def setTcpKeepAlive(self, flag):
        pass

    def setTcpNoDelay(self, flag):
        pass

    def loseConnection(self):
        self.disconnecting = True
        self.reactor.callLater(0, self.drop)

    abortConnection = loseConnection

    def drop(self):
        """The connection is gone."""
        from twisted.internet import error
        from twisted.python import failure
        if not self.connected:
            return
        self.connected = False
        if self.producer is not None:
            self.producer[0].stopProducing()
            self.producer = None
        reason = failure.Failure(error.ConnectionDone())
        self.protocol.connectionLost(reason)
        if self.lost is not None:
            self.lost(reason)


class FakeTCPPort(object):

    def __init__(self, reactor, port, factory, interface):
        self.reactor = reactor
        self.port, self.factory, self.interface = port, factory, interface
        self.listening = True
        self.transports = []
        factory.doStart()

    def getHost(self):
        return FakeAddress(self.interface or "0.0.0.0", self.port)

    def connect(self):
        """A client connects: returns the server's side of the connection."""
        protocol = self.factory.buildProtocol(FakeAddress("192.0.2.1", 4321))
        transport = FakeTCPTransport(self.reactor, protocol)
        self.transports.append(transport)
        protocol.makeConnection(transport)
        return transport

    def stopListening(self):
        from twisted.internet import defer
        if self.listening:
            self.listening = False
            self.factory.doStop()
        return defer.succeed(None)

    loseConnection = stopListening


class FakeConnector(object):
    """An outgoing connection; the harness accepts, refuses or drops it."""

    def __init__(self, reactor, host, port, factory):
        self.reactor = reactor
        self.host, self.port, self.factory = host, port, factory
        self.state = "disconnected"
        self.transport = None
        self.transports = []
        self.attempts = 0

    def connect(self):
        self.attempts += 1
        self.state = "connecting"
        self.factory.doStart()
        self.factory.startedConnecting(self)

    def getDestination(self):
        return FakeAddress(self.host, self.port)

    def accept(self):
        assert self.state == "connecting"
        self.state = "connected"
        protocol = self.factory.buildProtocol(
            FakeAddress(self.host, self.port))
        self.transport = FakeTCPTransport(self.reactor, protocol, self.lost)
        self.transports.append(self.transport)
        protocol.makeConnection(self.transport)
        return self.transport

    def refuse(self):
        from twisted.internet import error
        from twisted.python import failure
        assert self.state == "connecting"
        self.state = "disconnected"
        self.factory.clientConnectionFailed(
            self, failure.Failure(error.ConnectionRefusedError()))
        if self.state == "disconnected":
            self.factory.doStop()

    def lost(self, reason):
        self.state = "disconnected"
        self.factory.clientConnectionLost(self, reason)
        if self.state == "disconnected":
            self.factory.doStop()

    def stopConnecting(self):
        from twisted.internet import error
        from twisted.python import failure
        if self.state != "connecting":
            raise error.NotConnectingError("not connecting")
        self.state = "disconnected"
        self.factory.clientConnectionFailed(
            self, failure.Failure(error.UserError()))
        if self.state == "disconnected":
            self.factory.doStop()

    def disconnect(self):
        if self.state == "connecting":
            self.stopConnecting()
        elif self.state == "connected":
            self.transport.loseConnection()


class FakeReactor(object):

    running = True

    def __init__(self):
        self.reset()

    def reset(self, now=None):
        if now is None:
            seams.clock.reset()
        else:
            seams.clock.reset(now)
        # How late every delayed call is made; a real reactor never makes
        # one at the very moment that it is due.
        self.lateness = 0.0
        self.calls = []
        self.threadcalls = []
        self.number = 0
        self.udp = []
        self.tcp = []
        self.connectors = []
        self.resolutions = []
        self.readers = []
        self.writers = []
        self.triggers = {}
        self.errors = []

    # IReactorTime

    def seconds(self):
        return seams.clock.now

    def callLater(self, delay, f, *args, **kwargs):
        assert delay >= 0, "negative delay"
        self.number += 1
        call = FakeDelayedCall(self, seams.clock.now + delay, self.number,
                               f, args, kwargs)
        self.calls.append(call)
        return call

    def getDelayedCalls(self):
        return list(self.calls)

    # IReactorThreads

    def callFromThread(self, f, *args, **kwargs):
        self.threadcalls.append((f, args, kwargs))

    def callInThread(self, f, *args, **kwargs):
        raise AssertionError("no threads here")

    def suggestThreadPoolSize(self, size):
        pass

    # IReactorCore

    def resolve(self, name, timeout=None):
        from twisted.internet import abstract, defer
        if abstract.isIPAddress(name):
            return defer.succeed(name)
        d = defer.Deferred()
        self.resolutions.append((name, d))
        return d

    def callWhenRunning(self, f, *args, **kwargs):
        f(*args, **kwargs)

    def addSystemEventTrigger(self, phase, event, f, *args, **kwargs):
        self.triggers.setdefault((phase, event), []).append((f, args, kwargs))
        return (phase, event, (f, args, kwargs))

    def removeSystemEventTrigger(self, trigger):
        phase, event, call = trigger
        self.triggers[phase, event].remove(call)

    def fireSystemEvent(self, event):
        pass

    def run(self):
        raise AssertionError("the harness runs the reactor")

    def stop(self):
        pass

    crash = iterate = stop

    # IReactorFDSet

    def addReader(self, reader):
        self.readers.append(reader)

    def addWriter(self, writer):
        self.writers.append(writer)

    def removeReader(self, reader):
        self.readers.remove(reader)

    def removeWriter(self, writer):
        self.writers.remove(writer)

    def getReaders(self):
        return list(self.readers)

    def getWriters(self):
        return list(self.writers)

    # IReactorUDP, IReactorTCP

    def listenUDP(self, port, protocol, interface="", maxPacketSize=8192):
        port = FakeUDPPort(self, port, protocol, interface, maxPacketSize)
        self.udp.append(port)
        return port

    def listenTCP(self, port, factory, backlog=50, interface=""):
        port = FakeTCPPort(self, port, factory, interface)
        self.tcp.append(port)
        return port

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        connector = FakeConnector(self, host, port, factory)
        self.connectors.append(connector)
        connector.connect()
        return connector

    # For the harness

    def due(self):
        """The next delayed call, or None."""
        best = None
        for call in self.calls:
            if best is None or (call.time, call.number) < (
                    best.time, best.number):
                best = call
        return best

    def run_call(self, call):
        self.calls.remove(call)
        call.called = True
        self.guarded(call.f, call.args, call.kwargs)

    def guarded(self, f, args, kwargs):
        """Like a real reactor: log what an event handler raises."""
        from twisted.python import log
        try:
            f(*args, **kwargs)
        except Exception:
            self.errors.append(sys.exc_info()[1])
            log.err()

    def run_threadcalls(self):
        calls, self.threadcalls = self.threadcalls, []
        for f, args, kwargs in calls:
            self.guarded(f, args, kwargs)
        return len(calls)

    def turn(self):
        """One turn of the reactor, at the present time.

        Calls that are scheduled meanwhile wait for the next turn.  Returns
        how many calls were made.
        """
        done = self.run_threadcalls()
        horizon = seams.clock.now + 1e-6
        calls = sorted((c.time, c.number, c) for c in self.calls
                       if c.time <= horizon)
        for time, number, call in calls:
            if call.active():
                self.run_call(call)
                done += 1
        return done

    def settle(self, limit=100000):
        """Turn until there is nothing left to do at the present time."""
        turns = 0
        while self.turn():
            turns += 1
            if turns > limit:
                raise AssertionError("the reactor does not settle")
        return turns

    def advance(self, seconds, limit=100000):
        """Move time forward, making the calls on the way."""
        target = seams.clock.now + seconds
        self.settle()
        turns = 0
        while True:
            call = self.due()
            if call is None or call.time > target + 1e-9:
                break
            if call.time + self.lateness > seams.clock.now:
                seams.clock.now = call.time + self.lateness
            self.turn()
            turns += 1
            if turns > limit:
                raise AssertionError("the reactor does not settle")
        seams.clock.now = max(seams.clock.now, target)


reactor = FakeReactor()


def install():
    import twisted.internet
    twisted.internet.reactor = reactor
    sys.modules["twisted.internet.reactor"] = reactor
    from zope.interface import classImplements
    from twisted.internet import interfaces
    classImplements(FakeReactor, interfaces.IReactorTime,
                    interfaces.IReactorCore, interfaces.IReactorThreads,
                    interfaces.IReactorUDP, interfaces.IReactorTCP)
