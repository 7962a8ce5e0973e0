"""Threads that write while the reactor thread connects."""
import thread

from core import Case
import seams
import threads
from fakereactor import reactor

ASSUMPTIONS = [
    "a thread may be interrupted before each statement of the client code and "
    "where it takes a lock, as often as the bound allows; between them "
    "callFromThread and the operations of built-in types are atomic",
    "a message written while the port is being closed may not be sent; its "
    "callback is then told so"]

HOST = "stats.example.com"


def build(x, host):
    import txstatsd.protocol
    threads.instrument(txstatsd.protocol)
    from txstatsd.protocol import StatsDClientProtocol, TwistedStatsDClient
    seams.start_log()
    reactor.reset()
    client = TwistedStatsDClient.create(host, 8125)
    return client, StatsDClientProtocol(client)


def explored(host, scripts, steps, opened=False):
    """Writers against a reactor thread that takes the steps in order."""
    def body(x):
        client, protocol = build(x, host)
        results = {}
        misuse = []
        written = []
        owner = []
        closings = []

        def port_write(original):
            def write(data, address=None):
                if thread.get_ident() != owner[0]:
                    misuse.append(data)
                return original(data, address)
            return write

        def listen():
            port = reactor.listenUDP(0, protocol)
            port.write = port_write(port.write)

        def callback(name):
            def called(result):
                if thread.get_ident() != owner[0]:
                    misuse.append("callback of " + name)
                results.setdefault(name, []).append(result)
            return called

        def writer(names):
            def run():
                for name in names:
                    client.write(name + ":1|c", callback(name))
            return run

        def reacting():
            owner.append(thread.get_ident())
            for step in steps:
                if step == "open":
                    listen()
                elif step == "resolve":
                    reactor.resolutions[0][1].callback("192.0.2.1")
                elif step == "turn":
                    reactor.turn()
                elif step == "close":
                    reactor.udp[-1].stopListening()
                    reactor.turn()
                    closings.append(1)

        owner.append(thread.get_ident())
        if opened:
            listen()
        owner[:] = []
        scheduler = threads.Scheduler(x)
        for names in scripts:
            scheduler.add(names[0][0], writer(names))
        scheduler.add("reactor", reacting)
        scheduler.run()
        x.count("points", scheduler.points)
        owner[:] = [thread.get_ident()]
        reactor.settle()
        sent = [d[:d.index(":")] for p in reactor.udp for d, a in p.written]
        x.check(not misuse, "used outside of the reactor thread: %r" % misuse)
        x.equal([], reactor.errors, "errors in the reactor")
        for port in reactor.udp:
            for data, address in port.written:
                x.equal(("192.0.2.1", 8125), address, "where it is sent")
        names = [n for script in scripts for n in script]
        for name in names:
            x.check(sent.count(name) < 2, "%s is sent %d times" % (
                name, sent.count(name)))
            x.equal(1, len(results.get(name, [])),
                    "calls of the callback of %s" % name)
            size = len(name) + 4
            if sent.count(name):
                x.equal([size], results[name], "result of %s" % name)
            else:
                x.check(closings and results[name] == [None],
                        "%s is lost" % name)
        for script in scripts:
            got = [n for n in sent if n in script]
            x.equal([n for n in script if n in got], got,
                    "order of the messages of thread %s" % script[0][0])
        x.state((tuple(sent), scheduler.points))
        x.outcome(tuple(sent))
    return body


def cases(tier):
    thorough = tier == "thorough"
    bound = 3 if thorough else 2
    two = [["a1", "a2"] if thorough else ["a1"], ["b1"]]
    yield Case("resolving", explored(HOST, [["a1", "a2"]], [
        "open", "resolve", "turn"]), bound=bound, split=60)
    yield Case("opening", explored(HOST, [["a1", "a2"]], [
        "resolve", "open", "turn"]), bound=bound, split=60)
    yield Case("address", explored("192.0.2.1", [["a1", "a2"]], [
        "open", "turn"]), bound=bound, split=60)
    yield Case("resolving-two", explored(HOST, two, [
        "open", "resolve", "turn"]), bound=bound, split=100)
    yield Case("opening-two", explored(HOST, two, [
        "resolve", "open", "turn"]), bound=bound, split=100)
    yield Case("opened", explored(HOST, two, ["turn", "resolve", "turn"],
                                  opened=True), bound=bound, split=100)
    yield Case("reopening", explored("192.0.2.1", [["a1", "a2", "a3"]], [
        "turn", "close", "open", "turn"], opened=True), bound=bound,
        split=100)
    yield Case("reopening-two", explored("192.0.2.1", two, [
        "close", "open"], opened=True), bound=bound, split=100)
    if thorough:
        yield Case("three", explored(HOST, [["a1"], ["b1"], ["c1"]], [
            "open", "resolve", "turn"]), bound=3, split=200)
