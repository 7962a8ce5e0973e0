"""What arrives by UDP and TCP, however it is cut and interleaved."""
from core import Case, sequences
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "lines are shorter than the 16384 bytes that LineReceiver takes",
    "ports and connections are fakes with Twisted's interface"]

PING, PONG = "ping", "pong!"


class Failing(Exception):
    pass


class Processor(object):

    def __init__(self):
        self.got = []

    def process(self, message):
        self.got.append(message)
        if message.startswith("bad"):
            raise Failing(message)


class Server(object):

    def __init__(self, x, ping=PING, pong=PONG):
        from txstatsd.server.protocol import (
            StatsDServerProtocol, StatsDTCPServerFactory)
        reactor.reset()
        self.x = x
        self.ping = ping
        self.processor = Processor()
        self.udp = reactor.listenUDP(8125, StatsDServerProtocol(
            self.processor, monitor_message=ping, monitor_response=pong))
        self.tcp = reactor.listenTCP(8126, StatsDTCPServerFactory(
            self.processor, monitor_message=ping, monitor_response=pong))

    def verify(self, expected, what):
        reactor.settle()
        self.x.equal(expected, self.processor.got, what)
        self.x.check(all(isinstance(e, Failing) for e in reactor.errors),
                     "errors in the reactor: %r" % reactor.errors)


def cut(x, stream, cuts=None):
    """All the ways of cutting the stream (in so many places)."""
    pieces, start = [], 0
    for end in range(1, len(stream)):
        if cuts is not None and len(pieces) >= cuts:
            break
        if x.choose(2):
            pieces.append(stream[start:end])
            start = end
    return pieces + [stream[start:]]


def lines_of(stream):
    lines = []
    rest = stream
    while "\r\n" in rest:
        line, rest = rest.split("\r\n", 1)
        lines.append(line)
    return lines


def segments(streams, cuts=None):
    def body(x):
        stream = x.pick(streams)
        server = Server(x)
        connection = server.tcp.connect()
        turns = x.choose(2)
        for piece in cut(x, stream, cuts):
            connection.receive(piece)
            x.op(piece)
            if turns:
                reactor.turn()
        if x.choose(2):
            connection.drop()
        lines = lines_of(stream)
        server.verify([l for l in lines if l != PING],
                      "processed of %r" % stream)
        x.equal(PONG * lines.count(PING), connection.value(),
                "answered to %r" % stream)
        x.outcome(stream)
        x.state((stream, connection.connected))
    return body


def strings(length):
    """Every string over CR, LF and a letter, in every cut."""
    streams = ["".join(s) for s in sequences("a\r\n", length)]

    def body(x):
        stream = x.pick(streams)
        pieces = cut(x, stream)
        server = Server(x)
        connection = server.tcp.connect()
        for piece in pieces:
            connection.receive(piece)
            x.op(piece)
        connection.receive("\n\r\n")
        server.verify(lines_of(stream + "\n\r\n"),
                      "processed of %r" % (pieces,))
        x.state((stream, len(pieces)))
    return body


def interleaved(depth):
    """Two connections, datagrams, turns, failures and lost connections."""
    pieces = {"A": ["a1:1|c\r\nbad", "2\r\n" + PING, "\r\na3:1|c\r", "\na4",
                    ":1|c\r\n"],
              "B": [PING + "\r\nb1:1|c\r\nb2", ":2|c\r\nbad3\r\nb4", "\r\n",
                    "b5\r\n"],
              "U": ["u1:1|c", "bad2", PING, "u3\r\nu4", PING + "\n"]}

    def body(x):
        server = Server(x)
        connections = {"A": server.tcp.connect(), "B": server.tcp.connect()}
        left = dict((k, list(v)) for k, v in pieces.items())
        buffers = {"A": "", "B": ""}
        pongs = {"A": 0, "B": 0}
        datagrams = []
        expected = []
        answered = 0
        for _ in range(depth):
            moves = [k for k in "ABU" if left[k]]
            if reactor.due():
                moves.append("turn")
            moves.append("lose")
            move = x.pick(moves)
            x.op(move)
            if move == "turn":
                reactor.turn()
            elif move == "lose":
                if connections["B"].connected:
                    connections["B"].drop()
                    left["B"] = []
            elif move == "U":
                data = left["U"].pop(0)
                address = ("192.0.2.5", 1000 + len(left["U"]))
                server.udp.protocol.datagramReceived(data, address)
                if data == PING:
                    datagrams.append((PONG, address))
                else:
                    expected.append(data)
            else:
                data = left[move].pop(0)
                connections[move].receive(data)
                buffers[move] += data
                lines = lines_of(buffers[move])
                for line in lines:
                    buffers[move] = buffers[move][len(line) + 2:]
                    if line == PING:
                        pongs[move] += 1
                    else:
                        expected.append(line)
            x.state((len(expected), len(server.processor.got),
                     tuple(sorted((k, len(v)) for k, v in left.items()))))
        server.verify(expected, "processed")
        x.equal(datagrams, server.udp.written, "datagrams sent in answer")
        for k in "AB":
            x.equal(PONG * pongs[k], connections[k].value(),
                    "answers to connection %s" % k)
        x.outcome(tuple(expected))
    return body


def monitors(x):
    """Only the very message is answered."""
    ping = x.pick([PING, "a:1|c", "", None, "txstatsd ping"])
    pong = x.pick([PONG, "txstatsd pong"])
    message = x.pick([PING, "a:1|c", "", "None", "txstatsd ping", " ping",
                      "ping ", "PING", "ping:1|c", "pin", "pingping",
                      "ping\n", "\tping"])
    repeat = x.choose(3) + 1
    transport = x.choose(2)
    server = Server(x, ping, pong)
    x.op((ping, message))
    expected = [] if message == ping else [message] * repeat
    if transport:
        connection = server.tcp.connect()
        connection.receive((message + "\r\n") * repeat)
        server.verify(expected, "processed")
        x.equal(pong * (repeat - len(expected)), connection.value(), "answer")
    else:
        for n in range(repeat):
            server.udp.protocol.datagramReceived(
                message, ("192.0.2.%d" % n, 2000 + n))
        server.verify(expected, "processed")
        x.equal([(pong, ("192.0.2.%d" % n, 2000 + n))
                 for n in range(repeat - len(expected))], server.udp.written,
                "answers")


def long_lines(x):
    """Lines that take many segments, and many lines in one segment."""
    size = x.pick([1, 1000, 8191, 16000, 16382])
    count = x.pick([1, 2, 50])
    step = x.pick([1, 7, 1460, 4096, 65536])
    stream = "".join("%s%d\r\n" % ("k" * (size - len(str(n))), n)
                     for n in range(count))
    if len(stream) / step > 50000:
        return
    server = Server(x)
    connection = server.tcp.connect()
    for start in range(0, len(stream), step):
        connection.receive(stream[start:start + step])
    x.op((size, count, step))
    server.verify(lines_of(stream), "processed")


def sizes(x):
    """Large and small datagrams and lines, in the order they came in."""
    from_tcp = x.choose(2)
    server = Server(x)
    connection = server.tcp.connect()
    expected = []
    for number in range(3):
        size = x.pick([1, 9, 511, 513, 1400, 1473, 8193, 16384 - 2, 65507])
        if size == 65507 and from_tcp:
            size = 4097
        message = ("%d" % number + "k" * size)[:size]
        expected.append(message)
        x.op(size)
        if from_tcp and number != 1:
            connection.receive(message + "\r\n")
        else:
            server.udp.protocol.datagramReceived(message, ("192.0.2.5", 5))
        if x.choose(2):
            reactor.turn()
    server.verify(expected, "processed")
    x.state((from_tcp, tuple(map(len, expected))))


def cases(tier):
    thorough = tier == "thorough"
    short = ["a:1|c\r\nping\r\n", "ping\r\na:1|c\r\n", "x\r\n\r\ny\r\nz",
             "bad\r\na\r\nbad\r\n", "\r\r\n\n\r\n", "ping\rping\r\n"]
    yield Case("segments", segments(short), split=100)
    yield Case("segments-long", segments(
        ["stats.a:1|c\r\nping\r\nbad line\r\nstats.b:3|ms\r\nping\r\n",
         "u\xc3\xa9 x/y:1|c|@0.1\r\n\x00\xff\r\n", "ping\r\n" * 6],
        4 if thorough else 2), split=50)
    yield Case("strings", strings(7 if thorough else 5), split=50)
    yield Case("interleaved", interleaved(9 if thorough else 7), split=100)
    yield Case("monitors", monitors, split=8)
    yield Case("long", long_lines, split=8)
    yield Case("sizes", sizes, split=40)
