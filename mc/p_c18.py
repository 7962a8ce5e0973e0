"""The blocking UDP client, with every error the network can answer with."""
import errno
import socket

from core import Case

ASSUMPTIONS = [
    "the socket module is replaced by one that records and fails on demand; "
    "errors are those of sendto and getaddrinfo",
    "a client is not connected again before it is disconnected"]

FAULTS = [None, socket.error(errno.EAGAIN, "would block"),
          socket.error(errno.ECONNREFUSED, "refused"),
          socket.error(errno.EMSGSIZE, "too long"),
          socket.gaierror(8, "not known"), socket.timeout("timed out")]


class Network(object):

    def __init__(self):
        self.sockets = []
        self.lookups = []
        self.answers = {}
        self.faults = lambda: None
        self.fault = None


class FakeSocket(object):

    def __init__(self, network, family=None, kind=None, proto=0):
        self.network = network
        self.kind = (family, kind)
        self.blocking = True
        self.open = True
        self.sent = []
        self.peer = None
        network.sockets.append(self)

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, seconds):
        self.blocking = seconds is None or seconds > 0

    def connect(self, address):
        self.peer = address

    def send(self, data, *flags):
        return self.sendto(data, self.peer)

    def sendto(self, data, *rest):
        address = rest[-1]
        if not self.open:
            raise socket.error(errno.EBADF, "bad file descriptor")
        if self.blocking:
            raise AssertionError("a write that may block")
        fault = self.network.faults()
        self.sent.append((data, tuple(address), fault))
        if fault is not None:
            raise fault
        return len(data)

    def fileno(self):
        return 99

    def getsockname(self):
        return ("0.0.0.0", 1)

    def close(self):
        self.open = False

    def shutdown(self, how):
        pass


def install(network):
    import txstatsd.client
    originals = {}

    def make(*args, **kwargs):
        return FakeSocket(network, *args, **kwargs)

    def getaddrinfo(host, port, family=0, kind=0, proto=0, flags=0):
        network.lookups.append((host, port))
        answer = network.answers.get((host, port))
        if isinstance(answer, Exception):
            raise answer
        return [(family, kind, proto, "", a) for a in answer]

    def gethostbyname(host):
        for (known, port), answer in network.answers.items():
            if known == host:
                if isinstance(answer, Exception):
                    raise answer
                return answer[0][0]
        raise socket.gaierror(8, "not known")
    for name, value in (("socket", make), ("getaddrinfo", getaddrinfo),
                        ("gethostbyname", gethostbyname)):
        originals[name] = getattr(socket, name)
        setattr(socket, name, value)
    return originals


def restore(originals):
    for name in originals:
        setattr(socket, name, originals[name])


def patched(function):
    def body(x):
        import txstatsd.client
        network = Network()
        originals = install(network)
        try:
            function(x, network)
        finally:
            restore(originals)
    return body


def histories(depth):
    @patched
    def body(x, network):
        from txstatsd.client import UdpStatsDClient
        host, port, address = x.pick([
            ("stats.example.com", 8125, ("192.0.2.1", 8125)),
            ("192.0.2.4", 9, ("192.0.2.4", 9)),
            (None, None, None), (None, 8125, None),
            ("stats.example.com", None, None)])
        network.answers[host, port] = [address, ("192.0.2.99", 1)]
        client = UdpStatsDClient(host, port)
        if address is not None:
            x.equal("%s:%d" % (host, port), str(client), "the client's text")
        # The name may stand for something else by now.
        network.answers[host, port] = [("192.0.2.66", 66)]
        connected = False
        expected = []
        for number in range(depth):
            moves = ["write", "disconnect"]
            if not connected:
                moves.append("connect")
            move = x.pick(moves)
            x.op(move)
            before = sum(len(s.sent) for s in network.sockets)
            if move == "connect":
                client.connect()
                connected = True
            elif move == "disconnect":
                client.disconnect()
                connected = False
                x.check(not [s for s in network.sockets if s.open],
                        "a socket is left open")
            else:
                data = "m%d:1|c" % number
                if connected and address is not None:
                    fault = FAULTS[x.choose(len(FAULTS),
                                            [0] + [1] * (len(FAULTS) - 1))]
                    network.faults = lambda: fault
                    result = client.write(data)
                    x.equal(None if fault else len(data), result,
                            "result of writing, with %r" % fault)
                    expected.append((data, address))
                else:
                    x.equal(None, client.write(data), "result of writing "
                            "without a connection or an address")
            x.equal(expected, [s[:2] for k in network.sockets
                               for s in k.sent], "datagrams")
            x.check(len([s for s in network.sockets if s.open])
                    <= int(connected), "sockets left open")
            for s in network.sockets:
                x.equal((socket.AF_INET, socket.SOCK_DGRAM), s.kind,
                        "kind of socket")
            x.state((connected, address, len(expected), move))
        x.equal(int(address is not None), len(network.lookups),
                "lookups of the address")
        x.outcome((address, tuple(expected)))
    return body


@patched
def resolution(x, network):
    from txstatsd.client import UdpStatsDClient
    answer = x.pick([
        [("192.0.2.1", 8125)], [("192.0.2.1", 8125), ("192.0.2.2", 8125)], [],
        socket.gaierror(8, "not known"), socket.error(5, "failed"),
        TypeError("getaddrinfo() argument 2")])
    x.op(repr(answer))
    network.answers["h", 8125] = answer
    try:
        client = UdpStatsDClient("h", 8125)
    except ValueError:
        x.check(not answer or isinstance(answer, Exception),
                "an address that can be resolved is refused")
        return
    x.check(isinstance(answer, list) and answer,
            "an address that cannot be resolved is accepted")
    client.connect()
    client.write("a:1|c")
    x.equal([("a:1|c", answer[0], None)], network.sockets[0].sent, "sent")


@patched
def several(x, network):
    """Clients have nothing to do with each other."""
    from txstatsd.client import UdpStatsDClient
    clients, connected, counts = [], [False, False], [[], []]
    for n in range(2):
        network.answers["h%d" % n, n] = [("192.0.2.%d" % n, n)]
        clients.append(UdpStatsDClient("h%d" % n, n))
    for number in range(6):
        n = x.choose(2)
        move = x.choose(2)
        x.op((n, move))
        if move == 0:
            (clients[n].disconnect if connected[n] else clients[n].connect)()
            connected[n] = not connected[n]
        else:
            fault = FAULTS[x.choose(2, [0, 1])]
            network.faults = lambda: fault
            clients[n].write("m%d" % number)
            if connected[n]:
                counts[n].append("m%d" % number)
        for m in range(2):
            x.equal(counts[m], [d for s in network.sockets
                                for d, a, f in s.sent
                                if a == ("192.0.2.%d" % m, m)], "datagrams")
        x.equal(sum(connected), len([s for s in network.sockets if s.open]),
                "open sockets")
        x.state((tuple(connected), len(counts[0]), len(counts[1])))


@patched
def errors(x, network):
    """Every error there is, once or for good, with every size."""
    from txstatsd.client import UdpStatsDClient
    numbers = sorted(n for n in errno.errorcode if isinstance(n, int))
    made = [socket.error(n, errno.errorcode[n]) for n in numbers] + [
        socket.gaierror(n, "x") for n in (-2, -3, 2, 4, 8)] + [
        socket.herror(1, "x"), socket.timeout("timed out"),
        socket.error("unknown"), socket.error()]
    fault = x.pick(made)
    lasting = x.choose(2)
    size = x.pick([0, 1, 508, 1472, 65507])
    network.answers["h", 1] = [("192.0.2.1", 1)]
    client = UdpStatsDClient("h", 1)
    client.connect()
    counts = [0]

    def next_fault():
        counts[0] += 1
        return fault if lasting or counts[0] == 2 else None
    network.faults = next_fault
    data = "d" * size
    for number in range(4):
        before = counts[0]
        failed = lasting or number == 1
        x.equal(None if failed else size, client.write(data),
                "result of write %d, with %r" % (number, fault))
        x.op(repr(fault))
        x.equal(before + 1, counts[0], "attempts to send")
    x.equal([(data, ("192.0.2.1", 1))] * 4,
            [s[:2] for k in network.sockets for s in k.sent], "sent")
    x.equal(1, len([s for s in network.sockets if s.open]), "open sockets")
    client.disconnect()
    x.equal(0, len([s for s in network.sockets if s.open]), "open sockets")
    x.state((repr(fault), lasting, size))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("histories", histories(8 if thorough else 7),
               bound=4 if thorough else 3, split=50)
    yield Case("resolution", resolution)
    yield Case("errors", errors, split=40)
    yield Case("several", several, bound=2 if thorough else 1, split=30)
