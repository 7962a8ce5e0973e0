"""Which client gets which message."""
from core import Case, permutations

ASSUMPTIONS = [
    "names are ASCII; clients are told apart by their text (HOST:PORT) and do "
    "not share a position on the ring"]

HOSTS = ["10.0.0.1:8125", "10.0.0.2:8125", "10.0.0.3:8125", "h:1"]
NAMES = (["stats.web%d.hits" % n for n in range(12)] +
         ["n%d" % n for n in range(12)] + ["a", "A", "Stats.Web0.Hits", "a b/c", " a ", "", "x" * 100])
VALUES = ["1|c", "2.5|ms", "-3|g", "1|c|@0.1", "12:30|c", "x|m", "|", "",
          "5:6:7|pd"]


class Client(object):

    def __init__(self, text):
        self.text = text
        self.calls = []

    def __str__(self):
        return self.text

    def write(self, data, *args):
        self.calls.append(("write", data))

    def connect(self, *args):
        self.calls.append(("connect",))

    def disconnect(self):
        self.calls.append(("disconnect",))

    def written(self):
        return [c[1] for c in self.calls if c[0] == "write"]


def build(hosts):
    from txstatsd.client import ConsistentHashingClient
    clients = [Client(host) for host in hosts]
    return ConsistentHashingClient(clients), clients


homes = {}


def home(hosts, name):
    """Where the messages of the name go with these clients."""
    key = (tuple(sorted(hosts)), name)
    if key not in homes:
        client, clients = build(sorted(hosts))
        for each in NAMES:
            before = [len(c.calls) for c in clients]
            client.write(each + ":0|c")
            got = [str(c) for c, b in zip(clients, before)
                   if len(c.calls) > b]
            homes[key[0], each] = got
    return homes[key]


def subsets(items):
    result = [[]]
    for item in items:
        result += [s + [item] for s in result]
    return result


def distribution(x):
    """Any set of clients, in any order; all names and values."""
    hosts = x.pick([s for s in subsets(HOSTS) if s])
    order = x.pick(permutations(hosts))
    client, clients = build(order)
    from txstatsd.hashing import ConsistentHashRing
    ring = ConsistentHashRing(clients[::-1])
    x.op(order)
    for name in NAMES:
        for value in VALUES:
            data = "%s:%s" % (name, value)
            before = dict((c, len(c.calls)) for c in clients)
            client.write(data)
            x.op()
            got = [c for c in clients if len(c.calls) > before[c]]
            x.equal(1, len(got), "clients that got %r" % data)
            x.equal([("write", data)], got[0].calls[before[got[0]]:],
                    "what the client got")
            x.check(ring.get_node(name) is got[0], "%r went to %s and the "
                    "ring has %s" % (data, got[0], ring.get_node(name)))
            x.check([str(got[0])] == home(hosts, name), "%r went to %s and "
                    "other messages of that name to %r" % (
                        data, got[0], home(hosts, name)))
        for host in hosts:
            left = [h for h in hosts if h != host]
            if left and home(hosts, name) != [host]:
                x.equal(home(hosts, name), home(left, name),
                        "client for %r without %s" % (name, host))
    x.state(tuple(order))
    x.outcome(tuple(home(hosts, name)[0] for name in NAMES))


def lifecycle(x):
    """Connected, disconnected and written to, in any order."""
    hosts = HOSTS[:x.choose(3) + 1]
    client, clients = build(hosts)
    expected = dict((host, []) for host in hosts)
    for number in range(4):
        move = x.pick(["connect", "disconnect", "write", "other"])
        x.op(move)
        if move in ("connect", "disconnect"):
            getattr(client, move)()
            for host in hosts:
                expected[host].append((move,))
        else:
            name = NAMES[0 if move == "write" else 15]
            client.write("%s:%d|c" % (name, number))
            expected[home(hosts, name)[0]].append(
                ("write", "%s:%d|c" % (name, number)))
        for c in clients:
            x.equal(expected[str(c)], c.calls, "calls of %s" % c)
        x.state((len(hosts), number, move))


def real_clients(x):
    """The same with the clients of the package, as far as their text."""
    from txstatsd.client import ConsistentHashingClient, UdpStatsDClient
    from txstatsd.protocol import TwistedStatsDClient
    from txstatsd.metrics.metrics import Metrics
    from fakereactor import reactor
    reactor.reset()
    order = x.pick(permutations(["192.0.2.1", "192.0.2.2", "192.0.2.3"]))
    kind = x.choose(2)
    clients, got = [], []
    for number, host in enumerate(order):
        if kind:
            client = UdpStatsDClient(host, 8125)
        else:
            client = TwistedStatsDClient.create(host, 8125)
        client.write = lambda data, host=host: got.append((host, data))
        clients.append(client)
    sharded = ConsistentHashingClient(clients)
    metrics = Metrics(sharded, "ns")
    homes = {}
    for name in NAMES[:20]:
        for call in (metrics.increment, metrics.gauge, metrics.meter,
                     metrics.timing):
            del got[:]
            call(name, 1)
            x.op()
            x.equal(1, len(got), "messages sent")
            x.equal(homes.setdefault(name, got[0][0]), got[0][0],
                    "client for %r" % name)
            x.check(got[0][1].startswith("ns.%s:" % name), got[0][1])
    reference = ["192.0.2.1", "192.0.2.2", "192.0.2.3"]
    for name in NAMES[:20]:
        other = []
        clients = []
        for host in reference:
            client = UdpStatsDClient(host, 8125)
            client.write = lambda data, host=host: other.append(host)
            clients.append(client)
        if name in (NAMES[0], NAMES[13]):
            ConsistentHashingClient(clients).write("ns.%s:1|c" % name)
            x.equal(other, [homes[name]], "client for %r" % name)


def cases(tier):
    yield Case("distribution", distribution, split=15)
    yield Case("lifecycle", lifecycle, split=12)
    yield Case("real-clients", real_clients, split=6)
