"""The consistent hash ring, through every history of its nodes."""
from core import Case, permutations

ASSUMPTIONS = [
    "keys are ASCII; nodes are told apart by their text and do not share a "
    "position on the ring"]

NODES = ["10.0.0.1:8125", "10.0.0.2:8125", "stats.example.com:8126", "d"]
KEYS = (["k%d" % n for n in range(16)] +
        ["stats.web%d.requests.count" % n for n in range(16)] +
        ["", "a", u"unicode.key", " spaced key ", "a:b", "x" * 300])
cache = {}


class Node(object):
    """A client: known by its text alone."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def ring_of(nodes, replicas):
    from txstatsd.hashing import ConsistentHashRing
    if replicas is None:
        return ConsistentHashRing(nodes)
    return ConsistentHashRing(nodes, replicas)


def owners(nodes, replicas, keys=KEYS):
    """Who owns which key, on a ring that was made just so."""
    index = (tuple(sorted(nodes)), replicas, len(keys))
    if index not in cache:
        ring = ring_of(sorted(nodes), replicas)
        cache[index] = [ring.get_node(key) for key in keys]
    return cache[index]


def histories(replicas, depth, count=4):
    nodes = NODES[:count]

    def body(x):
        initial = x.pick([[], nodes[:1], nodes[1:3], nodes])
        ring = ring_of(initial, replicas)
        present = set(initial)
        now = [ring.get_node(key) for key in KEYS] if present else None
        for _ in range(depth):
            before = now
            node = nodes[x.choose(count)]
            if x.choose(2):
                # Adding one that is there already changes nothing.
                x.op("add " + node)
                ring.add_node(node)
                added, removed = {node} - present, set()
                present.add(node)
            else:
                x.op("remove " + node)
                ring.remove_node(node)
                added, removed = set(), {node} & present
                present.discard(node)
            x.state((tuple(sorted(present)), replicas))
            now = None
            if not present:
                continue
            now = [ring.get_node(key) for key in KEYS]
            x.equal(owners(present, replicas), now,
                    "owners of the keys with nodes %r" % sorted(present))
            if before is None:
                continue
            for key, was, became in zip(KEYS, before, now):
                if was == became:
                    continue
                x.check(was in removed or became in added,
                        "%r moved from %s to %s" % (key, was, became))
            x.equal(present, set(ring.nodes), "nodes of the ring")
        if present:
            preferences(x, ring, present, replicas, KEYS[:12])
        x.outcome((tuple(sorted(present)), replicas))
    return body


def preferences(x, ring, present, replicas, keys):
    for key in keys:
        order = list(ring.get_nodes(key))
        x.op()
        x.equal(sorted(present), sorted(order),
                "nodes in the preference list of %r" % key)
        left = set(present)
        for node in order:
            position = KEYS.index(key)
            x.equal(owners(left, replicas)[position], node,
                    "the owner of %r once only %r are left" % (
                        key, sorted(left)))
            left.discard(node)


def order_of_adding(x):
    """Every order of adding five nodes, with the real number of replicas."""
    replicas = x.pick([1, 2, 7, 64])
    nodes = NODES + ["e"]
    orders = permutations(nodes)
    order = x.pick(orders)
    ring = ring_of(order, replicas)
    x.op(order)
    x.equal(owners(nodes, replicas), [ring.get_node(k) for k in KEYS],
            "owners with the nodes in order %r" % order)
    preferences(x, ring, set(nodes), replicas, KEYS[:3])


def real_size(x):
    """The ring as clients make it: spread evenly, and still consistent."""
    nodes = NODES[:x.choose(3) + 2]
    ring = ring_of([Node(text) for text in nodes], None)
    keys = ["metric.%d" % n for n in range(3000)]
    got = [str(ring.get_node(key)) for key in keys]
    x.equal(owners(nodes, None, keys), got, "owners of the keys")
    for node in nodes:
        share = got.count(node) * len(nodes) / float(len(keys))
        x.check(0.7 < share < 1.3, "%s has %.2f of its fair share" % (
            node, share))
    gone = x.pick(nodes)
    victim = [n for n in ring.nodes if str(n) == gone][0]
    following = [[str(n) for n in ring.get_nodes(key)][:2]
                 for key in keys[:300]]
    ring.remove_node(victim)
    x.op(gone)
    for key, was in zip(keys, got):
        if was != gone:
            x.equal(was, str(ring.get_node(key)), "the owner of %r after %s "
                    "is removed" % (key, gone))
    for key, (first, second) in zip(keys, following):
        if first == gone:
            x.equal(second, str(ring.get_node(key)), "the second of %r" % key)
    ring.add_node(Node(gone))
    x.equal(got, [str(ring.get_node(key)) for key in keys],
            "owners once %s is back" % gone)
    for n in (n for n in nodes if n != gone):
        ring.remove_node([m for m in ring.nodes if str(m) == n][0])
    x.equal([gone] * len(keys), [str(ring.get_node(key)) for key in keys],
            "owners when only %s is left" % gone)
    x.state((len(nodes), gone))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("histories-1", histories(1, 5 if thorough else 4), split=50)
    yield Case("histories-3", histories(3, 5 if thorough else 4), split=50)
    yield Case("histories-16", histories(16, 4 if thorough else 3), split=50)
    yield Case("histories-long", histories(2, 7 if thorough else 5, 2),
               split=50)
    yield Case("orders", order_of_adding, split=16)
    yield Case("real-size", real_size, split=9)
