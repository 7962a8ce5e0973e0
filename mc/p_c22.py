"""Sampling, over every draw of a grid."""
from core import Case
import ref
import seams

ASSUMPTIONS = [
    "the random source is uniform on [0, 1) and its draws are independent; "
    "it is explored at the midpoints of a grid of equal cells, which tells "
    "probabilities that are multiples of the cell exactly",
    "the samples of one call are decided by draws made in that call"]


class Grid(object):
    """Draws that the explorer decides."""

    def __init__(self, x, cells):
        self.x = x
        self.cells = cells
        self.draws = 0

    def random(self):
        self.draws += 1
        return (self.x.choose(self.cells) + 0.5) / self.cells

    def randint(self, low, high):
        size = high - low + 1
        return low + int(self.random() * size)


class Fixed(object):

    def __init__(self, value):
        self.value = value

    def random(self):
        return self.value

    def randint(self, low, high):
        return low + int(self.value * (high - low + 1))


class Connection(object):

    def __init__(self):
        self.sent = []

    def write(self, data, *args):
        self.sent.append(data)


def factories():
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    return [Metrics, ExtendedMetrics]


METHODS = [("increment", 3), ("decrement", 2), ("gauge", 7), ("meter", 4),
           ("timing", 0.5)]


def probability(cells):
    """The share of draws that send, and the total that the server sees."""
    def body(x):
        from txstatsd.server.processor import MessageProcessor
        rate = x.pick([0.0, 0.001, 0.01, 0.1, 0.25, 1 / 3.0, 0.5, 0.75, 0.9,
                       0.99, 0.999, 1, 1.0, 1.5])
        factory = factories()[x.choose(2)]
        method, value = x.pick(METHODS)
        connection = Connection()
        metrics = factory(connection, "")
        sent = 0
        for cell in range(cells):
            connection.sent = []
            seams.rng.oracle = Fixed((cell + 0.5) / cells)
            getattr(metrics, method)("n", value, sample_rate=rate)
            x.op()
            x.check(len(connection.sent) < 2, "%r" % connection.sent)
            sent += len(connection.sent)
            for message in connection.sent:
                extra = message.split("|")[2:]
                if rate < 1:
                    x.check(len(extra) == 1 and extra[0][:1] == "@" and
                            ref.close(float(extra[0][1:]), rate, 1e-9),
                            "rate %r is sent as %r" % (rate, message))
                else:
                    x.equal([], extra, "extra fields with rate %r" % rate)
        seams.rng.oracle = None
        expected = min(rate, 1.0) * cells
        x.check(abs(sent - expected) <= 0.51, "%s with rate %r sent in %d "
                "of %d equally likely cases" % (method, rate, sent, cells))
        x.state((rate, method, factory.__name__))
        x.outcome((rate, sent))
        if method in ("increment", "decrement") and rate and (
                factory.__name__ == "Metrics" and abs(
                    sent - expected) < 1e-9):
            processor = MessageProcessor(time_function=seams.clock)
            connection.write = processor.process
            for cell in range(cells):
                seams.rng.oracle = Fixed((cell + 0.5) / cells)
                getattr(metrics, method)("n", value, sample_rate=rate)
            seams.rng.oracle = None
            totals = [v for p, v, t in processor.flush()
                      if p == "stats_counts.n"]
            wanted = value * cells * (1 if method == "increment" else -1)
            x.check(ref.close(wanted, totals[0], 1e-6), "the server counted "
                    "%r of %r with rate %r" % (totals[0], wanted, rate))
    return body


def independence(cells, calls):
    """Each call is decided by itself: sent for its share of the draws,
    whatever was drawn for the others."""
    rates = [0.2, 0.5, 0.8] if cells % 2 == 0 else [0.2, 0.6]

    def body(x):
        seams.rng.oracle = None
        plan = [(x.pick(METHODS[::2] if calls > 2 else METHODS),
                 x.pick(["a", "b"]), x.pick(rates + [1]))
                for _ in range(calls)]
        factory = factories()[x.choose(2)]
        counts = {}
        total = cells ** calls
        for number in range(total):
            connection = Connection()
            metrics = factory(connection, "")
            digits, rest, history = [], number, []
            for (method, value), name, rate in plan:
                seams.rng.oracle = Fixed((rest % cells + 0.5) / cells)
                rest //= cells
                before = len(connection.sent)
                getattr(metrics, method)(name, value, sample_rate=rate)
                history.append(len(connection.sent) - before)
            counts[tuple(history)] = counts.get(tuple(history), 0) + 1
            x.op()
        seams.rng.oracle = None
        patterns = [()]
        for (method, value), name, rate in plan:
            patterns = [p + (b,) for p in patterns for b in (0, 1)]
        for pattern in patterns:
            expected = float(total)
            for sent, (_, name, rate) in zip(pattern, plan):
                expected *= rate if sent else 1 - rate
            x.check(abs(expected - counts.get(pattern, 0)) < 1e-6,
                    "%r: sent %r in %d of %d equally likely cases and not "
                    "in %g" % (plan, pattern, counts.get(pattern, 0), total,
                               expected))
        x.check(set(counts) <= set(patterns), "%r" % counts)
        x.state(tuple(plan))
        x.outcome(tuple(sorted(counts.items())))
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("probability", probability(1000), split=14)
    if thorough:
        yield Case("probability-fine", probability(20000), split=14)
    yield Case("pairs", independence(10, 2), split=100)
    yield Case("triples", independence(5, 3), split=50)
