"""Distinct counts over sliding windows."""
import math

from core import Case
import ref
import seams

ASSUMPTIONS = [
    "the clock does not go backwards and is past January 1st, 1970; an item "
    "exactly as old as a window may be in it or not; the hash tables are "
    "those drawn from VERIF_SEED, two sets of them"]

WINDOWS = [(".count", None), (".count_1min", 60), (".count_1hour", 3600),
           (".count_1day", 86400)]
GROUPS = {"one": ["x"], "few": ["f%d" % n for n in range(6)],
          "many": ["%dm" % n for n in range(24)],
          "mixed": ["f%d" % n for n in range(3)] +
                   ["%dm" % n for n in range(0, 24, 3)],
          "bytes": ["%s:" % chr(n)
                    for n in range(33, 256, 9) if chr(n) not in "|"]}


class Tables(object):
    """Random numbers drawn once, and used again and again."""

    drawn = {}

    def __init__(self, which):
        key = (seams.seed, which)
        if key not in self.drawn:
            seams.reseed(seams.seed * 1000 + which)
            self.drawn[key] = [
                seams.rng.getrandbits(32) % 0xFFFFFFFF for _ in range(20000)]
        self.numbers = self.drawn[key]
        self.next = 0

    def randint(self, low, high):
        self.next += 1
        return low + self.numbers[self.next - 1] % (high - low + 1)


def reporter(table):
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    seams.rng.oracle = Tables(table)
    return DistinctMetricFactory().build_metric(
        "p", "n", wall_time_func=seams.clock)


def figures(metric):
    timestamp = int(seams.clock.now)
    result = {}
    for path, value, when in metric.flush(10, timestamp):
        assert path.startswith("p.n.") and when == timestamp
        result[path[3:]] = value
    return result


CACHE = {}


def fresh(table, items):
    """The estimate of a new counter that is given these items, once each."""
    key = (seams.seed, table, frozenset(items))
    if key not in CACHE:
        metric = reporter(table)
        for item in sorted(items):
            metric.process([item, "pd"])
        CACHE[key] = figures(metric)[".count"]
    return CACHE[key]


def verify(x, table, metric, last):
    now = seams.clock.now
    got = figures(metric)
    x.equal(sorted(suffix for suffix, _ in WINDOWS), sorted(got),
            "the figures")
    for suffix, length in WINDOWS:
        inside = [i for i, when in last.items()
                  if length is None or now - when < length]
        edge = [i for i, when in last.items() if now - when == length]
        expected = [fresh(table, inside)]
        if edge:
            expected.append(fresh(table, inside + edge))
        x.check(got[suffix] in expected,
                "%s of %d items, %d of them in the window, is %r and not %r" %
                (suffix, len(last), len(inside), got[suffix], expected))
    return got


def histories(depth, groups, gaps):
    def body(x):
        table = x.choose(2)
        seams.clock.reset()
        metric = reporter(table)
        last = {}
        for number in range(depth):
            what = x.pick(groups)
            before = figures(metric)
            items = GROUPS[what]
            twice = number % 2
            for item in items + items[::-1] * twice:
                metric.process([item, "pd"])
                last[item] = seams.clock.now
            x.op("%s at %d" % (what, seams.clock.now))
            after = verify(x, table, metric, last)
            for suffix in after:
                x.check(after[suffix] >= before[suffix],
                        "%s fell as items were added" % suffix)
            seams.clock.now += x.pick(gaps)
            later = verify(x, table, metric, last)
            for suffix in after:
                x.check(after[suffix] >= later[suffix],
                        "%s rose as time passed" % suffix)
            x.state((table, tuple(sorted(
                (i, seams.clock.now - w) for i, w in last.items()))))
        x.outcome(tuple(sorted(later.items())))
    return body


def orders(x):
    """Every order of some items, with repetitions."""
    from core import permutations
    table = x.choose(2)
    items = ["a", "b", "ab", "ba", ""]
    order = x.pick(permutations(items))
    seams.clock.reset()
    metric = reporter(table)
    last = {}
    for n, item in enumerate(order):
        for again in order[:n + 1]:
            metric.process([again, "pd"])
            last[again] = seams.clock.now
        x.op(item)
        seams.clock.now += 25
        verify(x, table, metric, last)
    x.state(tuple(order))


def counters(depth):
    """Small counters, asked about every window."""
    def body(x):
        from txstatsd.metrics.distinctmetric import SlidingDistinctCounter
        hashes, buckets = x.pick([(1, 2), (1, 4), (3, 3), (2, 32)])

        def build():
            seams.rng.oracle = Tables(hashes)
            return SlidingDistinctCounter(hashes, buckets)
        counter = build()
        last = {}
        now = 1
        for _ in range(depth):
            item = x.pick(["a", "b", "c", "d"])
            now += x.choose(2)
            x.op((now, item))
            counter.add(now, item)
            last[item] = now
        previous = None
        for since in range(0, now + 2):
            inside = frozenset(i for i, when in last.items() if when > since)
            key = (seams.seed, hashes, buckets, inside)
            if key not in CACHE:
                other = build()
                for item in inside:
                    other.add(1, item)
                CACHE[key] = other.distinct()
            got = counter.distinct(since)
            x.equal(CACHE[key], got, "%d hashes, %d buckets, since %d: "
                    "%r" % (hashes, buckets, since, last))
            x.check(previous is None or got <= previous,
                    "a shorter window has more items")
            previous = got
        x.equal(counter.distinct(0), counter.distinct(), "all time")
        x.state((hashes, buckets, tuple(sorted(last.items()))))
    return body


def processors(depth):
    """The same through both processors, next to other metrics."""
    def body(x):
        from twisted.plugins.distinct_plugin import DistinctMetricFactory
        from txstatsd.server.processor import MessageProcessor
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        seams.clock.reset()
        seams.rng.oracle = Tables(0)
        plugins = [DistinctMetricFactory()]
        if x.choose(2):
            processor = MessageProcessor(
                time_function=seams.clock, plugins=plugins)
            prefix = "stats.pdistinct."
        else:
            processor = ConfigurableMessageProcessor(
                time_function=seams.clock, message_prefix="pfx",
                internal_metrics_prefix="s.", plugins=plugins)
            prefix = "pfx."
        last = {}

        def check():
            now = seams.clock.now
            got = dict((m[0], m[1]) for m in processor.flush(10000)
                       if m[0].startswith(prefix + "d1.") or
                       m[0].startswith(prefix + "d2."))
            expected = {}
            for number, name in enumerate(sorted(last, key=order.index)):
                for suffix, length in WINDOWS:
                    inside = [i for i, when in last[name].items()
                              if length is None or now - when < length]
                    # Each name has hash tables of its own.
                    expected[prefix + name + suffix] = estimates(
                        number, inside)
            x.equal(expected, got, "the flush")
        order = []

        def estimates(number, items):
            key = (seams.seed, "p", number, frozenset(items))
            if key not in CACHE:
                seams.rng.oracle = Tables(0)
                for _ in range(number + 1):
                    metric = DistinctMetricFactory().build_metric(
                        "p", "n", wall_time_func=seams.clock)
                for item in items:
                    metric.process([item, "pd"])
                CACHE[key] = figures(metric)[".count"]
            return CACHE[key]
        for _ in range(depth):
            what = x.choose(7)
            if what < 4:
                name = ["d1", "d2"][what % 2]
                if name not in order:
                    # Its tables are drawn now: put the generator where it
                    # is after those of the names before.
                    seams.rng.oracle = Tables(0)
                    for _ in order:
                        DistinctMetricFactory().build_metric(
                            "p", "n", wall_time_func=seams.clock)
                    order.append(name)
                for item in GROUPS[["many", "few"][what // 2]]:
                    processor.process("%s:%s|pd" % (name, item))
                    last.setdefault(name, {})[item.strip()] = seams.clock.now
                x.op("%s %d" % (name, what // 2))
            elif what == 4:
                x.op("other")
                processor.process("d:1|c")
                processor.process("e:1|ms")
                processor.process("d1|pd")
                processor.process("d1:x|pd|1|2")
            else:
                gap = [59, 90][what - 5]
                x.op("wait %d" % gap)
                seams.clock.now += gap
                check()
        check()
        x.state(tuple(sorted((n, tuple(sorted(v.items())))
                             for n, v in last.items())))
    return body


ITEMS = {"words": lambda n: "item%d" % n, "numbers": lambda n: "%d" % n,
         "odd": lambda n: "%s%s aaaaaaaaaa" % (chr(33 + n % 91),
                                               chr(33 + n // 91))}


def accuracy(tables, most):
    """The estimates are near the numbers of items: the root mean square of
    their errors, in powers of two, is 0.15 to 0.25 (one draw of the tables
    in a hundred gives 0.35)."""
    def body(x):
        kind = x.pick(sorted(ITEMS))
        seams.clock.reset()
        metrics = [reporter(number) for number in range(tables)]
        sizes = [n for n in (8, 16, 32, 64, 128, 256, 512) if n <= most]
        x.op("%d %s" % (most, kind))
        for n in range(sizes[-1]):
            for metric in metrics:
                metric.process([ITEMS[kind](n), "pd"])
            if n + 1 in sizes:
                got = [figures(metric)[".count"] for metric in metrics]
                x.check(min(got) > 0, "no items: %r" % (got,))
                error = sum(math.log(1.0 * g / (n + 1), 2) ** 2
                            for g in got) / len(got)
                x.check(error < 0.36, "%d different items are taken for %r" %
                        (n + 1, sorted(got)))
        seams.clock.now += 3000
        for n in range(8):
            for metric in metrics:
                metric.process([ITEMS[kind](n + 5), "pd"])
        now = [figures(metric) for metric in metrics]
        error = sum(math.log(g[".count_1min"] / 8., 2) ** 2
                    for g in now) / len(now)
        x.check(error < 0.49, "8 items in the last minute are taken for %r" %
                sorted(g[".count_1min"] for g in now))
        x.equal(got, [g[".count"] for g in now], "the count of all time")
        x.state(kind)
    return body


def cases(tier):
    thorough = tier == "thorough"
    gaps = [0, 0.75, 1, 59.5, 60.25, 61, 3599, 3601, 86399, 86400.75]
    yield Case("histories", histories(
        3 if thorough else 2, ["few", "many", "mixed"] +
        (["one", "bytes"] if thorough else []),
        gaps + ([60, 3600, 86400] if thorough else [3600])), split=60)
    yield Case("long", histories(
        4 if thorough else 3, ["few", "mixed"], [30, 60.125]),
        split=60)
    yield Case("orders", orders, split=40)
    yield Case("counters", counters(5 if thorough else 4), split=60)
    yield Case("accuracy", accuracy(40 if thorough else 20,
                                    512 if thorough else 128), split=3)
    yield Case("processors", processors(4 if thorough else 3), split=40)
