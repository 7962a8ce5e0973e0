"""The exponentially decaying sample, over draws and times."""
import math

from core import Case
import seams

ASSUMPTIONS = [
    "values are told apart; of values whose priorities are the same (to 1e-9) "
    "any may be kept; the draws are those listed in mc/p_c28.py, the smallest "
    "and the largest that there are included"]

DRAWS = [0.0, 0.5, 0.9, 1 - 2.0 ** -53]


class Draw(object):
    """Answers the next draws."""

    def __init__(self, value):
        self.value = value

    def random(self):
        return self.value


def log_priority(alpha, when, draw, how):
    number = 1.0 - draw if how == "1-u" else draw or 2.0 ** -1074
    return alpha * (when - seams.clock.START) - math.log(number)


def acceptable(values, given, size, alpha, how):
    """Are these the values with the highest priorities?"""
    inside = [log_priority(alpha, w, u, how) for v, w, u in given
              if v in values]
    outside = [log_priority(alpha, w, u, how) for v, w, u in given
               if v not in values]
    return not outside or min(inside) >= max(outside) - 1e-6


def verify(x, sample, given, size, alpha, hows):
    values = sample.get_values()
    x.equal(min(size, len(given)), sample.size(), "size")
    x.equal(min(size, len(given)), len(values), "number of values")
    x.equal(len(values), len(set(values)), "values are there once")
    x.check(set(values) <= set(v for v, _, _ in given), "unknown values")
    # A random number can be had from a draw in two ways: always the same one.
    hows[:] = [how for how in hows
               if acceptable(values, given, size, alpha, how)]
    x.check(hows, "of the values %r a sample of %d (alpha %s) has %r" % (
        [(v, w - seams.clock.START, u) for v, w, u in given], size, alpha,
        values))
    return tuple(sorted(values))


def build(size, alpha, how="argument"):
    from txstatsd.stats.exponentiallydecayingsample import (
        ExponentiallyDecayingSample)
    seams.clock.reset()
    if how == "argument":
        return ExponentiallyDecayingSample(size, alpha, wall_time=seams.clock)
    return ExponentiallyDecayingSample(size, alpha)


# Orders of the values against the order in which they arrive.
VALUES = [[1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1], [3, 6, 1, 5, 2, 4]]


def histories(depth, gaps, sizes, alphas, draws, given_times=False):
    def body(x):
        size = x.pick(sizes)
        alpha = x.pick(alphas)
        names = x.pick(VALUES)
        sample = build(size, alpha)
        given, hows = [], ["1-u", "u"]
        for number in range(depth):
            seams.clock.now += x.pick(gaps) if number else 0
            draw = x.pick(draws)
            when = seams.clock.now
            if given_times:
                when += x.pick([0, -5, 5, 650])
            seams.rng.oracle = Draw(draw)
            x.op((names[number], when, draw))
            if given_times:
                sample.update(names[number], when)
            else:
                sample.update(names[number])
            given.append((names[number], when, draw))
            result = verify(x, sample, given, size, alpha, hows)
        seams.rng.oracle = None
        x.state((size, alpha, tuple(given)))
        x.outcome(result)
    return body


def clearing(x):
    alpha = x.pick([0.015, 0.99])
    size = x.pick([1, 2])
    sample = build(size, alpha, x.pick(["argument", "default"]))
    seams.rng.oracle = Draw(0.999)
    for n in range(x.choose(4)):
        seams.clock.now += x.pick([1, 10000])
        sample.update("old-%d" % n)
        x.op()
    seams.clock.now += x.pick([0, 5, 599, 601, 100000])
    sample.clear()
    x.equal(0, sample.size(), "size after clear")
    x.equal([], sample.get_values(), "values after clear")
    given, hows = [], ["1-u", "u"]
    for number in range(3):
        draw = x.pick([0.0, 0.5])
        seams.rng.oracle = Draw(draw)
        sample.update(VALUES[2][number])
        given.append((VALUES[2][number], seams.clock.now, draw))
        verify(x, sample, given, size, alpha, hows)
        seams.clock.now += x.pick([1, 601])
    seams.rng.oracle = None
    x.state((alpha, size, tuple(given)))


def long_runs(length):
    """Values at a steady pace, over many rescalings."""
    def body(x):
        size = x.pick([1, 3, 10])
        alpha = x.pick([0.015, 0.5, 0.99, 1e-4])
        gap = x.pick([0.1, 7, 100, 599, 601, 5000])
        stride = x.pick([3, 7])
        sample = build(size, alpha)
        given, hows = [], ["1-u", "u"]
        for number in range(length):
            draw = (number * stride % 64) / 64.0
            seams.rng.oracle = Draw(draw)
            value = number * 37 % 1009
            sample.update(value)
            x.op()
            given.append((value, seams.clock.now, draw))
            # Nothing comes back once it is out.
            verify(x, sample, given, size, alpha, hows)
            if len(given) > 40:
                kept = sample.get_values()
                given = ([g for g in given[:-20] if g[0] in kept] +
                         given[-20:])
            seams.clock.now += gap
        seams.rng.oracle = None
        x.state((size, alpha, gap, stride))
        x.outcome(tuple(sorted(sample.get_values())))
    return body


def default_histogram(x):
    """Through the histogram that uses such a sample."""
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    seams.clock.reset()
    histogram = HistogramMetricReporter.using_exponentially_decaying_sample()
    gap = x.pick([0, 1, 601, 100000])
    ahead = x.pick([0, 5])
    seams.rng.oracle = Draw(0.5)
    total = 1028 + ahead
    for n in range(total):
        # The values fall, so that keeping the largest would be wrong.
        histogram.update(total - n)
        x.op()
        if n == 500:
            seams.clock.now += gap
    seams.clock.now += gap + 1
    for n in range(10):
        histogram.update(-n - 1)
    seams.rng.oracle = None
    values = histogram.get_values()
    x.equal(1028, len(values), "size")
    for n in range(10):
        x.check(-n - 1 in values, "a recent value was not kept")
    if gap:
        for n in range(501, total):
            x.check(total - n in values, "a later value was not kept")
    x.state((gap, ahead))


def default_alpha(x):
    """Half a per cent off would show in what is kept."""
    import math
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    gap = x.pick([100, 1000, 40, 650])
    before = x.pick([0, 7, 700])
    outcome = []
    for inverse in (False, True):
        for share in (1.005, 0.995):
            seams.clock.reset()
            histogram = (HistogramMetricReporter.
                         using_exponentially_decaying_sample())
            seams.clock.now += before
            draw = 0.5 * math.exp(-0.015 * gap * share)
            seams.rng.oracle = Draw(draw if inverse else 1 - draw)
            for n in range(1028):
                histogram.update(n)
            seams.clock.now += gap
            seams.rng.oracle = Draw(0.5)
            histogram.update(-1)
            outcome.append(-1 not in histogram.get_values())
    seams.rng.oracle = None
    x.op((before, gap))
    # Either the draw or what is missing to 1 divides the weight.
    x.check(outcome in ([True, False, False, False],
                        [False, False, True, False]),
            "after %d s, values with slightly more and slightly less than "
            "the priority of a new one were kept: %r" % (gap, outcome))
    x.state((before, gap))


def cases(tier):
    thorough = tier == "thorough"
    gaps = [0, 1, 599, 600, 601, 60000, 10.0 ** 7]
    yield Case("histories", histories(
        4 if thorough else 3, gaps, [1, 2], [0.015, 0.99, 0.0], DRAWS),
        split=60)
    yield Case("pauses", histories(
        5 if thorough else 4, [1, 700, 10.0 ** 6], [1, 2, 3], [0.015, 2.5],
        [0.0, 0.75]), split=60)
    yield Case("timestamps", histories(
        4 if thorough else 3, [0, 601, 10.0 ** 6], [1, 2], [0.015],
        [0.0, 0.75], given_times=True), split=40)
    yield Case("clearing", clearing, split=40)
    yield Case("long", long_runs(300 if thorough else 100), split=60)
    yield Case("default-histogram", default_histogram, split=8)
    yield Case("default-alpha", default_alpha, split=4)
