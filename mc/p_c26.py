"""The statistics of histograms and timers."""
import math
from fractions import Fraction

from core import Case
import ref
import seams

ASSUMPTIONS = [
    "values are finite and their sums do not overflow; a value within 1e-9 of "
    "the border between two bins may be in either; the number of bins is up "
    "to the implementation"]

PERCENTILES = [0.0, 0.01, 0.25, 0.5, 0.75, 0.9, 0.95, 0.98, 0.99, 0.999, 1.0]
SMALL = [0, 1, -1, 2.5, -3, 7]
WIDE = [1e9, 1e9 + 1, 1e9 + 2, -1e9, 0.001, -1, 0]


def exact(values):
    """(mean, standard deviation) without rounding errors on the way."""
    values = [Fraction(v) if not isinstance(v, float) else
              Fraction.from_float(v) for v in values]
    if not values:
        return 0.0, 0.0
    mean = sum(values) / len(values)
    if len(values) < 2:
        return float(mean), 0.0
    variance = sum((v - mean) ** 2 for v in values) / (len(values) - 1)
    return float(mean), math.sqrt(float(variance))


def verify(x, histogram, values, kept=None, what=""):
    """Compare with the statistics of the values."""
    x.equal(len(values), histogram.count, "%scount of %r" % (what, values))
    x.equal(min(values or [0]), histogram.min(), "min of %r" % (values,))
    x.equal(max(values or [0]), histogram.max(), "max of %r" % (values,))
    mean, deviation = exact(values)
    scale = max([abs(v) for v in values] or [0])
    x.check(abs(mean - histogram.mean()) <= 1e-12 * scale, "mean of %r is %r and not %r" %
            (values[:20], histogram.mean(), mean))
    got = histogram.std_dev()
    spread = max(values) - min(values) if values else 0
    x.check(abs(got - deviation) <= 1e-6 * max(1e-3, deviation) +
            1e-9 * spread, "standard deviation of %r is %r and not %r" %
            (values[:20], got, deviation))
    sample = sorted(histogram.get_values())
    if kept is None:
        x.equal(sorted(values), sample, "the sample")
    else:
        x.equal(min(kept, len(values)), len(sample), "size of the sample")
        rest = list(values)
        for value in sample:
            x.check(value in rest, "%r is in the sample" % value)
            rest.remove(value)
    shape(x, histogram, sample)
    return sample


def shape(x, histogram, sample):
    percentiles = histogram.percentiles(*PERCENTILES)
    x.equal(len(PERCENTILES), len(percentiles), "number of percentiles")
    backwards = histogram.percentiles(*PERCENTILES[::-1])
    x.equal(percentiles, backwards[::-1], "percentiles in another order")
    if not sample:
        x.equal([0.0] * len(PERCENTILES), percentiles, "percentiles of none")
        x.equal(0, sum(histogram.histogram()), "histogram of none")
        return
    for p, got in zip(PERCENTILES, percentiles):
        expected = ref.percentile(sample, p)
        x.check(ref.close(expected, got, 1e-9), "percentile %s of %r is %r "
                "and not %r" % (p, sample[:20], got, expected))
        x.check(sample[0] <= got <= sample[-1], "outside the sample")
    bins = histogram.histogram()
    x.check(len(bins) > 0, "no bins")
    x.check(all(b >= 0 and b == int(b) for b in bins), "bins %r" % bins)
    x.equal(len(sample), sum(bins), "values in the bins of %r" % sample[:20])
    low, high = float(sample[0]), float(sample[-1])
    if low == high:
        x.check(max(bins) == len(sample), "equal values in two bins: %r" %
                bins)
        return
    width = (high - low) / len(bins)
    slack = 1e-9 * (high - low)
    total = 0
    for number, count in enumerate(bins[:-1]):
        # Up to here there are as many values as below the border.
        total += count
        border = low + width * (number + 1)
        least = len([v for v in sample if v < border - slack])
        most = len([v for v in sample if v <= border + slack])
        x.check(least <= total <= most, "bins %r of %r: %d up to %r" % (
            bins, sample[:20], total, border))


def build(kind):
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    from txstatsd.stats.uniformsample import UniformSample
    seams.clock.reset()
    seams.reseed()
    if kind == "uniform":
        return HistogramMetricReporter.using_uniform_sample(), None
    if kind == "decaying":
        return (HistogramMetricReporter.
                using_exponentially_decaying_sample(), None)
    return HistogramMetricReporter(UniformSample(kind)), kind


def sequences(values, depth, kinds, clears=False):
    def body(x):
        histogram, kept = build(x.pick(kinds))
        recorded = []
        alphabet = list(values) + (["clear"] if clears else [])
        for number in range(depth):
            value = x.pick(alphabet)
            x.op(value)
            if value == "clear":
                histogram.clear()
                recorded = []
            else:
                histogram.update(value)
                recorded.append(value)
            seams.clock.now += 1
            if clears:
                verify(x, histogram, recorded, kept)
        sample = verify(x, histogram, recorded, kept)
        x.state((tuple(recorded), kept))
        x.outcome(tuple(sample))
    return body


def empty(x):
    histogram, kept = build(x.pick(["uniform", "decaying", 1, 3]))
    x.op()
    verify(x, histogram, [], kept)
    if x.choose(2):
        histogram.update(5)
        histogram.clear()
        verify(x, histogram, [], kept)


def many(limit):
    patterns = [
        ("ascending", lambda n, i: i), ("descending", lambda n, i: n - i),
        ("equal", lambda n, i: 4), ("alternating", lambda n, i: (-1) ** i),
        ("-1 first", lambda n, i: i * 3 % 7 - 1),
        ("offset", lambda n, i: 1e9 + i * 17 % 5),
        ("tenths", lambda n, i: (i * 7 % n) * 0.1),
        ("outlier", lambda n, i: 1000 if i == n // 2 else i % 3),
        ("tiny", lambda n, i: (i % 4) * 1e-9)]

    def body(x):
        name, function = x.pick(patterns)
        kind = x.pick(["uniform", "decaying", 5])
        block = x.choose(limit // 10)
        for n in range(block * 10 + 1, block * 10 + 11):
            histogram, kept = build(kind)
            values = [function(n, i) for i in range(n)]
            for value in values:
                histogram.update(value)
                x.op()
            verify(x, histogram, values, kept, name + " ")
            x.state((name, n, kept))
    return body


def overflowing(x):
    """More values than the reservoir of a timer or histogram has room for."""
    kind = x.pick(["uniform", "decaying"])
    n = x.pick([1027, 1028, 1029, 1030, 1500, 3000])
    step = x.pick([1, 7, -3])
    histogram, _ = build(kind)
    values = []
    for i in range(n):
        values.append(i * step % 2003 - 100)
        histogram.update(values[-1])
        x.op()
    verify(x, histogram, values, 1028)
    histogram.clear()
    verify(x, histogram, [], 1028)
    for value in (-1, 5, 2):
        histogram.update(value)
    verify(x, histogram, [-1, 5, 2], 1028)
    x.state((kind, n, step))


def timers(depth):
    """Timers report these figures, and start over."""
    durations = [0, 1, 2.5, 7, 1e-7, 12345.678901234]

    def body(x):
        from txstatsd.metrics.timermetric import TimerMetricReporter
        seams.clock.reset()
        seams.reseed()
        prefix = x.pick(["", "pfx"])
        timer = TimerMetricReporter("n", wall_time_func=seams.clock,
                                    prefix=prefix)
        path = (prefix and prefix + ".") + "n"
        recorded, total, since = [], 0, seams.clock.now
        for _ in range(depth):
            what = x.choose(len(durations) + 1)
            if what < len(durations):
                x.op(durations[what])
                timer.update(durations[what])
                recorded.append(durations[what])
                total += 1
                continue
            seams.clock.now += x.pick([5, 0.5])
            report(x, timer, path, recorded, total, since)
            recorded, since = [], seams.clock.now
        seams.clock.now += 4
        report(x, timer, path, recorded, total, since)
        x.state((prefix, tuple(recorded), total))

    def report(x, timer, path, recorded, total, since):
        now = seams.clock.now
        mean, deviation = exact(recorded)
        x.equal(min(recorded or [0]), timer.min(), "min")
        x.equal(max(recorded or [0]), timer.max(), "max")
        x.check(ref.close(mean, timer.mean()), "mean")
        x.check(ref.close(deviation, timer.std_dev(), 1e-6), "deviation")
        x.equal(sorted(recorded), sorted(timer.get_values()), "values")
        for p, got in zip(PERCENTILES, timer.percentiles(*PERCENTILES)):
            x.check(ref.close(ref.percentile(recorded, p) if recorded else 0.0,
                              got), "percentile")
        expected = {".min": min(recorded or [0]), ".max": max(recorded or [0]),
                    ".mean": mean, ".stddev": deviation,
                    ".99percentile": ref.percentile(recorded, 0.99)
                    if recorded else 0,
                    ".999percentile": ref.percentile(recorded, 0.999)
                    if recorded else 0,
                    ".count": total, ".rate": len(recorded) / (now - since)}
        expected = [(path + k, v, now) for k, v in expected.items()]
        got = timer.report(now)
        x.op("report")
        x.check(ref.same(expected, got, 2e-6), "the report: %s" %
                ref.difference(expected, got, 2e-6))
        x.outcome(repr(ref.lines(got)))
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("empty", empty)
    yield Case("small", sequences(SMALL, 6 if thorough else 5,
                                  ["uniform", "decaying"]), split=60)
    yield Case("wide", sequences(WIDE, 5 if thorough else 4, ["uniform"]),
               split=40)
    yield Case("clearing", sequences([-1, 0, 3.5], 6 if thorough else 5,
                                     ["uniform", "decaying", 2],
                                     clears=True), split=40)
    yield Case("reservoir", sequences([5, -1, 2, 9], 5, [1, 2, 3]), split=30)
    yield Case("many", many(200 if thorough else 70), split=60)
    yield Case("overflowing", overflowing, split=36)
    yield Case("timers", timers(5 if thorough else 4), split=40)
