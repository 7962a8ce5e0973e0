"""Exponentially weighted moving averages."""
import math

from core import Case
import ref

ASSUMPTIONS = ["updates are finite numbers"]


def build(kind):
    """(average, its smoothing constant, its interval)"""
    from txstatsd.stats.ewma import Ewma
    if kind == "1":
        return Ewma.one_minute_ewma(), 1 - math.exp(-5 / 60.0), 5
    if kind == "5":
        return Ewma.five_minute_ewma(), 1 - math.exp(-5 / 300.0), 5
    if kind == "15":
        return Ewma.fifteen_minute_ewma(), 1 - math.exp(-5 / 900.0), 5
    alpha, interval = kind
    return Ewma(alpha, interval), float(alpha), interval


KINDS = ["1", "5", "15", (0.5, 1), (1, 10), (0, 3), (0.25, 0.5)]


def histories(depth, kinds, updates):
    def body(x):
        kind = x.pick(kinds)
        average, alpha, interval = build(kind)
        rate, pending = None, 0
        x.equal(0.0, average.rate, "the rate at first")
        done = []
        for _ in range(depth):
            what = x.pick(list(updates) + ["tick"])
            done.append(what)
            x.op(what)
            if what == "tick":
                average.tick()
                last = pending / float(interval)
                rate = last if rate is None else rate + alpha * (last - rate)
                pending = 0
            else:
                average.update(what)
                pending += what
            x.check(ref.close(rate or 0.0, average.rate, 1e-9),
                    "the rate of %r after %r is %r and not %r" % (
                        kind, done, average.rate, rate))
            x.state((kind, rate, pending))
        x.outcome((kind, rate))
    return body


def together(depth):
    """Averages have nothing to do with each other."""
    def body(x):
        averages = [build(k) for k in ("1", "1", "5", "15")]
        rates, pending = [None] * 4, [0] * 4
        for _ in range(depth):
            which = x.choose(4)
            average, alpha, interval = averages[which]
            if x.choose(2):
                average.update(which + 2)
                pending[which] += which + 2
            else:
                average.tick()
                last = pending[which] / 5.0
                rates[which] = last if rates[which] is None else (
                    rates[which] + alpha * (last - rates[which]))
                pending[which] = 0
            x.op()
        for which in range(4):
            x.check(ref.close(rates[which] or 0.0, averages[which][0].rate),
                    "the rate of number %d" % which)
        x.state(repr((rates, pending)))
    return body


def long_runs(x):
    """Decays, and approaches a steady rate, over hours."""
    minutes = x.pick(["1", "5", "15"])
    first = x.pick([0, 3, 1000])
    each = x.pick([0, 3, 0.5, 7])
    parts = x.pick([1, 3])
    average, alpha, interval = build(minutes)
    average.update(first)
    average.tick()
    rate = first / 5.0
    for number in range(3000):
        for _ in range(parts):
            average.update(each)
        average.tick()
        x.op()
        # The closed form of the recurrence, not the recurrence.
        target = each * parts / 5.0
        expected = target + (rate - target) * math.exp(
            -5.0 * (number + 1) / 60 / int(minutes))
        x.check(abs(expected - average.rate) <= 1e-9 * max(1, rate, target),
                "the rate after %d ticks is %r and not %r" % (
                    number + 2, average.rate, expected))
    x.state((minutes, first, each, parts))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("histories", histories(7 if thorough else 6, KINDS, [1, 2.5]),
               split=40)
    yield Case("values", histories(5 if thorough else 4, KINDS,
                                   [0, -1, 1e9, 1e-9, 10 ** 20, 0.1]),
               split=40)
    yield Case("together", together(5 if thorough else 4),
               split=40)
    yield Case("long", long_runs, split=36)

