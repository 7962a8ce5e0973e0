"""The service flushes on time and hands everything to carbon, once."""
from core import Case
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "time passes from one scheduled call to the next, or in one stall of the "
    "whole reactor; each call takes no time"]


LATE = 1e-6


class Carbon(object):

    def __init__(self, x, answers):
        self.x = x
        self.answers = answers
        self.sent = []
        self.pending = []

    def sendDatapoint(self, metric, datapoint):
        from twisted.internet import defer
        self.x.op("send %s" % metric)
        self.sent.append((metric, datapoint))
        answer = self.x.choose(*self.answers)
        if answer == 0:
            return None
        d = defer.Deferred()
        if answer == 2:
            d.callback(None)
        else:
            self.pending.append((metric, d))
        return d


class Processor(object):
    """Yields so many numbered figures at each flush."""

    def __init__(self, x, sizes):
        self.x = x
        self.sizes = sizes
        self.flushes = []     # (when, interval)
        self.yielded = []
        self.carbon = None

    def flush(self, interval=10000, percent=90):
        number = len(self.flushes)
        self.flushes.append((seams.clock.now, interval))
        self.yielded.append([])
        size = self.sizes[min(number, len(self.sizes) - 1)]

        def generate():
            for n in range(size):
                item = ("flush%d.item%d" % (number, n), n * 1.5, 7000 + number)
                # Whatever of this flush was handed over is done with.
                for metric, d in self.carbon.pending:
                    self.x.check(
                        not metric.startswith("flush%d." % number),
                        "%s was asked for while the client was busy with %s"
                        % (item[0], metric))
                self.yielded[number].append(item)
                yield item
        return generate()

    def process(self, message):
        pass


def build(x, interval, sizes, answers):
    from txstatsd.service import StatsDService
    reactor.reset()
    reactor.lateness = LATE
    processor = Processor(x, sizes)
    carbon = processor.carbon = Carbon(x, answers)
    service = StatsDService(carbon, processor, interval)
    return service, processor, carbon


def verify(x, processor, carbon, expected, interval, complete=True):
    times = [when for when, ms in processor.flushes]
    x.check(len(times) == len(expected) and all(
        abs(a - b) < 1e-3 for a, b in zip(times, expected)),
        "interval %d ms: flushes at %r and not at %r" % (
            interval, [t - seams.clock.START for t in times],
            [t - seams.clock.START for t in expected]))
    for when, ms in processor.flushes:
        x.equal(interval, ms, "interval that a flush was told")
    for number, items in enumerate(processor.yielded):
        sent = [s for s in carbon.sent
                if s[0].startswith("flush%d." % number)]
        x.equal([(p, (t, v)) for p, v, t in items], sent,
                "handed to carbon of what flush %d yielded" % number)
        if complete:
            x.equal(processor.sizes[min(number, len(processor.sizes) - 1)],
                    len(items), "figures of flush %d" % number)
    x.equal(sum(map(len, processor.yielded)), len(carbon.sent),
            "number of figures handed to carbon")


def intervals(values):
    def body(x):
        interval = x.pick(values)
        size = x.choose(3)
        service, processor, carbon = build(x, interval, [size], (1,))
        service.startService()
        start = seams.clock.now
        count = x.pick([1, 2, 5])
        seconds = interval / 1000.0
        reactor.advance(seconds * (count + 0.5))
        verify(x, processor, carbon,
               [start + seconds * (n + 1) for n in range(count)], interval)
        stopped = seams.clock.now
        service.stopService()
        reactor.advance(seconds * 3)
        x.equal(count, len(processor.flushes), "flushes after the stop")
        x.equal(0, len(reactor.calls), "calls left after the stop")
        if x.choose(2):
            service.startService()
            again = seams.clock.now
            reactor.advance(seconds * 2.5)
            verify(x, processor, carbon,
                   [start + seconds * (n + 1) for n in range(count)] +
                   [again + seconds, again + 2 * seconds], interval)
        x.state((interval, size, count))
        x.outcome((interval, len(carbon.sent)))
    return body


def hand_off(interval, sizes, flushes):
    """Sends that complete in any order, at any time, or late."""
    def body(x):
        service, processor, carbon = build(
            x, interval, sizes, (3, [0, 1, 1]))
        service.startService()
        start = seams.clock.now
        seconds = interval / 1000.0
        end = start + seconds * flushes + seconds / 2
        while True:
            options = len(carbon.pending)
            choice = x.choose(1 + options)
            if choice:
                metric, d = carbon.pending.pop(choice - 1)
                x.op("done with %s" % metric)
                d.callback(None)
                continue
            call = reactor.due()
            if call is None or call.time > end:
                break
            seams.clock.now = max(seams.clock.now, call.time + LATE)
            reactor.run_call(call)
            x.state((len(carbon.sent), len(carbon.pending),
                     len(processor.flushes)))
        verify(x, processor, carbon,
               [start + seconds * (n + 1) for n in range(flushes)], interval,
               complete=False)
        service.stopService()
        while True:
            while carbon.pending:
                metric, d = carbon.pending.pop(
                    x.choose(len(carbon.pending)))
                d.callback(None)
            reactor.settle()
            if not carbon.pending:
                break
        verify(x, processor, carbon,
               [start + seconds * (n + 1) for n in range(flushes)], interval)
        x.equal([], reactor.errors, "errors in the reactor")
        x.outcome(tuple(s[0] for s in carbon.sent))
    return body


def fine_grained(interval, size):
    """Other work gets its turn between any two figures."""
    def body(x):
        service, processor, carbon = build(x, interval, [size], (1,))
        others = []

        def other():
            others.append(len(carbon.sent))
            if len(others) < 100:
                reactor.callLater(0, other)
        service.startService()
        reactor.advance(interval / 1000.0 - 0.0001)
        moment = x.choose(size + 2)
        reactor.callLater(0.0001, other)
        reactor.advance(interval / 1000.0 * 0.5)
        x.equal(size, len(carbon.sent), "figures sent")
        seen = set(others)
        x.check(len(seen) > size // 2, "a flush of %d figures kept the "
                "reactor from everything else: %r" % (size, others))
        x.state((interval, size, moment))
    return body


def long_runs(runs):
    """Very many figures in a flush, and very many flushes."""
    def body(x):
        interval, size, flushes = x.pick(runs)
        service, processor, carbon = build(x, interval, [size], (1,))
        service.startService()
        start = seams.clock.now
        seconds = interval / 1000.0
        reactor.advance(seconds * (flushes + 0.5))
        verify(x, processor, carbon,
               [start + seconds * (n + 1) for n in range(flushes)], interval)
        service.stopService()
        x.state((interval, size, flushes))
    return body


def stalls(interval):
    """The reactor is late: flushes that were missed are not made up for."""
    def body(x):
        service, processor, carbon = build(x, interval, [1], (1,))
        service.startService()
        start = seams.clock.now
        seconds = interval / 1000.0
        # Never stop looking right at the time of a flush.
        reactor.advance(0.05 * seconds)
        expected = []
        next_flush = 1
        for _ in range(4):
            step = x.pick([1.0, 0.4, 1.7, 2.0, 3.5])
            if x.choose(2):
                # Nothing runs meanwhile.
                seams.clock.now += step * seconds
                now = (seams.clock.now - start) / seconds
                if now >= next_flush - 1e-9:
                    expected.append(seams.clock.now)
                    next_flush = int(now + 1e-9) + 1
                reactor.settle()
            else:
                until = (seams.clock.now - start) / seconds + step
                while next_flush <= until + 1e-9:
                    expected.append(start + next_flush * seconds)
                    next_flush += 1
                reactor.advance(step * seconds)
            x.op("%s" % step)
        verify(x, processor, carbon, expected, interval)
        x.outcome(tuple(expected))
        x.state((interval, tuple(expected)))
    return body


def stops(interval, size):
    """Stopped at any moment of a flush, and perhaps started again."""
    def body(x):
        service, processor, carbon = build(x, interval, [size], (3, [0, 1, 1]))
        service.startService()
        start = seams.clock.now
        seconds = interval / 1000.0
        steps = x.choose(3 * size + 4)
        for _ in range(steps):
            call = reactor.due()
            if call is None or call.time > start + 2.5 * seconds:
                break
            seams.clock.now = max(seams.clock.now, call.time + LATE)
            reactor.run_call(call)
        flushes = len(processor.flushes)
        ticks = int((seams.clock.now - start) / seconds)
        service.stopService()
        x.op("stop after %d calls" % steps)
        again = x.choose(2)
        if again:
            restarted = seams.clock.now
            service.startService()
        for metric, d in carbon.pending[:]:
            d.callback(None)
        carbon.pending[:] = []
        reactor.advance(seconds * 2.5)
        while carbon.pending:
            carbon.pending.pop(0)[1].callback(None)
            reactor.settle()
        # A flush that was only just due may be made or not.
        if ticks > flushes and [when for when, ms in processor.flushes
                                if when <= start + (ticks + 0.5) * seconds
                                ][flushes:]:
            flushes = ticks
        expected = [start + seconds * (n + 1) for n in range(flushes)]
        if again:
            expected += [restarted + seconds, restarted + 2 * seconds]
        verify(x, processor, carbon, expected, interval)
        x.state((steps, again, len(carbon.sent)))
        x.outcome(tuple(carbon.sent))
        service.stopService() if again else None
        reactor.settle()
        x.equal(0, len(reactor.calls), "calls left after the stop")
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("intervals", intervals(
        [1, 10, 50, 100, 250, 333, 500, 999, 1000, 1001, 1500, 2000, 2500,
         10000, 60000, 90500, 3600000]), split=16)
    yield Case("hand-off", hand_off(1000, [2, 3], 2), bound=3, split=100)
    yield Case("hand-off-3", hand_off(1500, [2, 1, 2] if thorough
                                      else [1, 2, 1], 3),
               bound=4 if thorough else 3, split=100)
    yield Case("long", long_runs(
        [(60000, 25000, 2), (1000, 3, 2000), (100, 1, 3000)]), split=3)
    yield Case("fine", fine_grained(1000, 20))
    yield Case("stalls", stalls(1000), split=50)
    yield Case("stalls-fraction", stalls(2500), split=50)
    yield Case("stops", stops(1000, 3), bound=3, split=30)
