"""What a failed flush costs."""
from core import Case
import ref
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "a failure is an exception or a failed or never finished Deferred from "
    "sendDatapoint, or an exception from the flush of a plugin",
    "the server's own statsd.* figures are not counted as samples"]


class CarbonDown(Exception):
    pass


class Carbon(object):

    def __init__(self, x):
        self.x = x
        self.published = []
        self.in_hand = []
        self.pending = []
        self.faulty = False

    def sendDatapoint(self, metric, datapoint):
        from twisted.internet import defer
        answer = 0
        if self.faulty:
            answer = self.x.choose(4, [0, 1, 1, 1])
        self.x.op()
        if answer == 0:
            self.published.append((metric, datapoint[1], datapoint[0]))
            return None
        self.x.op("send %s: %s" % (metric, [
            "", "raises", "fails", "hangs"][answer]))
        if answer == 1:
            self.in_hand.append(metric)
            raise CarbonDown()
        if answer == 2:
            self.in_hand.append(metric)
            return defer.fail(CarbonDown())
        self.published.append((metric, datapoint[1], datapoint[0]))
        d = defer.Deferred()
        self.pending.append(d)
        return d


class Tally(object):
    """A plugin metric that publishes how much came since the last flush."""

    def __init__(self, name, faults):
        self.name = name
        self.faults = faults
        self.total = 0

    def process(self, fields):
        self.total += float(fields[0])

    def flush(self, interval, timestamp):
        if self.faults(self.name):
            raise CarbonDown()
        total, self.total = self.total, 0
        return [("tally." + self.name, total, timestamp)]


class TallyFactory(object):
    name = "tally"
    metric_type = "y"

    def __init__(self, faults):
        self.faults = faults

    def build_metric(self, prefix, name, wall_time_func=None):
        return Tally(name, self.faults)


PATHS = {
    "compliant": {
        "c": ["stats.%s", "stats_counts.%s"], "g": ["stats.gauge.%s.value"],
        "m": ["stats.meter.%s.count", "stats.meter.%s.rate"],
        "ms": ["stats.timers.%s." + f for f in (
            "count", "lower", "mean", "upper", "upper_90")],
        "y": ["tally.%s"]},
    "extended": {
        "c": ["pfx.%s.count"], "g": ["pfx.%s.value"],
        "m": ["pfx.%s.count", "pfx.%s.rate"],
        "ms": ["pfx.%s." + f for f in (
            "count", "min", "max", "mean", "stddev", "99percentile",
            "999percentile", "rate")], "y": ["tally.%s"]}}


def history(flavour, first, second, faulty_flushes, plugin_faults=False):
    def body(x):
        from txstatsd.service import StatsDService
        import stream
        seams.start_log()
        reactor.reset()
        carbon = Carbon(x)
        struck = []

        def faults(name):
            if plugin_faults and carbon.faulty and x.choose(2, [0, 1]):
                struck.append(name)
                x.op("plugin %s fails" % name)
                return True
            return False
        processor, model = stream.build(flavour,
                                        plugins=[TallyFactory(faults)])
        service = StatsDService(carbon, processor, 10000)
        service.startService()
        received = {}

        def process(messages):
            for message in messages:
                key, rest = message.split(":")
                value, kind = rest.split("|")
                received.setdefault((kind, key), []).append(float(value))
                processor.process(message)
                x.op(message)
        process(first)
        # From here on the clock stops half way between two flushes.
        reactor.advance(5)
        carbon.faulty = True
        for number in range(faulty_flushes):
            reactor.advance(10)
            process(second)
        carbon.faulty = False
        failures = len(carbon.in_hand) + len(struck)
        late = len(carbon.published)
        reactor.advance(10)
        hung = carbon.pending
        carbon.pending = []
        for d in hung:
            d.callback(None)
        reactor.advance(20)
        x.equal([], reactor.errors, "errors in the reactor")
        begun = max([m[2] for m in carbon.published] or [0])
        final = [m for m in carbon.published if m[2] == begun]
        x.check(begun >= seams.clock.now - 6, "no flush after the failures")
        totals = {}
        last = {}
        for path, value, stamp in carbon.published:
            totals[path] = totals.get(path, 0.0) + value
            if path not in last or stamp >= last[path][1]:
                last[path] = (value, stamp)
        lost = []
        for (kind, key), samples in sorted(received.items()):
            paths = [p % key for p in PATHS[flavour][kind]]
            in_hand = bool([m for m in carbon.in_hand if m in paths])
            if kind == "y":
                in_hand = in_hand or key in struck
            expected, got = None, None
            if kind == "c" and flavour == "compliant":
                for path, scale in zip(paths, (10.0, 1.0)):
                    one = [m for m in carbon.in_hand if m in paths]
                    compare(x, key, path, samples, totals.get(path, 0.0)
                            * scale, one, lost)
            elif kind == "ms" and flavour == "compliant":
                one = [m for m in carbon.in_hand if m in paths]
                compare(x, key, paths[0], [1.0] * len(samples),
                        totals.get(paths[0], 0.0), one, lost)
            elif kind == "y":
                one = [m for m in carbon.in_hand if m in paths] + [
                    n for n in struck if n == key]
                compare(x, key, paths[0], samples,
                        totals.get(paths[0], 0.0),
                        [m for m in carbon.in_hand if m in paths], lost)
            else:
                if kind == "m":
                    expected = sum(samples)
                elif kind == "ms":
                    expected = len(samples)
                elif flavour == "extended" and kind == "c":
                    expected = int(samples[-1])
                else:
                    expected = samples[-1]
                x.check(paths[0] in dict((m[0], 1) for m in final),
                        "%s is not published by the flush after the failures"
                        % paths[0])
                x.check(ref.close(expected, last[paths[0]][0], 1e-6),
                        "%s is %r at last and not %r" % (
                            paths[0], last[paths[0]][0], expected))
        stamps = {}
        for path, value, stamp in carbon.published:
            x.check((path, stamp) not in stamps,
                    "%s is published twice at %s" % (path, stamp))
            stamps[path, stamp] = value
        x.state((flavour, tuple(carbon.in_hand), tuple(struck),
                 tuple(sorted(totals.items()))))
        x.outcome((tuple(carbon.in_hand), tuple(lost)))
        x.count("failures", failures)
        service.stopService()
    return body


def compare(x, key, path, samples, got, in_hand, lost):
    """Nothing is missing, except what each failure had in hand."""
    total = sum(samples)
    if ref.close(total, got, 1e-6):
        return
    x.check(in_hand, "%s: %r was received and %r published, and no failure "
            "concerned it" % (path, samples, got))
    lost.append(path)
    # With distinct powers of two as samples, any subset has its own sum;
    # what is missing must be an interval of the history per failure.
    x.check(got <= total + 1e-6,
            "%s: %r was received and more, %r, published" % (
                path, samples, got))
    missing = total - got
    chunks = [0.0]
    for _ in in_hand:
        chunks = [c + sum(samples[i:j]) for c in chunks
                  for i in range(len(samples)) for j in range(i, len(
                      samples) + 1)]
    x.check(any(ref.close(missing, c, 1e-6) for c in chunks),
            "%s: %r was received and %r published" % (path, samples, got))


def cases(tier):
    thorough = tier == "thorough"
    small = (["a:1|c", "a:2|c", "t:1|ms"], ["a:4|c", "t:2|ms", "b:8|c"])
    full = (["a:1|c", "b:2|c", "t:1|ms", "u:4|ms", "g:1|g", "m:1|m",
             "y:1|y"],
            ["a:4|c", "t:2|ms", "g:3|g", "m:8|m", "y:16|y", "n:32|c"])
    for flavour in ("compliant", "extended"):
        yield Case("one-%s" % flavour, history(flavour, full[0], full[1], 2),
                   bound=1, split=8)
        yield Case("two-%s" % flavour, history(
            flavour, small[0], small[1], 2 if thorough else 1), bound=2,
            split=8)
        yield Case("plugin-%s" % flavour, history(
            flavour, ["y:1|y", "z:2|y", "a:1|c", "t:5|ms"],
            ["y:4|y", "z:8|y", "w:16|y", "a:2|c"], 2, plugin_faults=True),
            bound=2 if thorough else 1, split=8)
