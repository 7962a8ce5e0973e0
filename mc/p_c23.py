"""Counters of the extended client, whatever gets lost on the way."""
from core import Case
import ref
import seams
import p_c22

ASSUMPTIONS = [
    "the network loses messages but does not reorder them; totals are whole "
    "numbers; lost messages and unlikely draws are bounded per history"]


def histories(depth, values, rates, flushes=True):
    def body(x):
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        seams.clock.reset()
        seams.reseed()
        processor = ConfigurableMessageProcessor(
            message_prefix="pfx", internal_metrics_prefix="statsd.",
            time_function=seams.clock)
        totals = {"ns.a": 0, "ns.b": 0}
        right = {}
        known = {}

        class Network(object):

            def write(self, data, *args):
                name = data.split(":")[0]
                if x.choose(2, [0, 1]):
                    x.op("lost: %s" % data)
                    return
                x.op("arrives: %s" % data)
                processor.process(data)
                known[name] = totals[name]
        metrics = ExtendedMetrics(Network(), "ns")

        def check():
            seams.clock.now += 10
            published = dict((p, v) for p, v, t in processor.flush(10000))
            for name in sorted(known):
                x.check(ref.close(known[name],
                                  published.get("pfx.%s.count" % name), 1e-9),
                        "%s is published as %r and not %r" % (
                            name, published.get("pfx.%s.count" % name),
                            known[name]))
            for path in published:
                if path.startswith("pfx.") and path.endswith(".count"):
                    x.check(path[4:-6] in known, "%s is published" % path)
        for number in range(depth):
            name = x.pick(["a", "b"])
            method = x.pick(["increment", "decrement", "clear"])
            full = "ns." + name
            rate = 1
            if method == "clear":
                totals[full] = 0
                x.op("clear " + name)
                seams.rng.oracle = p_c22.Fixed(0.0)
                metrics.clear(name)
            else:
                value = x.pick(values) * 3 ** number
                rate = x.pick(rates)
                totals[full] += value if method == "increment" else -value
                away = rate < 1 and x.choose(2, [0, 1])
                seams.rng.oracle = p_c22.Fixed(0.999 if away else 0.001)
                x.op("%s %s by %s at %s" % (method, name, value, rate))
                getattr(metrics, method)(name, value, sample_rate=rate)
            seams.rng.oracle = None
            if flushes and x.choose(2):
                check()
            x.state((tuple(sorted(totals.items())),
                     tuple(sorted(known.items()))))
        check()
        x.outcome(tuple(sorted(known.items())))
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("totals", histories(4 if thorough else 3,
                                   [1, 5] if thorough else [1], [1, 0.5]),
               bound=2 if thorough else 1, split=100)
    yield Case("large", histories(
        3 if thorough else 2, [1234567, 98765432109, 2 ** 40 + 1], [1]),
        bound=1, split=60)
    yield Case("long", histories(6 if thorough else 4, [2], [1],
                                 flushes=False), bound=3, split=100)
