"""Messages and flushes on a real message processor, against a model.

The model keeps, for every metric, the whole history of the samples it was
given.  What a flush publishes has to be explained by that history:

* a flush that nothing interrupts publishes exactly what the model says;
* while a flush is consumed step by step, with messages and other flushes in
  between, each published figure has to be that of a contiguous chunk of the
  history, which starts where the one published before ended and ends
  somewhere between what was known when the flush began and what is known at
  the moment it is published.
"""
import math

import seams
import ref


class Series(object):
    """The samples of one metric, and how far they have been published."""

    def __init__(self, kind, key, created):
        self.kind, self.key = kind, key
        self.samples = []
        self.done = 0
        self.since = created      # when the previous report was made
        self.reports = 0


class Model(object):
    """What both processors have in common."""

    def __init__(self):
        self.series = {}
        self.received = {}

    def sample(self, kind, key, value, now):
        if (kind, key) not in self.series:
            self.series[kind, key] = Series(kind, key, now)
        self.series[kind, key].samples.append(value)

    def process(self, message, now):
        """Returns whether the message was a sample."""
        parts = ref.split(message)
        if parts is None:
            return False
        key, fields = parts
        kind = fields[1]
        if kind not in ("c", "ms", "g", "m"):
            return False
        self.received[kind] = self.received.get(kind, 0) + 1
        value = ref.number(fields[0])
        if value is None:
            return False
        if kind == "c":
            if len(fields) == 3 and self.sampled:
                scale = ref.rate(fields[2])
                if scale is None:
                    return False
                value = value / scale
        self.sample(kind, key, value, now)
        return True

    def snapshot(self):
        return dict((k, len(s.samples)) for k, s in self.series.items())

    def state(self):
        return tuple(sorted((k, tuple(s.samples[s.done:]), s.reports > 0)
                            for k, s in self.series.items()))

    def expected(self, timestamp, interval, percent):
        """What a flush that is not interrupted publishes."""
        result = []
        for key in sorted(self.series):
            series = self.series[key]
            options = self.figures(series, len(series.samples), timestamp,
                                   interval, percent)
            result.append(options)
            self.publish(series, len(series.samples), timestamp)
        return result

    def publish(self, series, upto, timestamp):
        series.done = upto
        series.since = timestamp
        series.reports += 1


def percentile_name(percent):
    return ".upper_%s" % percent


class Compliant(Model):
    """StatsD-compliant."""

    sampled = True

    def paths(self, kind, key, percent=90):
        if kind == "c":
            return ["stats." + key, "stats_counts." + key]
        if kind == "g":
            return ["stats.gauge." + key + ".value"]
        if kind == "m":
            return ["stats.meter." + key + x for x in (".count", ".rate")]
        return ["stats.timers." + key + x for x in (
            ".count", ".lower", ".mean", ".upper", percentile_name(percent))]

    def figures(self, series, upto, timestamp, interval, percent):
        """The alternatives for what is published: a list of dicts."""
        chunk = series.samples[series.done:upto]
        kind, key = series.kind, series.key
        if kind == "c":
            total = math.fsum(chunk)
            return [{"stats." + key: ref.near(total / (interval / 1000.0),
                                              chunk),
                     "stats_counts." + key: ref.near(total, chunk)}]
        if kind == "g":
            return [{"stats.gauge." + key + ".value":
                     ref.Figure(series.samples[upto - 1])}]
        if kind == "m":
            return meter("stats.meter." + key, series, upto, timestamp)
        if not chunk:
            return [{}]
        chunk = sorted(chunk)
        prefix = "stats.timers." + key
        options = []
        for size in ref.threshold_sizes(len(chunk), percent):
            kept = chunk[:size]
            options.append({
                prefix + ".count": len(chunk),
                prefix + ".lower": ref.Figure(chunk[0]),
                prefix + ".upper": ref.Figure(chunk[-1]),
                prefix + percentile_name(percent): ref.Figure(kept[-1]),
                prefix + ".mean": ref.near(ref.mean(kept), kept)})
        return options


def meter(prefix, series, upto, timestamp):
    elapsed = timestamp - series.since
    if elapsed <= 0:
        return [{}]
    chunk = series.samples[series.done:upto]
    return [{prefix + ".count": round(math.fsum(series.samples[:upto]), 6),
             prefix + ".rate": round(math.fsum(chunk) / elapsed, 6)}]


class Extended(Model):
    """The ConfigurableMessageProcessor."""

    sampled = False

    def __init__(self, prefix="pfx"):
        Model.__init__(self)
        self.prefix = prefix + "." if prefix else ""

    def figures(self, series, upto, timestamp, interval, percent):
        chunk = series.samples[series.done:upto]
        prefix = self.prefix + series.key
        if series.kind == "c":
            return [{prefix + ".count": int(series.samples[upto - 1])}]
        if series.kind == "g":
            return [{prefix + ".value": ref.Figure(series.samples[upto - 1])}]
        if series.kind == "m":
            return meter(prefix, series, upto, timestamp)
        values = [v for v in chunk if v >= 0]
        elapsed = timestamp - series.since
        result = {
            prefix + ".count": upto,
            prefix + ".min": min(values) if values else 0.0,
            prefix + ".max": max(values) if values else 0.0,
            prefix + ".mean": ref.mean(values),
            prefix + ".stddev": ref.std_dev(values),
            prefix + ".rate": len(values) / float(elapsed)
                if elapsed > 0 else 0.0}
        for name, p in ((".99percentile", 0.99), (".999percentile", 0.999)):
            result[prefix + name] = ref.percentile(values, p) if values else 0.0
        return [dict((k, round(v, 6)) for k, v in result.items())]

    def publish(self, series, upto, timestamp):
        Model.publish(self, series, upto, timestamp)


# A meter that cannot report yet keeps its samples for the next report; the
# compliant timers that have no samples say nothing.

def keeps(series, timestamp):
    return series.kind == "m" and timestamp - series.since <= 0


def _publish(self, series, upto, timestamp):
    if series.kind == "m":
        if timestamp - series.since <= 0:
            series.since = timestamp
            return
    series.done = upto
    series.since = timestamp
    series.reports += 1

Model.publish = _publish
Extended.publish = _publish


INTERNAL = "statsd."


def external(metrics):
    return [m for m in metrics if not m[0].startswith(INTERNAL)]


def build(flavour, plugins=None, time_function=None):
    from txstatsd.server.processor import MessageProcessor
    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    if time_function is None:
        time_function = seams.clock
    if flavour == "compliant":
        return (MessageProcessor(time_function=time_function, plugins=plugins),
                Compliant())
    if flavour == "extended":
        return (ConfigurableMessageProcessor(
            time_function=time_function, message_prefix="pfx",
            internal_metrics_prefix=INTERNAL, plugins=plugins),
            Extended("pfx"))
    if flavour == "bare":
        return (ConfigurableMessageProcessor(
            time_function=time_function, plugins=plugins), Extended(""))
    raise ValueError(flavour)


def matches(options, got, tolerance=1e-9):
    """Whether a dict of figures is one of the alternatives."""
    for option in options:
        if set(option) == set(got) and all(
                ref.close(option[p], got[p], tolerance) for p in option):
            return True
    return False


def check_flush(x, model, metrics, timestamp, interval, percent, tolerance):
    """An uninterrupted flush published exactly what it should have."""
    alternatives = model.expected(timestamp, interval, percent)
    remaining = list(external(metrics))
    for path, value, stamp in remaining:
        x.check(stamp == timestamp,
                "%r is stamped %r and not %r" % (path, stamp, timestamp))
    for options in alternatives:
        for option in options:
            taken = []
            for path in sorted(option):
                for metric in remaining:
                    if (metric[0] == path and metric not in taken and
                        ref.close(option[path], metric[1], tolerance)):
                        taken.append(metric)
                        break
                else:
                    break
            else:
                for metric in taken:
                    remaining.remove(metric)
                break
        else:
            x.fail("not published: %r\n  published: %r" % (
                options, sorted(metrics)))
    x.check(not remaining, "published without reason: %r" % (remaining,))


def sequential(flavour, ops, plugins=None, tolerance=1e-9):
    """A body that applies every sequence of ops that its choices make.

    @param ops: For each position, the alternatives.  An op is a message, a
        number of seconds to let pass, or ("flush", interval, percent).
    """
    def body(x):
        seams.clock.reset()
        processor, model = build(flavour, plugins)
        for alternatives in ops:
            op = x.pick(alternatives)
            apply_op(x, processor, model, op, tolerance)
            x.state((flavour, model.state()))
    return body


def apply_op(x, processor, model, op, tolerance=1e-9):
    if op is None:
        return
    x.op(op)
    if isinstance(op, str):
        processor.process(op)
        model.process(op, seams.clock.now)
    elif isinstance(op, tuple):
        name, interval, percent = op
        metrics = list(processor.flush(interval=interval, percent=percent))
        timestamp = int(seams.clock.now)
        check_flush(x, model, metrics, timestamp, interval, percent, tolerance)
        x.outcome(tuple(sorted(external(metrics))))
    else:
        seams.clock.now += op


class OpenFlush(object):
    """A flush that is being consumed."""

    def __init__(self, processor, model, interval, percent, number):
        self.number = number
        self.interval, self.percent = interval, percent
        self.model = model
        self.timestamp = None
        self.generator = iter(processor.flush(interval=interval,
                                              percent=percent))
        self.started = model.snapshot()
        self.metrics = []
        self.seen = {}        # path -> how many samples were known then
        self.over = False

    def step(self, x):
        if self.timestamp is None:
            self.timestamp = int(seams.clock.now)
        try:
            metric = self.generator.next()
        except StopIteration:
            self.over = True
            return None
        x.check(metric[2] == self.timestamp, "%r is stamped %r and not %r" % (
            metric[0], metric[2], self.timestamp))
        self.metrics.append(metric)
        return metric


def explained(x, model, flush, tolerance=1e-9):
    """Explain what one flush published, alone with messages in between."""
    got = {}
    for index, (path, value, stamp) in enumerate(flush.metrics):
        if path.startswith(INTERNAL):
            continue
        x.check(path not in got, "%r is published twice by one flush: %r" % (
            path, flush.metrics))
        got[path] = (value, index)
    used = set()
    for key in sorted(model.series):
        series = model.series[key]
        low = flush.started.get(key, 0)
        high = len(series.samples)
        found = None
        for upto in range(low, high + 1):
            if upto == 0:
                # The metric was not known when the flush began.
                if not any(p in got for o in model.figures(
                        series, 1, flush.timestamp, flush.interval,
                        flush.percent) for p in o):
                    found = 0
                    break
                continue
            if upto < series.done:
                continue
            for option in model.figures(series, upto, flush.timestamp,
                                        flush.interval, flush.percent):
                if all(p in got and ref.close(option[p], got[p][0], tolerance)
                       for p in option):
                    if not option and any(
                        p in got for n in range(max(1, series.done + 1),
                                                high + 1)
                        for o in model.figures(series, n, flush.timestamp,
                                               flush.interval, flush.percent)
                        for p in o):
                        continue
                    found = upto
                    used.update(option)
                    break
            if found is not None:
                break
        x.check(found is not None,
                "nothing that %r received (%r, of which %d had been published "
                "before, and %d at most could be left for later) explains "
                "what the flush published: %r" % (
                    key, series.samples, series.done, high - low,
                    sorted(got.items())))
        if found:
            model.publish(series, found, flush.timestamp)
    x.check(used == set(got), "published without reason: %r" % (
        sorted(set(got) - used),))


def interleaved(flavour, setups, injections, plugins=None, tolerance=1e-9,
                interval=10000, percent=90, rounds=1):
    """A body that lets messages arrive between the steps of a flush."""
    def body(x):
        seams.clock.reset()
        processor, model = build(flavour, plugins)
        setup = x.pick(setups)
        for op in setup:
            apply_op(x, processor, model, op, tolerance)
        costs = [0] + [1] * len(injections)
        for number in range(rounds):
            flush = OpenFlush(processor, model, interval, percent, number)
            position = 0
            while not flush.over:
                while True:
                    choice = x.choose(len(costs), costs)
                    if choice == 0:
                        break
                    message = injections[choice - 1]
                    x.op("%d: %s" % (position, message))
                    processor.process(message)
                    model.process(message, seams.clock.now)
                position += 1
                flush.step(x)
            x.op("flush over after %d" % position)
            explained(x, model, flush, tolerance)
            x.state((flavour, model.state()))
            x.outcome(tuple(sorted(external(flush.metrics))))
            seams.clock.now += 7
        apply_op(x, processor, model, ("flush", interval, percent), tolerance)
        seams.clock.now += 7
        apply_op(x, processor, model, ("flush", interval, percent), tolerance)
    return body


def totals(metrics_of_all, timer_suffix):
    """What was published for each path, summed over the flushes."""
    result = {}
    for metrics in metrics_of_all:
        for path, value, stamp in metrics:
            result[path] = result.get(path, 0) + value
    return result


def overlapping(setups, injections, flushes=2, interval=10000):
    """Flushes that overlap: everything is still published, once.

    Only for the compliant processor, whose counters and timers publish
    figures that add up.
    """
    def body(x):
        seams.clock.reset()
        processor, model = build("compliant")
        setup = x.pick(setups)
        for op in setup:
            x.op(op)
            processor.process(op)
            model.process(op, seams.clock.now)
        seams.clock.now += 10
        waiting = [OpenFlush(processor, model, interval, 90, n)
                   for n in range(flushes)]
        over = []
        while waiting:
            # 0: the flush that began first goes on; then, at a cost, any
            # other flush; then any message.
            costs = [0] + [1] * (len(waiting) - 1 + len(injections))
            choice = x.choose(len(costs), costs)
            if choice < len(waiting):
                flush = waiting[choice]
                if choice:
                    # Keep to it until another switch is paid for.
                    waiting.remove(flush)
                    waiting.insert(0, flush)
                flush.step(x)
                x.op("step %d" % flush.number)
                if flush.over:
                    waiting.remove(flush)
                    over.append(flush)
            else:
                message = injections[choice - len(waiting)]
                x.op(message)
                processor.process(message)
                model.process(message, seams.clock.now)
        seams.clock.now += 10
        last = external(processor.flush(interval=interval))
        published = [f.metrics for f in over] + [last]
        sums = totals(published, None)
        final = dict((m[0], m[1]) for m in last)
        for kind, key in sorted(model.series):
            samples = model.series[kind, key].samples
            if kind == "c":
                total = math.fsum(samples)
                x.check(ref.close(total, sums.get("stats_counts." + key)),
                        "counter %r received %r and published %r" % (
                            key, samples, [m for p in published for m in p]))
                x.check(ref.close(total, sums.get("stats." + key) *
                                  (interval / 1000.0)),
                        "rates of counter %r: received %r, published %r" % (
                            key, samples, sums.get("stats." + key)))
            elif kind == "ms":
                got = sums.get("stats.timers.%s.count" % key, 0)
                x.equal(len(samples), got, "samples of timer %r" % key)
                weighted = 0.0
                for metrics in published:
                    figures = dict((m[0], m[1]) for m in metrics)
                    if "stats.timers.%s.upper" % key in figures:
                        weighted = max(
                            weighted, figures["stats.timers.%s.upper" % key])
                x.equal(max(samples), weighted, "upper of timer %r" % key)
            elif kind == "g":
                x.equal(samples[-1], final.get("stats.gauge.%s.value" % key),
                        "gauge %r" % key)
            elif kind == "m":
                x.check(ref.close(math.fsum(samples), final.get(
                    "stats.meter.%s.count" % key)),
                    "meter %r received %r and publishes %r" % (
                        key, samples, final.get("stats.meter.%s.count" % key)))
        x.state(model.state())
        x.outcome(tuple(sorted(sums.items())))
    return body


def script(flavour, ops, tolerance=1e-9, plugins=None):
    """A body that applies one long sequence of ops."""
    def body(x):
        seams.clock.reset()
        processor, model = build(flavour, plugins)
        for op in ops:
            apply_op(x, processor, model, op, tolerance)
        x.state((flavour, len(ops), model.state()))
    return body
