"""What the server says about itself at the end of each flush."""
from core import Case
import ref
import seams
import stream

ASSUMPTIONS = [
    "time passes only where the harness says: while what is published is "
    "being consumed, and inside a metric plugin that takes its time (or "
    "during which the clock is set back)"]

CATEGORY = {"c": "counter", "ms": "timer", "g": "gauge", "m": "meter",
            "slow": "plugin"}


class SlowMetric(object):

    def __init__(self, name):
        self.name = name

    def process(self, fields):
        seams.clock.now += float(fields[0])

    def flush(self, interval, timestamp):
        seams.clock.now += 0.125
        return [("slow." + self.name, 1, timestamp)]


class SlowFactory(object):
    name = "slow"
    metric_type = "slow"

    def build_metric(self, prefix, name, wall_time_func=None):
        return SlowMetric(name)


PREFIX = {"compliant": "statsd.", "extended": "statsd.", "bare": "statsd."}

OWNER = {
    "compliant": [("stats_counts.", "counter"), ("stats.timers.", "timer"),
                  ("stats.gauge.", "gauge"), ("stats.meter.", "meter"),
                  ("slow.", "plugin"), ("stats.", "counter")]}


FIGURES = {
    "compliant": {"counter": 2, "timer": 5, "gauge": 1, "meter": 2,
                  "plugin": 1},
    "extended": {"counter": 1, "timer": 8, "gauge": 1, "meter": 2,
                 "plugin": 1}}


def owner(flavour, path):
    if path.startswith("slow."):
        return "plugin"
    if flavour == "compliant":
        for prefix, category in OWNER["compliant"]:
            if path.startswith(prefix):
                return category
    return {"c": "counter", "t": "timer", "g": "gauge",
            "m": "meter"}[path[len("pfx."):][0]]


def body_of(flavour, messages, delays, length, midflush):
    """Histories of messages and two flushes, consumed at any pace."""
    def body(x):
        seams.clock.reset(1000000.5)
        processor, model = stream.build(flavour, plugins=[SlowFactory()])
        received = {}
        durations = {}
        known = {}       # category -> names that a flush is to count

        def process(message):
            kind = message.split("|")[1]
            key = message.split(":")[0]
            x.op(message)
            processor.process(message)
            if kind not in CATEGORY:
                return
            received[kind] = received.get(kind, 0) + 1
            if kind == "slow":
                durations[kind] = durations.get(kind, 0.0) + float(
                    message.split(":")[1].split("|")[0])
            known.setdefault(CATEGORY[kind], set()).add(key)

        for _ in range(length):
            message = x.pick(messages)
            if message is not None:
                process(message)
        for number in range(3):
            seams.clock.now += 10
            begun = int(seams.clock.now)
            spent = {}
            public = []
            summary = {}
            pace = x.pick(delays)
            late = dict(received)
            late_durations = dict(durations)
            injected = None
            if number == 0 and midflush is not None:
                injected = x.pick([None] + midflush)
                moment = 1 + x.choose(24) if injected else None
            generator = iter(processor.flush(interval=10000))
            before = seams.clock.now
            position = 0
            counted = dict((c, set(known[c])) for c in known)
            while True:
                if injected and position == moment:
                    process(injected)
                try:
                    path, value, stamp = generator.next()
                except StopIteration:
                    break
                position += 1
                x.equal(begun, stamp, "timestamp of %s" % path)
                if path.startswith("statsd."):
                    name = path[len("statsd."):]
                    x.check(name not in summary, "%s twice" % path)
                    summary[name] = value
                else:
                    category = owner(flavour, path)
                    spent[category] = spent.get(category, 0.0) + pace
                    public.append((category, path))
                seams.clock.now += pace
            x.op("flush")
            check_summary(x, flavour, summary, public, counted, known, spent,
                          late, received, late_durations, durations,
                          exact=injected is None)
            # What the summary told is told once.
            for kind in list(received):
                name = "receive.%s.count" % kind
                if name in summary:
                    received[kind] -= summary[name]
                    durations[kind] = (durations.get(kind, 0.0) - summary[
                        "receive.%s.duration" % kind] / 1000.0)
                    if not received[kind]:
                        del received[kind]
                        durations.pop(kind, None)
            x.outcome(tuple(sorted(summary.items())))
            x.state((flavour, tuple(sorted(received.items())),
                     tuple(sorted((k, len(v)) for k, v in known.items()))))
        x.check(not received, "messages never accounted for: %r" % received)
    return body


def check_summary(x, flavour, summary, public, counted, known, spent, late,
                  received, late_durations, durations, exact):
    names = set(["numStats"])
    total = 0
    for category in ("counter", "timer", "gauge", "meter", "plugin"):
        names.update("flush.%s.%s" % (category, s)
                     for s in ("count", "duration"))
        x.check("flush.%s.count" % category in summary and
                "flush.%s.duration" % category in summary,
                "no flush.%s in the summary %r" % (category, summary))
        count = summary["flush.%s.count" % category]
        total += count
        if category != "meter" or exact:
            # Every metric publishes as many figures as any of its kind.
            x.equal(len([p for p in public if p[0] == category]) //
                    FIGURES[flavour][category], count,
                    "flush.%s.count with %r published" % (category, public))
        if exact:
            if category != "timer" or flavour != "compliant":
                x.equal(len(counted.get(category, ())), count,
                        "flush.%s.count" % category)
            expected = spent.get(category, 0.0)
            if category == "plugin":
                expected += 0.125 * count
            x.check(ref.close(expected * 1000,
                              summary["flush.%s.duration" % category], 1e-6),
                    "flush.%s.duration: %r and not %r" % (
                        category, summary["flush.%s.duration" % category],
                        expected * 1000))
        else:
            x.check(len(counted.get(category, ())) <= count <=
                    len(known.get(category, ())) or category == "timer",
                    "flush.%s.count is %r" % (category, count))
    x.equal(total, summary["numStats"], "numStats")
    for kind in sorted(set(late) | set(received)):
        count, duration = ["receive.%s.%s" % (kind, s)
                           for s in ("count", "duration")]
        if exact:
            x.equal(late.get(kind, 0), summary.get(count, 0), count)
            x.check(ref.close(late_durations.get(kind, 0.0) * 1000,
                              summary.get(duration, 0.0), 1e-6),
                    "%s: %r and not %r" % (
                        duration, summary.get(duration),
                        late_durations.get(kind, 0.0) * 1000))
        else:
            x.check(late.get(kind, 0) <= summary.get(count, 0) <=
                    received.get(kind, 0), "%s is %r, with %r received "
                    "before the flush and %r at its end" % (
                        count, summary.get(count, 0), late.get(kind, 0),
                        received.get(kind, 0)))
        names.update([count, duration])
    x.check(set(summary) <= names, "unexpected in the summary: %r" % (
        sorted(set(summary) - names)))


def counts(flavour):
    """So many metrics of each kind."""
    def body(x):
        numbers = [x.pick([0, 1, 2, 7, 40]) for _ in range(4)]
        messages = ["%s%d:1|%s" % (kind[0], n, kind) for kind, number in zip(
            ["c", "ms", "g", "m"], numbers) for n in range(number)]
        seams.clock.reset()
        processor, model = stream.build(flavour)
        for message in messages:
            processor.process(message)
            processor.process(message)
        x.op(numbers)
        for attempt in range(2):
            seams.clock.now += 10
            summary = dict((m[0], m[1]) for m in processor.flush()
                           if m[0].startswith("statsd."))
            timers = numbers[1]
            if attempt and flavour == "compliant":
                timers = 0
            expected = [numbers[0], timers, numbers[2], numbers[3]]
            got = [summary["statsd.flush.%s.count" % c]
                   for c in ("counter", "timer", "gauge", "meter")]
            x.equal(expected, got, "%s: metrics flushed" % flavour)
            x.equal(sum(expected), summary["statsd.numStats"], "numStats")
            for kind, number in zip(["c", "ms", "g", "m"], numbers):
                wanted = 2 * number if not attempt else 0
                x.equal(wanted, summary.get(
                    "statsd.receive.%s.count" % kind, 0),
                    "messages of kind %s" % kind)
        x.state((flavour, tuple(numbers)))
        x.outcome(tuple(numbers))
    return body


def cases(tier):
    thorough = tier == "thorough"
    messages = {
        "compliant": ["c1:1|c", "t1:2|ms", "t1:5|ms", "g1:3|g", "m1:4|m",
                      "s1:0.25|slow",
                      "s1:0.0008|slow", "c1:1|q", "s1:-0.5|slow", None],
        "extended": ["c1:1|c", "t1:2|ms", "g1:3|g", "m1:4|m", "s1:0.25|slow",
                     "s1:0.0008|slow", "c2:1|q", "s1:-0.5|slow", None]}
    for flavour in ("compliant", "extended"):
        yield Case("summary-" + flavour, body_of(
            flavour, messages[flavour], [0.0, 0.5, 0.0004] if thorough
            else [0.5, 0.0004],
            4 if thorough else 3, None), split=32)
        yield Case("midflush-" + flavour, body_of(
            flavour, messages[flavour][:-3] if thorough
            else messages[flavour][:5], [0.0], 2,
            ["c1:1|c", "c9:1|c", "t1:3|ms", "g9:1|g", "s1:0.5|slow"]),
            split=64)
        yield Case("counts-" + flavour, counts(flavour), split=16)
