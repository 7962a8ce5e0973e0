"""Service level indicators, from the rules of the configuration on."""
from core import Case
import ref
import seams

ASSUMPTIONS = [
    "rules whose patterns overlap use different labels; sizes and values are "
    "finite numbers"]

PATTERNS = ["a", "*", "a*", "?", "a.b", "*b", "ns.a", "[a]"]
NAMES = ["a", "ab", "a.b", "b", "a-b_c"]


def matches(pattern, path):
    """Shell patterns with * and ?."""
    if not pattern:
        return not path
    if pattern[0] == "*":
        return any(matches(pattern[1:], path[n:])
                   for n in range(len(path) + 1))
    return bool(path) and pattern[0] in ("?", path[0]) and matches(
        pattern[1:], path[1:])


def holds(condition, value, size):
    kind, numbers = condition[0], [float(n) for n in condition[1:]]
    if kind == "between":
        return numbers[0] < value < numbers[1]
    limit = numbers[0] + (numbers[1] * size if len(numbers) > 1 else 0)
    return value < limit if kind == "below" else value > limit


def build(flavour, rules, through=None, more=()):
    """A processor with the plugin configured, and the prefix of its paths."""
    from twisted.plugins.sli_plugin import SLIMetricFactory
    from txstatsd.server.processor import MessageProcessor
    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    seams.clock.reset()
    text = "\n".join("%s => %s IF %s" % (pattern, label, " ".join(condition))
                     for pattern, label, condition in rules)
    if through == "file":
        try:
            import ConfigParser
            from StringIO import StringIO
        except ImportError:
            import configparser as ConfigParser
            from io import StringIO
        from txstatsd.service import StatsDOptions
        options = StatsDOptions()
        config = ConfigParser.RawConfigParser()
        config.readfp(StringIO("[statsd]\n\n[plugin_sli]\nrules =\n" +
                               "".join("   %s\n" % line for line in
                                       text.split("\n"))))
        options.configure(config)
    else:
        options = {"plugin_sli": {"rules": "\n" + text} if rules else {}}
    factory = SLIMetricFactory()
    factory.configure(options)
    if flavour == "compliant":
        return MessageProcessor(time_function=seams.clock,
                                plugins=[factory] + list(more)), "stats.SLI."
    prefix = {"extended": "pfx", "dotted": "x.y.", "bare": ""}[flavour]
    processor = ConfigurableMessageProcessor(
        time_function=seams.clock, message_prefix=prefix,
        internal_metrics_prefix="statsd.", plugins=[factory] + list(more))
    return processor, prefix + "." if prefix and prefix[-1] != "." else prefix


class Model(object):

    def __init__(self, prefix, rules):
        self.prefix, self.rules = prefix, rules
        self.samples = {}

    def add(self, name, value, size):
        self.samples.setdefault(name, []).append((value, size))

    def flush(self, timestamp):
        result = []
        for name, samples in self.samples.items():
            path = self.prefix + name
            for pattern, label, condition in self.rules:
                if matches(pattern, path):
                    result.append((path + ".count_" + label, len([
                        1 for v, s in samples
                        if v != "error" and holds(condition, v, s)]),
                        timestamp))
            result.append((path + ".count", len(samples), timestamp))
            result.append((path + ".error", len([
                1 for v, s in samples if v == "error"]), timestamp))
            self.samples[name] = []
        return result


def flush(x, processor, model, ours):
    seams.clock.now += 10
    timestamp = int(seams.clock.now)
    got = [m for m in processor.flush(10000)
           if any(m[0].startswith(model.prefix + n + ".") for n in ours)]
    expected = model.flush(timestamp)
    x.check(ref.same(expected, got),
            "the flush of %r: %s" % (model.rules,
                                     ref.difference(expected, got)))
    x.outcome(tuple((m[0], m[1]) for m in ref.lines(got)))


def send(x, processor, model, name, value, size):
    text = "%s:%s|sli" % (name, value) + (
        "" if size is None else "|%s" % size)
    x.op(text)
    processor.process(text)
    model.add(name, value if value == "error" else float(value),
              1.0 if size is None else float(size))


CONDITIONS = [["below", "5"], ["above", "5"], ["between", "2", "5"],
              ["below", "3", "1"], ["above", "3", "1"],
              ["below", "8", "-1.5"], ["above", "-2.5", "0.5"],
              ["below", "0.1"], ["above", "1e2"], ["between", "-1", "0.5"],
              ["between", "5", "2"]]
VALUES = ["5", "4.999", "5.001", "2", "2.001", "4", "0.1", "0", "-1", "0.5",
          "-2.5", "100", "100.5", "error", "1e3", "-5"]
SIZES = [None, "1", "2", "0", "0.5", "-2", "10"]


def conditions(x):
    """Each condition on each value and size."""
    flavour = x.pick(["compliant", "extended"])
    condition = x.pick(CONDITIONS)
    rules = [("*", "red", condition)]
    value = x.pick(VALUES)
    processor, model = None, None
    for size in SIZES:
        processor, prefix = build(flavour, rules)
        model = Model(prefix, rules)
        send(x, processor, model, "n", value, size)
        flush(x, processor, model, ["n"])
    for size in SIZES:
        send(x, processor, model, "n", value, size)
    flush(x, processor, model, ["n"])
    flush(x, processor, model, ["n"])
    x.state((flavour, tuple(condition), value))


def patterns(count, through, names):
    heads = ["%s", "*", "%s*", "*a", "?", "a", "*.%s", "%s.*", "*a*b*", "%sX",
             "*-b_?"]

    def body(x):
        flavour = x.pick(["compliant", "extended", "dotted", "bare"])
        prefix = {"compliant": "stats.SLI.", "extended": "pfx.",
                  "dotted": "x.y.", "bare": ""}[flavour]
        name = x.pick(names)
        rules = []
        for number in range(count):
            head = x.pick(heads)
            if "%s" in head:
                head = head % (prefix + name)
            rules.append((head, ["red", "green", "blue"][number],
                          CONDITIONS[number]))
        processor, prefix = build(flavour, rules, through)
        model = Model(prefix, rules)
        for other in names:
            send(x, processor, model, other, "4", None)
            send(x, processor, model, other, "6", "2")
        flush(x, processor, model, names)
        x.state((flavour, name, tuple(rules[n][0] for n in range(count))))
    return body


def several(through):
    """Several conditions under one pattern, in any order."""
    def body(x):
        chosen = []
        for number in range(3):
            chosen.append(("ns.*", ["red", "green", "blue_2"][number],
                           x.pick(CONDITIONS[:7])))
        rules = list(chosen)
        if x.choose(2):
            rules.insert(1, ("*", "other", ["above", "0"]))
        processor, prefix = build("bare", rules, through)
        model = Model(prefix, rules)
        for value in VALUES:
            send(x, processor, model, "ns.n", value, None)
            send(x, processor, model, "ns.n", value, "2")
        flush(x, processor, model, ["ns.n"])
        x.state(repr(rules))
    return body


def histories(depth):
    rules = [("*", "low", ["below", "3", "1"]),
             ("*a", "high", ["above", "4"]),
             ("*", "mid", ["between", "3", "5"])]
    samples = [(n, v, s) for n in ("a", "b")
               for v, s in (("3.5", None), ("4.5", "3"), ("error", None))]

    def body(x):
        flavour = x.pick(["compliant", "extended"])
        processor, prefix = build(flavour, rules)
        model = Model(prefix, rules)
        for _ in range(depth):
            what = x.choose(len(samples) + 2)
            if what < len(samples):
                send(x, processor, model, *samples[what])
            elif what == len(samples):
                x.op("flush")
                flush(x, processor, model, ["a", "b"])
            else:
                x.op("bad samples")
                for bad in ("a:|sli", "b:x|sli", "a:1|sli|x", "b:1|sli|2|3",
                            "a:error|sli|x", "c:x|sli"):
                    processor.process(bad)
            x.state((flavour, tuple(sorted(
                (n, tuple(s)) for n, s in model.samples.items()))))
        flush(x, processor, model, ["a", "b"])
    return body


BAD = ["a => red IF near 5", "a => red", "a IF below 5", "=> red IF below 5",
       "a => red IF below x", "a => red IF below", "a => red IF between 5",
       "a => red IF between 1 2 3", "a => red IF above 1 2 3", "nonsense",
       "a = red IF below 5", "a => IF below 5"]


def mistakes(x):
    """A rule that makes no sense is refused, wherever it stands."""
    good = ["a => red IF below 5", "a => green IF above 5"]
    bad = x.pick(BAD)
    rules = list(good)
    rules.insert(x.choose(3), bad)
    from twisted.plugins.sli_plugin import SLIMetricFactory
    x.op(bad)
    try:
        SLIMetricFactory().configure(
            {"plugin_sli": {"rules": "\n".join(rules)}})
    except (TypeError, ValueError):
        return
    x.fail("%r was accepted" % bad)


def shared_name(x):
    """A name used for an SLI is used for another kind of metric too."""
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    flavour = x.pick(["compliant", "extended"])
    rules = [("*", "low", ["below", "3"])]
    processor, prefix = build(flavour, rules, None, [DistinctMetricFactory()])
    other = x.pick(["c", "ms", "g", "m", "pd"])
    if flavour == "extended" and other != "pd":
        # Kinds share the paths there: the sums are for C05.
        return
    model = Model(prefix, rules)
    first = x.choose(2)
    for number in range(4):
        if number % 2 == first:
            send(x, processor, model, "n", "%d" % (number + 1), None)
        else:
            x.op("n as " + other)
            processor.process("n:7|" + other)
    seams.clock.now += 10
    timestamp = int(seams.clock.now)
    expected = model.flush(timestamp)
    got = dict((m[0], m[1]) for m in processor.flush(10000))
    for path, value, _ in expected:
        x.check(got.get(path) == value or (
            # The total of distinct items has this name as well.
            path.endswith(".count") and other == "pd"
            and flavour == "extended" and path in got),
            "%s is %r and not %r with %s under the same name" % (
                path, got.get(path), value, other),
            "plugins-share-name:%s:%s" % (
                other, "sli first" if first == 0 else "sli second"))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("conditions", conditions, split=40)
    yield Case("patterns", patterns(2, None, NAMES), split=40)
    yield Case("patterns-file", patterns(1, "file", NAMES), split=20)
    yield Case("several", several("file"), split=40)
    yield Case("histories", histories(5 if thorough else 4), split=40)
    if thorough:
        yield Case("patterns-3", patterns(3, None, NAMES), split=60)
    yield Case("mistakes", mistakes)
    yield Case("shared-name", shared_name)
