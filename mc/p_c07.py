"""Malformed messages are discarded without a trace, and nothing else is."""
from core import Case, sequences
import ref
import seams
import stream

ASSUMPTIONS = [
    "messages are byte strings: every string over the alphabets, up to the "
    "length, and every combination of the fields in mc/p_c07.py",
    "the counts and durations of messages received (statsd.receive.*) may "
    "account for malformed samples of known types"]

RULES = ("path_like zz* => drop\n"
         "metric_type q => set_metric_type c\n"
         "any => rewrite ^r_(.*) s_\\1")


FACTORIES = []


def plugins():
    if FACTORIES:
        return FACTORIES
    from twisted.plugins.sli_plugin import SLIMetricFactory
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    sli = SLIMetricFactory()
    sli.configure({"plugin_sli": {"rules": "* => fast IF below 10"}})
    FACTORIES.extend([sli, DistinctMetricFactory()])
    return FACTORIES


class Quiet(object):

    def info(self, *args):
        pass


def build(flavour):
    """Returns (what processes messages, the processor)."""
    from txstatsd.server.processor import MessageProcessor
    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    from txstatsd.server.router import Router
    seams.reseed()
    if flavour == "compliant":
        processor = MessageProcessor(plugins=plugins())
    elif flavour == "extended":
        processor = ConfigurableMessageProcessor(
            message_prefix="pfx", internal_metrics_prefix="statsd.",
            plugins=plugins())
    elif flavour == "logging":
        processor = LoggingMessageProcessor(Quiet(), plugins=plugins())
    elif flavour == "routed":
        processor = MessageProcessor(plugins=plugins())
        return Router(processor, RULES), processor
    return processor, processor


FLAVOURS = ("compliant", "extended", "logging", "routed")


def sampled(message, flavour):
    """Whether the message is a sample; None when both answers will do."""
    parts = ref.split(message)
    if parts is None:
        return False
    key, fields = parts
    kind = fields[1]
    if flavour == "routed":
        if key.startswith("zz"):
            return None
        if kind == "q":
            kind = "c"
    if kind == "pd":
        return True
    if kind == "sli":
        for text in fields[2:] + [f for f in fields[:1] if f != "error"]:
            if ref.number(text) is None:
                return False
        return True
    if kind not in ("c", "g", "m", "ms"):
        return False
    if ref.number(fields[0]) is None:
        return False
    if (kind == "c" and len(fields) == 3
        and flavour in ("compliant", "routed")):
        return ref.rate(fields[2]) is not None
    return True


def published(processor):
    seams.clock.now += 10
    return stream.external(processor.flush())


GOOD = ["good:1|c", "good:2|g", "good:3|ms", "good:4|m", "good:5|sli",
        "good:6|pd"][:5]


def feed(x, flavour, messages):
    """All the malformed ones, to one processor; each sample, to its own."""
    seams.clock.reset()
    target, processor = build(flavour)
    for message in GOOD:
        target.process(message)
    names = sorted(processor.get_metric_names())
    log = seams.start_log()
    malformed = distinct = 0
    for message in messages:
        verdict = sampled(message, flavour)
        if message.find("|pd") > 0 and verdict:
            # Anything can be counted; building one of those takes long.
            distinct += 1
            if distinct > 3:
                continue
        x.op()
        if verdict is None:
            build(flavour)[0].process(message)
        elif verdict:
            other, its = build(flavour)
            other.process(message)
            x.check(len(its.get_metric_names()) == 1,
                    "%s: %r is a sample, and it left %r" % (
                        flavour, message, its.get_metric_names()))
        else:
            malformed += 1
            try:
                del log.messages[:]
                target.process(message)
            except Exception, e:
                x.fail("%s: %r is malformed, and it raised %r" % (
                    flavour, message, e))
            told = ["".join(map(str, event["message"]))
                    for event in log.messages]
            if flavour != "routed" and [t for t in told
                                        if repr(message) in t] == []:
                x.fail("%s: %r is malformed, and what is logged is %r" % (
                    flavour, message, told))
            if sorted(processor.get_metric_names()) != names:
                x.fail("%s: %r is malformed, and the metrics are now %r" % (
                    flavour, message, sorted(processor.get_metric_names())))
    x.count("malformed_messages", malformed)
    got = published(processor)
    seams.clock.reset()
    target, processor = build(flavour)
    for message in GOOD:
        target.process(message)
    expected = published(processor)
    x.check(ref.same(expected, got),
            "%s: malformed messages changed what is published\n  %s\n"
            "  among %d messages from %r to %r" % (
                flavour, ref.difference(expected, got), len(messages),
                messages[0], messages[-1]))
    x.state((flavour, messages[0]))
    x.outcome((flavour, malformed, len(messages)))


def strings(alphabet, length, flavours):
    """Every string of up to so many characters; one chunk per execution."""
    def body(x):
        flavour = x.pick(flavours)
        first = x.pick(alphabet)
        second = x.pick([""] + list(alphabet))
        if second == "":
            messages = [first]
        else:
            messages = [first + second + "".join(rest)
                        for n in range(length - 1)
                        for rest in sequences(alphabet, n)]
        feed(x, flavour, messages)
    return body


KEYS = ["a", "good", "", "a b", "\xc3\xa9", "a:b", "zz", "r_x"]
VALUES = ["1", "", " ", "x", "nan", "-nan", "NaN", "inf", "+Infinity", "-inf",
          "1e999", "-1e999", "0x10", "1,2", "1:2", "--1", "1 1", "1e", "e1",
          "error", "None", "\xd9\xa1", "1\x00", "1L", "@", "-1.5"]
KINDS = ["c", "g", "m", "ms", "sli", "pd", "q", "", "C", "c ", " c", "mss",
         "\xff", "cms", "d"]
THIRDS = [None, "", "@", "@0", "@0.0", "@-1", "@+1", "@1", "@0.5", "@x",
          "@1e-400", "@1e999", "@nan", "@inf", "@.", "@1.2.3", "@1..", "x@1",
          "@1@", "@1 ", " @1", "0.5", "@0.5\n", "@1e", "@e1", "@1e5.5",
          "@0e5", "@5e-1", "3", "x", "@0x1", "@\xc2\xbd"]


def fields(flavours):
    def body(x):
        flavour = x.pick(flavours)
        kind = x.pick(KINDS)
        value = x.pick(VALUES)
        messages = []
        for key in KEYS:
            messages.append("%s:%s|%s" % (key, value, kind))
            for third in THIRDS[1:]:
                messages.append("%s:%s|%s|%s" % (key, value, kind, third))
            messages.append("%s:%s|%s|@1|" % (key, value, kind))
            messages.append("%s:%s|%s|@1|@1" % (key, value, kind))
            messages.append("%s:%s" % (key, value))
            messages.append("%s%s|%s" % (key, value, kind))
        feed(x, flavour, messages)
    return body


BAD = ["a:x|c", "a:nan|g", "a:inf|m", "a:|ms", "a:1|c|@0", "a:1|c|x", "a:1",
       "a|c", "", "a:1|q", "a:1|c|@1|1", "a:x|sli", "a:1|sli|x", "b:-inf|ms",
       "new:x|c", "new:x|g", "new:x|m", "new:x|ms", "new:x|sli",
       "new:1|c|@nan", "a:1:2|g", "a:1:2|m", "b:x|sli", "b:1|sli|x"]


def mixed(flavour, length):
    """Samples before, between and after malformed messages, with flushes."""
    ops = ["a:1|c", "a:2|g", "a:4|ms", "a:8|m", "b:16|sli", "flush"] + BAD

    def run(sequence):
        seams.clock.reset()
        target, processor = build(flavour)
        result = []
        for op in sequence + ["flush"]:
            if op == "flush":
                result.append(sorted(published(processor)))
            else:
                target.process(op)
        return result

    def body(x):
        sequence = [x.pick(ops) for _ in range(length)]
        good = [op for op in sequence
                if op == "flush" or sampled(op, flavour)]
        x.op(sequence)
        if len(good) == len(sequence):
            return
        x.equal(run(good), run(sequence),
                "%s: what is published after %r and after %r" % (
                    flavour, good, sequence))
        x.state((flavour, tuple(good)))
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("strings", strings("a:|c1@", 7 if thorough else 6,
                                  ["compliant", "extended", "routed"]
                                  if thorough else ["compliant"]), split=36)
    yield Case("characters", strings(
        "a:|cgms1@.-e \n\x00\xe9", 5 if thorough else 4,
        FLAVOURS if thorough else ["compliant"]), split=64)
    yield Case("fields", fields(FLAVOURS if thorough
                                else ("compliant", "routed", "extended")),
               split=64)
    for flavour in FLAVOURS:
        yield Case("mixed-" + flavour, mixed(flavour, 3 if thorough else 2),
                   split=32)
