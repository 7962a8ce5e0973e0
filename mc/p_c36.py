"""The logging processor next to the one that it extends."""
from core import Case
import ref
import seams
import world
from p_c09 import SlowFactory

ASSUMPTIONS = [
    "messages of the right form are logged also if they are not accepted "
    "(kinds that are not known, values that are no numbers)"]

MESSAGES = ["a:1|c", "a:2|ms", "b c/d:3|g", "a:4|m", "e:0.5|slow",
            "a:5|c|@0.1", "f:%s%d|g", "f:1%|ms", " g:6|g\n", "x:1|zz",
            "x:z|c", "x", "x:1", "x:1|g|2|3", ":7|g", "h:i:1|c"]
MALFORMED = ["x", "x:1", "x:1|g|2|3"]


class Logger(object):

    def __init__(self):
        self.lines = []

    def info(self, line):
        self.lines.append(line)


def verify_lines(x, lines, received, published):
    """The lines are those of what was received and published."""
    ins = [line for line in lines if line.startswith("In: ")]
    outs = [line for line in lines if line.startswith("Out: ")]
    x.equal(len(lines), len(ins) + len(outs), "lines of other kinds")
    position = 0
    for message in received:
        line = "In: %s" % message
        if message in MALFORMED:
            continue
        x.check(position < len(ins) and ins[position] == line,
                "%r is not logged, or not in order: %r" % (message, ins))
        position += 1
    x.equal(position, len(ins), "number of messages that are logged")
    x.equal(["Out: %s %s %s" % metric for metric in published], outs,
            "figures that are logged")


class Pair(object):

    def __init__(self, x, settings, intervals=()):
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        from txstatsd.server.loggingprocessor import LoggingMessageProcessor
        seams.clock.reset()
        self.x = x
        self.logger = Logger()
        # A plugin takes time: each of the two has a clock of its own.
        self.clocks = [Own(), Own()]
        self.plain = ConfigurableMessageProcessor(
            time_function=self.clocks[0], plugins=[Slow(self.clocks[0])],
            **settings)
        self.logging = LoggingMessageProcessor(
            logger=self.logger, time_function=self.clocks[1],
            plugins=[Slow(self.clocks[1])], **settings)
        self.received = []
        self.published = []

    def process(self, message):
        self.x.op(message)
        self.plain.process(message)
        self.logging.process(message)
        self.received.append(message)

    def verify(self):
        verify_lines(self.x, self.logger.lines, self.received, self.published)

    def wait(self, seconds):
        for clock in self.clocks:
            clock.now += seconds


class Own(object):

    def __init__(self):
        self.now = 1000000.0

    def __call__(self):
        return self.now


class Slow(SlowFactory):
    """Moves the clock of its processor."""

    def __init__(self, clock):
        SlowFactory.__init__(self)
        self.clock = clock

    def build_metric(self, *args, **kwargs):
        metric = SlowFactory.build_metric(self, *args, **kwargs)
        process, flush = metric.process, metric.flush

        def moved(function, *args):
            before = seams.clock.now
            try:
                return function(*args)
            finally:
                self.clock.now += seams.clock.now - before
                seams.clock.now = before
        metric.process = lambda fields: moved(process, fields)
        # What it publishes depends on the interval.
        metric.flush = lambda interval, timestamp: moved(
            lambda: list(flush(interval, timestamp)) +
            [("slow.interval", interval, timestamp)])
        return metric


SETTINGS = [{"message_prefix": "pfx"}, {},
            {"message_prefix": "p", "internal_metrics_prefix": "i.j."}]
FLUSHES = [{}, {"interval": 5000}, {"interval": 1500, "percent": 50}]


def histories(depth, messages=MESSAGES):
    def body(x):
        pair = Pair(x, x.pick(SETTINGS))
        for _ in range(depth):
            which = x.choose(len(messages) + len(FLUSHES))
            if which < len(messages):
                pair.process(messages[which])
                continue
            pair.wait(x.pick([10, 0]))
            flush = FLUSHES[which - len(messages)]
            x.op(flush)
            plain = list(pair.plain.flush(**flush))
            got = list(pair.logging.flush(**flush))
            x.equal(plain, got, "published")
            pair.published += got
            pair.verify()
            x.state((len(pair.received), tuple(got)))
            x.outcome(tuple(got))
        x.equal(sorted(pair.plain.get_metric_names()),
                sorted(pair.logging.get_metric_names()), "names")
    return body


def steps(depth):
    """Messages between the steps of a flush, which may not be finished."""
    def body(x):
        pair = Pair(x, x.pick(SETTINGS))
        for message in ["a:1|c", "b:2|g", "a:3|ms", "e:0.5|slow", "m:1|m"]:
            pair.process(message)
        pair.wait(10)
        plain, logging = iter(pair.plain.flush()), iter(pair.logging.flush())
        while True:
            action = x.pick(["step", "message", "new", "leave"],
                            [0, 1, 1, 1])
            if action == "leave":
                plain.close()
                logging.close()
                break
            if action != "step":
                pair.process("a:5|c" if action == "message" else
                             "n%d:5|g" % len(pair.received))
                continue
            expected = list(next_of(plain))
            got = list(next_of(logging))
            x.equal(expected, got, "published")
            pair.published += got
            x.check(not got or "Out: %s %s %s" % got[0] ==
                    pair.logger.lines[-1], "%r is not logged at once" % got)
            x.state((tuple(pair.received), len(pair.published)))
            if not got:
                break
        pair.wait(10)
        x.op("flush")
        got = list(pair.logging.flush())
        x.equal(list(pair.plain.flush()), got, "published later")
        pair.published += got
        pair.verify()
        x.outcome(tuple(pair.published))
    return body


def next_of(generator):
    try:
        yield generator.next()
    except StopIteration:
        pass


class Given(object):
    pass


def loggers(x):
    """What does not have a callable info is refused at once."""
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    logger = x.pick(["nothing", None, "attribute", "method", "function"])
    given = Given() if logger != "nothing" else object()
    lines = []
    if logger == "attribute":
        given.info = "text"
    elif logger == "method":
        given = Logger()
        lines = given.lines
    elif logger == "function":
        given.info = lines.append
    elif logger is None:
        given = None
    x.op(logger)
    try:
        processor = LoggingMessageProcessor(given)
    except TypeError:
        x.check(logger not in ("method", "function"), "refused")
    else:
        x.check(logger in ("method", "function"), "accepted")
        processor.process("a:1|c")
        x.equal(["In: a:1|c"], lines, "logged")


def services(depth):
    """A service in dump mode, and what it logs."""
    def body(x):
        compliance = x.pick([1, 0])
        rules = x.pick(["", "path_like a => rewrite a z dup"])
        w = world.Service(x, {"dump-mode": 1, "flush-interval": 10000,
                              "statsd-compliance": compliance,
                              "routing": rules})
        w.start()
        w.accept()
        expected, published = [], []
        messages = ["a:1|c", "b c:2|ms", "c:3|g", "x"]
        for _ in range(depth):
            which = x.choose(len(messages) + 1)
            x.op(which)
            if which == len(messages):
                w.reactor.advance(10)
                w.reactor.settle()
                published += [m[:3] for m in w.carbon()]
                continue
            w.datagram(messages[which])
            if which == 0 and rules:
                expected += ["In: a:1|c", "In: z:1|c"]
            elif which != 3:
                expected.append("In: " + messages[which].replace(" ", "_"))
        w.reactor.settle()
        lines = [event["message"][0] for event in w.log.messages
                 if event["message"]]
        ins = [line for line in lines if line.startswith("In: ")
               and not line.startswith("In: " + world.HOST)]
        x.equal(expected, ins, "messages logged")
        x.equal(["Out: %s %s %s" % (path, value, stamp)
                 for path, value, stamp in published],
                [line for line in lines if line.startswith("Out: ")],
                "figures logged")
        x.state((compliance, tuple(expected), len(published)))
        x.outcome(tuple(expected))
        x.equal([], w.errors(), "errors")
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("histories", histories(4 if thorough else 3), split=60)
    yield Case("deep", histories(5 if thorough else 4, MESSAGES[:3]),
               split=60)
    yield Case("steps", steps(0), bound=3 if thorough else 2, split=60)
    yield Case("loggers", loggers)
    yield Case("services", services(4 if thorough else 3), split=30)
