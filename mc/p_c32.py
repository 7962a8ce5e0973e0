"""The HTTP resources, asked by HTTP, at any moment."""
import json

from core import Case
import ref
import seams
import stream
import p_c09

ASSUMPTIONS = [
    "time passes only in a metric plugin that takes its time and while what "
    "is flushed is being consumed; while a flush is under way /status may "
    "still tell about the one before"]


class AlsoSlowFactory(p_c09.SlowFactory):
    name = "also"
    metric_type = "also"


class World(object):

    def __init__(self, x, flavour, interval, routing=""):
        from fakereactor import reactor
        from txstatsd.server import httpinfo
        from txstatsd.server.router import Router
        from txstatsd.service import StatsDOptions, StatsDService
        reactor.reset(1000000.0)
        seams.start_log()
        self.x = x
        self.reactor = reactor
        self.processor, self.model = stream.build(
            flavour, plugins=[p_c09.SlowFactory(), AlsoSlowFactory()])
        self.router = Router(self.processor, routing)
        statsd = StatsDService(None, self.router, interval)
        options = StatsDOptions()
        options["http-port"] = 8080
        self.service = httpinfo.makeService(options, self.processor, statsd)
        self.service.startService()
        x.equal([8080], [p.port for p in reactor.tcp], "HTTP ports")
        self.port = reactor.tcp[0]

    def get(self, path):
        """(code, body) of a GET request."""
        transport = self.port.connect()
        transport.receive("GET %s HTTP/1.0\r\nHost: localhost\r\n\r\n" % path)
        answer = "".join(transport.written)
        head, body = answer.split("\r\n\r\n", 1)
        return int(head.split()[1]), body


def expect_status(x, world, interval, pairs):
    code, body = world.get("/status")
    data = json.loads(body)
    x.op("status")
    good = None
    for flush, process in pairs:
        if (ref.close(data["flush_time"], flush) and
            ref.close(data["process_time"], process)):
            good = (flush, process)
    x.check(good is not None, "status tells %r and not one of %r" % (
        data, pairs))
    x.check(ref.close(data["flush_interval"], interval / 1000.0),
            "interval %r" % data)
    late = 10 * sum(good) > 7 * interval / 1000.0
    x.equal((500, "ERROR") if late else (200, "OK"), (code, data["status"]),
            "after a flush of %s s and %s s of processing, every %s ms" % (
                good + (interval,)))
    x.outcome((code, good))


def statuses(flavours, intervals, during):
    """Durations of two flushes and of what is processed before them."""
    def body(x):
        flavour = x.pick(flavours)
        interval = x.pick(intervals)
        world = World(x, flavour, interval)
        seconds = interval / 1000.0
        expect_status(x, world, interval, [(0, 0)])
        previous = (0, 0)
        for number in range(2):
            processing = 0.0
            for place, share in enumerate(x.pick(
                    [(), (0.25,), (0.375, 0.325), (0.7,), (0.71,), (1.5,),
                     (0.375, 0.375), (0.34, 0.34), (0.25, 0.2, 0.25)],
                    [1, 0, 1, 1, 1, 1, 1, 1, 1])):
                world.router.process("%s:%s|%s" % (
                    "pqr"[place], share * seconds,
                    ("slow", "also")[place % 2]))
                processing += share * seconds
            world.router.process("a:1|c")
            world.router.process("b:1|g")
            expect_status(x, world, interval, [previous])
            share, where = x.pick([(0, 1), (0.25, 1), (0.325, 2), (0.45, 3),
                                   (0.7, 2), (0.75, 1), (2, 3)],
                                  [1, 1, 0, 1, 1, 1, 1])
            first = seams.clock.now
            flushing = None
            position = 0
            asked = during and x.choose(20)
            for metric in world.router.flush(interval=interval):
                position += 1
                if flushing is None and metric[0].endswith("numStats"):
                    flushing = seams.clock.now - first
                if flushing is None and position == where:
                    seams.clock.now += share * seconds
                if during and position == asked:
                    allowed = [previous]
                    if flushing is not None:
                        allowed.append((flushing, processing))
                    expect_status(x, world, interval, allowed)
            previous = (flushing, processing)
            expect_status(x, world, interval, [previous])
            seams.clock.now += 1
            x.state((flavour, interval, previous))
    return body


MESSAGES = ["a:1|c", "a:2|ms", "b:3|ms", "b:4|g", "c:5|m", "d:0|slow",
            "e f/g:1|g", "d:7|ms", "x:1|zz", "x:1|g|2|3", "x:z|ms", "x", ":1|c"]


def names(depth, routing=None):
    """Every metric seen is listed once; timers have histograms."""
    def body(x):
        flavour = x.pick(["compliant", "extended"])
        world = World(x, flavour, 10000, routing or "")
        seen = set()
        timers = {}
        for _ in range(depth):
            which = x.choose(len(MESSAGES) + 1)
            if which == len(MESSAGES):
                x.op("flush")
                seams.clock.now += 10
                list(world.router.flush())
                for name in timers:
                    timers[name] = []
            else:
                message = MESSAGES[which]
                x.op(message)
                world.router.process(message)
                if not message.startswith("x"):
                    key, data = message.split(":")
                    name = ref.normalize(key)
                    kind = data.split("|")[1]
                    if routing and name == "a":
                        name = "z"
                    seen.add(name)
                    if kind == "ms":
                        timers.setdefault(name, []).append(
                            float(data.split("|")[0]) / 1000)
            code, answer = world.get("/list_metrics")
            x.equal(200, code, "code of /list_metrics")
            listed = json.loads(answer)["names"]
            x.equal(sorted(seen), sorted(listed), "the names listed")
        for name in sorted(seen | set(["a", "nothing", "", "x"])):
            code, answer = world.get("/metrics/" + name)
            if not name:
                # There is no path for it.
                continue
            if flavour == "extended" and name in timers:
                x.equal(200, code, "code for the timer %r" % name)
                data = json.loads(answer)
                values = timers[name]
                x.equal(len(values), sum(data["histogram"]),
                        "values in the histogram of %r" % name)
                for what, function in (("max", max), ("min", min)):
                    x.check(ref.close(function(values or [0]),
                                      data[what + "_value"]) or
                            ref.close(function(values or [0]) * 1000,
                                      data[what + "_value"]),
                            "%s of %r is %r" % (what, values, data))
            else:
                x.equal(404, code, "code for %r" % name)
        for path in ("/nothing", "/", "/metrics/", "/statusx"):
            code, answer = world.get(path)
            x.check(code == 404, "%s is %s" % (path, code))
        x.state((flavour, tuple(sorted(seen)), tuple(sorted(
            (k, tuple(v)) for k, v in timers.items()))))
    return body


def many(x):
    """Very many names are listed, whatever they are."""
    flavour = x.pick(["compliant", "extended"])
    world = World(x, flavour, 10000)
    expected = set()
    kinds = ["c", "g", "m", "ms", "slow"]
    some = x.pick([kinds] + [[kind] for kind in kinds])
    for n in range(x.pick([40, 1200])):
        name = "n%d.%s" % (n, "x" * (n % 90))
        world.router.process("%s:0|%s" % (name, some[n % len(some)]))
        expected.add(name)
        x.op()
    for _ in range(2):
        code, answer = world.get("/list_metrics")
        listed = json.loads(answer)["names"]
        x.equal(200, code, "code of /list_metrics")
        x.equal(len(expected), len(listed), "number of names listed")
        x.equal(expected, set(listed), "the names listed")
        list(world.router.flush())
    x.state((flavour, len(expected), len(some)))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("status", statuses(["compliant", "extended"],
                                  [10000, 500] if not thorough else
                                  [10000, 500, 60000, 1, 1500], False),
               split=60)
    yield Case("during", statuses(["compliant", "extended"], [10000], True),
               bound=2 if thorough else 1, split=80)
    yield Case("names", names(4 if thorough else 3), split=60)
    yield Case("routed", names(3, "any => rewrite ^a$ z\n"), split=30)
    yield Case("many", many, split=8)
