"""createService: every configuration, with samples in and carbon out."""
import threading

from core import Case
import ref
import seams
import world
from p_c31 import Lockstep, Sleeper

ASSUMPTIONS = [
    "carbon destinations on the same host have different names, as carbon's "
    "own router demands; there are not more ports or names than hosts, or "
    "one if there is no host; the prefix has no dot at its end",
    "dump mode takes the place of the compliant processor, as the comment in "
    "createService says"]

SAMPLES = ["a:3|c", "a:4|c", "b:5|g", "c d/e:6|ms", "f:7|m", "g:8|g"]
REPORTS = {
    "process": ["proc.cpu.percent", "proc.memory.percent",
                "proc.memory.vsize", "proc.memory.rss", "proc.threads"],
    "counter": ["proc.cpu.user", "proc.cpu.system"],
    "io": ["proc.io.%s.%s" % (d, w) for d in ("read", "write")
           for w in ("count", "bytes")],
    "net": [],
    "system": ["sys.mem.MemTotal", "sys.mem.MemFree", "sys.loadavg.oneminute",
               "sys.cpu.user", "sys.cpu.idle", "sys.net.lo.bytes.sent"],
    "reactor": []}


def destinations(lists):
    hosts = lists["carbon-cache-host"] or ["127.0.0.1"]
    ports = lists["carbon-cache-port"]
    names = lists["carbon-cache-name"]
    return [(host, ports[n] if n < len(ports) else 2004,
             names[n] if n < len(names) else None)
            for n, host in enumerate(hosts)]


def gauges(received, names, instance):
    """The gauges of our own that came to carbon: {name: [values]}"""
    begin, end = names.gauge.split("%s")
    begin += (instance or world.HOST) + "."
    result = {}
    for path, value, stamp, where in received:
        if path.startswith(begin) and path.endswith(end):
            result.setdefault(path[len(begin):-len(end)], []).append(value)
    return result


def expected_of(names, interval, now):
    """What the flush publishes about the samples."""
    result = []
    for options in names.model.expected(int(now), interval, 90):
        for path, value in options[0].items():
            result.append((path, value, int(now)))
    return result


class Plugins(object):
    """A service level indicator and a distinct counter."""

    def __init__(self, names):
        self.names = names
        self.durations = []

    def expected(self, stamp):
        s, d = self.names.sli, self.names.distinct
        values, self.durations = self.durations, []
        return [(s + "i.count", len(values), stamp),
                (s + "i.error", 0, stamp),
                (s + "i.count_fast", len([v for v in values if v < 5]), stamp),
                (s + "i.count_slow", len([v for v in values if v > 9]), stamp)]

    def estimates(self):
        return [self.names.distinct + "j" + e for e in (
            ".count", ".count_1min", ".count_1hour", ".count_1day")]


def run(x, options, lists, report_names=()):
    compliance = options.get("statsd-compliance", 1)
    dump = options.get("dump-mode", 0)
    instance = options.get("instance-name")
    interval = options.get("flush-interval", 60000)
    seconds = interval / 1000.0
    names = world.Names(compliance, dump, options.get("prefix"), instance)
    lists = dict((k, list(v)) for k, v in lists.items())
    targets = destinations(lists)
    x.op((sorted(options.items()), sorted(lists.items())))
    w = world.Service(x, options, lists)
    reactor = w.reactor

    from carbon.conf import settings
    x.equal((options.get("max-queue-size", 20000),
             options.get("max-datapoints-per-message", 1000)),
            (settings.MAX_QUEUE_SIZE, settings.MAX_DATAPOINTS_PER_MESSAGE),
            "carbon's settings")
    x.equal(([], [], [], []), (reactor.udp, reactor.tcp, reactor.connectors,
                               reactor.calls), "before it is started")
    w.start()
    x.equal(sorted(targets), sorted(
        (c.host, c.port, c.factory.destination[2])
        for c in reactor.connectors), "connections to carbon")
    x.equal(sorted(targets), sorted(
        c.factory.destination for c in reactor.connectors),
        "destinations of carbon's clients")
    redirected = "redirect_udp" in options.get("routing", "")
    x.equal(sorted([options.get("listen-port", 8125)] + [0] * redirected),
            sorted(p.port for p in reactor.udp), "UDP ports")
    tcp, http = options.get("listen-tcp-port"), options.get("http-port")
    x.equal(sorted(p for p in (tcp, http) if p is not None),
            sorted(p.port for p in reactor.tcp), "TCP ports")
    w.accept()
    reactor.settle()
    connection = w.tcp_port(tcp).connect() if tcp is not None else None
    plugins = Plugins(names)
    where = {}
    all_received = []
    for number in range(2):
        routed = 0
        for index, sample in enumerate(SAMPLES):
            if connection is not None and index % 2:
                connection.receive(sample + "\r\n")
            else:
                w.datagram(sample)
            key = sample.split(":")[0]
            if options.get("routing") and key == "g":
                routed += 1
                if not redirected:
                    continue
            names.model.process(sample, seams.clock.now)
        w.datagram("i:%d|sli|1" % (4 + 6 * number))
        plugins.durations.append(4 + 6 * number)
        w.datagram("j:item|pd")
        # The monitor.
        ping = options.get("monitor-message", "txstatsd ping")
        pong = options.get("monitor-response", "txstatsd pong")
        address = ("192.0.2.7", 4000 + number)
        w.datagram(ping, address)
        reactor.settle()
        if tcp is not None:
            connection.receive(ping + "\r\n")
            x.equal(pong * (number + 1), connection.value(), "answer by TCP")
        x.check((pong, address) in w.udp_port().written, "answer by UDP")
        if redirected:
            redirect = [p for p in reactor.udp if p.port == 0][0]
            x.equal(["g:8|g"] * (routed * (number + 1)),
                    [data for data, _ in redirect.written], "redirected")
        # Nothing happens until the interval is over.
        reactor.advance(seconds - 0.5)
        x.equal([], w.carbon(), "sent to carbon before the interval is over")
        reactor.advance(0.5)
        reactor.settle()
        if http is not None:
            code, body = w.get("/status", http)
            x.equal(200, code, "HTTP status")
            x.check('"flush_interval": %s' % seconds in body, body)
        received = w.carbon()
        all_received += received
        own = (names.internal, names.gauge.split("%s")[0] +
               (instance or world.HOST) + ".")
        got = [m[:3] for m in received if not m[0].startswith(own) and
               m[0] not in ("stats.gauge.delay.value",
                            names.gauge % "delay")]
        estimates = plugins.estimates()
        x.equal(sorted(estimates), sorted(m[0] for m in got if m[0] in estimates),
                "estimates of the number of items")
        for path, value, stamp in got:
            x.check(path not in estimates or 1 <= value <= 3,
                    "one item is counted as %r" % value)
        got = [m for m in got if m[0] not in estimates]
        expected = expected_of(names, interval, seams.clock.now)
        expected += plugins.expected(int(seams.clock.now))
        x.check(ref.same(expected, got), "flush %d: %s" % (
            number, ref.difference(expected, got)))
        paths = [m[0] for m in received]
        for path in ("numStats", "flush.counter.count",
                     "receive.c.count", "receive.ms.duration"):
            x.equal(1, paths.count(names.internal + path),
                    "times that %s%s is sent" % (names.internal, path))
        x.equal(1, len(set(m[2] for m in received)), "timestamps")
        for path, value, stamp, destination in received:
            x.equal(where.setdefault(path, destination), destination,
                    "destination of %s" % path)
        # What carbon's clients count.
        for name, values in gauges(received, names, instance).items():
            if name.startswith("destinations."):
                x.check(":" not in name and len(values) == 1, name)
    # What was sent in the first flush is told in the second one.
    found = gauges(received, names, instance)
    per_target = {}
    for path, value, stamp, destination in all_received:
        if stamp < int(seams.clock.now):
            per_target[destination] = per_target.get(destination, 0) + 1
    for host, port, name in targets:
        key = ("destinations.%s:%d:%s" % (host, port, name)).replace(
            ".", "_").replace(":", "_").replace("destinations_",
                                                "destinations.", 1) + ".sent"
        sent = per_target.get((host, port), 0)
        x.check(sent == 0 or found.get(key) == [sent],
                "%d datapoints were sent to %s and reported are %r" % (
                    sent, host, found.get(key)))
    report_ours = [n for n in found if not n.startswith("destinations.")]
    if "report" in options:
        # After a minute, and the differences after two.
        reactor.advance(180)
        reactor.settle()
        found = gauges(w.carbon(), names, instance)
        reports = [r.strip() for r in options["report"].split(",")]
        expected = ["reactor.readers", "reactor.writers"]
        for report in reports:
            expected += REPORTS[report]
        for name in expected:
            x.check(name in found, "%s is not reported: %r" % (
                name, sorted(found)))
        for report in REPORTS:
            if report not in reports:
                for name in REPORTS[report]:
                    x.check(name not in found, "%s is reported" % name)
        if "io" in reports:
            x.equal(60, found["proc.io.write.bytes"][-1], "bytes in a minute")
        if "process" in reports:
            x.equal(1000, found["proc.memory.vsize"][-1], "memory")
    else:
        x.equal([], report_ours, "reports")
    x.equal([], w.errors(), "errors")
    x.state(repr((sorted(options.items()), targets)))
    x.outcome(tuple(sorted(set(where))))
    return w


LISTS = [{"carbon-cache-host": h, "carbon-cache-port": p,
          "carbon-cache-name": n} for h, p, n in [
    ([], [], []),
    (["10.0.0.1", "10.0.0.2"], [2104], [])]]


def modes(x):
    """The modes, prefixes, ports and rules, in all combinations."""
    options = {}
    options["statsd-compliance"] = x.pick([1, 0])
    options["dump-mode"] = x.pick([0, 1])
    for name, value in [("prefix", "pre"), ("instance-name", "inst.1"),
                        ("listen-tcp-port", 7001), ("http-port", 8080)]:
        if x.choose(2):
            options[name] = value
    routing = x.pick(["", "path_like g* => drop",
                      "path_like g* => redirect_udp 127.0.0.1 9999"])
    if routing:
        options["routing"] = routing
    options["flush-interval"] = 10000
    run(x, options, x.pick(LISTS))


def values(x):
    """One setting at a time, in every mode."""
    options = {"statsd-compliance": x.pick([1, 0]),
               "dump-mode": x.pick([0, 1]), "listen-tcp-port": 7001}
    name, value = x.pick([
        ("flush-interval", 1500), ("flush-interval", 250),
        ("flush-interval", 60000), ("flush-interval", 600000),
        ("listen-port", 9999), ("monitor-message", "hello?"),
        ("monitor-response", "hello!"), ("listen-tcp-port", 8125),
        ("max-queue-size", 500), ("max-queue-size", 50000), ("max-datapoints-per-message", 3),
        ("statsd-compliance", 2), ("dump-mode", 2), ("http-port", 1),
        ("http-port", 0), ("listen-tcp-port", 0), ("prefix", ""),
        ("prefix", "a.b"), ("instance-name", "")])
    if name == "flush-interval" and value == 250:
        # Only whole seconds let meters report at every flush.
        value = 2000
    options[name] = value
    run(x, options, LISTS[0])


def carbons(x):
    """Hosts, ports and names of carbon caches."""
    count = x.choose(4)
    hosts = ["10.0.0.%d" % (3 - n) for n in range(count)]
    same = count > 1 and x.choose(2)
    if same:
        hosts = hosts[:1] * count
    most = max(count, 1)
    ports = [2300 - n for n in range(x.choose(most + 1))]
    names = ["abc"[n] for n in range(most if same else x.choose(most + 1))]
    if same and len(ports) < count - 1:
        # Two destinations are told apart here by their ports.
        return
    run(x, {"statsd-compliance": x.pick([1, 0]), "flush-interval": 10000},
        {"carbon-cache-host": hosts, "carbon-cache-port": ports,
         "carbon-cache-name": names})


def reports(x):
    """Which reports are made."""
    chosen = [r for r in ("process", "counter", "io", "net", "system")
              if x.choose(2)]
    separator = x.pick([",", ", "])
    options = {"statsd-compliance": x.pick([1, 0]), "flush-interval": 30000}
    if x.choose(2):
        options["instance-name"] = "inst"
    if chosen:
        options["report"] = separator.join(chosen)
    run(x, options, LISTS[0])


def inspector(x):
    """With "reactor", a thread looks at the reactor."""
    mode, dump = x.pick([1, 0]), x.choose(2)
    report = x.pick(["reactor", "process,reactor", "reactor, net", "process",
                     None])
    steps = Lockstep()
    before = set(threading.enumerate())
    options = {"statsd-compliance": mode, "dump-mode": dump,
               "flush-interval": 10000}
    if report is not None:
        options["report"] = report
    names = world.Names(mode, dump, None, None)
    slept = []

    def sleep(seconds):
        slept.append(seconds)
        steps.sleep(seconds)
    with Sleeper(sleep):
        w = world.Service(x, options)
        try:
            x.equal([], steps.settle(before), "threads before the start")
            w.start()
            w.accept()
            threads = steps.settle(before)
            wanted = report is not None and "reactor" in report
            x.equal(1 if wanted else 0, len(threads), "threads")
            x.op(report)
            if wanted:
                for _ in range(3):
                    w.reactor.settle()
                    seams.clock.now += 0.05
                    steps.wake(threads[0], before)
                w.reactor.settle()
                x.equal(set([0.05]), set(slept), "times between inspections")
            w.reactor.advance(10)
            w.reactor.settle()
            got = [m[1] for m in w.carbon() if m[0] == names.gauge % "delay"]
            x.equal(1 if wanted else 0, len(got), "delays: %r" % got)
            w.service.stopService()
            w.reactor.settle()
            for each in threads:
                steps.wake(each, before)
            x.equal([], steps.settle(before), "threads left")
            x.outcome(tuple(got))
        finally:
            for _ in range(200):
                left = [t for t in threading.enumerate()
                        if t not in before and t.isAlive()]
                if not left:
                    break
                for each in left:
                    each.stopped = True
                with steps.condition:
                    for each in left:
                        if steps.sleeping.get(each) is False:
                            steps.sleeping[each] = True
                    steps.condition.notifyAll()
                    steps.condition.wait(0.002)


def cases(tier):
    yield Case("modes", modes, split=60)
    yield Case("values", values, split=30)
    yield Case("carbons", carbons, split=30)
    yield Case("reports", reports, split=30)
    yield Case("inspector", inspector, split=4)
