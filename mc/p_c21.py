"""What each call of the client API sends."""
from core import Case
import seams

ASSUMPTIONS = [
    "names and values are ASCII; random draws let every sample through here "
    "(C22 is about sampling)",
    "a duration that is measured without an earlier reset has no meaning"]


class Connection(object):

    def __init__(self):
        self.sent = []

    def write(self, data, *args):
        self.sent.append(data)


class Always(object):

    def random(self):
        return 0.0

    def randint(self, low, high):
        return low


def calls(name):
    """(text, method, arguments, (value, kind, extra, rate) expected)."""
    n = name
    return [
        ("increment", "increment", (n,), (1, "c", None, None)),
        ("increment 5", "increment", (n, 5), (5, "c", None, None)),
        ("increment .5", "increment", (n, 2, 0.5), (2, "c", None, 0.5)),
        ("decrement", "decrement", (n, 3), (-3, "c", None, None)),
        ("decrement .25", "decrement", (n, 4, 0.25), (-4, "c", None, 0.25)),
        ("timing 0.25", "timing", (n, 0.25), (250, "ms", None, None)),
        ("timing .1", "timing", (n, 2.5, 0.1), (2500, "ms", None, 0.1)),
        ("timing", "timing", (n,), ("elapsed", "ms", None, None)),
        ("gauge", "gauge", (n, 7), (7, "g", None, None)),
        ("gauge .5", "gauge", (n, -7.25, 0.5), (-7.25, "g", None, 0.5)),
        ("meter", "meter", (n,), (1, "m", None, None)),
        ("meter .5", "meter", (n, 3, 0.5), (3, "m", None, 0.5)),
        ("sli", "sli", (n, 2), (2, "sli", None, None)),
        ("sli size", "sli", (n, 2, 10), (2, "sli", "10", None)),
        ("sli error", "sli_error", (n,), ("error", "sli", None, None)),
        ("report", "report", (n, 5, "k"), (5, "k", None, None)),
        ("report extra", "report", (n, 5, "k", "e"), (5, "k", "e", None)),
        ("distinct", "distinct", (n, "item"), ("item", "pd", None, None)),
        ("clear", "clear", (n,), None),
        ("reset", "reset_timing", (), None)]


FEW = ("increment", "increment .5", "decrement", "timing 0.25", "timing",
       "gauge", "gauge .5", "meter", "sli size", "report", "reset")


def parse(message):
    """(name, value, kind, extra fields)"""
    name, rest = message.rsplit(":", 1)
    fields = rest.split("|")
    return name, fields[0], fields[1], fields[2:]


def verify(x, call, namespace, sent, elapsed, totals):
    text, method, arguments, expected = call
    what = "%s(%s)" % (method, ", ".join(map(repr, arguments)))
    if expected is None:
        # Clearing a counter of the extended client reports it.
        x.check(not sent or method == "clear", "%s sent %r" % (what, sent))
        return
    x.equal(1, len(sent), "messages sent by %s: %r" % (what, sent))
    name, value, kind, extra = parse(sent[0])
    prefix = namespace + "." if namespace else ""
    x.equal(prefix + arguments[0], name, "name of %s" % what)
    wanted, wanted_kind, wanted_extra, rate = expected
    if wanted_kind is not None:
        x.equal(wanted_kind, kind, "type of %s" % what)
    if totals is not None and kind == "c":
        totals[name] = totals.get(name, 0) + wanted
        wanted = totals[name]
    if wanted == "elapsed":
        if elapsed is None:
            return
        wanted = elapsed * 1000
    if isinstance(wanted, str):
        x.equal(wanted, value, "value of %s" % what)
    else:
        got = float(value)
        x.check(abs(got - wanted) <= 1e-6 + 1e-9 * abs(wanted),
                "%s sent %r" % (what, sent))
    if rate is not None:
        x.check(len(extra) == 1 and extra[0][:1] == "@" and
                float(extra[0][1:]) == rate, "%s sent %r" % (what, sent))
    else:
        x.equal([] if wanted_extra is None else [wanted_extra], extra,
                "extra field of %s" % what)


def sequences(flavour, depth, names, only=None, namespaces=("ns",)):
    alphabet = [c for name in names for c in calls(name)
                if only is None or c[0] in only]

    def body(x):
        from txstatsd.metrics.metrics import Metrics
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        seams.clock.reset()
        seams.rng.oracle = Always()
        namespace = x.pick(namespaces)
        connection = Connection()
        factory = {"plain": Metrics, "extended": ExtendedMetrics}[flavour]
        metrics = factory(connection, namespace)
        totals = {} if flavour == "extended" else None
        since = None
        for number in range(depth):
            call = x.pick(alphabet)
            x.op(call[:3])
            seams.clock.now += 0.5 + number
            connection.sent = []
            elapsed = None
            if call[1] == "reset_timing":
                since = seams.clock.now
            elif call[3] and call[3][0] == "elapsed":
                if since is not None:
                    elapsed = seams.clock.now - since
                since = seams.clock.now
            getattr(metrics, call[1])(*call[2])
            verify(x, call, namespace, connection.sent, elapsed, totals)
            if call[1] == "clear" and totals is not None:
                totals.pop((namespace + "." if namespace else "")
                           + call[2][0], None)
            x.state((flavour, call[0], number, tuple(connection.sent)))
        x.outcome(tuple(connection.sent))
    return body


def values(x):
    """Every method with values of every size and type."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    seams.rng.oracle = Always()
    connection = Connection()
    namespace = x.pick(["", None, "a", "a.b"])
    metrics = x.pick([Metrics, ExtendedMetrics])(connection, namespace)
    value = x.pick([0, 1, -1, 12345678901, 0.1, -2.5, 1e-7, 1e20, 1e300,
                    123456.789, True])
    rate = x.pick([1, 0.5, 0.1, 1e-05, 0.001, 0.999, 1.0, 2, 1 / 3.0])
    for method, kind, scale in [("increment", "c", 1), ("decrement", "c", -1),
                                ("gauge", "g", 1), ("meter", "m", 1),
                                ("timing", "ms", 1000)]:
        connection.sent = []
        getattr(metrics, method)(method, value, sample_rate=rate)
        x.op((method, value, rate))
        x.equal(1, len(connection.sent), "messages sent")
        name, text, got, extra = parse(connection.sent[0])
        x.equal((namespace + "." if namespace else "") + method, name, "name")
        x.equal(kind, got, "type")
        number = {"True": 1.0}.get(text)
        if number is None:
            number = float(text)
        x.check(abs(number - value * scale) <= 1e-9 * abs(value * scale),
                "%s(%r) sent %r" % (method, value, connection.sent))
        if rate < 1:
            x.check(len(extra) == 1 and extra[0].startswith("@") and
                    abs(float(extra[0][1:]) - rate) < 1e-9 * rate,
                    "rate %r sent as %r" % (rate, extra))
        else:
            x.equal([], extra, "extra fields with rate %r" % rate)
        x.state((method, value, rate, namespace))
    for size in (None, 0, 1, 2.5):
        connection.sent = []
        metrics.sli("s", value, size)
        fields = parse(connection.sent[0])[3]
        x.equal([] if size is None else [str(size)], fields, "size of an sli")


def accepted(x):
    """Servers of both kinds take every message of the API as a sample."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.client import InternalClient
    import p_c07
    flavour = x.pick(["compliant", "extended"])
    seams.rng.oracle = Always()
    target, processor = p_c07.build(flavour)
    seams.rng.oracle = Always()
    metrics = Metrics(InternalClient(target), "ns")
    bad = []
    processor.fail = bad.append
    call = x.pick([c for c in calls("n") if c[0] not in (
        "report", "report extra", "clear", "reset")])
    x.op(call[:3])
    getattr(metrics, call[1])(*call[2])
    x.equal([], bad, "messages that a server takes for malformed")
    x.check("ns.n" in processor.get_metric_names(), "the server does not "
            "list the metric after %s" % call[0])


def direct(depth):
    """The metrics that the API is made of, used on their own."""
    def body(x):
        from txstatsd.metrics.countermetric import CounterMetric
        from txstatsd.metrics.distinctmetric import DistinctMetric
        from txstatsd.metrics.gaugemetric import GaugeMetric
        from txstatsd.metrics.metermetric import MeterMetric
        from txstatsd.metrics.metrics import GenericMetric
        from txstatsd.metrics.timermetric import TimerMetric
        seams.rng.oracle = Always()
        kinds = {
            "timer": (TimerMetric, [("mark", (0.25,), (250, "ms", None)),
                                    ("mark", (3,), (3000, "ms", None))]),
            "gauge": (GaugeMetric, [("mark", (-1.5,), (-1.5, "g", None)),
                                    ("mark", (0,), (0, "g", None))]),
            "meter": (MeterMetric, [("mark", (), (1, "m", None)),
                                    ("mark", (4,), (4, "m", None))]),
            "counter": (CounterMetric, [("increment", (2,), 2),
                                        ("decrement", (5,), -5),
                                        ("clear", (), 0)]),
            "distinct": (DistinctMetric,
                         [("mark", ("it em",), ("it em", "pd", None))])}
        generic = [("mark", (5,), (5, "k", None)),
                   ("mark", (5, "e"), (5, "k", "e"))]
        connection = Connection()
        metrics = []
        for name in ("a", "b.c"):
            kind = x.pick(["timer", "gauge", "meter", "counter", "distinct",
                           "generic"])
            rate = None
            if kind == "generic":
                metric = GenericMetric(connection, "k", name)
                calls = generic
            else:
                factory, calls = kinds[kind]
                rate = x.pick([None, 0.5, 1])
                if rate is None:
                    metric = factory(connection, name)
                else:
                    metric = factory(connection, name, sample_rate=rate)
            metrics.append([name, metric, calls, rate, 0])
        x.equal([], connection.sent, "sent before the first call")
        for _ in range(depth):
            entry = x.pick(metrics)
            name, metric, calls, rate, total = entry
            method, arguments, expected = x.pick(calls)
            x.op((name, method, arguments))
            connection.sent = []
            getattr(metric, method)(*arguments)
            if not isinstance(expected, tuple):
                entry[4] = total = total + expected if expected else 0
                x.equal(total, metric.count(), "count()")
                expected = (total, "c", None)
            x.equal(1, len(connection.sent), "messages sent")
            got, value, kind, extra = parse(connection.sent[0])
            x.equal((name, expected[1]), (got, kind), "name and type")
            if isinstance(expected[0], str):
                x.equal(expected[0], value, "value")
            else:
                x.equal(float(expected[0]), float(value), "value")
            x.equal(["@0.5"] if rate == 0.5 else
                    [expected[2]] if expected[2] else [], extra, "the rest")
            x.state((type(metric).__name__, tuple(connection.sent)))
    return body


def encodings(x):
    """Names and items of all kinds of text leave as UTF-8 bytes."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    seams.rng.oracle = Always()
    texts = [u"plain", u"caf\xe9", u"\u20ac", u"\U0001f600", u"\xff"]
    name, namespace = x.pick(texts), x.pick(texts + [u""])
    metrics = x.pick([Metrics, ExtendedMetrics])
    connection = Connection()
    metrics = metrics(connection, namespace)
    full = (namespace + u"." if namespace else u"") + name
    for method, arguments, rest in [
            ("increment", (2,), u"2|c"), ("gauge", (1,), u"1|g"),
            ("meter", (), u"1|m"), ("sli", (3, 4), u"3|sli|4"),
            ("sli_error", (), u"error|sli"), ("distinct", (name,),
                                              name + u"|pd")]:
        connection.sent = []
        getattr(metrics, method)(name, *arguments)
        x.op((method, full))
        x.equal([(full + u":" + rest).encode("utf-8")],
                [bytes(sent) for sent in connection.sent], "what was sent")
        x.check(type(connection.sent[0]) is bytes, "not bytes")
    x.state(full)


def without_connection(x):
    """No connection, no message and no error."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    metrics = x.pick([Metrics, ExtendedMetrics])(None, "ns")
    for call in calls("n"):
        getattr(metrics, call[1])(*call[2])
        x.op(call[:3])


def cases(tier):
    thorough = tier == "thorough"
    for flavour in ("plain", "extended"):
        yield Case("pairs-%s" % flavour, sequences(
            flavour, 2, ["a", "b.c"], namespaces=("ns", "", None)), split=16)
        yield Case("names-%s" % flavour, sequences(
            flavour, 2, ["ns", "ns.a", ".", "ns.ns.a", "nsa"], FEW,
            namespaces=("ns", "ns.a", "")), split=16)
        yield Case("triples-%s" % flavour, sequences(
            flavour, 3, ["a", "b.c"]), split=40)
        yield Case("mixed-%s" % flavour, sequences(
            flavour, 6 if thorough else 5, ["a"], FEW), split=100)
    yield Case("values", values, split=16)
    yield Case("accepted", accepted, split=8)
    yield Case("direct", direct(4 if thorough else 3), split=16)
    yield Case("encodings", encodings, split=8)
    yield Case("without-connection", without_connection)
