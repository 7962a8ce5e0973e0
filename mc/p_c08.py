"""Names are made acceptable to graphite, for every kind of metric."""
from core import Case, sequences
import ref
import seams
import stream

ASSUMPTIONS = [
    "names are byte strings over the alphabets in mc/p_c08.py; the characters "
    "0x1c to 0x1f, 0x85 and 0xa0, which are white space or not depending on "
    "the Python, are left out"]

KINDS = ["c", "g", "m", "ms"]
TEMPLATES = {
    "compliant": {"c": "stats_counts.%s", "g": "stats.gauge.%s.value",
                  "m": "stats.meter.%s.count", "ms": "stats.timers.%s.count"},
    "extended": {"c": "pfx.%s.count", "g": "pfx.%s.value",
                 "m": "pfx.%s.count", "ms": "pfx.%s.count"},
    "bare": {"c": "%s.count", "g": "%s.value", "m": "%s.count",
             "ms": "%s.count"}}


def run(x, flavour, kind, keys, routed=False):
    seams.clock.reset()
    processor, model = stream.build(flavour)
    target = processor
    if routed:
        from txstatsd.server.router import Router
        target = Router(processor, "")
    expected = {}
    for key in keys:
        # White space around a message does not count.
        name = ref.normalize((key + ":").strip()[:-1])
        expected[name] = expected.get(name, 0) + 1
        x.op()
        target.process("%s:1|%s" % (key, kind))
        for c in name:
            assert c in ref.SAFE
    got = set(processor.get_metric_names())
    x.check(got == set(expected),
            "%s: the names %r became\n  %r and not\n  %r" % (
                flavour, keys if len(keys) < 30 else keys[:30],
                sorted(got - set(expected))[:30],
                sorted(set(expected) - got)[:30]))
    seams.clock.now += 10
    published = dict((m[0], m[1]) for m in processor.flush())
    template = TEMPLATES[flavour][kind]
    for name in expected:
        path = template % name
        x.check(path in published, "%s: %r is not published" % (flavour, path))
        number = expected[name]
        if kind == "g" or (kind == "c" and flavour != "compliant"):
            number = 1
        x.equal(number, published[path], "%s: %s" % (flavour, path))
    x.state((flavour, kind, tuple(sorted(expected))))
    x.outcome(tuple(sorted(expected)))


def strings(alphabet, length, combinations):
    alphabet = list(alphabet)

    def body(x):
        flavour, kind = x.pick(combinations)
        first, second = x.pick(alphabet), x.pick(alphabet)
        routed = flavour == "compliant" and kind == "c"
        run(x, flavour, kind,
            [first, first + second] +
            [first + second + "".join(rest) for n in range(1, length - 1)
             for rest in sequences(alphabet, n)], routed)
    return body


def every_byte(x):
    flavour = x.pick(["compliant", "extended"])
    kind = x.pick(KINDS)
    run(x, flavour, kind, ["a%sb" % chr(n) for n in range(256)
                           if chr(n) != ":" and
                           n not in (0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0)])


def long_names(x):
    unit = x.pick(["a", " ", "/", " /", "a/", "-_.", "\xe9", "A b/c:"[:5]])
    count = x.pick([1, 2, 3, 10, 100, 1000])
    run(x, x.pick(["compliant", "extended"]), x.pick(KINDS),
        ["x" + unit * count, "x" + unit * count + "y"])


def cases(tier):
    thorough = tier == "thorough"
    everything = [(f, k) for f in ("compliant", "extended", "bare")
                  for k in KINDS]
    yield Case("strings", strings(
        "a /\t.-_@Z\xe9", 5 if thorough else 4,
        everything if thorough else [("compliant", "c"), ("extended", "c")]),
        split=40)
    yield Case("all-kinds", strings("a /\n.@", 5 if thorough else 4,
                                    everything), split=40)
    yield Case("every-byte", every_byte)
    yield Case("long", long_names, split=8)
