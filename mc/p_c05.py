"""Counters and gauges of the ConfigurableMessageProcessor."""
from core import Case
import stream

ASSUMPTIONS = ["values are drawn from the alphabets in mc/p_c05.py"]

F = ("flush", 10000, 90)


def cases(tier):
    thorough = tier == "thorough"
    ops = ["a:1|c", "a:-2.5|c", "b:4|c", "a b:9|c", "a:16|c|@0.5", "a:7.25|g",
           "b:0|g", F, ("flush", 777, 50), 3]
    for flavour in ("extended", "bare"):
        yield Case("seq-" + flavour, stream.sequential(
            flavour, [ops] * ((6 if flavour == "bare" else 5)
                              if thorough else 4)), split=32)
    values = ["0", "-0", "1", "-1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ",
              "2.999", "-2.999", "123456789.125", "9007199254740991",
              "-9007199254740991", "007", "1e-12", "0.1234567890123",
              "99999.99999999999"]
    for kind in "cg":
        alphabet = ["v:%s|%s" % (v, kind) for v in values] + [
            "v:3|%s|@0.5" % kind, "v:3|%s|@x" % kind, "v:3|%s|" % kind]
        yield Case("values-" + kind, stream.sequential(
            "extended", [alphabet, [F], alphabet + [None], [F], [F]]),
            split=8)
    setups = [["a:1|c", "g:2|g"], ["a:1|c", "b:2|c", F, 5],
              ["a:1|g", "b:2|g", F, "b:3|g"],
              ["a:1|c", "g:2|g", "t:3|ms", "m:4|m", 5]]
    injections = ["a:16|c", "b:-32|g", "new:128|c", "new:64|g", "a:4|g"]
    yield Case("midflush", stream.interleaved(
        "extended", setups, injections, tolerance=1.5e-6),
        bound=2 if thorough else 1, split=60)
    many = (["k%d:%d|c" % (n % 300, n) for n in range(900)] +
            ["k%d:%d|g" % (n % 300, n * 3) for n in range(900)])
    yield Case("many", stream.script("extended", many + [F] + many[::3] +
                                     [F, F]))
