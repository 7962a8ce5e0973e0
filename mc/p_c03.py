"""StatsD-compliant gauges."""
from core import Case
import stream

ASSUMPTIONS = ["readings are drawn from the alphabets in mc/p_c03.py"]

F = ("flush", 10000, 90)


def cases(tier):
    thorough = tier == "thorough"
    ops = ["a:1|g", "a:-2|g", "b:4|g", "a/b:8|g", "c:0|g", "a:16|c", "a:3|m",
           F, ("flush", 60000, 75), 3]
    yield Case("seq", stream.sequential(
        "compliant", [ops] * (6 if thorough else 4), tolerance=1.5e-6),
        split=32)
    values = ["0", "-0", "1", "-1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ",
              "123456789.125", "1e300", "-1e300", "1e-300", "007", "0.1234567890123"]
    alphabet = ["v:%s|g" % v for v in values]
    yield Case("values", stream.sequential(
        "compliant", [alphabet, [F], alphabet + [None], [F], [F]]), split=8)
    yield Case("extra", stream.sequential(
        "compliant", [["v:1|g", "v:3|g|@0.5", "v:3|g|@0", "v:4|g|x", "v:5|g|",
                       F]] * 4))
    setups = [["a:1|g"], ["a:1|g", "b:2|g"], ["a:1|g", F, 5, "c:1|c"],
              ["a:1|g", "b:2|g", "c:5|g", F, "a:4|g"]]
    injections = ["a:16|g", "b:-32|g", "new:128|g", "a:0|g"]
    yield Case("midflush", stream.interleaved(
        "compliant", setups, injections, rounds=2 if thorough else 1),
        bound=3 if thorough else 2, split=300)
    yield Case("overlap", stream.overlapping(
        [["a:1|g", "b:2|g"]], ["a:8|g", "b:16|g", "new:32|g"], flushes=2),
        bound=3 if thorough else 2, split=300)
    many = ["k%d:%d|g" % (n % 500, n) for n in range(1400)]
    yield Case("many", stream.script("compliant", many + [F] + many[::3] +
                                     [F, F]))
