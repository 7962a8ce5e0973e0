"""StatsD-compliant timers."""
from core import Case, permutations
import stream

ASSUMPTIONS = [
    "sample values are drawn from the alphabets in mc/p_c02.py",
    "where exactly half a sample is above the percentile, rounding it up and "
    "rounding it down are both accepted"]

F = ("flush", 10000, 90)


def percentages(most):
    """Every number of samples with every percentage."""
    def body(x):
        n = 1 + x.choose(most)
        percent = x.choose(201)
        percent = percent // 2 if percent % 2 == 0 else percent / 2.0
        stream.script("compliant", ["t:%d|ms" % (2 ** k if n < 30 else k * k)
                                    for k in range(n, 0, -1)] +
                      [("flush", 10000, percent), F])(x)
        x.outcome((n, percent))
    return body


def orders(values, percents):
    arrangements = permutations(values)

    def body(x):
        order = x.pick(arrangements)
        percent = x.pick(percents)
        stream.script("compliant", ["t:%s|ms" % v for v in order] +
                      [("flush", 10000, percent)])(x)
        x.state((tuple(order), percent))
    return body


def cases(tier):
    thorough = tier == "thorough"
    ops = ["t:1|ms", "t:4|ms", "t:-2.5|ms", "u:8|ms", "t u:3|ms", "t:9|c",
           F, ("flush", 500, 50), 3]
    yield Case("seq", stream.sequential(
        "compliant", [ops] * (6 if thorough else 4)), split=32)
    yield Case("percentages", percentages(60 if thorough else 22), split=20)
    percents = [1, 10, 50, 90, 99, 62.5, 99.5, 0.1]
    yield Case("orders", orders([1, 2.5, 2.5, -3, 1000][:5], percents),
               split=20)
    yield Case("orders4", orders(["7", "1e3", "0", ".5"], range(0, 101, 5)),
               split=20)
    if thorough:
        yield Case("orders6", orders([3, 1, 4, 1, 5, 9], percents), split=60)
    values = ["0", "-0", "1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ", "0.1",
              "123456789.125", "1e15", "1e-9", "-1", "0.1234567890123", "1.5e-12"]
    alphabet = ["v:%s|ms" % v for v in values]
    yield Case("values", stream.sequential(
        "compliant", [alphabet, alphabet + [None], [F], alphabet[:3] + [None],
                      [F]]), split=8)
    yield Case("extra", stream.sequential(
        "compliant", [["v:1|ms", "v:3|ms|@0.5", "v:3|ms|@0", "v:3|ms|x",
                       "v:3|ms|"]] * 3 + [[F]]))
    setups = [["a:1|ms"], ["a:1|ms", "b:2|ms"], ["a:1|ms", F, 5],
              ["a:1|ms", "b:2|ms", "c:5|c", "g:6|g", F, "a:4|ms"]]
    injections = ["a:16|ms", "b:-32|ms", "new:128|ms"]
    yield Case("midflush", stream.interleaved(
        "compliant", setups, injections, rounds=2 if thorough else 1),
        bound=3 if thorough else 2, split=300)
    yield Case("overlap", stream.overlapping(
        [["a:1|ms", "b:2|ms"]] + thorough * [
            ["a:1|ms"], ["a:1|ms", "b:2|ms", "c:4|ms"]],
        ["a:8|ms", "b:16|ms", "new:32|ms"], flushes=2),
        bound=3 if thorough else 2, split=300)
    many = ["k%d:%d|ms" % (n % 300, n * 37 % 1009) for n in range(1500)]
    yield Case("many", stream.script("compliant", many + [F] + many[::3] +
                                     [("flush", 10000, 75), F]))
    yield Case("busy", stream.script(
        "compliant", ["a:%d|ms" % (n * 7919 % 4001) for n in range(4000)] +
        [F, "a:1|ms", F]))
