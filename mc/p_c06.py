"""Timers of the ConfigurableMessageProcessor."""
from core import Case, permutations
import stream

ASSUMPTIONS = [
    "durations are drawn from the alphabets in mc/p_c06.py",
    "at most 1028 durations per flush: above that the figures other than the "
    "count, minimum, maximum, mean and rate are those of a random sample",
    "published timer figures are rounded to 6 decimals"]

F = ("flush", 10000, 90)
T = 1.5e-6


def orders(values):
    arrangements = permutations(values)

    def body(x):
        order = x.pick(arrangements)
        elapsed = x.pick([0, 0.5, 10])
        stream.script("extended", ["t:%s|ms" % v for v in order] +
                      [elapsed, F], tolerance=T)(x)
    return body


def sizes(most):
    def body(x):
        n = 1 + x.choose(most)
        step = x.pick([1, -1])
        values = [k * k for k in range(n)][::step]
        stream.script("bare", ["t:%s|ms" % v for v in values] + [4, F, 4, F],
                      tolerance=T)(x)
    return body


def cases(tier):
    thorough = tier == "thorough"
    ops = ["t:1|ms", "t:4|ms", "t:-1|ms", "u:0|ms", "t u:3|ms", "t:2.5|ms",
           F, 3, 0.5, -2]
    yield Case("seq", stream.sequential(
        "extended", [ops] * (6 if thorough else 4), tolerance=T), split=32)
    yield Case("orders", orders([1, 2.5, 2.5, 0, 1000]), split=20)
    if thorough:
        yield Case("orders6", orders([3, 1, 4, 1, 5, 9]), split=60)
    yield Case("sizes", sizes(400 if thorough else 120), split=30)
    values = ["0", "-0", "1", "-1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ",
              "123456.125", "123456.789012", "0.000001", "-0.5"]
    alphabet = ["v:%s|ms" % v for v in values] + ["v:3|ms|@0.1", "v:3|ms|x"]
    yield Case("values", stream.sequential(
        "extended", [alphabet, alphabet, [5], [F], alphabet + [None], [2],
                     [F]], tolerance=T), split=30)
    setups = [["a:1|ms", 5], ["a:1|ms", "b:2|ms", 5],
              ["a:1|ms", 2, F, "a:2|ms", 5]]
    injections = ["a:16|ms", "b:32|ms", "new:128|ms"]
    yield Case("midflush", stream.interleaved(
        "extended", setups, injections, tolerance=T),
        bound=2 if thorough else 1, split=60)
    yield Case("long", stream.script(
        "extended", ["a:1|ms", "b:2|ms", 7, F, "a:3|ms", 3, F, 10, F] * 40,
        tolerance=T))
    yield Case("full", stream.script(
        "extended", ["a:%d|ms" % (n * 7919 % 4001) for n in range(1028)] +
        [4, F, "a:2|ms", 4, F], tolerance=T))
