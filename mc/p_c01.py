"""StatsD-compliant counters."""
from core import Case
import stream

ASSUMPTIONS = [
    "message values are drawn from the alphabets in mc/p_c01.py",
    "one thread: messages and flushes interleave between the steps of the "
    "flush generator, which is where the server can switch"]

F = ("flush", 10000, 90)


def cases(tier):
    thorough = tier == "thorough"
    messages = ["a:1|c", "a:-2|c", "a:4|c|@0.5", "b:0.25|c|@0.1", "a b:8|c",
                "a:16|ms", "a:32|g"]
    ops = messages + [F, 3]
    yield Case("seq", stream.sequential(
        "compliant", [ops] * (6 if thorough else 4)), split=32)
    # Every interval, with the counters idle before, between and after.
    intervals = [1, 10, 250, 500, 999, 1000, 1001, 1500, 2500, 10000, 60000,
                 86400000]
    flushes = [("flush", i, 90) for i in intervals]
    yield Case("intervals", stream.sequential(
        "compliant", [["a:3|c", "a:1|c|@0.1"], flushes, ["a:5|c", None],
                      flushes, [F]]))
    values = ["0", "-0", "1", "-1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ",
              "123456789012", "0.1", "1e15", "-1e15", "1e-9", "007", "1.23456789e-12"]
    rates = [None, "@1", "@0.5", "@0.1", "@.25", "@1.0", "@0.001", "@1e-05",
             "@2", "@0.333", "@1E-2", "@1e0"]
    alphabet = ["v:%s|c" % v + ("|" + r if r else "")
                for v in values for r in rates]
    yield Case("values", stream.sequential(
        "compliant", [alphabet, [F], ["v:1|c", None], [F]]))
    pairs = ["v:%s|c" % v + ("|" + r if r else "")
             for v in ("1", "-3", "0.1") for r in (None, "@0.1", "@0.5")]
    yield Case("accumulate", stream.sequential(
        "compliant", [pairs, pairs, pairs, [F, None], pairs, [F]]), split=32)
    setups = [["a:1|c"], ["a:1|c", "b:2|c"], ["a:1|c", F, 5],
              ["a:1|c", "t:5|ms", "g:6|g", "m:7|m", 5]]
    if thorough:
        setups.append(["a:1|c", "b:2|c", "c:4|c", F, "b:8|c"])
    injections = ["a:16|c", "b:32|c|@0.5", "new:128|c"]
    yield Case("midflush", stream.interleaved(
        "compliant", setups, injections, rounds=2 if thorough else 1),
        bound=3 if thorough else 2, split=300)
    yield Case("overlap", stream.overlapping(
        [["a:1|c", "b:2|c"]] + thorough * [
            ["a:1|c"], ["a:1|c", "b:2|c", "c:4|c"]],
        ["a:8|c", "b:16|c", "new:32|c"], flushes=2),
        bound=3 if thorough else 2, split=300)
    if thorough:
        yield Case("overlap3", stream.overlapping(
            [["a:1|c", "b:2|c"]], ["a:8|c", "new:32|c"], flushes=3), bound=3, split=300)
    # Many names and many samples.
    many = ["k%d:%d|c" % (n, n + 1) for n in range(400)]
    yield Case("many", stream.script(
        "compliant", many + [F] + many[::3] + many[::7] + [F, F]))
    yield Case("busy", stream.script(
        "compliant", ["a:1|c", "b:2|c|@0.1"] * 3000 + [F, F] +
        ["a:1|c"] * 1100 + [F]))
