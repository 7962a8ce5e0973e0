"""Meters, of both processors."""
from core import Case
import stream

ASSUMPTIONS = [
    "published meter figures are rounded to 6 decimals",
    "event counts and clock steps are drawn from the alphabets in mc/p_c04.py"]

F = ("flush", 10000, 90)
T = 1.5e-6


def cases(tier):
    thorough = tier == "thorough"
    ops = ["a:1|m", "a:2.5|m", "b:-4|m", "a:8|c", F, 1, 0.5, 10, -3]
    for flavour in ("compliant", "extended"):
        yield Case("seq-" + flavour, stream.sequential(
            flavour, [ops] * (6 if thorough else 4), tolerance=T), split=32)
    short = ["a:1|m", F, 0.25, 0.75]
    yield Case("clock", stream.sequential(
        "compliant", [short] * (8 if thorough else 6), tolerance=T), split=32)
    steps = [0.1, 0.5, 0.9, 1, 1.5, 7, 60, 3600, 1e6]
    yield Case("elapsed", stream.sequential(
        "compliant", [["a:3|m"], steps, [F], ["a:7|m", None], steps, [F],
                      steps, [F]], tolerance=T), split=16)
    values = ["0", "1", "-1", "+7", "1e3", "1E-3", ".5", "5.", " 2 ",
              "123456789", "0.000001"]
    alphabet = ["v:%s|m" % v for v in values] + ["v:1|m|@0.5", "v:1|m|x"]
    for flavour in ("compliant", "bare"):
        yield Case("values-" + flavour, stream.sequential(
            flavour, [alphabet, [10], [F], alphabet + [None], [3], [F]],
            tolerance=T), split=8)
    setups = [["a:1|m", 5], ["a:1|m", "b:2|m", 5], ["a:1|m", 5, F, 5],
              ["a:1|m", "c:2|c", 2, F, 2, "g:1|g", "b:4|m", 4]]
    injections = ["a:16|m", "b:32|m", "new:128|m"]
    for flavour in ("compliant", "extended"):
        yield Case("midflush-" + flavour, stream.interleaved(
            flavour, setups, injections, rounds=2 if thorough else 1,
            tolerance=T), bound=2 if thorough else 1, split=60)
    yield Case("overlap", stream.overlapping(
        [["a:1|m", "b:2|m"]], ["a:8|m", "b:16|m", "new:32|m"], flushes=2),
        bound=2, split=300)
    yield Case("long", stream.script(
        "compliant", ["a:1|m", "b:2|m", 7, F, 0.5, "a:1|m", 3.25, F, 10, F]
        * 60, tolerance=T))
    yield Case("tiny", stream.script(
        "extended", ["a:0.0000004|m", "b:1e-7|m", "c:123456.7890123|m", 5, F]
        * 40, tolerance=T))
    yield Case("many", stream.script(
        "compliant", ["k%d:%d|m" % (n % 300, n) for n in range(900)] +
        [10, F, 10, F], tolerance=T))
