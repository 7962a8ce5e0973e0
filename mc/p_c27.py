"""The uniform sample, over every draw of the random numbers."""
import math
from fractions import Fraction

from core import Case
import seams

ASSUMPTIONS = [
    "the random number generator is uniform: its range is covered by a grid "
    "of numbers, equally spaced and with all residues modulo the number of "
    "values and the next number, all of them tried"]


class Grid(object):
    """Answers draws, in all ways in turn, and with which probability."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []
        self.count = 1          # how many values there are
        self.fixed = None

    def answer(self, arity):
        if self.fixed is not None:
            return self.fixed(arity)
        index = len(self.points)
        choice = self.prefix[index] if index < len(self.prefix) else 0
        self.points.append((arity, choice))
        return choice

    def arity(self):
        return self.count * (self.count + 1)

    def random(self):
        arity = self.arity()
        return (self.answer(arity) + 0.5) / arity

    def randint(self, low, high):
        span = high - low + 1
        arity = self.arity()
        if span <= 4 * arity:
            return low + self.answer(span)
        choice = self.answer(arity)
        # Spread over the range, and of this residue.
        value = low + span // arity * choice
        value += (choice - value) % arity
        while value > high:
            value -= arity
        return value

    def weight(self):
        weight = Fraction(1)
        for arity, _ in self.points:
            weight /= arity
        return weight

    def successor(self):
        for index in range(len(self.points) - 1, -1, -1):
            arity, choice = self.points[index]
            if choice + 1 < arity:
                return [c for _, c in self.points[:index]] + [choice + 1]
        return None


def distribution(x, run):
    """Probability of each result of run(grid)."""
    result = {}
    prefix = []
    while prefix is not None:
        grid = Grid(prefix)
        seams.rng.oracle = grid
        outcome = run(grid)
        result[outcome] = result.get(outcome, 0) + grid.weight()
        prefix = grid.successor()
        x.count("draws")
    seams.rng.oracle = None
    return result


def subsets(items, size):
    if size == 0:
        return [()]
    if len(items) < size:
        return []
    return ([(items[0],) + rest for rest in subsets(items[1:], size - 1)] +
            subsets(items[1:], size))


def uniform(pairs):
    """Every k-subset of n values is equally likely."""
    def body(x):
        from txstatsd.stats.uniformsample import UniformSample
        size, total = x.pick(pairs)
        history = x.choose(3 if total < 5 else 2)

        def run(grid):
            sample = UniformSample(size)
            if history:
                # What came before clear() does not matter.
                grid.fixed = lambda arity: 0
                for n in range(history * size + 1):
                    sample.update("old-%d" % n)
                sample.clear()
                grid.fixed = None
            for n in range(1, total + 1):
                grid.count = n
                sample.update(n)
                x.op()
                values = sample.get_values()
                x.equal(min(n, size), sample.size(), "size after %d" % n)
                x.equal(min(n, size), len(values), "values after %d" % n)
                if n <= size:
                    x.equal(range(1, n + 1), values, "the first values")
            return tuple(sorted(values))
        result = distribution(x, run)
        expected = Fraction(1, len(subsets(range(total), size)))
        for subset in subsets(range(1, total + 1), size):
            got = result.pop(subset, Fraction(0))
            x.check(abs(got - expected) <= expected / 100,
                    "%d of %d values are %r with probability %s and not %s" % (
                        size, total, subset, float(got), float(expected)))
            x.state((size, total, history, subset))
        x.equal({}, result, "values that are no subset")
        x.outcome((size, total))
    return body


def steps(sizes, extra):
    """The n-th value gets in with probability k/n, in place of any other."""
    def body(x):
        from txstatsd.stats.uniformsample import UniformSample
        size = x.pick(sizes)
        total = size + 1 + x.choose(extra)
        before = x.pick(["first", "last", "turns"])

        def run(grid):
            sample = UniformSample(size)
            for n in range(1, total):
                grid.count = n
                grid.fixed = {"first": lambda arity: 0,
                              "last": lambda arity: arity - 1,
                              "turns": lambda arity: n % arity}[before]
                sample.update(n)
            was = sample.get_values()
            grid.fixed = None
            grid.count = total
            sample.update(total)
            x.op()
            now = sample.get_values()
            x.equal(size, len(now), "size")
            gone = [v for v in was if v not in now]
            new = [v for v in now if v not in was]
            if not gone:
                x.equal([], new, "new values")
                return None
            x.equal(1, len(gone), "replaced")
            x.equal([total], new, "the new value")
            return was.index(gone[0])
        result = distribution(x, run)
        for slot in range(size):
            got = result.get(slot, Fraction(0))
            x.check(abs(got - Fraction(1, total)) <= Fraction(1, 100 * total),
                    "value %d replaces the value at %d of %d with probability "
                    "%s and not 1/%d" % (total, slot, size, float(got), total))
        x.state((size, total, before))
        x.outcome(size)
    return body


def full_size(x):
    """The reservoir of timers."""
    from txstatsd.stats.uniformsample import UniformSample
    seams.reseed()
    total = x.pick([1, 2, 1000, 1027, 1028, 1029, 1030, 2500])
    sample = UniformSample(1028)
    x.equal(0, sample.size(), "size")
    x.equal([], sample.get_values(), "values")
    for n in range(total):
        sample.update(n)
        x.op()
    values = sample.get_values()
    x.equal(min(total, 1028), sample.size(), "size")
    x.equal(sample.size(), len(values), "number of values")
    x.equal(len(values), len(set(values)), "distinct values")
    x.check(set(values) <= set(range(total)), "values never seen")
    if total <= 1028:
        x.equal(range(total), values, "all values")
    values.append("mine")
    values[0] = "mine"
    x.check("mine" not in sample.get_values(), "the list is not a copy")
    sample.clear()
    x.equal(0, sample.size(), "size after clear")
    x.equal([], sample.get_values(), "values after clear")
    x.state(total)


def cases(tier):
    thorough = tier == "thorough"
    pairs = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (2, 5),
             (3, 3), (3, 4), (3, 5), (4, 5), (5, 5), (5, 6), (6, 7)]
    if thorough:
        pairs += [(1, 5), (4, 6), (5, 7), (3, 6)]
    yield Case("uniform", uniform(pairs), split=40)
    yield Case("steps", steps([1, 2, 3, 5, 8] + ([13, 20] if thorough else []),
                              12), split=60)
    yield Case("full-size", full_size, split=8)
