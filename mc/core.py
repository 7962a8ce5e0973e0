"""The explorer: exhaustive, replayable enumeration of executions.

A property module offers a finite list of cases.  The body of a case takes an
execution ``x`` and asks it, with ``x.choose(n)``, for every decision the
environment could take: which operation comes next, which thread runs, what
the random number is, whether the write fails.  The explorer runs the body
once for every possible sequence of answers (depth first, from scratch each
time, which is what makes it work on real objects that cannot be copied).

Choices can carry a cost; executions whose choices cost more than the bound of
the case are left out, and all the others are run.  Nothing is sampled.
"""
import hashlib
import sys
import traceback


class Violation(Exception):

    def __init__(self, message, signature=None):
        Exception.__init__(self, message)
        self.message = message
        self.signature = signature


class Divergence(Exception):
    """A prefix could not be replayed: the harness does not own everything."""


class Case(object):
    """One closed system to explore.

    @param name: Identifies the case, in replays as well.
    @param body: Called with an L{Execution}.
    @param bound: Highest total cost of the choices of an execution.
    @param split: In how many parts, at least, to share it among the shards.
    """

    def __init__(self, name, body, bound=None, split=1):
        self.name = name
        self.body = body
        self.bound = bound
        self.split = split


class Execution(object):

    def __init__(self, explorer, case, prefix):
        self.explorer = explorer
        self.case = case
        self.prefix = prefix
        self.points = []    # (arity, choice, costs)
        self.cost = 0
        self.steps = []
        self.violation = None   # the first one

    def choose(self, arity, costs=None, what=None):
        """Return a number in range(arity): every one of them, in turn.

        @param costs: What each alternative costs; by default nothing.
        """
        index = len(self.points)
        if index < len(self.prefix):
            choice = self.prefix[index]
            if not 0 <= choice < arity:
                raise Divergence(
                    "choice %d of %r was %d, and there are %d now (%s)" % (
                        index, self.case.name, choice, arity, what))
        else:
            choice = 0
        if costs is not None:
            self.cost += costs[choice]
        self.points.append((arity, choice, costs))
        return choice

    def pick(self, items, costs=None):
        """Return one of the items: every one of them, in turn."""
        return items[self.choose(len(items), costs)]

    def op(self, step=None):
        """Account for one transition of the code under test."""
        self.explorer.transitions += 1
        if step is not None and self.explorer.keep_steps:
            self.steps.append(step)

    def state(self, key):
        """Account for a (canonical) state of the system."""
        self.explorer.states.add(hash(key))

    def outcome(self, key):
        self.explorer.outcomes.add(hash(key))

    def count(self, name, number=1):
        extra = self.explorer.extra
        extra[name] = extra.get(name, 0) + number

    def fail(self, message, signature=None):
        violation = Violation(message, signature)
        if self.violation is None:
            self.violation = violation
        raise violation

    def check(self, condition, message, signature=None):
        if not condition:
            self.fail(message, signature)

    def equal(self, expected, got, what, signature=None):
        if expected != got:
            self.fail("%s\n  expected: %r\n  got:      %r" % (
                what, expected, got), signature)

    def settle(self):
        """Raise what was raised already and ended in the code under test."""
        if self.violation is not None:
            raise self.violation


class Explorer(object):

    MAX_VIOLATIONS = 40

    def __init__(self, beat=None):
        self.transitions = 0
        self.executions = 0
        self.states = set()
        self.outcomes = set()
        self.extra = {}
        self.violations = []
        self.signatures = set()
        self.samples = []
        self.bounds = {}
        self.keep_steps = False
        self.current = ("", [])
        self.progress = 0
        self.numbers = {}

    def run_one(self, case, prefix):
        x = Execution(self, case, prefix)
        self.current = (case.name, prefix)
        self.progress += 1
        self.executions += 1
        number = self.numbers[case.name] = self.numbers.get(case.name, 0) + 1
        self.keep_steps = number in (1, 40)
        try:
            case.body(x)
            x.settle()
        except Divergence:
            raise
        except Violation, e:
            self.report(x, e.signature, e.message)
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception:
            kind, error = sys.exc_info()[:2]
            if x.violation is not None:
                # What that led to.
                return self.report(x, x.violation.signature,
                                   x.violation.message) or x
            self.report(x, None, "unexpected %s: %s\n%s" % (
                kind.__name__, error, traceback.format_exc()))
        except:
            # Java exceptions (StackOverflowError and such) are not derived
            # from Exception.
            kind, error = sys.exc_info()[:2]
            self.report(x, None, "unexpected %s: %s" % (kind, error))
        if self.keep_steps and x.steps and len(self.samples) < 40:
            self.samples.append({"case": case.name,
                                 "choices": [p[1] for p in x.points][:80],
                                 "steps": [str(s) for s in x.steps[:40]]})
        return x

    def report(self, x, signature, message):
        if signature is None:
            signature = x.case.name
        if signature in self.signatures:
            return
        self.signatures.add(signature)
        self.violations.append({
            "case": x.case.name, "choices": [p[1] for p in x.points],
            "message": message[:8000], "signature": signature})

    def explore(self, case, fixed=()):
        """Run every execution of the case that starts with C{fixed}."""
        fixed = list(fixed)
        prefix = fixed
        self.bounds[case.name.split(":")[0]] = (
            "all choices" if case.bound is None
            else "choices of total cost <= %d" % case.bound)
        while prefix is not None:
            x = self.run_one(case, prefix)
            if len(self.violations) >= self.MAX_VIOLATIONS:
                return
            if len(x.points) < len(prefix):
                raise Divergence("%r ended after %d of %d choices" % (
                    case.name, len(x.points), len(prefix)))
            prefix = self.successor(x, len(fixed), case.bound)

    def successor(self, x, fixed, bound):
        """Return the next sequence of choices, or None after the last."""
        spent = [0]
        for arity, choice, costs in x.points:
            spent.append(spent[-1] + (costs[choice] if costs else 0))
        for index in range(len(x.points) - 1, fixed - 1, -1):
            arity, choice, costs = x.points[index]
            for alternative in range(choice + 1, arity):
                cost = spent[index] + (costs[alternative] if costs else 0)
                if bound is None or cost <= bound:
                    return [p[1] for p in x.points[:index]] + [alternative]
        return None


class Probe(object):
    """An execution that only finds out how many alternatives there are."""

    transitions = 0
    keep_steps = False

    def __init__(self):
        self.states, self.outcomes, self.extra = set(), set(), {}

    def points(self, case, prefix):
        x = Execution(self, case, prefix)
        try:
            case.body(x)
        except (Divergence, KeyboardInterrupt, SystemExit):
            raise
        except:
            # The exploration proper reports it.
            pass
        return x.points


def weight(points, left):
    """About how many executions such choices make, with so much to spend."""
    if left is None:
        result = 1.0
        for arity, _, costs in points:
            result = min(result * arity, 1e30)
        return result
    free, paid = 1.0, 0
    for arity, _, costs in points:
        if not costs:
            free = min(free * arity, 1e30)
        else:
            nothing = len([c for c in costs if not c])
            free = min(free * max(nothing, 1), 1e30)
            paid += len(costs) - nothing
    return min(free * (1.0 + paid) ** left, 1e60)


def parts(case):
    """Share the executions of a case out: a list of first choices.

    What seems to be the largest part is divided first.
    """
    done, open_parts = [], [(1.0, [], 0)]
    while open_parts and len(done) + len(open_parts) < case.split:
        largest = max(range(len(open_parts)),
                      key=lambda n: open_parts[n][0])
        _, prefix, cost = open_parts.pop(largest)
        points = Probe().points(case, prefix)
        if len(points) <= len(prefix):
            done.append((1.0, prefix))
            continue
        arity, _, costs = points[len(prefix)]
        for choice in range(arity):
            total = cost + (costs[choice] if costs else 0)
            if case.bound is None or total <= case.bound:
                left = None if case.bound is None else case.bound - total
                open_parts.append((
                    weight(points[len(prefix) + 1:], left),
                    prefix + [choice], total))
    result = done + [(size, prefix) for size, prefix, _ in open_parts]
    result.sort(key=lambda part: -part[0])
    return [prefix for _, prefix in result]


def expand(cases):
    """Yield (case, first choices) for each unit of work."""
    for case in cases:
        for prefix in parts(case):
            yield case, prefix


def sequences(alphabet, length):
    """All the sequences of the given length, as tuples."""
    result = [()]
    for _ in range(length):
        result = [s + (a,) for s in result for a in alphabet]
    return result


def permutations(items):
    if len(items) <= 1:
        return [list(items)]
    result = []
    for index in range(len(items)):
        for rest in permutations(items[:index] + items[index + 1:]):
            result.append([items[index]] + rest)
    return result
