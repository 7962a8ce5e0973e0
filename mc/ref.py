"""Reference models: plain, slow and separate from the code under test."""
import math

SPACE = " \t\n\r\x0b\x0c"
SAFE = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.")


def normalize(key):
    """Runs of white space become '_', of slashes '-', the rest goes away."""
    result = []
    previous = None
    for c in key:
        if c in SPACE:
            if previous != "space":
                result.append("_")
            previous = "space"
        elif c == "/":
            if previous != "slash":
                result.append("-")
            previous = "slash"
        else:
            if c in SAFE:
                result.append(c)
            previous = None
    return "".join(result)


def number(text):
    try:
        value = float(text)
    except ValueError:
        return None
    if value != value or value in (float("inf"), float("-inf")):
        return None
    return value


def rate(text):
    """The sample rate in the third field of a message, or None."""
    if text[:1] != "@":
        return None
    digits = text[1:]
    if not digits or digits.strip(".0123456789eE+-") != "":
        return None
    if digits[0] in "+-":
        return None
    value = number(digits)
    if value is None or not value > 0:
        return None
    return value


def split(message):
    """(key, fields) of a message, or None if it is not one."""
    if ":" not in message:
        return None
    key, data = message.strip().split(":", 1)
    fields = data.split("|")
    if len(fields) not in (2, 3):
        return None
    return normalize(key), fields


class Figure(float):
    """A figure that is known up to a slack of its own."""

    def __new__(cls, value, slack=0.0):
        self = float.__new__(cls, value)
        self.slack = slack
        return self


def near(value, values):
    """What rounding may make of a sum, or mean, of the values."""
    return Figure(value, 1e-12 * math.fsum(abs(v) for v in values) *
                  (abs(value) / abs(math.fsum(values)) if math.fsum(values)
                   else 1))


def close(a, b, tolerance=1e-9):
    if a == b:
        return True
    if isinstance(a, Figure):
        return abs(a - b) <= a.slack
    return abs(a - b) <= tolerance * max(1.0, abs(a), abs(b))


def tie(n, percent):
    return (2 * (100 - percent) * n) % 200 == 100


def threshold_sizes(n, percent):
    """How many of n sorted values are within the percentile: 1 or 2 answers.

    (100 - percent)% of the values, rounded to a whole number of them, are
    above the threshold.  Exactly half a value may be rounded either way.
    """
    above = int((2 * (100 - percent) * n + 100) // 200)
    sizes = [max(1, n - above)]
    if tie(n, percent):
        sizes.append(max(1, n - above + 1))
    return sizes


def percentile(values, p):
    values = sorted(values)
    n = len(values)
    pos = p * (n + 1)
    if pos < 1:
        return values[0]
    if pos >= n:
        return values[-1]
    below = int(math.floor(pos))
    lower, upper = values[below - 1], values[below]
    return lower + (pos - below) * (upper - lower)


def mean(values):
    return math.fsum(values) / len(values) if values else 0.0


def std_dev(values):
    """Sample standard deviation."""
    if len(values) < 2:
        return 0.0
    m = mean(values)
    return math.sqrt(math.fsum((v - m) ** 2 for v in values)
                     / (len(values) - 1))


def lines(metrics):
    """Metrics in a canonical order, to be compared as a multiset."""
    return sorted(metrics, key=lambda m: (m[0], repr(m[1])))


def same(expected, got, tolerance=1e-9):
    """Compare two multisets of (path, value, timestamp)."""
    expected, got = lines(expected), lines(got)
    if len(expected) != len(got):
        return False
    by_path = {}
    for path, value, timestamp in got:
        by_path.setdefault((path, timestamp), []).append(value)
    for path, value, timestamp in expected:
        values = by_path.get((path, timestamp), [])
        for candidate in values:
            if close(value, candidate, tolerance):
                values.remove(candidate)
                break
        else:
            return False
    return True


def difference(expected, got, tolerance=1e-9):
    """A description of how they differ."""
    expected, got = list(expected), list(got)
    for metric in list(expected):
        for other in got:
            if (other[0] == metric[0] and other[2] == metric[2]
                and close(other[1], metric[1], tolerance)):
                expected.remove(metric)
                got.remove(other)
                break
    return "missing: %r\n  unexpected: %r" % (lines(expected), lines(got))
