"""Routing rules, against an interpreter of their own."""
import re

from core import Case
import ref

ASSUMPTIONS = [
    "rule lists of up to three rules (quick) over the conditions, targets and "
    "names in mc/p_c12.py; regular expressions mean what the re module says"]


def glob(pattern, text):
    """Whether the text matches; * ? [seq] [!seq], as in a POSIX shell."""
    if not pattern:
        return not text
    if pattern[0] == "*":
        return any(glob(pattern[1:], text[i:]) for i in range(len(text) + 1))
    if not text:
        return False
    if pattern[0] == "?":
        return glob(pattern[1:], text[1:])
    if pattern[0] == "[":
        end = pattern.index("]", 2)
        members = pattern[1:end]
        wanted = not members.startswith("!")
        members = members.lstrip("!")
        found = False
        while members:
            if members[1:2] == "-":
                found = found or members[0] <= text[0] <= members[2]
                members = members[3:]
            else:
                found = found or members[0] == text[0]
                members = members[1:]
        return found == wanted and glob(pattern[end + 1:], text[1:])
    return pattern[0] == text[0] and glob(pattern[1:], text[1:])


def holds(condition, kind, key):
    words = condition.split()
    if words[0] == "not":
        return not holds(" ".join(words[1:]), kind, key)
    if words[0] == "any":
        return True
    if words[0] == "metric_type":
        return kind in words[1:]
    assert words[0] == "path_like"
    return glob(words[1], key)


def results(target, kind, key):
    words = target.split()
    if words[0] == "drop":
        return []
    dup = words[-1] == "dup"
    if words[0] == "set_metric_type":
        return ([(kind, key)] if dup else []) + [(words[1], key)]
    if words[0] == "rewrite":
        found = re.search(words[1], key) is not None
        return ([(kind, key)] if dup and found else []) + [
            (kind, re.sub(words[1], words[2], key))]
    # A redirection without anything to redirect to.
    return [(kind, key)]


def interpret(rules, kind, key):
    metrics = [(kind, key)]
    for condition, target in rules:
        following = []
        for kind, key in metrics:
            if holds(condition, kind, key):
                following.extend(results(target, kind, key))
            else:
                following.append((kind, key))
        metrics = following
    return metrics


CONDITIONS = ["any", "not any", "metric_type c", "metric_type c g",
              "path_like a*", "path_like *.b", "path_like [ab]?",
              "path_like [!a]*", "not path_like a*", "not not metric_type c",
              "not metric_type c g", "path_like *x*.?", "path_like A*"]
TARGETS = ["drop", r"rewrite (a) x.\1", "rewrite b y dup",
           r"rewrite ^(.*)$ p.\1 no-dup", "rewrite ^a z dup",
           r"rewrite (.)\.(.) \2.\1", "set_metric_type g",
           "set_metric_type c dup", "set_metric_type m no-dup"]
FEW_CONDITIONS = ["any", "metric_type c", "path_like a*",
                  "not path_like *b", "not metric_type c g"]
FEW_TARGETS = ["drop", r"rewrite (a) x.\1", "rewrite b ay dup",
               "set_metric_type g", "set_metric_type c dup"]
KEYS = ["a", "b", "a.b", "ba", "aa", "x.a.b"]
FEW_KEYS = ["a", "ab", "b.a"]
VALUES = {"c": [["1"], ["2", "@0.1"]], "g": [["3"]], "ms": [["4"]],
          "sli": [["5", "10"]]}


class Recorder(object):
    """Lets the router be refactored to call either of its methods."""

    @staticmethod
    def build():
        from txstatsd.server.processor import BaseMessageProcessor

        class Recording(BaseMessageProcessor):

            def __init__(self):
                self.got = []

            def process_message(self, message, metric_type, key, fields):
                self.got.append((metric_type, key, fields[0],
                                 list(fields[2:]), message))

            def flush(self, interval=10000, percent=90):
                return iter(["flushed", interval, percent])
        return Recording()


def render(rules, style):
    if style == 0:
        return "\n".join("%s => %s" % rule for rule in rules)
    if style == 1:
        return "".join("%s=>%s\n" % rule for rule in rules)
    return "\n\n" + "\n\n".join(
        "  %s   =>   %s " % (c.replace(" ", "  "), t.replace(" ", "   "))
        for c, t in rules) + "\n"


def chains(conditions, targets, lengths, keys, kinds, styles=1):
    def body(x):
        from txstatsd.server.router import Router
        length = x.pick(lengths)
        rules = []
        for _ in range(length):
            condition = x.pick(conditions)
            rules.append((condition, x.pick(targets)))
        style = x.choose(styles)
        recorder = Recorder.build()
        router = Router(recorder, render(rules, style))
        for key in keys:
            for kind in kinds:
                for fields in VALUES[kind]:
                    message = "%s:%s" % (key, "|".join(
                        [fields[0], kind] + fields[1:]))
                    expected = [
                        (k, n, fields[0], fields[1:], "%s:%s" % (
                            n, "|".join([fields[0], k] + fields[1:])))
                        for k, n in interpret(rules, kind, key)]
                    recorder.got = []
                    router.process(message)
                    x.op()
                    x.equal(expected, recorder.got, "rules %r on %r" % (
                        rules, message))
                    x.outcome(tuple((g[0], g[1]) for g in recorder.got))
                    x.state((tuple(rules), message))
        x.op((rules, keys, kinds))
        if style == 0:
            x.equal(["flushed", 1234, 80], list(router.flush(
                interval=1234, percent=80)), "what flush() returns")
    return body


ODD_KINDS = ["c", "m", "s", "ms", "g", "sli", "d", "li"]


def kinds_of_metrics(x):
    """Types whose names are parts of each other's."""
    from txstatsd.server.router import Router
    named = x.pick(["ms", "c ms", "sli g", "m", "ms s", "g d c", "li", "s"])
    refused = x.choose(2)
    condition = ("not " if refused else "") + "metric_type " + named
    first = (condition, x.pick(["drop", r"rewrite (a) x.\1", "rewrite a b dup",
                                "set_metric_type s", "set_metric_type m dup",
                                "set_metric_type ms no-dup"]))
    rules = [first] + x.pick([[], [("metric_type s", "rewrite b c")],
                              [("metric_type m ms", "drop")]])
    recorder = Recorder.build()
    router = Router(recorder, render(rules, 0))
    for kind in ODD_KINDS:
        recorder.got = []
        router.process("ab:1|%s" % kind)
        x.op(kind)
        x.equal(interpret(rules, kind, "ab"),
                [(g[0], g[1]) for g in recorder.got],
                "rules %r on type %r" % (rules, kind))
        x.state((tuple(rules), kind))


def patterns(x):
    """Globs whose characters mean other things elsewhere."""
    from txstatsd.server.router import Router
    pattern = x.pick(["a.b", "a*b", "*", "?", "a?b", "[a-c]*", "a+b", "(a)",
                      "a|b", "^a*", "a$", "a.*", "[.]*", "*.*.*", "[^a]*",
                      "*a", "a**b", "??*", "\\d*", "A.B", "[!a-c]?",
                      "*[0-9]", "a{1}", "a_b-c"])
    if pattern == "[^a]*":
        return
    target = x.pick(["drop", "rewrite ^ z."])
    rules = [("path_like " + pattern, target)]
    recorder = Recorder.build()
    router = Router(recorder, render(rules, 0))
    for key in ["a.b", "aXb", "ab", "a", "b", "a+b", "aab", "(a)", "a|b",
                "^a", "a$", "", ".", "a.b.c", "A.B", "9", "d9", "\\d", "abc",
                "b.a", "x.a.b.y", "a\nb", "a-b", "a{1}", "a_b-c", "a.", ".b"]:
        # The processor under the router sees the name as it came.
        recorder.got = []
        router.process_message("m", "c", key, ["1", "c"])
        x.op(key)
        x.equal(interpret(rules, "c", key),
                [(g[0], g[1]) for g in recorder.got],
                "pattern %r on %r" % (pattern, key))
        x.state((pattern, key))


def rewriting(x):
    """Regular expressions and what replaces their matches."""
    from txstatsd.server.router import Router
    expression, replacement = x.pick([
        ("a", ""), ("a", "aa"), ("^a", "b"), ("a$", "b"), ("a*", "x"),
        ("(?P<n>b)", r"[\g<n>]"), (r"\.", "_"), (r"(\w)\.(\w)", r"\2.\1"),
        ("[ab]+", "y"), ("a|b", "z"), ("A", "b"), ("(?i)A", "b"),
        ("^", "p."), ("$", ".s"), (".", "q"), ("(a)(b)?", r"<\1>"),
        ("(^|\\.)a", r"\1c"), ("b{2}", "d"), ("nothing", "x")])
    if replacement == "":
        replacement = "-"
    style = x.pick(["", " dup", " no-dup"])
    condition = x.pick(["any", "path_like a*"])
    rules = [(condition, "rewrite %s %s%s" % (expression, replacement, style))]
    recorder = Recorder.build()
    router = Router(recorder, render(rules, 0))
    for key in ["a", "ab", "aab.a", "b.a.b", "abba", "x.y", "bb.bb", "A.a",
                "a.b.a.b"]:
        recorder.got = []
        router.process(key + ":1|c")
        x.op(key)
        x.equal(interpret(rules, "c", key),
                [(g[0], g[1]) for g in recorder.got],
                "%r on %r" % (rules, key))
        x.state((tuple(rules), key))


def redirects(x):
    """Without a service there is nothing to redirect with."""
    from txstatsd.server.router import Router
    first = (x.pick(FEW_CONDITIONS), x.pick(FEW_TARGETS))
    second = (x.pick(FEW_CONDITIONS), x.pick(
        ["redirect_udp 127.0.0.1 9999", "redirect_tcp 127.0.0.1 9999"]))
    third = (x.pick(FEW_CONDITIONS), x.pick(FEW_TARGETS))
    rules = [first, second, third]
    recorder = Recorder.build()
    router = Router(recorder, render(rules, 0))
    for key in FEW_KEYS:
        for kind in ("c", "g"):
            recorder.got = []
            router.process("%s:1|%s" % (key, kind))
            x.op()
            x.equal(interpret(rules, kind, key),
                    [(g[0], g[1]) for g in recorder.got], "%r" % rules)


def histories(x):
    """A rule treats a message alike whatever came before."""
    from txstatsd.server.router import Router
    rules = [("path_like a*", "set_metric_type c dup"),
             ("metric_type c", r"rewrite (a) x.\1 dup"),
             ("not path_like x*", x.pick(FEW_TARGETS))]
    messages = [("c", "a"), ("g", "ab"), ("ms", "b"), None]
    recorder = Recorder.build()
    router = Router(recorder, render(rules, 0))
    for _ in range(5):
        message = x.pick(messages)
        recorder.got = []
        if message is None:
            router.process("malformed")
            x.equal([], recorder.got, "made of a malformed message")
            continue
        router.process("%s:1|%s" % (message[1], message[0]))
        x.op(message)
        x.equal(interpret(rules, *message),
                [(g[0], g[1]) for g in recorder.got], "%r" % rules)


def mistakes(x):
    from txstatsd.server.router import Router
    text = x.pick(["some => drop", "any => nothing", "not some => drop",
                   "any => drop\nany => forward", "process => drop",
                   "not => drop", "any =>"])
    x.op(text)
    try:
        Router(Recorder.build(), text)
    except (ValueError, TypeError, IndexError):
        return
    x.fail("the rules %r were accepted" % text)


def cases(tier):
    thorough = tier == "thorough"
    kinds = ["c", "g", "ms", "sli"]
    yield Case("one", chains(CONDITIONS, TARGETS, [0, 1], KEYS, kinds, 3),
               split=8)
    yield Case("two", chains(CONDITIONS, TARGETS, [2], KEYS, kinds),
               split=100)
    yield Case("three", chains(FEW_CONDITIONS, FEW_TARGETS, [3], FEW_KEYS,
                               ["c", "g"]), split=100)
    if thorough:
        yield Case("four", chains(FEW_CONDITIONS[:4], FEW_TARGETS, [4],
                                  FEW_KEYS[:2], ["c", "g"]), split=300)
    yield Case("redirects", redirects, split=8)
    yield Case("histories", histories, split=8)
    yield Case("types", kinds_of_metrics, split=20)
    yield Case("patterns", patterns, split=10)
    yield Case("rewriting", rewriting, split=20)
    yield Case("mistakes", mistakes)
