"""Options: from the command line, the configuration file or the defaults."""
import os
import shutil
import tempfile

from core import Case
import seams

ASSUMPTIONS = ["values are well-formed; sections are in alphabetical order"]

# name: (short form, default, value for the command line, the same parsed,
#        another for the configuration file, the same parsed)
OPTIONS = {
    "listen-port": ("l", 8125, "9001", 9001, "9002", 9002),
    "flush-interval": ("i", 60000, "500", 500, "1500", 1500),
    "prefix": ("x", None, "cmd.p", "cmd.p", "file p", "file p"),
    "instance-name": ("N", None, "c-1", "c-1", "f-1", "f-1"),
    "report": ("r", None, "process", "process", "net,io", "net,io"),
    "monitor-message": ("m", "txstatsd ping", "c?", "c?", "f ?", "f ?"),
    "monitor-response": ("o", "txstatsd pong", "c!", "c!", "f !", "f !"),
    "statsd-compliance": ("s", 1, "0", 0, "2", 2),
    "dump-mode": ("d", 0, "1", 1, "2", 2),
    "routing": ("g", "", "any => drop", "any => drop", "not any => drop",
                "not any => drop"),
    "listen-tcp-port": ("t", None, "7001", 7001, "7002", 7002),
    "max-queue-size": ("Q", 20000, "11", 11, "12", 12),
    "max-datapoints-per-message": ("M", 1000, "21", 21, "22", 22),
    "http-port": ("P", None, "6001", 6001, "6002", 6002)}
LISTS = {"carbon-cache-host": ("h", ["h1", "h2"], ["f1", "f2", "f3"]),
         "carbon-cache-port": ("p", [1001, 1002], [2001, 2002, 2003]),
         "carbon-cache-name": ("n", ["n1", "n2"], ["m1", "m2", "m3"])}
NAMES = sorted(OPTIONS)


def spell(name, short, form, value):
    value = str(value)
    return {"long": ["--" + name, value], "equals": ["--%s=%s" % (name, value)],
            "short": ["-" + short, value], "joined": ["-" + short + value],
            "prefix": ["--" + abbreviation(name), value]}[form]


def abbreviation(name):
    """The shortest unique beginning of a long option."""
    names = list(OPTIONS) + list(LISTS) + ["config", "version", "help"]
    for length in range(3, len(name)):
        if [n for n in names if n.startswith(name[:length])] == [name]:
            return name[:length]
    return name


def parse(arguments, config=None, flag="--config", position=0):
    """Parse the command line, the name of the file put at the position."""
    from txstatsd.service import StatsDOptions
    options = StatsDOptions()
    if config is None:
        options.parseOptions(sum(arguments, []))
        return options
    directory = tempfile.mkdtemp()
    try:
        path = os.path.join(directory, "txstatsd.conf")
        with open(path, "w") as f:
            f.write(config)
        arguments = list(arguments)
        arguments.insert(position, {
            "--config": ["--config", path], "-c": ["-c", path],
            "=": ["--config=" + path]}[flag])
        options.parseOptions(sum(arguments, []))
    finally:
        shutil.rmtree(directory)
    return options


def verify(x, options, expected, what):
    for name in OPTIONS:
        value = expected.get(name, OPTIONS[name][1])
        x.check(value == options[name] and
                type(value) is type(options[name]),
                "%s: %s is %r and not %r" % (
                    what, name, options[name], value))
    for name in LISTS:
        x.equal(expected.get(name, []), options[name],
                "%s: %s" % (what, name))


FORMS = ["long", "equals", "short", "joined", "prefix"]


def each(x):
    """One option at a time, in every form and position."""
    name = x.pick(NAMES)
    short, default, text, value, file_text, file_value = OPTIONS[name]
    given = x.pick(["none", "once", "twice"])
    arguments, expected = [], {}
    if given != "none":
        if given == "twice":
            arguments.append(spell(name, short, x.pick(FORMS), file_text))
        arguments.append(spell(name, short, x.pick(FORMS), text))
        expected[name] = value
    source = x.pick(["no file", "other things", "there"])
    if source == "no file":
        options = parse(arguments)
    else:
        config = "[statsd]\nunknown = 5\n"
        if source == "there":
            config += "%s%s%s\n" % (name, x.pick([" = ", ": ", "="]),
                                    file_text)
            expected.setdefault(name, file_value)
        options = parse(arguments, config, x.pick(["--config", "-c", "="]),
                        x.choose(len(arguments) + 1))
    x.op((name, arguments, source))
    verify(x, options, expected, "%s %r %s" % (name, arguments, source))
    x.state((name, given, source))
    x.outcome(repr(options[name]))


def odd(x):
    """Values that are false, or the default, count like any other."""
    name = x.pick(NAMES)
    short, default = OPTIONS[name][:2]
    number = isinstance(OPTIONS[name][3], int)
    texts = ["0", "5"] if number else ["", "0", " s "]
    if default is not None:
        texts.append(str(default))
    arguments, expected = [], {}
    given = x.choose(len(texts) + 1)
    if given:
        form = x.pick(["long", "equals", "short"])
        arguments.append(spell(name, short, form, texts[given - 1]))
        expected[name] = texts[given - 1]
    written = x.choose(len(texts) + 1)
    config = "[statsd]\n"
    if written:
        text = texts[written - 1]
        config += "%s = %s\n" % (name, text)
        # White space around a value is not part of it there.
        expected.setdefault(name, text.strip())
    if number and name in expected:
        expected[name] = int(expected[name])
    options = parse(arguments, config, "--config",
                    x.choose(len(arguments) + 1))
    x.op((name, arguments, config))
    verify(x, options, expected, "%s %r %r" % (name, arguments, config))
    x.state((name, given, written))
    x.outcome(repr(options[name]))


def pairs(x):
    """What is given for one option does not change another."""
    one, other = x.pick(NAMES), x.pick(NAMES)
    if one == other:
        return
    first, second = OPTIONS[one], OPTIONS[other]
    arguments = [spell(one, first[0], x.pick(["long", "short", "joined"]),
                       first[2])]
    expected = {one: first[3]}
    config = "[statsd]\n"
    where = x.pick(["file", "both", "command line"])
    if where != "command line":
        config += "%s = %s\n%s = %s\n" % (one, first[4], other, second[4])
        expected[other] = second[5]
    if where != "file":
        arguments.append(spell(other, second[0], "short", second[2]))
        expected[other] = second[3]
    options = parse(arguments, config, "--config",
                    x.choose(2) * len(arguments))
    x.op((one, other, where))
    verify(x, options, expected, "%r %r" % (arguments, config))
    x.state((one, other, where))


def everything(x):
    """All options, each from any source: a third each, in turns."""
    turn = x.choose(3)
    stride = x.pick([1, 2, 4, 5])
    form = x.pick(FORMS)
    arguments, config, expected = [], "[statsd]\n", {}
    for number, name in enumerate(NAMES):
        short, default, text, value, file_text, file_value = OPTIONS[name]
        source = (number * stride // 3 + turn + number) % 3
        if source == 0:
            continue
        config += "%s = %s\n" % (name, file_text)
        expected[name] = file_value
        if source == 2:
            arguments.append(spell(name, short, form, text))
            expected[name] = value
    options = parse(arguments, config, "-c", x.choose(len(arguments) + 1))
    x.op(len(arguments))
    verify(x, options, expected, "%r %r" % (arguments, config))
    x.state((turn, stride, form))
    # What one set of options got is not in the next.
    verify(x, parse([]), {}, "another set of options")


def caches(x):
    """Carbon caches: any number, from either source."""
    arguments, expected = [], {}
    given = {}
    for name in sorted(LISTS):
        count = given[name] = x.choose(3)
        short, values, _ = LISTS[name]
        form = x.pick(["long", "short", "joined"]) if count else None
        for value in values[:count]:
            arguments.append(spell(name, short, form, value))
        if count:
            expected[name] = values[:count]
    if len(arguments) > 1 and x.choose(2):
        arguments.reverse()
        for name in expected:
            expected[name] = expected[name][::-1]
    sections = x.choose(4)
    capital = sections == 3 and not arguments and x.choose(2)
    config = "[statsd]\n"
    collected = dict((name, []) for name in LISTS)
    for number in range(sections):
        if number == 0:
            # The main section may have one as well.
            if x.choose(2):
                keys = sorted(LISTS)
            else:
                keys = []
        else:
            config += "\n[carbon-cache%s]\n" % (
                ["", "2", "_Third"] if capital else ["", "-a", "-b"])[
                number - 1]
            keys = x.pick([sorted(LISTS), ["carbon-cache-host"],
                           ["carbon-cache-port", "carbon-cache-host"]])
        for key in keys:
            config += "%s = %s\n" % (key, LISTS[key][2][number])
            collected[key].append(LISTS[key][2][number])
    config += "\n[other]\ncarbon-cache-host = no\n"
    if sections:
        for name in LISTS:
            if name not in expected:
                expected[name] = collected[name]
        options = parse(arguments, config, "--config",
                        x.choose(2) * len(arguments))
    else:
        options = parse(arguments)
    x.op((arguments, sections))
    verify(x, options, expected, "%r %r" % (arguments, config))
    x.state(repr(sorted(expected.items())))


def plugins(x):
    """The sections of plugins are handed to them."""
    names = ["plugin_sli", "plugin_X y", "plugin_"]
    config = "[statsd]\nprefix = p\n"
    expected = {}
    for name in names:
        if x.choose(2):
            entries = x.pick([{}, {"a": "1"}, {"a": "1", "listen-port": "5"}])
            config += "[%s]\n" % name + "".join(
                "%s = %s\n" % pair for pair in entries.items())
            expected[name] = entries
    options = parse([["-l", "9"]] if x.choose(2) else [], config)
    x.op(config)
    for name in names:
        x.equal(expected.get(name), dict(options[name])
                if name in options else None, name)
    x.check(options["listen-port"] in (9, 8125), "an option of a plugin")
    x.equal("p", options["prefix"], "prefix")
    x.state(repr(sorted(expected.items())))


TEXTS = ["50%", "%(prefix)s", "a = b", "a: b", "=", "a=b=c", "x#y", "a;b",
         "\"quoted\"", "'q'", "a\\nb", "\xc3\xa9", "True", "None", "[x]",
         "a  b", "-x", "--prefix"]
STRINGS = ["prefix", "instance-name", "report", "monitor-message",
           "monitor-response", "routing"]


def texts(x):
    """Texts are taken as they are, from wherever."""
    name = x.pick(STRINGS)
    short = OPTIONS[name][0]
    text = x.pick(TEXTS)
    arguments, config, expected = [], "[statsd]\nlisten-port = 7\n", {}
    source = x.choose(3)
    if source:
        config += "%s = %s\n" % (x.pick([name, name.upper(),
                                        name.capitalize()]), text)
    if source != 1:
        form = x.pick(["long", "equals", "short", "joined"])
        arguments.append(spell(name, short, form, text))
    expected[name] = text
    expected["listen-port"] = 7
    options = parse(arguments, config)
    x.op((name, text, source))
    verify(x, options, expected, "%r %r" % (arguments, config))
    x.state((name, text, source))


def multiline(x):
    """Rules go over several lines, comments and sections are of no matter."""
    lines = ["any => drop", "not any => rewrite a b", "metric_type c => drop"]
    lines = lines[:1 + x.choose(3)]
    comment = x.pick(["", "# routing = no\n", "; any => no\n"])
    first = x.choose(2)
    config = ("[unrelated]\nprefix = no\nlisten-port = 1\n"
              if x.choose(2) else "")
    config += "[statsd]\n" + comment + "routing = " + (
        "\n   " if first else "") + "\n   ".join(lines) + "\n" + comment
    config += x.pick(["", "prefix = p\n"])
    config += x.pick(["", "[statsd-other]\nlisten-port = 2\n",
                      "[DEFAULT]\n", "[plugin_a]\nprefix = q\n"])
    expected = {"routing": ("\n" if first else "") + "\n".join(lines)}
    if "prefix = p" in config:
        expected["prefix"] = "p"
    options = parse([], config)
    x.op(config)
    verify(x, options, expected, repr(config))
    x.state(config)


def cases(tier):
    yield Case("each", each, split=60)
    yield Case("odd", odd, split=30)
    yield Case("pairs", pairs, split=60)
    yield Case("everything", everything, split=15)
    yield Case("caches", caches, split=60)
    yield Case("plugins", plugins, split=8)
    yield Case("texts", texts, split=20)
    yield Case("multiline", multiline)
