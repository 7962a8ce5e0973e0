"""System and process statistics, read from every kind of source."""
import collections
import itertools
import os
import shutil
import socket
import tempfile
from StringIO import StringIO

from core import Case
import ref

ASSUMPTIONS = [
    "names of network devices have no colon or white space; units in "
    "/proc/meminfo are kB, mB or none; counters are numbers"]

LINES = [("MemTotal", 16), ("MemFree", 7), ("Buffers", 0), ("Cached", 12345),
         ("SwapCached", 3), ("SwapTotal", 99), ("SwapFree", 1 << 40),
         ("MemAvailable", 5), ("HugePages_Total", 4), ("Active(anon)", 6)]
WANTED = set(n for n, _ in LINES[:7])
UNITS = {"": 1, " kB": 1024, " mB": 1024 * 1024}


def meminfo(lines):
    def body(x):
        from txstatsd.process import parse_meminfo
        left = list(LINES)
        text, expected = [], {}
        prefix = x.pick(["sys.mem", "p"])
        for _ in range(x.choose(lines + 1)):
            name, value = left.pop(x.choose(len(left)))
            unit = x.pick(sorted(UNITS))
            spaces = x.pick([1, 9])
            text.append("%s:%s%d%s" % (name, " " * spaces, value, unit))
            if name in WANTED:
                expected["%s.%s" % (prefix, name)] = value * UNITS[unit]
        data = "\n".join(text) + x.pick(["\n", ""])
        if prefix == "sys.mem":
            got = parse_meminfo(data)
        else:
            got = parse_meminfo(data, prefix=prefix)
        x.op(data)
        x.equal(expected, got, "of %r" % data)
        x.outcome(tuple(sorted(got.items())))
        x.state(data)
    return body


def loadavg(x):
    from txstatsd.process import parse_loadavg
    figures = ["0.00", "1.25", "15.99", "100.5"]
    one, five, fifteen = [x.pick(figures) for _ in range(3)]
    rest = x.pick([" 1/345 2345", " 20/1 1\n", "\n"])
    data = "%s %s %s%s" % (one, five, fifteen, rest)
    prefix = x.pick(["sys.loadavg", "p"])
    got = (parse_loadavg(data) if prefix == "sys.loadavg" else
           parse_loadavg(data, prefix=prefix))
    x.op(data)
    x.equal({prefix + ".oneminute": float(one),
             prefix + ".fiveminutes": float(five),
             prefix + ".fifthteenminutes": float(fifteen)}, got,
            "of %r" % data)
    x.state(data)
    x.outcome(tuple(sorted(got.items())))


HEADERS = [
    (["bytes", "packets", "errs", "drop", "fifo", "frame", "compressed",
      "multicast"],
     ["bytes", "packets", "errs", "drop", "fifo", "colls", "carrier",
      "compressed"]),
    (["packets", "errs", "bytes"], ["errs", "bytes", "colls", "packets"]),
    (["bytes", "packets"], ["bytes", "packets"])]


def netdev(devices):
    names = ["lo", "eth0", "eth0.100", "a-very-long-name", "br_0"]

    def body(x):
        from txstatsd.process import parse_netdev
        receive, transmit = x.pick(HEADERS)
        prefix = x.pick(["sys.net", "p"])
        lines = ["Inter-|   Receive      |  Transmit",
                 " face |%s|%s" % (" ".join(receive), "    ".join(transmit))]
        expected = {}
        left = list(names)
        for number in range(x.choose(devices + 1)):
            name = left.pop(x.choose(len(left)))
            step = x.pick([1, 0, 1 << 33])
            figures = [(number * 100 + n) * step
                       for n in range(len(receive) + len(transmit))]
            lines.append("%s:%s%s" % (
                x.pick([name.rjust(6), name]), x.pick([" ", "", "   "]),
                "  ".join(str(f) for f in figures)))
            start = "%s.%s." % (prefix, name)
            for way, columns, offset in (
                ("received", receive, 0), ("sent", transmit, len(receive))):
                for what in ("bytes", "packets"):
                    expected[start + what + "." + way] = figures[
                        offset + columns.index(what)]
        data = "\n".join(lines) + x.pick(["\n", "", "\n\n"])
        got = (parse_netdev(data) if prefix == "sys.net" else
               parse_netdev(data, prefix=prefix))
        x.op(data)
        x.equal(expected, got, "of %r" % data)
        x.state(data)
        x.outcome(tuple(sorted(got.items())))
    return body


class Process(object):

    def __init__(self, figures):
        self.figures = figures

    def memory_info(self):
        return self.figures["memory"]

    def cpu_percent(self):
        return self.figures["cpu"]

    def memory_percent(self):
        return self.figures["percent"]

    def cpu_times(self):
        return self.figures["times"]


STATUSES = ["ESTABLISHED", "LISTEN", "CLOSE_WAIT"]


def process(depth):
    def body(x):
        from txstatsd.process import ProcessReport
        figures = {}
        target = Process(figures)
        able = []
        for name, method in [
            ("num_threads", lambda: figures["threads"]),
            ("io_counters", lambda: figures["io"]),
            ("connections", lambda: figures["connections"])]:
            which = x.pick(["no", "None", "yes"])
            if which == "None":
                setattr(target, name, None)
            elif which == "yes":
                setattr(target, name, method)
                able.append(name)
        report = ProcessReport(target)
        prefix = x.pick([None, "p"])
        keyword = {} if prefix is None else {"prefix": prefix}
        for number in range(2):
            figures.update(
                memory=(1000 + number, 10 + number), cpu=0.5 * number,
                percent=2.5, times=(7 * number, 8), threads=3 + number,
                io=(1, 2 + number, 3, 4 << 33))
            expected = {".cpu.percent": 0.5 * number, ".memory.percent": 2.5,
                        ".memory.vsize": 1000 + number,
                        ".memory.rss": 10 + number}
            if "num_threads" in able:
                expected[".threads"] = 3 + number
            compare(x, expected, prefix or "proc",
                    report.get_memory_and_cpu(**keyword), "process")
            compare(x, {".cpu.user": 7 * number, ".cpu.system": 8},
                    prefix or "proc", report.get_cpu_counters(**keyword),
                    "CPU")
            expected = {".read.count": 1, ".write.count": 2 + number,
                        ".read.bytes": 3, ".write.bytes": 4 << 33}
            if "io_counters" not in able:
                expected = {}
            compare(x, expected, prefix or "proc.io",
                    report.get_io_counters(**keyword), "IO")
            connections, expected = [], {}
            if "connections" in able:
                for _ in range(x.choose(depth + 1)):
                    kind, status = x.pick(
                        [(socket.SOCK_STREAM, s) for s in STATUSES] +
                        [(socket.SOCK_DGRAM, "NONE")])
                    connections.append((
                        len(connections), socket.AF_INET, kind,
                        ("127.0.0.1", 1), ("127.0.0.1", 2), status))
                    if kind == socket.SOCK_STREAM:
                        name = ".status." + status.lower()
                        expected[name] = expected.get(name, 0) + 1
            figures["connections"] = connections
            compare(x, expected, prefix or "proc.net",
                    report.get_net_stats(**keyword), "connections")
            x.state((tuple(able), tuple(sorted(expected.items()))))
    return body


def compare(x, expected, prefix, got, what):
    x.op(what)
    x.equal(dict((prefix + name, value) for name, value in expected.items()),
            got, what)
    x.outcome((what, tuple(sorted(got.items()))))


class Failure(Exception):
    pass


def counters(depth, names="ab", figures=(0, 3)):
    """Differences, with names that come and go, and failures."""
    readings = [None]
    for values in itertools.product((None,) + figures, repeat=len(names)):
        readings.append(dict((n, v) for n, v in zip(names, values)
                             if v is not None))

    def body(x):
        from txstatsd.process import report_counters
        given = []

        def function(*args, **kwargs):
            """The function."""
            x.equal((("arg",), {"key": 1}), (args, kwargs), "arguments")
            if given[-1] is None:
                raise Failure()
            return dict(given[-1])
        report = report_counters(function, "arg", key=1)
        other = report_counters(lambda: {"a": len(given) ** 2})
        previous = None
        previous_other = None
        for _ in range(depth):
            given.append(x.pick(readings))
            x.op(given[-1])
            if given[-1] is None:
                try:
                    got = report()
                except Failure:
                    pass
                else:
                    x.fail("a failure is hidden, and %r reported" % got)
            else:
                expected = {}
                for name in given[-1]:
                    if previous is not None and name in previous:
                        expected[name] = given[-1][name] - previous[name]
                got = report()
                x.equal(expected, got, "differences of %r" % given)
                x.outcome(tuple(sorted(got.items())))
                previous = given[-1]
            # Another one in between.
            now = len(given) ** 2
            x.equal({} if previous_other is None else
                    {"a": now - previous_other}, other(), "of another")
            previous_other = now
            x.state(repr(given))
    return body


def carbon(depth):
    """What carbon's clients count, since the report before."""
    names = ["destinations.10_0_0_1:2004:None.sent",
             "destinations.10_0_0_1:2004:a:b.queuedUntilReady",
             "destinations.h:1:x.attemptedRelays", "metricsReceived",
             "cache.size"]

    def body(x):
        from carbon import instrumentation
        from txstatsd.service import report_client_manager_stats
        instrumentation.stats.clear()
        total = {}
        reported = {}
        pending = {}
        for _ in range(depth):
            which = x.choose(len(names) + 1)
            x.op(which)
            if which < len(names):
                amount = x.pick([1, 5])
                instrumentation.increment(names[which], amount)
                name = names[which]
                total[name] = total.get(name, 0) + amount
                pending[name] = pending.get(name, 0) + amount
            else:
                got = report_client_manager_stats()
                for name, amount in pending.items():
                    told = name.replace(":", "_")
                    if not name.startswith("destinations"):
                        x.check(told not in got, "%s is reported" % name)
                        continue
                    x.equal(amount, got.pop(told, 0),
                            "%s since the last report" % name)
                pending = {}
                known = [n.replace(":", "_") for n in names[:3]]
                for name, value in got.items():
                    x.check(value == 0 and name in known, "%s is %r" % (
                        name, value))
                x.outcome(tuple(sorted(got)))
            x.state((tuple(sorted(pending.items())),
                     tuple(sorted(total.items()))))
    return body


Times = collections.namedtuple("Times", "user nice system idle")


def system(x):
    """CPU times, the reactor, thread pools, and files that change."""
    import psutil
    from txstatsd import process
    one, two = Times(1, 2, 3, 4), Times(5.5, 6, 7, 8)
    original = psutil.cpu_times
    prefix = x.pick(["sys", "p"])
    percpu = x.pick([None, False, True])
    count = x.choose(3) + 1 if percpu else 1
    cpus = [x.pick([one, two]) for _ in range(count)]
    psutil.cpu_times = lambda percpu=False: cpus if percpu else cpus[0]
    keywords = {} if prefix == "sys" else {"prefix": prefix}
    if percpu is not None:
        keywords["percpu"] = percpu
    try:
        got = process.report_system_stats(**keywords)
    finally:
        psutil.cpu_times = original
    expected = {}
    for index, cpu in enumerate(cpus):
        part = ".cpu.%03d." % index if percpu else ".cpu."
        for mode in Times._fields:
            expected[prefix + part + mode] = getattr(cpu, mode)
    x.op((prefix, percpu, count))
    x.equal(expected, got, "CPU times")
    x.outcome(tuple(sorted(got.items())))


class Pool(object):

    class Q(object):
        pass


def parts(x):
    from txstatsd import process
    pool = Pool()
    pool.working = range(x.choose(3))
    pool.waiters = range(x.choose(3))
    pool.threads = range(x.choose(3))
    size = x.choose(3)
    pool.q = Pool.Q()
    pool.q.qsize = lambda: size
    report = process.report_threadpool_stats(pool)
    expected = lambda: {
        "threadpool.working": len(pool.working), "threadpool.queue": size,
        "threadpool.waiters": len(pool.waiters),
        "threadpool.threads": len(pool.threads)}
    x.equal(expected(), report(), "thread pool")
    pool.working = range(5)
    x.equal(expected(), report(), "thread pool later")

    reactor = Pool()
    reactor.getReaders = lambda: pool.threads
    reactor.getWriters = lambda: pool.waiters
    report = process.report_reactor_stats(reactor)
    x.equal({"reactor.readers": len(pool.threads),
             "reactor.writers": len(pool.waiters)}, report(), "reactor")
    pool.threads = range(7)
    x.equal({"reactor.readers": 7, "reactor.writers": len(pool.waiters)},
            report(), "reactor later")


def files(depth):
    """The file is read again for every report, and failures are told."""
    contents = [None, "", "1.5 2 3 1/2 3\n", "4 5 6.25 1/2 4\n",
                "MemFree: 7 kB\n"]

    def body(x):
        from txstatsd import process
        directory = tempfile.mkdtemp()
        try:
            path = os.path.join(directory, "file")
            loads = process.report_file_stats(path, process.parse_loadavg)
            memory = process.report_file_stats(path, process.parse_meminfo)
            for _ in range(depth):
                content = x.pick(contents)
                x.op(content)
                if content is None:
                    if os.path.exists(path):
                        os.remove(path)
                    for report in (loads, memory):
                        try:
                            got = report()
                        except (IOError, OSError):
                            pass
                        else:
                            x.fail("no file, but %r" % got)
                    continue
                with open(path, "w") as f:
                    f.write(content)
                if content.startswith("Mem"):
                    x.equal({"sys.mem.MemFree": 7168}, memory(), "memory")
                else:
                    x.equal({}, memory(), "no memory")
                    got = loads()
                    x.equal(sorted(float(f) for f in content.split()[:3]),
                            sorted(got.values()), "loads")
                x.state(content)
        finally:
            shutil.rmtree(directory)
    return body


def groups(x):
    """What the options net, io, counter, process and system stand for."""
    from txstatsd import process
    expected = {"PROCESS": 1, "COUNTER": 1, "IO": 1, "NET": 1, "SYSTEM": 4}
    for name, size in expected.items():
        group = getattr(process, name + "_STATS")
        x.equal(size, len(group), "reports of " + name)
        x.equal(size, len(set(map(id, group))), "different ones")
        for function in group:
            # Reports are named in the log.
            x.check(isinstance(function.func_name, str), "name")


FILES = {
    "/proc/meminfo": "MemTotal:  %d kB\nMemFree: 7 kB\nHugePages: 5\n",
    "/proc/loadavg": "%d.5 0.25 0.75 1/345 2345\n",
    "/proc/net/dev": "Inter-| Receive | Transmit\n face |bytes packets|"
                     "bytes packets\n  lo: %d 2 3 4\n"}


def grouped(depth):
    """Each group's reports, read again and again, as they are or compared."""
    groups = ["PROCESS", "COUNTER", "IO", "NET", "SYSTEM"]

    def body(x):
        import __builtin__
        import sys
        import psutil
        import txstatsd
        moment = [0]
        names = {"memory_info": lambda: (1000 + moment[0], 200),
                 "cpu_percent": lambda: 12.5 * moment[0],
                 "memory_percent": lambda: 2.5,
                 "num_threads": lambda: 3 + moment[0],
                 "cpu_times": lambda: (7.5 * moment[0], 5.0),
                 "io_counters": lambda: (1, 2 * moment[0], 3, moment[0] ** 2),
                 "connections": lambda: [
                     (n, socket.AF_INET, socket.SOCK_STREAM, (), (),
                      "LISTEN") for n in range(moment[0])]}

        def fake(pid=None):
            x.equal(os.getpid(), pid or os.getpid(), "process")
            target = Process(None)
            for name in names:
                setattr(target, name, names[name])
            return target

        def fake_open(name, *args):
            if name in FILES:
                return Opened(FILES[name] % (moment[0] * 3))
            return original_open(name, *args)
        originals = psutil.Process, psutil.cpu_times
        original_open = __builtin__.open
        kept = sys.modules.pop("txstatsd.process", None)
        psutil.Process = fake
        psutil.cpu_times = lambda percpu=False: Times(moment[0] * 4, 6, 7, 8)
        try:
            # A copy of its own, which has compared nothing yet.
            import txstatsd.process
            process = sys.modules["txstatsd.process"]
            before = {}
            for _ in range(depth):
                group = x.pick(groups)
                moment[0] = x.pick([1, 3])
                x.op((group, moment[0]))
                got = {}
                __builtin__.open = fake_open
                try:
                    for report in getattr(process, group + "_STATS"):
                        more = report()
                        x.check(not set(more) & set(got), "twice the same")
                        got.update(more)
                finally:
                    __builtin__.open = original_open
                now, raw = expected_of(group, moment[0])
                for name in raw:
                    if group in before:
                        now[name] = raw[name] - before[group][name]
                before[group] = raw
                x.equal(now, got, "reports of " + group)
                x.state((group, tuple(sorted(now.items()))))
        finally:
            psutil.Process, psutil.cpu_times = originals
            if kept is not None:
                sys.modules["txstatsd.process"] = kept
                txstatsd.process = kept
    return body


def expected_of(group, moment):
    """(figures as they are, figures compared with those before)."""
    if group == "PROCESS":
        return {"proc.memory.vsize": 1000 + moment, "proc.memory.rss": 200,
                "proc.cpu.percent": 12.5 * moment, "proc.memory.percent": 2.5,
                "proc.threads": 3 + moment}, {}
    if group == "COUNTER":
        return {}, {"proc.cpu.user": 7.5 * moment, "proc.cpu.system": 5.0}
    if group == "IO":
        return {}, {"proc.io.read.count": 1,
                    "proc.io.write.count": 2 * moment,
                    "proc.io.read.bytes": 3, "proc.io.write.bytes": moment ** 2}
    if group == "NET":
        return {"proc.net.status.listen": moment}, {}
    return ({"sys.mem.MemTotal": moment * 3 * 1024, "sys.mem.MemFree": 7168,
             "sys.loadavg.oneminute": moment * 3 + 0.5,
             "sys.loadavg.fiveminutes": 0.25,
             "sys.loadavg.fifthteenminutes": 0.75},
            {"sys.net.lo.bytes.received": moment * 3,
             "sys.net.lo.packets.received": 2, "sys.net.lo.bytes.sent": 3,
             "sys.net.lo.packets.sent": 4, "sys.cpu.user": moment * 4,
             "sys.cpu.nice": 6, "sys.cpu.system": 7, "sys.cpu.idle": 8})


class Opened(StringIO):
    """A file of text that is a context manager."""

    def __enter__(self):
        return self

    def __exit__(self, *error):
        self.close()


def cases(tier):
    thorough = tier == "thorough"
    yield Case("meminfo", meminfo(3 if thorough else 2), split=60)
    yield Case("loadavg", loadavg, split=8)
    yield Case("netdev", netdev(3 if thorough else 2), split=60)
    yield Case("process", process(3 if thorough else 2), split=60)
    yield Case("counters", counters(4 if thorough else 3), split=60)
    yield Case("counters-three", counters(3 if thorough else 2, "abc", (1, 2)),
               split=30)
    yield Case("counters-long", counters(8 if thorough else 6, "a", (0, 3)),
               split=30)
    yield Case("carbon", carbon(6 if thorough else 5), split=50)
    yield Case("system", system, split=4)
    yield Case("parts", parts, split=4)
    yield Case("files", files(5 if thorough else 4), split=20)
    yield Case("groups", groups)
    yield Case("grouped", grouped(4 if thorough else 3), split=50)
