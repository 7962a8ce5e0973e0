"""Scheduled reports, with functions that fail and that take their time."""
from core import Case, Violation
import seams

ASSUMPTIONS = [
    "functions are plain functions"]


class World(object):
    """A reporting service, what it called and what it should have."""

    def __init__(self, x, instance, external):
        from fakereactor import reactor
        from txstatsd.report import ReportingService
        self.x = x
        reactor.reset()
        self.log = seams.start_log()
        self.reactor = reactor
        if external:
            from twisted.internet.task import Clock
            self.clock = Clock()
            self.service = ReportingService(instance, clock=self.clock)
        else:
            self.clock = None
            self.service = ReportingService(instance)
        self.prefix = instance and instance + "."
        self.tasks = []
        self.running = False
        self.reported, self.expected = [], []
        self.calls = 0
        # Whether it was started while a function was waiting, from before.
        self.overlapped = False

    def now(self):
        return self.clock.seconds() if self.clock else seams.clock.now

    def schedule(self, interval, kinds, reporting):
        task = Task(self, len(self.tasks), interval, kinds, reporting)
        self.tasks.append(task)
        if self.running:
            task.start = self.now()
            task.next = self.now()
        self.service.schedule(
            task.function(), interval, task.report if reporting else None)
        if self.running:
            task.settle()

    def start(self):
        self.running = True
        for task in self.tasks:
            self.overlapped = self.overlapped or task.waiting is not None
            task.start = self.now()
            task.next = self.now() + task.interval
        self.service.startService()
        self.verify()

    def stop(self):
        self.running = False
        for task in self.tasks:
            task.next = None
        self.service.stopService()
        self.verify()

    def advance(self, seconds):
        """Time passes, and the reactor turns in time."""
        target = self.now() + seconds
        while True:
            due = [t.next for t in self.tasks if t.next is not None and
                   t.waiting is None]
            moment = min(due + [target])
            # Half way, to see that nothing happens too early.
            half = (moment - self.now()) / 2.0
            for step in (half, moment - self.now() - half):
                self.move(step)
            for task in self.tasks:
                self.x.check(
                    task.next is None or task.waiting is not None or
                    task.next > moment + 1e-6,
                    "task %d (every %s) is not called at %s" % (
                        task.number, task.interval, task.next))
            self.verify()
            if moment >= target:
                break

    def move(self, step):
        if self.clock:
            self.clock.advance(step)
        else:
            self.reactor.advance(step)
        for task in self.tasks:
            task.settle()

    def verify(self):
        for task in self.tasks:
            task.settle()
        self.x.equal(self.expected, self.reported, "what is reported")

    def pending(self):
        calls = self.clock.getDelayedCalls() if self.clock else (
            self.reactor.getDelayedCalls())
        return len(calls)


class Task(object):

    def __init__(self, world, number, interval, kinds, reporting):
        self.world, self.number, self.interval = world, number, interval
        self.kinds, self.reporting = kinds, reporting
        self.start = self.next = None
        self.waiting = None
        self.called = 0       # since settle()

    def function(self):
        def collect():
            return self.call()
        return collect

    def call(self):
        from twisted.internet import defer
        x, world = self.world.x, self.world
        x.check(world.running, "task %d is called after the service stopped" %
                self.number)
        x.check(self.waiting is None,
                "task %d is called again before it is done" % self.number)
        self.called += 1
        world.calls += 1
        x.check(self.next is not None and abs(self.next - world.now()) < 1e-6,
                "task %d (every %s) is called at %s and not at %s" % (
                    self.number, self.interval, world.now(), self.next))
        kind = x.pick(self.kinds, [0] + [1] * (len(self.kinds) - 1))
        x.op("task %d: %s" % (self.number, kind))
        if kind == "fails":
            raise ValueError("on purpose")
        if kind == "waits":
            self.waiting = defer.Deferred()
            return self.waiting
        if kind == "nothing":
            return {}
        if kind == "deferred":
            return defer.succeed(self.values(True))
        if kind == "fails later":
            return defer.fail(ValueError("on purpose"))
        return self.values(kind != "report fails")

    def values(self, good):
        world = self.world
        name = "t%d.%d" % (self.number, world.calls)
        if not good:
            return {"bad." + name: 1}
        if self.reporting:
            world.expected.append((world.prefix + name, world.calls))
        return {name: world.calls}

    def report(self, name, value):
        if "bad." in name:
            raise KeyError("on purpose")
        self.world.reported.append((name, value))

    def settle(self):
        """Compare the calls since the last time with those due since."""
        world = self.world
        now = world.now()
        if self.next is not None and self.called:
            # The next multiple of the interval.
            periods = int((now - self.start) / self.interval + 1e-6)
            self.next = self.start + (periods + 1) * self.interval
        due = (world.running and self.next is not None and
               self.waiting is None and self.next <= now - 1e-6)
        world.x.check(not due or self.called, "task %d (every %s) is not "
                      "called at %s" % (self.number, self.interval, self.next))
        world.x.check(self.called <= 1, "task %d is called %d times" % (
            self.number, self.called))
        self.called = 0

    def done(self, good):
        d, self.waiting = self.waiting, None
        now = self.world.now()
        if self.next is not None:
            periods = int((now - self.start) / self.interval + 1e-6)
            self.next = self.start + (periods + 1) * self.interval
        if good:
            d.callback(self.values(True))
        else:
            d.errback(ValueError("on purpose"))
        self.world.verify()


KINDS = ["returns", "fails", "waits", "deferred", "nothing", "fails later",
         "report fails"]


def histories(depth, tasks, kinds, external, restart=True):
    def body(x):
        instance = x.pick(["", "host-1"])
        world = World(x, instance, external)
        try:
            history(x, world)
            x.settle()
        except Violation, e:
            if world.overlapped:
                e.signature = "restarted-while-waiting"
            raise

    def history(x, world):
        early = x.choose(2)
        if early:
            for interval in tasks:
                world.schedule(interval, kinds, True)
        x.op("start")
        world.start()
        if not early:
            for interval in tasks:
                world.schedule(interval, kinds, True)
        for _ in range(depth):
            actions = [("advance", max(tasks)), ("advance", min(tasks) * 0.6)]
            waiting = [t for t in world.tasks if t.waiting is not None]
            for task in waiting:
                actions.append(("done", task, True))
                actions.append(("done", task, False))
            if restart:
                if world.running:
                    actions.append(("stop",))
                else:
                    actions.append(("start",))
            action = x.pick(actions)
            x.op(action[0] + " %s" % (action[1:2],))
            if action[0] == "advance":
                world.advance(action[1])
            elif action[0] == "done":
                action[1].done(action[2])
            elif action[0] == "stop":
                world.stop()
            else:
                world.start()
            x.state((early, world.running, world.now(), tuple(
                (t.next, t.waiting is None) for t in world.tasks)))
        if world.running:
            world.stop()
        for task in world.tasks:
            if task.waiting is not None:
                task.done(True)
        world.advance(3 * max(tasks))
        x.equal(0, world.pending(), "delayed calls left")
        x.outcome((world.calls, len(world.reported)))
    return body


def unreported(x):
    """Functions without a report function are just called."""
    world = World(x, x.pick(["", "host-1"]), x.choose(2))
    early = x.choose(2)
    kinds = ["returns", "fails", "waits", "fails later"]
    if early:
        world.schedule(1, kinds, False)
        world.schedule(2, ["returns"], True)
    world.start()
    if not early:
        world.schedule(1, kinds, False)
        world.schedule(2, ["returns"], True)
    for _ in range(5):
        world.advance(1)
        for task in world.tasks:
            if task.waiting is not None and x.choose(2):
                task.done(x.choose(2))
    world.stop()
    world.advance(5)
    x.state((early, world.calls))


def blocked(x):
    """A reactor that is busy calls each function once when it is back."""
    intervals = x.pick([(1, 3), (2, 5), (60, 60)])
    world = World(x, "", False)
    calls = dict((i, []) for i in range(2))

    def task(number):
        def function():
            calls[number].append(seams.clock.now)
            return {"n": number}
        return function
    for number in range(2):
        world.service.schedule(task(number), intervals[number],
                               lambda name, value: None)
    start = seams.clock.now
    world.service.startService()
    last = [start] * 2
    for _ in range(4):
        gap = x.pick([0.4, 1, 2.5, 7, 60, 200])
        seams.clock.now += gap
        x.op("blocked for %s s" % gap)
        world.reactor.settle()
        now = seams.clock.now
        for number in range(2):
            interval = intervals[number]
            periods = int((now - start) / interval + 1e-6) - int(
                (last[number] - start) / interval + 1e-6)
            x.equal(min(1, periods), len(calls[number]),
                    "calls every %s s after %s s" % (interval, gap))
            calls[number] = []
            last[number] = now
    x.state((intervals, seams.clock.now))


def figures(x):
    """Whatever the figures are called and are, they are reported as such."""
    from fakereactor import reactor
    from txstatsd.report import ReportingService
    from twisted.internet import defer
    reactor.reset()
    log = seams.start_log()
    instance = x.pick(["", None, "host-1", "h", "h.d", "h."])
    names = ["h", "h.x", "host-1", "host-1.x", "a", "h.d.h.d", "", ".", "A b",
             "host-1x", "x.host-1"]
    values = [0, -1, 2.5, 0.0, None, "", "text", False, 10 ** 12]
    first = x.choose(len(names))
    batch = dict((names[(first + n) % len(names)],
                  values[(first + n) % len(values)])
                 for n in range(x.pick([0, 1, 2, len(names)])))
    later = x.choose(2)
    service = ReportingService(instance)
    reported = []
    service.schedule(lambda: defer.succeed(dict(batch)) if later else
                     dict(batch), 7, lambda n, v: reported.append((n, v)))
    service.startService()
    prefix = instance + "." if instance else ""
    for _ in range(2):
        reactor.advance(7)
        x.op(sorted(batch))
        x.equal(sorted((prefix + n, repr(v)) for n, v in batch.items()),
                sorted((n, repr(v)) for n, v in reported), "reported")
        del reported[:]
    service.stopService()
    x.equal([], log.errors, "errors in the log")
    x.state((instance, tuple(sorted(batch)), later))


def cases(tier):
    thorough = tier == "thorough"
    yield Case("kinds", histories(4 if thorough else 3, [1, 2], KINDS, False),
               bound=3 if thorough else 2, split=60)
    yield Case("external-clock", histories(
        4 if thorough else 2, [1, 2.5], KINDS, True),
        bound=2, split=40)
    yield Case("three", histories(4 if thorough else 3, [1.5, 1.5, 3],
                                  ["returns", "fails", "waits"], False),
               bound=3 if thorough else 2, split=40)
    yield Case("restarts", histories(6 if thorough else 5, [1],
                                     ["returns", "waits"], False),
               bound=2, split=40)
    yield Case("unreported", unreported, bound=2, split=30)
    yield Case("figures", figures, split=12)
    yield Case("blocked", blocked, split=30)
