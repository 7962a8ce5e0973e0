"""The reactor inspector, cycle by cycle."""
import thread
import threading

from core import Case
import ref
import seams

ASSUMPTIONS = [
    "the inspector waits with time.sleep; the reactor answers requests in the "
    "order they were made; when only some of the requests pending have been "
    "answered at the end of a cycle, the next delay may be counted from the "
    "first of the others or from that moment"]


class Sleeper(object):
    """Stands in for time.sleep."""

    def __init__(self, sleep):
        self.sleep = sleep

    def __enter__(self):
        seams.sleeper = self.sleep

    def __exit__(self, *args):
        seams.sleeper = seams.really_sleep


class Metrics(object):

    def __init__(self):
        self.calls = []
        self.threads = []

    def gauge(self, name, value):
        self.calls.append((name, value))
        self.threads.append(thread.get_ident())


class Model(object):
    """The requests, and what has to be reported."""

    def __init__(self):
        self.issued = []       # times of the requests not accounted for
        self.answers = []      # (issued, answered), not accounted for

    def delays(self, now):
        """What may be reported at the end of a cycle."""
        if not self.answers:
            return list(self.since(now))
        issued, answered = self.answers[0]
        self.answers = []
        self.carry = [now] + self.issued[:1] if self.issued else None
        return [answered - issued]

    carry = None

    def since(self, now):
        if self.carry:
            return [now - when for when in self.carry]
        return [now - self.issued[0]]


def cycles(depth, partial=False, loop_times=(3, 0.05)):
    def body(x):
        from txstatsd.report import ReactorInspector
        seams.clock.reset()
        metrics = Metrics()
        pending = []
        model = Model()
        loop_time = x.pick(list(loop_times))
        inspector = []
        done = []
        dumps, unanswered = [], []

        def answer(count=None):
            while pending and count != 0:
                issued, task = pending.pop(0)
                model.issued.remove(issued)
                model.answers.append((issued, seams.clock.now))
                task()
                if count is not None:
                    count -= 1

        def call(task):
            x.equal([], done[len(metrics.calls):], "delays not reported")
            model.issued.append(seams.clock.now)
            pending.append((seams.clock.now, task))
            if pending_action[0] == "at once":
                answer()

        def check():
            if done:
                x.equal(len(done), len(metrics.calls), "number of reports")
                name, delay = metrics.calls[-1]
                x.equal("delay", name, "name of the gauge")
                x.check(any(ref.close(delay, d, 1e-6) for d in done[-1]),
                        "in cycle %d the delay is %s and not %s (%s)" % (
                            len(done), delay, done[-1], trace))
        pending_action = [None]
        trace = []

        def sleep(seconds):
            check()
            x.equal(loop_time, seconds, "time to sleep")
            action = pending_action[0]
            trace.append(action)
            x.op(action)
            if action in ("early", "late"):
                seams.clock.now += seconds * (
                    0.75 if action == "late" else 0.25)
                answer()
                seams.clock.now += seconds * (
                    0.25 if action == "late" else 0.75)
            elif action == "one":
                seams.clock.now += seconds * 0.5
                answer(1)
                seams.clock.now += seconds * 0.5
            elif action == "oversleeps":
                # And the reactor is back only after it should have woken.
                seams.clock.now += seconds + 7
                answer()
                seams.clock.now += 1
            else:
                seams.clock.now += seconds
            if not model.answers:
                unanswered.append(len(done) + 1)
            done.append(model.delays(seams.clock.now))
            x.state((tuple(seams.clock.now - t for t in model.issued),
                     len(model.answers)))
            if len(done) == depth:
                inspector[0].stop()
            else:
                choose()
        actions = ["early", "late", "never", "at once", "oversleeps"]
        if partial:
            actions = ["early", "one", "never"]

        def choose():
            pending_action[0] = x.pick(actions)
        choose()
        inspector.append(ReactorInspector(
            call, metrics, loop_time=loop_time,
            log=lambda *args, **kwargs: None))
        inspector[0].dump_frames = lambda: dumps.append(len(done))
        with Sleeper(sleep):
            inspector[0].run()
        check()
        x.equal(depth, len(metrics.calls), "number of reports")
        x.equal(unanswered, dumps, "cycles after which stacks were logged")
        x.outcome(tuple(round(d, 3) for _, d in metrics.calls))
    return body


def somewhere_in_particular():
    import sys
    return sys._getframe()


def frames(x):
    """The stacks of the other threads are logged, and which is whose."""
    import os
    import sys
    from txstatsd.report import ReactorInspector
    told = []
    me = threading.currentThread().ident
    idents = [me, me + 1000, me + 2000, me + 3000]
    present = [ident for ident in idents if x.choose(2)]
    reactor_thread = x.pick(idents + [None])
    inspector = ReactorInspector(
        None, Metrics(), log=lambda *args, **kwargs: told.append(
            " ".join(map(str, args))))
    inspector.reactor_thread = reactor_thread
    missing = object()
    original = getattr(sys, "_current_frames", missing)
    sys._current_frames = lambda: dict(
        (ident, somewhere_in_particular()) for ident in present)
    try:
        inspector.dump_frames()
    finally:
        if original is missing:
            del sys._current_frames
        else:
            sys._current_frames = original
    others = [ident for ident in present if ident != me]
    x.op((present, reactor_thread))
    x.equal(len(others), len(told), "stacks logged")
    for ident in others:
        texts = [t for t in told if str(ident) in t.split("\n")[0]]
        x.equal(1, len(texts), "stacks of thread %d" % ident)
        x.check("somewhere_in_particular" in texts[0] and
                str(os.getpid()) in texts[0], "logged: %r" % texts[0])
        x.equal(ident == reactor_thread, "reactor" in
                texts[0].split("\n")[0], "the thread is told to be the "
                "reactor's: %r" % texts[0])
    x.state((len(others), reactor_thread in others))


class Lockstep(object):
    """Real threads that only run while the harness waits for them."""

    def __init__(self):
        self.condition = threading.Condition()
        self.sleeping = {}       # thread: wakes up
        self.home = thread.get_ident()

    def sleep(self, seconds):
        assert thread.get_ident() != self.home
        me = threading.currentThread()
        with self.condition:
            self.sleeping[me] = False
            self.condition.notifyAll()
            while not self.sleeping[me]:
                self.condition.wait()
            del self.sleeping[me]

    def settle(self, before):
        """Wait until every other thread that is new sleeps, or is gone."""
        while True:
            with self.condition:
                others = [t for t in threading.enumerate()
                          if t not in before and t.isAlive()]
                if all(self.sleeping.get(t) is False for t in others):
                    return others
                self.condition.wait(0.002)

    def wake(self, sleeper, before):
        with self.condition:
            self.sleeping[sleeper] = True
            self.condition.notifyAll()
        return self.settle(before)


def services(depth):
    """The service, with its thread and the reactor taking turns."""
    def body(x):
        from fakereactor import reactor
        from txstatsd.report import ReactorInspectorService
        reactor.reset()
        seams.start_log()
        metrics = Metrics()
        steps = Lockstep()
        before = set(threading.enumerate())
        home = thread.get_ident()
        service = ReactorInspectorService(reactor, metrics, loop_time=2)
        awake = []
        running, ended = False, 0

        def wake(each):
            reported = len(metrics.calls)
            seams.clock.now += 2
            left = steps.wake(each, before)
            x.equal(reported, len(metrics.calls),
                    "reports made by the thread itself")
            return left

        def turn():
            reactor.turn()
            for ident in metrics.threads:
                x.equal(home, ident, "thread that reports")
        with Sleeper(steps.sleep):
            try:
                cycles = 0
                for _ in range(depth):
                    actions = ["turn", "stop" if running else "start"]
                    threads = steps.settle(before)
                    x.check(len(threads) <= (1 if running else 0) + ended,
                            "%d threads" % len(threads))
                    x.check(not running or threads,
                            "no thread although the service runs")
                    actions += ["wake %d" % n for n in range(len(threads))]
                    action = x.pick(actions)
                    x.op(action)
                    if action == "turn":
                        turn()
                    elif action == "start":
                        service.startService()
                        service.inspector.dump_frames = lambda: None
                        running = True
                    elif action == "stop":
                        service.stopService()
                        running = False
                        ended += 1
                    else:
                        threads.sort(key=lambda t: t.ident)
                        cycles += 1
                        wake(threads[int(action[5:])])
                    x.state((running, len(threads), len(reactor.threadcalls),
                             len(metrics.calls)))
                if running:
                    service.stopService()
                for number in range(10):
                    threads = steps.settle(before)
                    for each in threads:
                        cycles += 1
                        wake(each)
                x.equal([], steps.settle(before), "threads left")
                turn()
                x.equal(cycles, len(metrics.calls),
                        "reports of %d cycles" % cycles)
                for name, delay in metrics.calls:
                    x.equal("delay", name, "name of the gauge")
                    x.check(delay >= 0, "delay %s" % delay)
                turn()
                x.equal([], reactor.threadcalls, "calls in the reactor")
            finally:
                # Let every thread go, whatever went wrong.
                service.inspector.stopped = True
                for _ in range(200):
                    left = [t for t in threading.enumerate()
                            if t not in before and t.isAlive()]
                    if not left:
                        break
                    with steps.condition:
                        for each in left:
                            if steps.sleeping.get(each) is False:
                                steps.sleeping[each] = True
                        steps.condition.notifyAll()
                        steps.condition.wait(0.002)
        x.outcome(tuple(d for _, d in metrics.calls))
    return body


def cases(tier):
    thorough = tier == "thorough"
    yield Case("cycles", cycles(7 if thorough else 6), split=50)
    yield Case("partial", cycles(8 if thorough else 6, partial=True),
               split=30)
    yield Case("services", services(9 if thorough else 7), split=30)
    yield Case("frames", frames)
