"""Every source of nondeterminism, behind a seam that the harness decides.

L{install} must run before anything of Twisted or txstatsd is imported.
"""
import random
import sys
import time

real_time = time.time


class Clock(object):
    """The wall clock.  It only moves when the harness says so."""

    START = 1000000.0

    def __init__(self):
        self.now = self.START

    def __call__(self):
        return self.now

    def reset(self, now=START):
        self.now = float(now)


clock = Clock()


class ControlledRandom(random.Random):
    """Random numbers: from C{oracle} if there is one, else seeded."""

    oracle = None

    def random(self):
        if self.oracle is not None:
            if not hasattr(self.oracle, "random"):
                return self.oracle.randint(0, 2 ** 32 - 1) / 2.0 ** 32
            return self.oracle.random()
        return random.Random.random(self)

    def draw(self, low, high):
        """A number from the oracle, which may only know some of the ways."""
        if hasattr(self.oracle, "randint"):
            return self.oracle.randint(low, high)
        return low + int(self.oracle.random() * (high - low + 1))

    def randint(self, low, high):
        if self.oracle is not None:
            return self.draw(low, high)
        # As the original does, without the calls in between.
        return low + int(random.Random.random(self) * (high - low + 1))

    def randrange(self, start, stop=None, step=1):
        if self.oracle is not None and step == 1:
            if stop is None:
                start, stop = 0, start
            return self.draw(start, stop - 1)
        return random.Random.randrange(self, start, stop, step)

    def getrandbits(self, k):
        if self.oracle is not None:
            return self.draw(0, (1 << k) - 1)
        return random.Random.getrandbits(self, k)

    def normalvariate(self, mu, sigma):
        # The jitter of reconnection delays: the mean will do.
        return mu


def really_sleep(seconds):
    try:
        from java.lang import Thread
    except ImportError:
        return real_sleep(seconds)
    Thread.sleep(int(seconds * 1000))


real_sleep = time.sleep
sleeper = really_sleep


class Sleep(object):
    """time.sleep: what C{sleeper} makes of it."""

    def __call__(self, seconds):
        return sleeper(seconds)


sleep = Sleep()


rng = ControlledRandom()
seed = 1


def reseed(value=None):
    rng.oracle = None
    random.Random.seed(rng, seed if value is None else value)


def install(seed_text):
    global seed
    try:
        seed = int(seed_text)
    except ValueError:
        seed = 1
    reseed()
    for name in ("random", "randint", "randrange", "getrandbits", "uniform",
                 "choice", "shuffle", "sample", "normalvariate", "gauss",
                 "expovariate", "seed"):
        setattr(random, name, getattr(rng, name))
    random._inst = rng
    time.time = clock
    time.sleep = sleep

    import fakereactor
    fakereactor.install()

    # Keep the plugin cache out of the repository.
    from twisted.python import filepath
    original = filepath.FilePath.setContent

    def setContent(self, content, *args, **kwargs):
        if self.basename() == "dropin.cache":
            return
        return original(self, content, *args, **kwargs)
    filepath.FilePath.setContent = setContent

    # Nothing on stderr for errors that are part of the exploration.
    from twisted.python import log
    try:
        from twisted.logger import globalLogBeginner
        globalLogBeginner.beginLoggingTo([], redirectStandardIO=False)
    except ImportError:
        pass
    for observer in list(log.theLogPublisher.observers):
        log.removeObserver(observer)

    # One step of every cooperative task per turn of the reactor: the finest
    # interleaving there is between a flush and everything else.
    from twisted.internet import task
    task._Timer.MAX_SLICE = -1

    # psutil is not installed: a stand-in that harnesses fill in.
    try:
        import psutil
    except ImportError:
        import types
        module = types.ModuleType("psutil")

        class Process(object):
            def __init__(self, pid=None):
                self.pid = pid
        module.Process = Process
        module.cpu_times = lambda percpu=False: None
        sys.modules["psutil"] = module


class Logged(object):
    """Collects the events that Twisted logs, errors apart."""

    def __init__(self):
        self.messages = []
        self.errors = []

    def __call__(self, event):
        if event.get("isError"):
            self.errors.append(event)
        else:
            self.messages.append(event)


def start_log():
    """Log to a fresh L{Logged} from now on, and to nowhere else."""
    from twisted.python import log
    for observer in list(log.theLogPublisher.observers):
        log.removeObserver(observer)
    logged = Logged()
    log.addObserver(logged)
    return logged
