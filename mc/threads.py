"""A scheduler that decides which thread runs at every line of the code.

The threads are real, but only one runs at a time: before each statement of
the instrumented modules (they are compiled again, from their present source),
and wherever a lock is taken, the running thread asks the execution who goes
on.  Locks are taken in the scheduler, so that a thread
that has to wait for one is simply not among those that can go on.
"""
import ast
import os
import sys
import thread
import threading

from java.util.concurrent import Semaphore

from core import Violation

scheduler = None


class Aborted(BaseException):
    """Unwinds the other threads of an execution that is over."""


class Task(object):

    def __init__(self, name, body):
        self.name = name
        self.body = body
        self.go = Semaphore(0)
        self.done = False
        self.blocked = None
        self.ident = None


class Scheduler(object):

    LIMIT = 20000

    def __init__(self, x):
        self.x = x
        self.tasks = []
        self.current = None
        self.finished = Semaphore(0)
        self.error = None
        self.points = 0
        self.switches = 0

    def add(self, name, body):
        self.tasks.append(Task(name, body))

    def enabled(self):
        return [t for t in self.tasks if not t.done and
                (t.blocked is None or t.blocked())]

    def run(self):
        """Run all the tasks to their end."""
        global scheduler
        scheduler = self
        try:
            for task in self.tasks:
                task.thread = threading.Thread(target=self.main, args=(task,))
                task.thread.setDaemon(True)
                task.thread.start()
            self.choose_next(None)
            self.finished.acquire()
            for task in self.tasks:
                task.thread.join()
        finally:
            scheduler = None
        if self.error is not None:
            kind, error, trace = self.error
            raise kind, error, trace

    def main(self, task):
        task.go.acquire()
        task.ident = thread.get_ident()
        try:
            try:
                if self.error is None:
                    task.body()
            except Aborted:
                pass
            except:
                if self.error is None:
                    self.error = sys.exc_info()
        finally:
            task.done = True
            try:
                self.choose_next(None)
            except:
                if self.error is None:
                    self.error = sys.exc_info()
                self.release_all()

    def release_all(self):
        """Let every thread unwind, one after the other."""
        for task in self.tasks:
            if not task.done:
                self.current = task
                task.go.release()
                return
        self.finished.release()

    def choose_next(self, task):
        """Decide who goes on; wait, if that is not this task."""
        if self.error is not None:
            if task is not None:
                raise Aborted()
            self.release_all()
            return
        enabled = self.enabled()
        if not enabled:
            if [t for t in self.tasks if not t.done]:
                raise Violation("deadlock: %s" % ", ".join(
                    t.name for t in self.tasks if not t.done))
            self.finished.release()
            return
        self.points += 1
        if self.points > self.LIMIT:
            raise Violation("no end after %d lines" % self.LIMIT)
        if task in enabled:
            # To go on is free, to be interrupted is not.
            enabled.remove(task)
            enabled.insert(0, task)
            costs = [0] + [1] * (len(enabled) - 1)
        else:
            costs = None
        if len(enabled) > 1:
            chosen = enabled[self.x.choose(len(enabled), costs)]
        else:
            chosen = enabled[0]
        self.x.op()
        self.current = chosen
        if chosen is task:
            return
        self.switches += 1
        chosen.go.release()
        if task is not None:
            task.go.acquire()
            if self.error is not None:
                raise Aborted()

    def pause(self, where=None):
        task = self.current
        if task is None or task.ident != thread.get_ident():
            return
        if where is not None and self.x.explorer.keep_steps:
            self.x.op("%s at %s" % (task.name, where))
        self.choose_next(task)

    def wait(self, condition):
        """Wait until the condition holds."""
        task = self.current
        if task is None or task.ident != thread.get_ident():
            if not condition():
                raise Violation("a lock is never given back")
            return
        task.blocked = condition
        try:
            self.choose_next(task)
        finally:
            task.blocked = None


class Lock(object):
    """Stands in for threading.Lock and RLock."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=1, *timeout):
        me = thread.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        if scheduler is not None:
            scheduler.pause()
        if self.owner is not None:
            if not blocking:
                return False
            if scheduler is None:
                raise Violation("deadlock: a lock is never given back")
            scheduler.wait(lambda: self.owner is None)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None or (
                self.reentrant and self.owner != thread.get_ident()):
            raise RuntimeError("release of a lock that is not held")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self.owner == thread.get_ident()


class Condition(object):
    """Stands in for threading.Condition."""

    def __init__(self, lock=None):
        self.lock = lock or Lock(True)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *args):
        return self.lock.__exit__(*args)

    def wait(self, timeout=None):
        token = []
        self.waiters.append(token)
        depth, self.lock.depth = self.lock.depth, 1
        self.lock.release()
        if scheduler is None:
            raise Violation("deadlock: nobody will notify this thread")
        scheduler.wait(lambda: bool(token) or timeout is not None)
        self.lock.acquire()
        self.lock.depth = depth
        return bool(token)

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token.append(1)
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class FakeThreading(object):
    """The threading module as the code under test sees it."""

    def __init__(self):
        for name in dir(threading):
            if not name.startswith("__"):
                setattr(self, name, getattr(threading, name))
        self.Lock = lambda: Lock()
        self.RLock = lambda *args: Lock(True)
        self.Condition = Condition


class Instrumenter(ast.NodeTransformer):
    """Puts a call of __point__ before each statement of each function."""

    depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        if self.depth and not isinstance(node, ast.ClassDef):
            for field in ("body", "orelse", "finalbody"):
                block = getattr(node, field, None)
                if isinstance(block, list):
                    setattr(node, field, self.instrumented(block))
        return node

    def instrumented(self, block):
        result = []
        for statement in block:
            point = ast.parse("__point__(%d)" % statement.lineno).body[0]
            for node in ast.walk(point):
                if hasattr(node, "lineno"):
                    node.lineno = statement.lineno
            result += [point, statement]
        return result


def instrument(module):
    """Have the module run under the scheduler, once there is one."""
    if hasattr(module, "__point__"):
        return
    path = os.path.join(os.environ["VERIF_REPO"],
                        *module.__name__.split(".")) + ".py"
    name = os.path.basename(path)

    def point(line):
        if scheduler is not None:
            scheduler.pause("%s:%d" % (name, line))
    module.__point__ = point
    with open(path) as f:
        tree = Instrumenter().visit(ast.parse(f.read(), path))
    exec compile(tree, path, "exec") in vars(module)
    fake = FakeThreading()
    for name, value in list(vars(module).items()):
        if value is threading:
            setattr(module, name, fake)
        for kind in ("Lock", "RLock", "Condition"):
            if value is getattr(threading, kind):
                setattr(module, name, getattr(fake, kind))
