"""
A controlled scheduler for real threads: exactly one runs at a time, and it can
be switched at every modelled primitive (lock, condition, event, clock, sleep)
and at every executed source line of the traced files.  Time is virtual: it
advances only when no thread can run.

Explorer.explore() enumerates every schedule with at most `bound` preemptions
(switching away from a thread that could go on), plus every choice of successor
whenever the running thread blocks or ends.
"""
import sys
import threading as real_threading
import time as real_time
import _thread

MAX_STEPS = 20000


class Killed(BaseException):
    pass


class Bad(Exception):
    """A property violation observed inside a run."""


class Task:
    __slots__ = ("run", "name", "id", "gate", "state", "waiting", "deadline", "error", "gone")

    def __init__(self, run, name, id, body):
        self.run = run
        self.name = name
        self.id = id
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = "ready"        # ready, blocked, done
        self.waiting = None         # callable: may I go on now?
        self.deadline = None
        self.error = None
        self.gone = _thread.allocate_lock()
        self.gone.acquire()
        _thread.start_new_thread(self.main, (body,))

    def main(self, body):
        self.gate.acquire()
        run = self.run
        run.by_ident[_thread.get_ident()] = self
        try:
            if not run.killed:
                sys.settrace(run.trace)
                body()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.state = "done"
            try:
                run.finished(self)
            finally:
                self.gone.release()


class Run:
    """One execution under a given sequence of choices."""

    def __init__(self, choices, files):
        self.choices = choices      # list of task ids, one per decision with alternatives
        self.position = 0
        self.decisions = []         # (enabled ids, chosen id, id of the running one if it could go on)
        self.tasks = []
        self.by_ident = {}
        self.now = 0
        self.current = None
        self.steps = 0
        self.killed = False
        self.problem = None
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.files = files

    # -- tracing --
    def trace(self, frame, event, arg):
        if event != "call" or frame.f_code.co_filename not in self.files:
            return None
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local_trace

    # -- tasks --
    def spawn(self, name, body):
        t = Task(self, name, len(self.tasks), body)
        self.tasks.append(t)
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def start(self):
        self.switch_from(None)
        self.over.acquire()
        # all tasks are done, or the run has a problem: let the rest die
        self.killed = True
        for t in self.tasks:
            try:
                t.gate.release()
            except RuntimeError:
                pass
            t.gone.acquire()

    def runnable(self, t):
        if t.state == "ready":
            return True
        if t.state == "blocked":
            if t.waiting is not None and t.waiting():
                return True
            return t.deadline is not None and t.deadline <= self.now
        return False

    def choose(self, running):
        """Pick the next task; None if nothing can run."""
        while True:
            enabled = [t for t in self.tasks if self.runnable(t)]
            if enabled:
                break
            deadlines = [t.deadline for t in self.tasks if t.state == "blocked" and t.deadline is not None]
            if not deadlines:
                return None
            self.now = min(deadlines)
        default = running if running in enabled else enabled[0]
        if len(enabled) == 1:
            return default
        if self.position < len(self.choices):
            want = self.choices[self.position]
            chosen = next((t for t in enabled if t.id == want), None)
            if chosen is None:
                raise Bad(f"internal: nondeterministic replay at decision {self.position}")
        else:
            chosen = default
        self.position += 1
        self.decisions.append(([t.id for t in enabled], chosen.id, running.id if running in enabled else None))
        return chosen

    def switch_from(self, task):
        """Called by the running task (or the starter): let someone go on."""
        self.steps += 1
        try:
            if self.steps > MAX_STEPS:
                raise Bad(f"no end after {MAX_STEPS} steps (livelock)")
            nxt = self.choose(task)
        except Bad as e:
            self.stop(str(e))
            nxt = None
            if task is not None and task.state != "done":
                raise Killed()
            return
        if nxt is None:
            if all(t.state == "done" for t in self.tasks):
                self.over.release()
                return
            blocked = ", ".join(f"{t.name}" for t in self.tasks if t.state != "done")
            self.stop(f"deadlock: {blocked} wait(s) forever at time {self.now}")
            if task is not None and task.state != "done":
                raise Killed()
            return
        if nxt is task:
            return
        self.current = nxt
        nxt.gate.release()
        if task is not None and task.state != "done":
            task.gate.acquire()
            if self.killed:
                raise Killed()

    def stop(self, message):
        if self.problem is None:
            self.problem = message
        if not self.killed:
            self.killed = True
            self.over.release()

    def finished(self, task):
        if self.killed:
            return
        if task.error is not None:
            self.stop(f"{task.name} raised {type(task.error).__name__}: {task.error}")
            return
        self.switch_from(task)

    def point(self):
        t = self.me()
        if t is None or self.killed:
            if t is not None:
                raise Killed()
            return
        self.switch_from(t)

    def block(self, waiting, timeout=None):
        """Block the running task until waiting() or the timeout; True if not timed out."""
        t = self.me()
        t.waiting = waiting
        t.deadline = None if timeout is None else self.now + max(timeout, 0)
        t.state = "blocked"
        self.switch_from(t)
        ok = waiting()
        t.state = "ready"
        t.waiting = t.deadline = None
        return ok


CURRENT = [None]


def run_():
    return CURRENT[0]


class Lock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        r = run_()
        me = r and r.me()
        if me is None:
            if self.owner is not None:
                raise Bad("lock is held at a point where no thread should hold it")
            self.owner, self.count = "main", 1
            return True
        r.point()
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if not r.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        r = run_()
        if r and r.me() is not None and not r.killed:
            r.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def mine(self):
        r = run_()
        me = r and r.me()
        return self.owner is (me if me is not None else "main") or (me is None and self.owner == "main")


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        r = run_()
        if not self.lock.mine():
            raise RuntimeError("cannot wait on un-acquired lock")
        token = [False]
        self.waiters.append(token)
        count = self.lock.count
        self.lock.owner, self.lock.count = None, 0
        ok = r.block(lambda: token[0], timeout)
        if not token[0]:
            self.waiters.remove(token)
        while self.lock.owner is not None:
            r.block(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.count = r.me(), count
        return ok

    def wait_for(self, predicate, timeout=None):
        r = run_()
        end = None if timeout is None else r.now + timeout
        result = predicate()
        while not result:
            left = None
            if end is not None:
                left = end - r.now
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        if not self.lock.mine():
            raise RuntimeError("cannot notify on un-acquired lock")
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class Event:
    """threading.Event: set() releases everyone already waiting, even if clear() follows."""

    def __init__(self):
        self.flag = False
        self.waiters = []

    def is_set(self):
        return self.flag

    def set(self):
        r = run_()
        if r and r.me() is not None:
            r.point()
        self.flag = True
        for token in self.waiters:
            token[0] = True
        self.waiters.clear()

    def clear(self):
        r = run_()
        if r and r.me() is not None:
            r.point()
        self.flag = False

    def wait(self, timeout=None):
        r = run_()
        r.point()
        if self.flag:
            return True
        token = [False]
        self.waiters.append(token)
        r.block(lambda: token[0], timeout)
        if not token[0]:
            self.waiters.remove(token)
        return token[0]


class FakeThreading:
    """Stands in for the threading module while big.scheduler is imported."""
    Lock = Lock
    RLock = RLock
    Condition = Condition
    Event = Event

    def __getattr__(self, name):
        return getattr(real_threading, name)


class FakeTime:
    @staticmethod
    def monotonic():
        r = run_()
        if r and r.me() is not None:
            r.point()
        return r.now if r else 0

    perf_counter = time = monotonic

    @staticmethod
    def sleep(interval):
        r = run_()
        r.point()
        r.block(lambda: False, interval)

    def __getattr__(self, name):
        return getattr(real_time, name)


def execute(setup, choices, files):
    """Run one schedule.  setup(run) spawns the tasks and returns a finish() function."""
    run = Run(choices, files)
    CURRENT[0] = run
    try:
        finish = setup(run)
        run.start()
        if run.problem is None:
            problem = finish()
            if problem:
                run.problem = problem
    finally:
        CURRENT[0] = None
    return run


def alternatives(run, start, bound, used):
    """
    Every one-choice deviation from this run at a decision >= start (from there on
    it only made default, free choices) that keeps within the preemption bound.
    """
    for pos in range(start, len(run.decisions)):
        enabled, chosen, running = run.decisions[pos]
        for c in enabled:
            if c != chosen:
                cost = used + (1 if running is not None and c != running else 0)
                if cost <= bound:
                    yield pos, c, cost


def explore(setup, prefix, used, bound, files, on_run):
    """All schedules that extend `prefix` (which has used `used` preemptions)."""
    stack = [(prefix, used)]
    while stack:
        prefix, used = stack.pop()
        run = execute(setup, prefix, files)
        on_run(run, prefix)
        for pos, c, cost in alternatives(run, len(prefix), bound, used):
            stack.append(([d[1] for d in run.decisions[:pos]] + [c], cost))
