"""A private copy of big.scheduler whose threading and time are the modelled ones."""
import importlib
import importlib.util
import os
import sys
from . import core, threads


class SimpleTime:
    """A virtual clock for a single thread; every wait lasts its full time."""
    def __init__(self):
        self.t = 0
        self.slept = []

    def monotonic(self):
        return self.t

    perf_counter = time = monotonic

    def sleep(self, interval):
        self.slept.append(interval)
        if len(self.slept) > 100:
            core.fail("sleeps forever")
        self.t += max(interval, 0)


class SimpleThreading:
    """threading for one thread: waiting for anything lasts until the time-out."""
    def __init__(self, clock):
        import threading as real

        class Event:
            def __init__(self):
                self.flag = False
            def is_set(self):
                return self.flag
            def set(self):
                self.flag = True
            def clear(self):
                self.flag = False
            def wait(self, timeout=None):
                if self.flag:
                    return True
                if timeout is None:
                    core.fail("waits forever")
                clock.sleep(timeout)
                return False

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock or real.RLock()
                self.acquire, self.release = self.lock.acquire, self.lock.release
            def __enter__(self):
                return self.lock.__enter__()
            def __exit__(self, *a):
                return self.lock.__exit__(*a)
            def wait(self, timeout=None):
                if timeout is None:
                    core.fail("waits forever")
                clock.sleep(timeout)
                return False
            def wait_for(self, predicate, timeout=None):
                r = predicate()
                if not r:
                    self.wait(timeout)
                    r = predicate()
                return r
            def notify(self, n=1):
                pass
            notify_all = notify

        self.Event = Event
        self.Condition = Condition
        self.Lock = real.Lock
        self.RLock = real.RLock
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)


def load_simple():
    """A copy of big.scheduler on a virtual clock: (module, clock)."""
    clock = SimpleTime()
    return load_scheduler(SimpleThreading(clock), clock, "big._mc_simple_scheduler")[0], clock


def load_scheduler(threading=None, time=None, name="big._mc_scheduler"):
    core.setup_imports()
    import big.heap, big.scheduler    # noqa: make sure the package is loaded the ordinary way
    path = big.scheduler.__file__
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    saved = {n: sys.modules[n] for n in ("threading", "time")}
    sys.modules["threading"] = threading or threads.FakeThreading()
    sys.modules["time"] = time or threads.FakeTime()
    try:
        sys.modules[name] = module
        spec.loader.exec_module(module)
    finally:
        sys.modules.update(saved)
    files = {path}
    return module, files
