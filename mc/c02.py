"""C02: threads sharing a Scheduler, every interleaving within a preemption bound."""
import os
from . import threads
from .threads import Bad, execute, alternatives, explore
from .core import Part, Violation, rearm
from .schedlib import load_scheduler

ASSUMPTIONS = [
    "threads switch at source lines of scheduler.py and heap.py and at lock, event, condition, clock and sleep operations (the GIL makes smaller steps atomic enough)",
    "threading and time are replaced by models with CPython's documented semantics; virtual time advances only when every thread waits",
]

MODULE, FILES = load_scheduler()


def held(lock):
    """Does the running thread hold this modelled lock?  (True if we cannot tell.)"""
    lock = getattr(lock, "lock", lock)
    return lock.mine() if isinstance(lock, threads.Lock) else True


class CheckedRegulator(MODULE.Regulator):
    """
    The abstract contract, checking the lock discipline.  'sleep' hands out a
    sleep bound to the wake-ups from now on, as the scheduler fetches it under the lock.
    """
    def __init__(self):
        self.lock = threads.Lock()
        self.tokens = []

    def now(self):
        if not self.lock.mine():
            raise Bad("the clock was read without holding the lock")
        return threads.FakeTime.monotonic()

    def wake(self):
        if not self.lock.mine():
            raise Bad("wake was called without holding the lock")
        for t in self.tokens:
            t[0] = True
        self.tokens.clear()

    @property
    def sleep(self):
        token = [False]
        self.tokens.append(token)

        def sleep(interval):
            if self.lock.mine():
                raise Bad("sleeping while holding the lock")
            if not interval > 0:
                raise Bad(f"sleep({interval!r})")
            r = threads.run_()
            r.point()
            r.block(lambda: token[0], interval)
        return sleep


class CheckedThreadSafe(MODULE.ThreadSafeRegulator):
    """The real thread-safe regulator, with the discipline checked from outside."""
    def now(self):
        if not held(self.lock):
            raise Bad("the clock was read without holding the lock")
        return super().now()

    def wake(self):
        if not held(self.lock):
            raise Bad("wake was called without holding the lock")
        return super().wake()


REGULATORS = {"contract": CheckedRegulator, "ThreadSafeRegulator": CheckedThreadSafe}

# A scenario: initial events {name: due}, then one program per thread:
#   consume            iterate to the end
#   take n             take n events (or until the end)
#   poll               iterate non-blocking to the end
#   at t               wait until time t
#   add name rel [prio] schedule
#   cancel name        cancel (ValueError if it is gone)
#   empty?             look at truth and queue
SCENARIOS = {
    "earlier event": ({"z": 10}, ["consume"], ["add a 2"]),
    "earlier event, later": ({"z": 10}, ["consume"], ["at 3", "add a 2"]),
    "two earlier events": ({"z": 10}, ["consume"], ["add a 4", "add b 2"]),
    "due now": ({"z": 10}, ["consume"], ["add a 0"]),
    "cancel last": ({"z": 10}, ["consume"], ["cancel z"]),
    "cancel last, later": ({"z": 10}, ["consume"], ["at 4", "cancel z"]),
    "cancel first of two": ({"a": 3, "z": 10}, ["consume"], ["cancel a"]),
    "cancel when due": ({"a": 3}, ["consume"], ["at 3", "cancel a"]),
    "cancel due now": ({"a": 0, "b": 5}, ["consume"], ["cancel a"]),
    "two consumers": ({"a": 0, "b": 1}, ["consume"], ["consume"]),
    "two consumers, same due": ({"a": 1, "b": 1}, ["consume"], ["consume"]),
    "two consumers and a producer": ({"z": 6}, ["consume"], ["consume"], ["add a 2"]),
    "two consumers and a canceller": ({"z": 6}, ["consume"], ["consume"], ["cancel z"]),
    "two producers": ({"z": 9}, ["consume"], ["add a 2"], ["add b 1"]),
    "two producers, same due": ({"z": 9}, ["consume"], ["add a 2"], ["add b 2 50"]),
    "producers only": ({}, ["add a 2", "add b 1"], ["add c 1", "add d 0"]),
    "producer and canceller": ({"z": 9}, ["consume"], ["add a 2"], ["cancel z"]),
    "cancel own": ({"z": 9}, ["consume"], ["add a 2", "cancel a"]),
    "two cancellers": ({"z": 9}, ["cancel z"], ["cancel z"], ["consume"]),
    "polling": ({"a": 0, "z": 4}, ["poll"], ["add b 0"], ["cancel z"]),
    "looking": ({"a": 0, "z": 4}, ["empty?"], ["add b 0"], ["take 1"]),
    "take two": ({"z": 4}, ["take 2"], ["add a 1", "at 2", "add b 0"]),
    "replace": ({"z": 9}, ["consume"], ["add a 3", "cancel z"]),
}


def make_setup(regulator, scenario):
    initial, *programs = SCENARIOS[scenario]

    def setup(run):
        reg = REGULATORS[regulator]()
        s = MODULE.Scheduler(reg)
        handles, due, added_at, cancelled_at = {}, {}, {}, {}
        prio, seq = {}, {}
        delivered = []          # (name, time, task)
        ended = {}              # task -> time of StopIteration
        consuming = {}          # task -> since
        order = [0]
        spans = {}              # name -> (start, end) of the schedule call, in step counts

        def add(name, rel, p=None):
            kw = {} if p is None else {"priority": p}
            order[0] += 1
            start = run.steps
            added_at[name] = run.now
            due[name] = run.now + rel
            prio[name] = 100 if p is None else p
            handles[name] = s.schedule(name, rel, **kw)
            spans[name] = (start, run.steps)

        for name, rel in initial.items():
            add(name, rel)

        def body(index, program):
            tag = f"thread {index + 1}"

            def receive(name):
                delivered.append((name, run.now, tag))

            def go():
                for line in program:
                    op, *args = line.split()
                    if op == "consume":
                        for e in s:
                            receive(e)
                        ended[tag] = run.now
                    elif op == "take":
                        for _ in range(int(args[0])):
                            try:
                                receive(next(s))
                            except StopIteration:
                                break
                    elif op == "poll":
                        t0 = run.now
                        for e in s.non_blocking():
                            receive(e)
                        if run.now != t0:
                            raise Bad("a non-blocking iteration waited")
                    elif op == "at":
                        run.point()
                        if run.now < int(args[0]):
                            run.block(lambda: False, int(args[0]) - run.now)
                    elif op == "add":
                        add(args[0], int(args[1]), *(int(a) for a in args[2:]))
                    elif op == "cancel":
                        try:
                            s.cancel(handles[args[0]])
                            if args[0] in cancelled_at:
                                raise Bad(f"{args[0]} was cancelled twice")
                            cancelled_at[args[0]] = run.now
                        except ValueError:
                            cancelled_at.setdefault(("refused", args[0]), run.now)
                    elif op == "empty?":
                        bool(s)
                        names = [e.event for e in s.queue]
                        if len(set(names)) != len(names):
                            raise Bad(f"queue lists an event twice: {names}")
                        key = [(due[n], prio[n]) for n in names]
                        if key != sorted(key):
                            raise Bad(f"queue is out of order: {names}")
            return go

        for i, program in enumerate(programs):
            run.spawn(f"thread {i + 1} {program}", body(i, program))

        def finish():
            where = f"delivered {delivered}, cancelled {cancelled_at}, ended {ended}"
            names = [d[0] for d in delivered]
            rest = [e.event for e in s.queue]
            if len(set(names)) != len(names):
                return f"an event was delivered twice: {where}"
            for n in cancelled_at:
                if isinstance(n, tuple):
                    if n[1] not in names and n[1] not in cancelled_at:
                        return f"cancelling pending {n[1]} was refused: {where}"
                elif n in names:
                    return f"cancelled event {n} was delivered: {where}"
                elif n in rest:
                    return f"cancelled event {n} is still pending: {where}"
            for n in due:
                if (n in names) + (n in rest) + (n in cancelled_at) != 1:
                    return f"event {n} is lost (delivered, pending or cancelled exactly once expected): pending {rest}, {where}"
            key = [(due[n], prio[n]) for n in rest]
            if key != sorted(key):
                return f"pending events out of order: {rest}"
            if bool(s) != bool(rest):
                return f"truth {bool(s)} with pending {rest}"
            for n, t, tag in delivered:
                if t < due[n]:
                    return f"event {n}, due at {due[n]}, was delivered early at {t}: {where}"
            # promptness: somebody iterates to the end, so everything pending is served when due
            consumers = [f"thread {i + 1}" for i, p in enumerate(programs) if p == ["consume"]]
            if len(consumers) == len(ended) and consumers:
                for n, t, tag in delivered:
                    if t > max(due[n], added_at[n]):
                        return f"event {n}, due at {due[n]}, was delivered late at {t}: {where}"
                # the last consumer leaves when the queue runs dry
                last = max(ended.values())
                busy = max([t for _, t, _ in delivered] + [t for n, t in cancelled_at.items() if not isinstance(n, tuple)] + [0])
                if last > busy:
                    return f"iteration went on until {last} although the queue ran dry at {busy}: {where}"
            takers = [p for p in programs if p != ["consume"] and any(l.split()[0] in ("take", "poll") for l in p)]
            if len(consumers) == 1 and not takers:
                # one consumer: order by time, then priority among those pending together, then call order
                for (a, ta, _), (b, tb, _) in zip(delivered, delivered[1:]):
                    if due[a] > due[b] and added_at[b] < ta:
                        return f"{a} before {b}: {where}"
                    if due[a] == due[b] and ta > max(added_at[a], added_at[b]) and prio[a] > prio[b]:
                        return f"{a} before {b} against priority: {where}"
                    if due[a] == due[b] and prio[a] == prio[b] and spans[b][1] < spans[a][0]:
                        return f"{a} before {b} against order of scheduling: {where}"
            # drain
            if rest:
                final = []
                def drain():
                    for e in s:
                        final.append((e, run.now))
                run2 = threads.Run([], FILES)
                run2.now = run.now
                saved, threads.CURRENT[0] = threads.CURRENT[0], run2
                try:
                    run2.spawn("drain", drain)
                    run2.start()
                finally:
                    threads.CURRENT[0] = saved
                if run2.problem:
                    return f"draining afterwards: {run2.problem}"
                if [e for e, _ in final] != rest:
                    return f"draining afterwards gave {final}, expected {rest}"
            return None
        return finish
    return setup


def base_cases(tier):
    for reg in REGULATORS:
        for name in SCENARIOS:
            yield (reg, name, None)
    for reg in REGULATORS:
        for name in SCENARIOS:
            run = execute(make_setup(reg, name), [], FILES)
            if run.problem:
                yield (reg, name, None)
                return
            bound = bound_for(tier, name)
            for pos, c, cost in alternatives(run, 0, bound, 0):
                yield (reg, name, (tuple(d[1] for d in run.decisions[:pos]) + (c,), cost, bound))


def bound_for(tier, scenario):
    threads_ = len(SCENARIOS[scenario]) - 1
    if tier == "quick":
        return 2
    return 3 if threads_ == 2 else 2


def check(case, st):
    reg, name, prefix = case
    setup = make_setup(reg, name)

    def on_run(run, choices):
        rearm()
        st.states += 1
        st.traces += 1
        st.transitions += run.steps
        if run.problem:
            compact = []
            for d in run.decisions:
                if compact and compact[-1][0] == d[1]:
                    compact[-1][1] += 1
                else:
                    compact.append([d[1], 1])
            raise Violation(f"{reg}, scenario {name!r} {SCENARIOS[name]}: {run.problem}\n"
                            f"schedule (thread index, decisions): {compact}")
    if prefix is None:
        on_run(execute(setup, [], FILES), [])
    else:
        explore(setup, list(prefix[0]), prefix[1], prefix[2], FILES, on_run)


def pin(k):
    # the threads of one worker take turns: on one CPU that is faster
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[k % len(cpus)]})


PARTS = [
    Part("interleavings", base_cases, check, auto=False, setup=pin,
         bound="23 scenarios of up to 3 threads x 2 regulators, every schedule with up to 2 preemptions (thorough: 3 for two threads) at line granularity; a state is one complete schedule, a transition one step of it"),
]
