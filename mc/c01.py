"""C01: Scheduler against a sorted list of (time, priority, sequence), with a virtual clock."""
import itertools
from fractions import Fraction
from .core import Part, fail, expect, outcome
from .schedlib import load_simple
from big.scheduler import Scheduler, Regulator

ASSUMPTIONS = ["single thread; the clock is a virtual one handed in through the public Regulator interface"]


class Boom(BaseException):
    "what the regulator raises when it's told to, like a KeyboardInterrupt in the middle of a sleep"


class Clock(Regulator):
    """A regulator with a virtual clock, recording every sleep."""
    def __init__(self, unit=1):
        self.t = unit * 0
        self.unit = unit
        self.locked = False
        self.early = False
        self.slept = []
        self.lock = self
        self.fault = None

    def fail_if(self, name):
        if self.fault == name:
            self.fault = None
            raise Boom

    def __enter__(self):
        self.fail_if("lock")
        if self.locked:
            fail("the regulator's lock was taken recursively")
        self.locked = True

    def __exit__(self, *a):
        self.locked = False

    def now(self):
        if not self.locked:
            fail("the clock was read without the lock")
        self.fail_if("now")
        return self.t

    def wake(self):
        if not self.locked:
            fail("wake was called without the lock")
        self.fail_if("wake")

    def sleep(self, interval):
        if self.locked:
            fail("slept while holding the lock")
        self.slept.append(interval)
        if len(self.slept) > 50:
            fail("sleeps forever")
        self.fail_if("sleep")
        self.t += self.unit * Fraction(1, 2) if self.early and interval > self.unit / 2 else interval


class Payload:
    """Event values that cannot be compared or hashed, and equal everything."""
    __hash__ = None
    def __init__(self, n):
        self.n = n
    def __eq__(self, other):
        return True
    def __repr__(self):
        return f"e{self.n}"


SCHEDULE = [("s", 0, None), ("s", 1, None), ("s", 2, None), ("s", 1, 50), ("s", 2, 150), ("s", -1, None),
            ("a", 1, None), ("a", 2, 50), ("a", 0, 150)]
OPS = SCHEDULE + [("c", 0), ("c", 1), ("c", 2), ("e", 0), ("n",), ("w",), ("p",), ("P",), ("t",)]


class World:
    def __init__(self, unit=1):
        self.clock = Clock(unit)
        self.unit = unit
        self.s = Scheduler(self.clock)
        self.it = iter(self.s)
        self.pending = []       # [time, priority, sequence, payload, handle], sorted
        self.handles = []       # (handle, payload)
        self.n = 0

    def due(self):
        return bool(self.pending) and self.pending[0][0] <= self.clock.t

    def apply(self, op):
        s, c = self.s, self.clock
        c.slept = []
        name = op[0]
        if name in ("s", "a"):
            self.n += 1
            p = Payload(self.n)
            kw = {} if op[2] is None else {"priority": op[2]}
            if name == "a":
                kw["absolute"] = True
            h = s.schedule(p, op[1] * self.unit, **kw)
            t = op[1] * self.unit + (c.t if name == "s" else 0)
            self.pending.append([t, 100 if op[2] is None else op[2], self.n, p, h])
            self.pending.sort(key=lambda e: e[:3])
            self.handles.append((h, p))
        elif name in ("c", "e"):
            # cancel the i-th handle ever given out (through the scheduler or through the handle)
            if op[1] >= len(self.handles):
                return False
            h, p = self.handles[op[1]]
            got = outcome(s.cancel, h) if name == "c" else outcome(h.cancel)
            match = [e for e in self.pending if e[4] is h]
            if match:
                expect(got, ('ret', None), "cancelling a pending event")
                self.pending = [e for e in self.pending if e[4] is not h]
            else:
                expect(got, ('exc', 'ValueError'), "cancelling an event that is not pending")
        elif name in ("n", "w"):
            # blocking next; 'w': the sleep wakes up early each time
            c.early = name == "w"
            got = outcome(next, self.it)
            c.early = False
            if not self.pending:
                expect(got, ('exc', 'StopIteration'), "next when nothing is pending")
                expect(c.slept, [], "sleeps")
                return
            e = self.pending.pop(0)
            if got[0] != 'ret' or got[1] is not e[3]:
                fail(f"next: got {got!r}, expected {e[3]!r}")
            want = []
            t = self.before
            while t < e[0]:
                want.append(e[0] - t)
                t += self.unit * Fraction(1, 2) if name == "w" and e[0] - t > self.unit / 2 else e[0] - t
            expect(c.slept, want, "sleeps")
            expect(c.t, max(self.before, e[0]), "time of delivery")
        elif name == "p":
            # one step of a fresh non-blocking iteration
            got = outcome(next, s.non_blocking())
            self.nonblocking(got)
        elif name == "P":
            it = iter(s.non_blocking())
            for _ in range(len(self.pending) + 1):
                if not self.nonblocking(outcome(next, it)):
                    break
        elif name == "t":
            c.t += self.unit

    def nonblocking(self, got):
        expect(self.clock.slept, [], "sleeps of a non-blocking iteration")
        if self.due():
            e = self.pending.pop(0)
            if got[0] != 'ret' or got[1] is not e[3]:
                fail(f"non-blocking: got {got!r}, expected {e[3]!r}")
            return True
        expect(got, ('exc', 'StopIteration'), "non-blocking iteration with nothing due")
        return False

    def observe(self):
        t = self.clock.t
        q = self.s.queue
        expect([id(e) for e in q], [id(e[4]) for e in self.pending], f"queue {q!r}")
        for e, m in zip(q, self.pending):
            if e.event is not m[3] or e.time != m[0] or e.priority != m[1]:
                fail(f"queued event {e!r} is not {m!r}")
        expect(bool(self.s), bool(self.pending), "truth")
        expect(self.clock.t, t, "time after looking")

    def step(self, op):
        self.before = self.clock.t
        return self.apply(op)


def history_cases(tier):
    depth = 5 if tier == "quick" else 6
    for d in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=d):
            if useful(seq):
                yield seq
    few = [("s", 0, None), ("s", 1, None), ("s", 1, 50), ("a", 1, None), ("c", 0), ("c", 1), ("n",), ("w",), ("P",), ("t",)]
    for seq in itertools.product(few, repeat=depth + 1):
        if useful(seq):
            yield seq


def useful(seq):
    handles = 0
    for op in seq:
        if op[0] in "sa": handles += 1
        elif op[0] in "ce" and op[1] >= handles: return False
    return True


def check_history(case, st):
    w = World()
    for op in case:
        w.step(op)
        w.observe()
    st.bump("operations executed", len(case))
    drain(w)


def drain(w):
    want = [e[3] for e in w.pending]
    while w.pending:
        w.step(("n",))
    w.step(("n",))


# ---- many ties: every assignment of times/priorities to n events, every subset cancelled ----

def tie_cases(tier):
    n = 5 if tier == "quick" else 6
    kinds = [(t, p) for t in (1, 2) for p in (None, 50)] if n > 5 else [(t, p) for t in (1, 2) for p in (None, 50, 150)][:5]
    for k in range(1, n + 1):
        for kindseq in itertools.product(range(len(kinds)), repeat=k):
            yield tuple(kinds[i] for i in kindseq)


def check_ties(case, st):
    k = len(case)
    for mask in range(2 ** k):
        w = World()
        for i, (t, p) in enumerate(case):
            w.step(("s", t, p))
        for i in range(k):
            if mask >> i & 1:
                w.step(("c", i))
        w.observe()
        drain(w)
        st.transitions += k


# ---- time types, iteration styles ----

UNITS = {"int": 1, "float": 0.5, "Fraction": Fraction(1, 3), "large": 10 ** 15}


def unit_cases(tier):
    ops = [("s", 0, None), ("s", 2, None), ("s", 1, 50), ("a", 3, None), ("c", 0), ("n",), ("P",), ("t",)]
    for u in UNITS:
        for seq in itertools.product(ops, repeat=4 if tier == "quick" else 5):
            if useful(seq):
                yield (u,) + seq


def check_unit(case, st):
    w = World(UNITS[case[0]])
    for op in case[1:]:
        w.step(op)
    w.observe()
    # whole-scheduler iteration with a for loop, then reuse
    want = [e[3] for e in w.pending]
    w.pending = []
    got = [e for e in w.s]
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        fail(f"for loop yielded {got!r}, expected {want!r}")
    w.observe()
    w.step(("s", 1, None)); w.step(("s", 0, None))
    w.observe()
    drain(w)


# ---- the supplied regulators ----

SIMPLE, TIME = load_simple()


class ClockView:
    """The World's view of the virtual time underneath the supplied regulators."""
    early = False
    @property
    def t(self):
        return TIME.t
    @t.setter
    def t(self, v):
        TIME.t = v
    @property
    def slept(self):
        return TIME.slept
    @slept.setter
    def slept(self, v):
        TIME.slept = v


def regulator_cases(tier):
    ops = [("s", 0, None), ("s", 2, None), ("s", 1, 50), ("a", 1, None), ("c", 0), ("n",), ("P",), ("t",)]
    for r in ("default", "single", "threadsafe"):
        for seq in itertools.product(ops, repeat=4 if tier == "quick" else 5):
            if useful(seq):
                yield (r,) + seq


def check_regulator(case, st):
    TIME.t = 5
    w = World()
    w.clock = ClockView()
    if case[0] == "default":
        w.s = SIMPLE.Scheduler()
    elif case[0] == "single":
        w.s = SIMPLE.Scheduler(SIMPLE.SingleThreadedRegulator())
    else:
        w.s = SIMPLE.Scheduler(SIMPLE.ThreadSafeRegulator())
    w.it = iter(w.s)
    other = SIMPLE.Scheduler()
    other.schedule("other", 1)
    for op in case[1:]:
        w.step(op)
        w.observe()
    drain(w)
    expect([e.event for e in other.queue], ["other"], "another scheduler's queue")


# ---- a regulator that fails ----

def fault_cases(tier):
    ops = [("s", 0, None), ("s", 2, None), ("s", 1, 50), ("a", 1, None), ("c", 0), ("e", 1), ("n",), ("w",), ("p",), ("t",)]
    faults = ["lock", "now", "wake", "sleep"]
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for seq in itertools.product(ops, repeat=k):
            if not useful(seq):
                continue
            for i in range(k):
                for f in faults:
                    yield (seq, ((i, f),))
            if k < n:
                for i in range(k):
                    for j in range(i + 1, k):
                        for f in faults:
                            for g in faults:
                                yield (seq, ((i, f), (j, g)))


def check_fault(case, st):
    "the regulator raises: that reaches the caller, the lock is free again, no event is lost or delivered twice"
    seq, faults = case
    faults = dict(faults)
    w = World()
    for i, op in enumerate(seq):
        w.clock.fault = faults.get(i)
        armed = w.clock.fault is not None
        known = {id(e[4]) for e in w.pending}
        try:
            if w.step(op) is False:
                return
            if armed and w.clock.fault is None:
                fail(f"{op} swallowed the exception that {faults[i]} raised")
        except Boom:
            w.clock.early = False
            if w.clock.locked:
                fail(f"{faults[i]} raised in {op}: the lock is still held")
            # what the interrupted call was to do is either done or not
            queue = w.s.queue
            if op[0] in "sa":
                for h in queue:
                    if id(h) not in known:
                        w.pending.append([op[1] + (w.clock.t if op[0] == "s" else 0), 100 if op[2] is None else op[2], w.n, h.event, h])
                        w.handles.append((h, h.event))
                        break
                else:
                    w.handles.append((None, None))
                w.pending.sort(key=lambda e: e[:3])
            elif op[0] in "ce":
                h = w.handles[op[1]][0]
                if not any(e is h for e in queue):
                    w.pending = [e for e in w.pending if e[4] is not h]
        w.clock.fault = None
        w.observe()
        st.transitions += 1
        if any(h is None for h, p in w.handles):
            # no handle to cancel
            if any(o[0] in "ce" and o[1] < len(w.handles) and w.handles[o[1]][0] is None for o in seq[i + 1:]):
                return
    drain(w)


def foreign_check(case, st):
    "cancelling what isn't a pending event of this scheduler"
    n, m, what = case
    s, other = Scheduler(Clock()), Scheduler(Clock())
    mine = [s.schedule(f"m{i}", 1) for i in range(n)]
    theirs = [other.schedule(f"m{i}", 1) for i in range(m)]
    bad = {"foreign": theirs[0] if theirs else None, "value": "m0", "none": None, "number": 1, "delivered": None}[what]
    if what == "delivered":
        bad = mine[0] if mine else None
        next(s, None)
        mine = mine[1:]
    got = outcome(s.cancel, bad)
    if got != ('exc', 'ValueError'):
        fail(f"cancelling {what}: got {got}, expected ValueError")
    expect([e for e in s.queue], mine, f"queue after cancelling {what}")
    expect([e for e in other.queue], theirs, f"other queue after cancelling {what}")


PARTS = [
    Part("histories", history_cases, check_history, bound="every history of up to 5 (thorough 6) of 18 operations, one longer for 10 of them"),
    Part("ties", tie_cases, check_ties, bound="up to 5 (6) events over every choice of 5 (4) time/priority pairs, every subset cancelled"),
    Part("time types", unit_cases, check_unit, bound="every history of 4 (5) of 8 operations for four time types"),
    Part("supplied regulators", regulator_cases, check_regulator, bound="every history of 4 (5) of 8 operations on the default, single-threaded and thread-safe regulators over a virtual time module"),
    Part("failing regulator", fault_cases, check_fault, bound="every history of up to 4 (5) of 10 operations, the lock, clock, wake or sleep raising at each operation; two failures in histories up to 3 (4)"),
    Part("foreign events", lambda tier: [(n, m, w) for n in range(4) for m in range(3) for w in ("foreign", "value", "none", "number", "delivered")], foreign_check, bound="events of another scheduler, delivered ones, other objects"),
]
