"""C31: all short histories of a log under a scripted clock, against a list of events."""
import builtins
import itertools
import time
from .core import Part, fail, expect, outcome
import big.log
from big.log import Log, default_clock

ASSUMPTIONS = ["the clock returns integers and never goes back", "times are truncated, not rounded, to the printed precision (a column narrower than the seconds widens)"]

S = 10 ** 9
STEPS = [0, 1, 12_000_000, S - 1, S, S + 1, 61 * S + 7, 12_345_678_901_234]
OPS = ["log", "enter", "exit", "reset"]


class Clock:
    def __init__(self, start):
        self.t = start
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return self.t


class Model:
    def __init__(self, t):
        self.reset(t)

    def reset(self, t):
        self.zero = t
        self.events = [(0, "log start", 0)]
        self.stack = []

    def log(self, t, event):
        self.events.append((t - self.zero, event, len(self.stack)))

    def rows(self):
        out = []
        for i, (t, e, d) in enumerate(self.events):
            nxt = self.events[i + 1][0] if i + 1 < len(self.events) else t
            out.append((t, nxt - t, e, d))
        return out


def compare(log, model, what):
    got = list(log)
    want = model.rows()
    if got != want:
        fail(f"iterating the log after {what}: got {got}, expected {want}")
    for g in got:
        if type(g) is not tuple or type(g[0]) is not int or type(g[1]) is not int or type(g[3]) is not int:
            fail(f"iterating the log after {what}: {g!r} isn't a tuple of integers and the event")


def run(start, word, look_each):
    "returns log, model"
    clock = Clock(start)
    log = Log(clock=clock)
    model = Model(start)
    n = 0
    for op, step in word:
        clock.t += step
        n += 1
        if op == "log":
            log(f"event {n}" * (n % 3))
            model.log(clock.t, f"event {n}" * (n % 3))
        elif op == "enter":
            log.enter(f"sub{n}")
            model.log(clock.t, f"sub{n} start")
            model.stack.append(f"sub{n}")
        elif op == "exit":
            if model.stack:
                log.exit()
                name = model.stack.pop()
                model.log(clock.t, f"{name} end")
            else:
                got = outcome(log.exit)
                if got[0] != 'exc':
                    fail(f"exit without enter: got {got} after {word[:n]}")
        else:
            log.reset()
            model.reset(clock.t)
        if look_each:
            compare(log, model, word[:n])
    return log, model


SPACE = {"quick": [(4, STEPS[:6]), (5, [0, S + 1]), (7, [3])], "thorough": [(4, STEPS), (5, STEPS[:4]), (6, [0, S + 1]), (9, [3])]}


def history_cases(tier):
    for n, steps in SPACE[tier]:
        sym = [(o, s) for o in OPS for s in steps]
        for k in range(n + 1):
            for w in itertools.product(sym, repeat=k):
                yield list(w)


def history_check(word, st):
    for start in (0, 987_654_321_012_345):
        log, model = run(start, word, True)
        st.transitions += len(word)


def iterate_cases(tier):
    n = 5 if tier == "quick" else 6
    for k in range(n + 1):
        for w in itertools.product(OPS, repeat=k):
            for op2 in OPS:
                for j in range(1, k + 2):
                    yield (list(w), op2, j)


def iterate_check(case, st):
    "an iteration reports what was there when it began, whatever is logged in the middle; a second one sees everything"
    ops, op2, j = case
    log, model = run(5, [(o, 7 * i) for i, o in enumerate(ops)], False)
    want = model.rows()
    it = iter(log)
    got = []
    for i in range(min(j, len(want))):
        got.append(next(it))
    if op2 == "log":
        log("late")
    elif op2 == "enter":
        log.enter("late")
    elif op2 == "reset":
        log.reset()
    elif model.stack:
        log.exit()
    got += list(it)
    if got != want:
        fail(f"iterating the log of {ops} while doing {op2} after {j} items: got {got}, expected {want}")
    got = list(log)
    if op2 == "reset":
        expect(got, [(0, 0, "log start", 0)], f"log of {ops} after reset")
    elif op2 != "exit" and len(got) != len(want) + 1:
        fail(f"log of {ops}: {op2} while iterating isn't in the log")


# ---------------------------------------------------------------- printing

GRID = [(i, sw, fw, t, h) for i in (0, 1, 2, 5) for sw in (1, 2, 4) for fw in (1, 3, 6, 8, 9, 10, 12) for t in (None, "[event log]", "T") for h in (True, False)]


def digits(t, sw, fw):
    "t nanoseconds in seconds, truncated to fw digits"
    sec = str(t // S)
    frac = ""
    rest = t % S
    for k in range(fw):
        rest *= 10
        frac += str(rest // S)
        rest %= S
    return "0" * (sw - len(sec)) + sec + "." + frac


def print_check(case, st):
    word, grid = case
    log, model = run(11, word, False)
    for indent, sw, fw, title, headings in grid:
        out = []
        kw = dict(indent=indent, seconds_width=sw, fractional_width=fw, title=title, headings=headings)
        log.print(print=out.append, **kw)
        what = f"log.print({kw}) of {word}"
        check_printed(out, model, indent, sw, fw, title, headings, what)
        st.transitions += 1
    out = []
    log.print(print=out.append)
    check_printed(out, model, 2, 2, 9, "[event log]", True, f"log.print() of {word}")
    compare(log, model, f"printing {word}")


def check_printed(out, model, indent, sw, fw, title, headings, what):
    rows = model.rows()
    lead = 0
    if title:
        if not out or out[0] != title:
            fail(f"{what}: doesn't begin with the title: {out[:1]}")
        lead += 1
    if headings:
        h = out[lead:lead + 2]
        width = sw + 1 + fw
        if len(h) != 2 or h[0].split() != ["start", "elapsed", "event"] or set(h[1].strip()) != set("- ") or [len(x) for x in h[1].split()][:2] != [width] * 2:
            fail(f"{what}: the headings are {h}")
        # the dashes are as wide as the longest event, and the columns are where they say
        if len(h[1].split()[2]) != max(len(e) for _, _, e, _ in rows):
            fail(f"{what}: the dashes for the event column are {len(h[1].split()[2])} wide")
        if h[0].index("start") != indent or h[1].index("-") != indent or len(h[0].split("event")[0]) != indent + 2 * width + 4 or h[1].rindex(" ") + 1 != indent + 2 * width + 4:
            # headings longer than the columns push the rest to the right
            if width >= len("elapsed"):
                fail(f"{what}: the headings {h} aren't above the columns")
        lead += 2
    lines = out[lead:]
    want = [" " * indent + digits(t, sw, fw) + "  " + digits(el, sw, fw) + "  " + " " * (indent * d) + e for t, el, e, d in rows]
    if lines != want:
        for l, w in itertools.zip_longest(lines, want):
            if l != w:
                fail(f"{what}: got line {l!r}, expected {w!r}")


def print_cases(tier):
    sym = [(o, s) for o in OPS for s in STEPS]
    for k in range(3 if tier == "quick" else 4):
        for w in itertools.product(sym, repeat=k):
            if k < 2:
                yield (list(w), GRID)
            else:
                # every option setting with every pair of operations, spread over the steps
                i = sum(STEPS.index(s) * (7 ** j) for j, (o, s) in enumerate(w))
                yield (list(w), GRID[i % 9::9] if tier == "quick" or k == 3 else GRID)
    for k in range(3, 6 if tier == "quick" else 7):
        for i, ops in enumerate(itertools.product(OPS, repeat=k)):
            yield ([(o, STEPS[(i + j) % 8]) for j, o in enumerate(ops)], GRID[i % 36::36])


TIMES = sorted({a * 10 ** e + b for a in (1, 2, 9) for e in range(0, 16) for b in (-1, 0, 1)} | {0, 59 * S + 999_999_999, 123_456_789, 1_023_456_789, 1_000_000_009, 10 ** 9 + 10 ** 8})


def time_check(case, st):
    t, sw = case
    clock = Clock(0)
    log = Log(clock=clock)
    model = Model(0)
    clock.t = t
    log("x")
    model.log(t, "x")
    clock.t = t + t // 3
    log("y")
    model.log(clock.t, "y")
    for fw in range(0, 14):
        for indent in (0, 2):
            out = []
            log.print(print=out.append, indent=indent, seconds_width=sw, fractional_width=fw, title=None, headings=False)
            if fw == 0:
                # the point may be left out
                want = [digits(a, sw, 0)[:-1] for a in (0, t, clock.t)]
                got = [l.split()[0].rstrip(".") for l in out]
                expect(got, want, f"times {t} printed with seconds_width={sw}, fractional_width=0")
            else:
                check_printed(out, model, indent, sw, fw, None, False, f"log.print(indent={indent}, seconds_width={sw}, fractional_width={fw}) of times {t}, {clock.t}")
            st.transitions += 1


def default_check(case, st):
    "without a clock: the monotonic clock in nanoseconds; without a print function: the builtin one"
    a = time.monotonic_ns()
    c = default_clock()
    b = time.monotonic_ns()
    if type(c) is not int or not a <= c <= b:
        fail(f"default_clock(): got {c!r}, the time was between {a} and {b}")
    for log in (Log(), Log(clock=None), Log(clock=default_clock)):
        t0 = time.monotonic_ns()
        log.reset()
        t1 = time.monotonic_ns()
        log("x")
        t2 = time.monotonic_ns()
        rows = list(log)
        if len(rows) != 2 or rows[0][2:] != ("log start", 0) or rows[1][2:] != ("x", 0) or not 0 <= rows[1][0] <= t2 - t0 or rows[0][0] != 0 or rows[0][1] != rows[1][0] or rows[1][1] != 0:
            fail(f"log with the default clock: got {rows} within {t2 - t0} ns")
    log = Log(clock=Clock(3))
    log.enter("x")
    log("y")
    out = []
    log.print(print=out.append)
    got = []
    real = builtins.print
    builtins.print = lambda *a, **kw: got.append(" ".join(a))
    try:
        log.print()
    finally:
        builtins.print = real
    expect(got, out, "log.print() with the builtin print function")


PARTS = [
    Part("histories", history_cases, history_check, bound="all histories of up to 4 of log/enter/exit/reset with 6 [8] clock steps each, 5 with 2 [4], [6 with 2], 7 [9] with one, observed after each step, two clock origins"),
    Part("iterating", iterate_cases, iterate_check, bound="all histories up to 5 [6], every operation in the middle of an iteration at every point"),
    Part("printing", print_cases, print_check, bound="histories of up to 2 [3] with 8 clock steps and up to 5 [6] with rotating steps x 504 option settings (a ninth of them for longer ones)"),
    Part("times", lambda tier: [(t, sw) for t in TIMES for sw in (0, 1, 2, 5, 12)], time_check, bound="150 times around powers of ten x fractional widths 0 to 13 x 5 seconds widths"),
    Part("defaults", lambda tier: [0], default_check, bound="default clock and print function"),
]
