"""C03: big.heap.Heap against the sorted list of its contents."""
import itertools
from .core import Part, fail, expect, outcome
from big.heap import Heap

ASSUMPTIONS = [
    "values are totally ordered and mutually comparable (small integers and strings)",
]


def observe(h, model, deep=True):
    """Every observer of heap h agrees with the sorted list model."""
    expect(len(h), len(model), "len")
    expect(bool(h), bool(model), "bool")
    expect(h.queue, model, "queue")
    expect([x for x in h], model, "iteration")
    expect(outcome(lambda: h[0]), outcome(lambda: model[0]), "[0]")
    expect(outcome(lambda: h[-1]), outcome(lambda: model[-1]), "[-1]")
    if not deep:
        return
    for v in range(-1, 4):
        expect(v in h, v in model, f"{v} in heap")
    other = Heap(reversed(model))
    expect(h == other, True, "== heap of the same values")
    expect(h != other, False, "!= heap of the same values")
    expect(h == Heap(model + [7]), False, "== heap with one more value")
    if model:
        expect(h == Heap(model[1:]), False, "== heap with one value less")
        expect(h == Heap(model[:-1] + [99]), False, "== heap with one value changed")
    expect(h == model, False, "== list")
    if not isinstance(repr(h), str):
        fail("repr")


# ---- part 1: histories ----

OPS = (
    ("append", 0), ("append", 1), ("append", 2),
    ("extend", ()), ("extend", (2, 0)), ("extend", (1, 1, 0)),
    ("remove", 0), ("remove", 1), ("remove", 2),
    ("popleft",),
    ("ap", 0), ("ap", 1), ("ap", 2),
    ("pa", 0), ("pa", 1), ("pa", 2),
    ("clear",),
    ("copy",),      # continue with the copy, keep the original alive
    ("swap",),      # continue with the original
    ("iter",),      # start an iteration
    ("next",),      # one step of it
)
INITIAL = ((), (1,), (2, 0), (2, 1, 0, 1))


def history_cases(tier):
    depth = 4 if tier == "quick" else 5
    for d in range(1, depth + 1):
        for init in INITIAL:
            yield from ((init,) + seq for seq in itertools.product(OPS, repeat=d) if useful(seq))
    # mutation-only histories, one deeper
    mut = [op for op in OPS if op[0] not in ("iter", "next", "copy", "swap")]
    small = [op for op in mut if op not in (("extend", ()), ("remove", 1), ("ap", 2), ("pa", 1))]
    for seq in itertools.product(small, repeat=depth + 1):
        yield ((),) + seq
    yield from (((2, 1, 0, 1),) + seq for seq in itertools.product(small, repeat=depth))


def useful(seq):
    # prune histories that use an iterator/original that does not exist yet
    it = orig = False
    for op in seq:
        if op[0] == "iter": it = True
        elif op[0] == "next" and not it: return False
        elif op[0] == "copy": orig = True
        elif op[0] == "swap" and not orig: return False
    return True


class World:
    def __init__(self, init):
        self.h = Heap(init)
        self.m = sorted(init)
        self.saved = None        # (heap, model)
        self.iterator = None     # [iterator, expected remaining, heap, 'valid'|'changed'|'maybe']

    def apply(self, op):
        name = op[0]
        h, m = self.h, self.m
        before = list(m)
        changed = None           # True: surely a change; None: arguable; False: none
        if name == "append":
            expect(h.append(op[1]), None, "append result"); m.append(op[1]); changed = True
        elif name == "extend":
            expect(h.extend(iter(op[1])), None, "extend result"); m.extend(op[1]); changed = True if op[1] else None
        elif name == "remove":
            got = outcome(h.remove, op[1])
            if op[1] in m:
                expect(got, ('ret', None), f"remove({op[1]})"); m.remove(op[1]); changed = True
            else:
                expect(got, ('exc', 'ValueError'), f"remove({op[1]}), absent"); changed = False
        elif name == "popleft":
            got = outcome(h.popleft)
            if m:
                expect(got, ('ret', m.pop(0)), "popleft"); changed = True
            else:
                expect(got, ('exc', 'IndexError'), "popleft of empty heap"); changed = False
        elif name == "ap":
            m.append(op[1]); m.sort()
            expect(h.append_and_popleft(op[1]), m.pop(0), "append_and_popleft")
            changed = True if m != before else None
        elif name == "pa":
            got = outcome(h.popleft_and_append, op[1])
            if m:
                expect(got, ('ret', m.pop(0)), "popleft_and_append"); m.append(op[1])
                changed = True if sorted(m) != before else None
            else:
                expect(got, ('exc', 'IndexError'), "popleft_and_append on empty heap"); changed = False
        elif name == "clear":
            h.clear(); m.clear(); changed = True if before else None
        elif name == "copy":
            c = h.copy()
            if type(c) is not type(h):
                fail("copy has another type")
            self.saved = (h, list(m))
            self.h, self.m = c, list(m)
            return
        elif name == "swap":
            s = self.saved
            self.saved = (self.h, self.m)
            self.h, self.m = s[0], list(s[1])
            return
        elif name == "iter":
            self.iterator = [iter(h), list(m), h, 'valid']
            return
        elif name == "next":
            it = self.iterator
            got = outcome(next, it[0])
            if it[3] == 'changed':
                expect(got, ('exc', 'RuntimeError'), "step of an iteration after the heap changed")
                return
            want = ('ret', it[1][0]) if it[1] else ('exc', 'StopIteration')
            if it[3] == 'maybe' and got == ('exc', 'RuntimeError'):
                return
            expect(got, want, "iteration step")
            if it[1]:
                it[1].pop(0)
            return
        m.sort()
        it = self.iterator
        if it and it[2] is h:
            if changed:
                it[3] = 'changed'
            elif changed is None and it[3] == 'valid':
                it[3] = 'maybe'


def check_history(case, st):
    w = World(case[0])
    for op in case[1:]:
        w.apply(op)
    st.bump("operations executed", len(case) - 1)
    observe(w.h, w.m)
    if w.saved:
        observe(w.saved[0], w.saved[1], deep=False)


# ---- part 2: every index and slice ----

def index_cases(tier):
    small, large = (5, 14) if tier == "quick" else (6, 24)
    for n in range(0, small + 1):
        for values in itertools.product(range(3), repeat=min(n, 4)) if n <= 4 else itertools.permutations(range(n)):
            yield tuple(values)
    for n in range(small + 1, large + 1):
        base = list(range(n))
        for r in range(0, n, 1 if n <= 12 else 3):
            yield tuple(base[r:] + base[:r])
        yield tuple(reversed(base))
        yield tuple(base[::2] + base[1::2])
        yield tuple([v // 2 for v in base[::-1]])
        yield tuple([0] * n)


def check_index(case, st):
    model = sorted(case)
    n = len(model)
    by_append = Heap()
    for v in case:
        by_append.append(v)
    for how, h in (("constructed", Heap(case)), ("appended", by_append)):
        observe(h, model)
        for i in range(-n - 3, n + 4):
            expect(outcome(lambda: h[i]), outcome(lambda: model[i]), f"{how} heap[{i}]")
        bounds = [None] + (list(range(-n - 2, n + 3)) if n <= 8 else sorted({-n - 3, -n, -n + 1, -11, -10, -9, -5, -2, -1, 0, 1, 2, 5, 9, 10, 11, n - 1, n, n + 3}))
        for step in (None, 1, 2, -1, -2, 3, 0) if n <= 6 else (None, 1, 2, -1):
            for a in bounds:
                for b in bounds:
                    s = slice(a, b, step)
                    expect(outcome(lambda: h[s]), outcome(lambda: model[s]), f"{how} heap[{a}:{b}:{step}]")
                    st.transitions += 1
        for bad in (1.5, "a", None, (0,)):
            expect(outcome(lambda: h[bad]), ('exc', 'TypeError'), f"heap[{bad!r}]")
        expect(h.queue, model, "queue after indexing")


# ---- part 3: construction and drain ----

def drain_cases(tier):
    n = 6 if tier == "quick" else 7
    for k in range(0, n + 1):
        yield from itertools.product(range(4 if k <= 5 else 3), repeat=k)
    for k in range(n + 1, n + 2):
        yield from itertools.permutations(range(k))


def check_drain(case, st):
    model = sorted(case)
    for make in (tuple, list, iter, lambda c: (x for x in c), dict.fromkeys if len(set(case)) == len(case) else tuple):
        h = Heap(make(case))
        expect(h.queue, model, f"Heap({make})")
    got = []
    while h:
        got.append(h.popleft())
    expect(got, model, "draining")
    h = Heap()
    for v in case:
        h.append(v)
    h2 = h.copy()
    expect([h.popleft() for _ in case], model, "draining after appends")
    it = iter(h2)
    expect(list(it), model, "list(iter(heap))")
    expect(iter(it) is it, True, "an iterator is its own iterator")
    expect(h2.queue, model, "iterating must not consume")
    expect(Heap(h2).queue, model, "Heap(heap)")


PARTS = [
    Part("histories", history_cases, check_history, bound="every history of up to 4 (thorough 5) operations from 21, one deeper for 13 mutations, from 4 initial heaps"),
    Part("indexing", index_cases, check_index, bound="every index and slice (start, stop, step) of every heap of up to 5 (6) small values and of representative heaps of up to 14 (24)"),
    Part("drain", drain_cases, check_drain, bound="every sequence of up to 7 (8) values"),
]
