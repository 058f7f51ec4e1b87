"""C04: big.itertools.PushbackIterator against (stack, remaining list)."""
import itertools
from .core import Part, fail, expect, outcome
from big.itertools import PushbackIterator

ASSUMPTIONS = ["the wrapped iterator is driven only through the pushback iterator"]


class Boom(Exception):
    pass


class FalsyIterator:
    def __init__(self, values):
        self.values = list(values)
    def __iter__(self):
        return self
    def __next__(self):
        if not self.values:
            raise StopIteration
        v = self.values.pop(0)
        if v == 'boom':
            raise Boom()
        return v
    def __bool__(self):
        return False
    def __len__(self):
        return 0
    def __eq__(self, other):
        return True
    __hash__ = None


class NextOnly:
    """An iterator with nothing but __next__."""
    def __init__(self, values):
        self.values = list(values)
    def __next__(self):
        if not self.values:
            raise StopIteration
        return self.values.pop(0)


class FalsyIterable:
    def __init__(self, values):
        self.values = list(values)
    def __iter__(self):
        return iter(self.values)
    def __bool__(self):
        return False


def gen(values):
    for v in values:
        if v == 'boom':
            raise Boom()
        yield v


KINDS = {
    "list": lambda v: list(v),
    "generator": gen,
    "falsy iterator": FalsyIterator,
    "falsy iterable": FalsyIterable,
    "next only": NextOnly,
    "nested": lambda v: PushbackIterator(list(v)),
    "none": lambda v: None,
}
SOURCES = [("none", ())]
SOURCES += [(k, v) for k in ("list", "generator", "falsy iterator", "falsy iterable", "nested", "next only")
            for v in ((), (1,), (None, 0, 2), ('', 1, None))]
SOURCES += [(k, v) for k in ("generator", "falsy iterator") for v in (('boom',), (1, 'boom'), (0, 'boom', 2))]

OPS = (("push", None), ("push", 0), ("push", 5), ("next",), ("next_default",), ("next_default", 9), ("bool",), ("iter",), ("for",))


def cases(tier):
    depth = 5 if tier == "quick" else 7
    for d in range(1, depth + 1):
        for src in SOURCES:
            for seq in itertools.product(OPS, repeat=d):
                yield (src,) + seq


class Model:
    def __init__(self, kind, values):
        self.kind = kind
        self.rest = list(values)
        self.stack = []

    def advance(self):
        """('ret', v), ('exc', 'StopIteration') or ('exc', 'Boom')"""
        if self.stack:
            return ('ret', self.stack.pop())
        if not self.rest:
            return ('exc', 'StopIteration')
        v = self.rest.pop(0)
        if v == 'boom':
            if self.kind == "generator":
                self.rest = []          # a generator that raised is finished
            return ('exc', 'Boom')
        return ('ret', v)


def check(case, st):
    kind, values = case[0]
    p = PushbackIterator(KINDS[kind](values)) if kind != "none" else PushbackIterator()
    m = Model(kind, values)
    for op in case[1:]:
        raised = run_op(p, m, op)
        if raised:
            # what a wrapped iterator does after raising is its own business;
            # pushed values must still be there
            p.push('x'); p.push('y')
            expect((next(p), next(p)), ('y', 'x'), "pushed values after an exception")
            expect(m.stack, [], "(model)")
            return
    # drain: everything still to come, in order
    want = []
    while True:
        o = m.advance()
        if o[0] == 'exc':
            break
        want.append(o[1])
    got = []
    for _ in range(len(want)):
        expect(bool(p), True, "truth before a value")
        got.append(p.next('nothing') if len(got) % 2 else next(p))
    expect(got, want, "remaining values")
    if o == ('exc', 'Boom'):
        expect(outcome(next, p), o, "exception of the wrapped iterator")
        return
    expect(bool(p), False, "truth when exhausted")
    expect(outcome(next, p), ('exc', 'StopIteration'), "next when exhausted")
    expect(p.next('d'), 'd', "next with default when exhausted")
    expect(p.next(), None, "next() when exhausted")
    # still usable
    p.push(None); p.push(3)
    expect(bool(p), True, "truth after pushing to an exhausted one")
    expect(list(p), [3, None], "values pushed to an exhausted one")
    expect(bool(p), False, "truth when exhausted again")


def run_op(p, m, op):
    name = op[0]
    if name == "push":
        p.push(op[1]); m.stack.append(op[1])
    elif name == "next":
        want = m.advance()
        expect(outcome(next, p), want, "next(p)")
        return want == ('exc', 'Boom')
    elif name == "next_default":
        want = m.advance()
        if want == ('exc', 'StopIteration'):
            want = ('ret', op[1] if len(op) > 1 else None)
        got = outcome(p.next, *op[1:]) if len(op) == 1 else outcome(lambda: p.next(default=op[1]))
        expect(got, want, "p.next()")
        return want == ('exc', 'Boom')
    elif name == "bool":
        if not m.stack and m.rest and m.rest[0] == 'boom':
            want = m.advance()
            expect(outcome(bool, p), want, "bool(p)")
            return True
        expect(outcome(bool, p), ('ret', bool(m.stack or m.rest)), "bool(p)")
        if not isinstance(repr(p), str):
            fail("repr")
    elif name == "iter":
        expect(iter(p) is p, True, "iter(p) is p")
    elif name == "for":
        # a for loop that breaks after one value
        want = m.advance()
        got = ('exc', 'StopIteration')
        try:
            for v in p:
                got = ('ret', v)
                break
        except Boom:
            got = ('exc', 'Boom')
        expect(got, want, "first value of a for loop")
        return want == ('exc', 'Boom')


def pair_cases(tier):
    """Two pushback iterators in a stack: the outer wraps the inner and both are used."""
    depth = 5 if tier == "quick" else 7
    ops = ("outer next", "outer push", "outer bool", "inner push", "drain one")
    for d in range(1, depth + 1):
        yield from itertools.product(ops, repeat=d)


def check_pair(case, st):
    inner = PushbackIterator([0, 1, None, 2])
    outer = PushbackIterator(inner)
    stack, istack, rest = [], [], [0, 1, None, 2]
    n = 10
    for op in case:
        n += 1
        if op == "outer push":
            outer.push(n); stack.append(n)
        elif op == "inner push":
            inner.push(n); istack.append(n)
        elif op == "outer bool":
            want = bool(stack or istack or rest)
            expect(bool(outer), want, "bool")
            if not want:
                return              # an exhausted wrapper may let go of its iterator
            if not stack:
                # testing may look ahead by one value, which then comes next
                stack.append(istack.pop() if istack else rest.pop(0))
        else:
            if stack: want = ('ret', stack.pop())
            elif istack: want = ('ret', istack.pop())
            elif rest: want = ('ret', rest.pop(0))
            else: want = ('exc', 'StopIteration')
            expect(outcome(next, outer), want, "next")
            if want[0] == 'exc':
                return
    expect(list(outer), stack[::-1] + istack[::-1] + rest, "remaining values")


PARTS = [
    Part("histories", cases, check, bound="every sequence of up to 5 (thorough 6) of 9 operations on 25 wrapped iterators"),
    Part("nested", pair_cases, check_pair, bound="every sequence of up to 5 (7) operations on two nested pushback iterators"),
]
