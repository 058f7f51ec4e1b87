"""Families of inputs with results known in advance, each run at every size up to a bound.

C41 consists of all of them; the other properties use those that concern them."""
import itertools
import os
import shutil
import string
import tempfile
import threading
from .core import Part, fail, expect, outcome
import big.text as T
import big.deprecated as D
import big.file as F
from big.boundinnerclass import BoundInnerClass
from big.builtin import get_int, get_int_or_float, get_float, try_int
from big.graph import TopologicalSorter, CycleError
from big.heap import Heap
from big.itertools import PushbackIterator
from big.log import Log
from big.scheduler import Scheduler, Regulator
from big.state import StateManager, State, accessor, dispatch
from big.version import Version

EDGES = [k + d for k in (512, 1000, 1024) for d in (-1, 0, 1)]
MORE = [k + d for k in (2048, 4096, 8192, 10000) for d in (-1, 0, 1)]
HUGE = [4097, 10001, 65537]


def sizes(tier, limit, dense):
    all = set(range(0, dense + 1)) | set(EDGES) | set(HUGE)
    if tier != "quick":
        all |= set(MORE)
    return [n for n in sorted(all) if n <= limit]


# ---------------------------------------------------------------- containers

def orders(n):
    "some orders of range(n)"
    up = list(range(n))
    yield up
    yield up[::-1]
    yield up[::2] + up[1::2][::-1]
    yield [(i * 7919 + 3) % n for i in up] if n and n % 7919 else up
    yield [i // 3 for i in up]
    yield [0] * n


def heap(n):
    for items in orders(n):
        want = sorted(items)
        h = Heap(items)
        g = Heap()
        for i in items:
            g.append(i)
        e = Heap(items[:n // 2])
        e.extend(items[n // 2:])
        for x in (h, g, e):
            expect((len(x), list(x), x.queue, x == h, x.copy() == h), (n, want, want, True, True), "heap")
            for a, b in ((0, n), (n // 3, n), (0, n // 2), (n // 3, n // 2), (-5, None), (None, 7), (3, -2)):
                expect(x[a:b], want[a:b], f"heap[{a}:{b}]")
            if n:
                expect((x[0], x[n - 1], x[-1], x[n // 2], x[-n]), (want[0], want[-1], want[-1], want[n // 2], want[0]), "heap indices")
            expect(outcome(lambda: x[n]), ('exc', 'IndexError'), "heap[n]")
        if n:
            h.remove(items[n // 2])
            rest = sorted(items[:n // 2] + items[n // 2 + 1:])
            expect(h.queue, rest, "after remove")
            expect(h.append_and_popleft(-1), -1, "append_and_popleft")
            expect(g.popleft_and_append(n + 5), want[0], "popleft_and_append")
            expect(g.queue, want[1:] + [n + 5], "after popleft_and_append")
            expect([h.popleft() for _ in range(n - 1)], rest, "drain after remove")
            c = g.copy()
            expect([g.popleft() for _ in range(n)], want[1:] + [n + 5], "drain after popleft_and_append")
            expect([c.popleft() for _ in range(n)], want[1:] + [n + 5], "drain a copy")
        expect([e.popleft() for _ in range(n)], want, "drain")
        expect(bool(e), False, "empty")
    # valid heaps whose left (right, second left...) subtree holds the larger half, with one object removed anywhere
    for top in (1, 2, 4, 5):
        items = []
        for i in range(n):
            j = i
            while j > 6:
                j = (j - 1) // 2
            items.append(i + n * (j == top or (j - 1) // 2 == top))
        spots = {0, n - 1, n // 2, n // 3}
        d = 0
        while 2 ** d <= n:
            spots |= {2 ** d - 1, 2 ** d - 1 + 2 ** d // 3, 2 ** d + 2 ** d // 2, 2 ** (d + 1) - 2}
            d += 1
        for k in sorted(spots):
            if 0 <= k < n:
                h = Heap(items)
                h.remove(items[k])
                want = sorted(items[:k] + items[k + 1:])
                got = [h.popleft() for _ in range(n - 1)]
                if got != want:
                    fail(f"Heap({n} objects, the larger ones below node {top}) after removing number {k}: popped in the wrong order at {next(i for i in range(n - 1) if got[i] != want[i])}")


def pushback(n):
    p = PushbackIterator(range(n))
    expect([next(p) for _ in range(n // 2)], list(range(n // 2)), "first half")
    for i in range(n):
        p.push(-i)
    expect(bool(p), n > 0, "truth")
    expect([p.next() for _ in range(n)], [-i for i in reversed(range(n))], "pushed")
    expect(list(p), list(range(n // 2, n)), "second half")
    expect((bool(p), p.next("x")), (False, "x"), "exhausted")


class Clock(Regulator):
    lock = threading.Lock()

    def __init__(self):
        self.t = 0

    def now(self):
        return self.t

    def sleep(self, interval):
        self.t += interval

    def wake(self):
        pass


def scheduler(n):
    for items in orders(n):
        s = Scheduler(Clock())
        for i, t in enumerate(items):
            s.schedule((t, i), t)
        want = sorted((t, i) for i, t in enumerate(items))
        expect([e.event for e in s.queue], want, "queue")
        expect(list(s), want, "events")
        # as many cancelled, then as many again
        events = [s.schedule(i, t) for i, t in enumerate(items)]
        for e in events[::2]:
            e.cancel()
        want = [i for t, i in sorted((t, i) for i, t in enumerate(items) if i % 2)]
        expect(list(s), want, "events after cancelling every other one")


def log(n):
    t = [0]

    def clock():
        t[0] += 1
        return t[0] * 10 ** 9
    l = Log(clock)
    for i in range(n):
        l.enter(f"s{i}")
    l("deepest")
    for i in range(n):
        l.exit()
    want = [(0, "log start", 0)] + [(i + 1, f"s{i} start", i) for i in range(n)] + [(n + 1, "deepest", n)] + [(n + 2 + i, f"s{n - 1 - i} end", n - 1 - i) for i in range(n)]
    got = list(l)
    expect([(a // 10 ** 9, c, d) for a, b, c, d in got], want, "log")
    expect([b // 10 ** 9 for a, b, c, d in got], [1] * (2 * n + 1) + [0], "elapsed")
    lines = []
    if n <= 300:
        l.print(print=lines.append)
        expect([len(x) - len(x.lstrip()) for x in lines[-1:]], [2], "margin")
        expect([x.rsplit("  ", 1)[1].strip() for x in lines[3:]], [w[1] for w in want], "printed events")


# ---------------------------------------------------------------- graphs

def chain(n):
    g = TopologicalSorter()
    for i in reversed(range(n)):
        g.add(i + 1, i)
    everything = list(range(n + 1)) if n else []
    expect(list(g.static_order()), everything, "static order of a chain")
    expect(g.cycle(), None, "no cycle")
    expect(list(g.copy().static_order()), everything, "static order of a copy")
    v = g.view()
    out = []
    while v:
        r = v.ready()
        expect(len(r), 1, "one ready node")
        out += r
        v.done(*r)
    expect(out, everything, "a view of a chain")
    if n:
        g.add(0, n)
        c = g.cycle()
        if sorted(c) != everything or any((b - a) % (n + 1) != 1 for a, b in zip(c, c[1:])):
            fail(f"cycle of {n + 1} nodes: {c[:10]}...")
        expect(outcome(g.ready), ('exc', 'CycleError'), "ready with a cycle")
        g.remove(n // 2)
        expect(g.cycle(), None, "no cycle after a removal")
        rest = [(n // 2 + 1 + i) % (n + 1) for i in range(n)]
        expect(list(g.static_order()), rest, "the rest of the chain")


class TooMuch(BaseException):
    pass


class Counted:
    "a node that counts how often it's looked up; hashes (and so the order in sets) are as given"
    left = 0

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        Counted.left -= 1
        if not Counted.left:
            raise TooMuch()
        return self.n

    def __eq__(self, other):
        return self is other


def tangle(n):
    "two cycles, with a ladder of n rungs (so 2**n paths) before, between and after them"
    for where in itertools.product((0, 1), repeat=3):
        for numbering in (0, 1, 2):
            size = 2 * n * sum(where) + 4
            numbers = list(range(size))
            if numbering == 0:
                numbers.reverse()
            elif numbering == 2:
                numbers = numbers[::2] + numbers[1::2][::-1]
            numbers = iter(numbers)
            g = TopologicalSorter()
            Counted.left = 2000 * size + 4 * size * size + 2000
            try:
                last = ()
                cycles = []
                for part in (where[0], 2, where[1], 2, where[2]):
                    if part == 2:
                        a, b = Counted(next(numbers)), Counted(next(numbers))
                        g.add(a, b, *last)
                        g.add(b, a)
                        cycles.append((a, b))
                        last = (a,)
                    for _ in range(n if part == 1 else 0):
                        rung = Counted(next(numbers)), Counted(next(numbers))
                        for x in rung:
                            g.add(x, *last)
                        last = rung
                Counted.left = 2000 * size + 4 * size * size + 2000
                for k in range(2):
                    got = g.cycle()
                    if got is None or not any(set(got) == set(c) for c in cycles):
                        fail(f"{got and len(got)} nodes, none of the cycles, reported in a tangle of {n}")
                    expect(outcome(g.ready), ('exc', 'CycleError'), "ready with cycles")
                    for c in cycles:
                        if set(c) == set(got):
                            g.remove(c[0])
                            cycles.remove(c)
                            break
                expect(g.cycle(), None, "no cycle is left")
                expect(len(list(g.static_order())), size - 2, "nodes of a tangle without its cycles")
            except TooMuch:
                fail(f"a graph of {size} nodes, {where}: nodes looked up far more than the square of its size")
            finally:
                Counted.left = 0


def star(n):
    nodes = list(range(1, n + 1))
    g = TopologicalSorter()
    g.add(0, *nodes)
    g.add("last", 0)
    for i in nodes:
        g.add("last", i)
    first = g.ready()
    expect(sorted(first), nodes if n else [0], "first ready nodes")
    if n:
        expect(g.ready(), (), "nothing else")
        for i in first[:-1]:
            g.done(i)
            expect(g.ready(), (), "nothing else yet")
        g.done(first[-1])
        expect(g.ready(), (0,), "the middle")
    g.done(0)
    expect(g.ready(), ("last",), "the last")
    g.done("last")
    expect(bool(g), False, "finished")
    two = TopologicalSorter()
    for i in nodes:
        two.add(("a", i), ("a", i - 1))
        two.add(("b", i), ("b", i - 1), ("a", i))
    order = {x: i for i, x in enumerate(two.static_order())}
    for i in nodes:
        if not order["a", i - 1] < order["a", i] < order["b", i] or not order["b", i - 1] < order["b", i]:
            fail("order of a ladder")


def views(n):
    nodes = list(range(1, n + 1))
    # many unconnected pairs, and as many views
    g = TopologicalSorter({-i: [i] for i in nodes})
    views = [g.view() for _ in range(min(n, 60))]
    for k, v in enumerate(views):
        r = v.ready()
        expect(sorted(r), nodes, "ready")
        v.done(*r[:k])
        expect(sorted(-x for x in v.ready()), sorted(r[:k]), "ready after k")
    for v in views:
        v.close()
    expect(outcome(g.cycle), ('ret', None), "no cycle")
    if n <= 300:
        # as many copies, each of the one before, which goes on by itself
        v = g.view()
        v.ready()
        v.done(*nodes)
        for i in nodes:
            w = v.copy()
            v.ready()
            v.done(-i) if i == 1 else None
            expect(sorted(w.ready()), sorted(-x for x in nodes), "a copy of a copy")
            v.close()
            v = g.view()
            v.ready()
            v.done(*nodes)
            w.close()
        h = g
        for i in range(min(n, 50)):
            h2 = h.copy()
            h.add("new", "newer")
            expect((len(h), len(h2)), (2 * n + 2, 2 * n), "a copy of a copy of a graph")
            h = h2


def conflicts(n):
    "n nodes that become dependencies of one that has been handed out, in all n places"
    nodes = list(range(1, n + 1))
    for finished in (False, True):
        g = TopologicalSorter()
        g.add(0)
        g.add("x", 0)
        v = g.view()
        expect(v.ready(), (0,), "ready")
        if finished:
            v.done(0)
        for i in nodes:
            g.add(0, i)
            if i == 1 or i == n:
                expect(outcome(v.ready), ('exc', 'RuntimeError'), "incoherent")
        for i in reversed(nodes):
            expect(outcome(lambda: bool(v)), ('exc', 'RuntimeError'), "still incoherent")
            g.remove(i)
        if not finished:
            expect(v.ready(), (), "coherent again")
            v.done(0)
        expect(v.ready(), ("x",), "coherent again")
        v.done("x")
        expect(bool(v), False, "finished")
    if n:
        # one node that n others, handed out, depend on from then on
        g = TopologicalSorter()
        for i in nodes:
            g.add(i)
        v = g.view()
        expect(sorted(v.ready()), nodes, "ready")
        v.done(*nodes[::2])
        for i in nodes:
            g.add(i, "p")
        expect(outcome(v.ready), ('exc', 'RuntimeError'), "incoherent")
        for i in nodes[:-1]:
            g.remove(i)
        expect(outcome(v.ready), ('exc', 'RuntimeError'), "incoherent")
        g.remove("p")
        expect(v.ready(), (), "coherent again")


# ---------------------------------------------------------------- states and classes

def states(n):
    seen = []

    @accessor()
    class M:
        def __init__(self):
            self.state_manager = StateManager(S(self, 0))

        @dispatch()
        def where(self, *a):
            ...

    class S(State):
        def __init__(self, m, i):
            self.m, self.i = m, i

        def on_enter(self):
            seen.append(self.i)
            if self.i < k:
                self.m.state = S(self.m, self.i + 1)

        def where(self, *a):
            return self.i, a

    k = -1
    m = M()
    k = min(n, 150)         # (each takes several frames)
    seen.clear()
    m.state = S(m, 1 if k else 0)
    expect(seen, list(range(1, k + 1)) if k else [0], "states entered by one another")
    expect(m.where(*range(n)), (k, tuple(range(n))), "dispatched")
    calls = []
    for i in range(n):
        m.state_manager.observers.append(lambda sm, i=i: calls.append(i))
    k = -1
    for i in range(3):
        m.state = S(m, 77)
    expect(calls, list(range(n)) * 3, "observers")


def classes(n):
    n = min(n, 40)

    class Outer:
        @BoundInnerClass
        class Inner0:
            def __init__(self, outer):
                self.outers = [outer]
    for i in range(1, n + 1):
        parent = Outer.__dict__[f"Inner{i - 1}"].cls

        class Inner(parent):
            def __init__(self, outer):
                super().__init__()
                self.outers.append(outer)
        Inner.__name__ = f"Inner{i}"
        setattr(Outer, f"Inner{i}", BoundInnerClass(Inner))
    for first in (0, n // 2, n):
        o = Outer()
        getattr(o, f"Inner{first}")
        x = getattr(o, f"Inner{n}")()
        expect(x.outers, [o] * (n + 1), "outer instances")
        for i in range(n + 1):
            if not isinstance(x, getattr(o, f"Inner{i}")):
                fail(f"not an instance of Inner{i} of {n}")


# ---------------------------------------------------------------- text

def splitting(n):
    for empty, e in (("", lambda s: s), (b"", lambda s: s.encode())):
        def E(l):
            return [tuple(map(e, x)) if isinstance(x, tuple) else e(x) for x in l]
        words = [f"w{i}" for i in range(n + 1)]
        seps = ["-", "--", "=-="] * (n // 3 + 1)
        seps = seps[:n]
        text = e("".join(w + s for w, s in zip(words, seps + [""])))
        every = E(["-", "--", "=-="])
        ws, ss = E(words), E(seps)
        expect(list(T.multisplit(text, every)), ws, "multisplit")
        expect(list(T.multisplit(text, every, reverse=True, separate=True)), ws, "multisplit in reverse")
        expect(list(T.multisplit(text, every, keep=T.AS_PAIRS)), list(zip(ws, ss + [empty])), "pairs")
        expect(empty.join(T.multisplit(text, every, keep=True)), text, "kept")
        k = n // 2
        got = list(T.multisplit(text, every, maxsplit=k))
        expect((len(got), got[:k]), (k + 1, ws[:k]), "first half")
        got = list(T.multisplit(text, every, maxsplit=k, reverse=True))
        expect((len(got), got[1:]), (k + 1, ws[n + 1 - k:]), "last half")
        for count in (k, n, n + 3):
            got = T.multipartition(text, every, count)
            m = min(count, n)
            expect((len(got), got[:2 * m:2], got[1:2 * m:2], empty.join(got)), (2 * count + 1, tuple(ws[:m]), tuple(ss[:m]), text), "partition")
            got = T.multirpartition(text, every, count)
            expect((len(got), empty.join(got), got[-1]), (2 * count + 1, text, ws[-1] if count else text), "rpartition")
        # as many different separators
        many = E([f"<{i}>" for i in range(n)])
        if n:
            expect(list(T.multisplit(e("").join(w + s for w, s in zip(ws, many + [empty])), many)), ws, "many separators")
            # prefixes of one another
            many = E(["a" * i for i in range(1, n + 1)])
            if n <= 130:
                expect(list(T.multisplit(e("x" + "a" * n + "y" + "a" * n), many, separate=True, keep=T.AS_PAIRS)), E([("x", "a" * n), ("y", "a" * n), ("", "")]), "nested separators")
        expect(list(T.multisplit(e("x" * n))), [e("x" * n)], "nothing to split")


def stripping(n):
    for e in (lambda s: s, lambda s: s.encode()):
        many = [e(f"<{i}>") for i in range(n)]
        if n:
            expect(T.multistrip(e("").join(many) + e("x") + e("").join(many), many), e("x"), "strip many separators")
            expect(T.normalize_whitespace(e("a") + e("").join(many) + e("b"), many, e("+")), e("a+b"), "normalize")
            expect(T.normalize_whitespace(e("").join(many), many, e("+")), e("+"), "normalize")
        E = lambda l: [e(x) for x in l]
        expect(T.multistrip(e(" \t" * n + "x y" + "\r\n" * n), E([" ", "\t", "\r\n"])), e("x y"), "strip")
        expect(T.normalize_whitespace(e(" \t" * n + "x" + "\n" * n + "y" + " " * n)), e("x y" if not n else " x y ") if n else e("xy"), "normalize")
        expect(T.normalize_whitespace(e(" x" * n)), e(" x" * n), "nothing to normalize")
        expect(T.normalize_whitespace(e("x  " * n)), e("x " * n), "normalize everywhere")


def matching(n):
    for empty, e in (("", lambda s: s), (b"", lambda s: s.encode())):
        text = e("".join(f"{'x' * (i % 3 + 1)}-" for i in range(n)))
        want = [e("x" * (i % 3 + 1)) for i in range(n)]
        expect([m.group() for m in T.reversed_re_finditer(e("x+"), text)], want[::-1], "matches in reverse")
        for count in (n // 2, n, n + 1):
            got = T.re_partition(text, e("x+"), count)
            m = min(count, n)
            expect((len(got), [x.group() for x in got[1:2 * m:2]], got[-1] if count <= n else None), (2 * count + 1, want[:m], empty.join(x + e("-") for x in [empty] + want[m:])[0 if m else 1:] if count <= n else None), "re_partition")
            got = T.re_rpartition(text, e("x+"), count)
            expect((len(got), [x.group() for x in got[len(got) - 2 * m:][::2]] if m else [], got[-1]), (2 * count + 1, want[n - m:], (e("-") if n else empty) if count else text), "re_rpartition")
        if n <= 300:
            # one long match
            expect([m.span() for m in T.reversed_re_finditer(e("a+"), e("b" + "a" * n))], [(1, n + 1)] if n else [], "one long match")


def quoting(n):
    text = "".join(f"t{i}" + ("'a\\'b'" if i % 2 else '"c\'d"') for i in range(n))
    for e in (lambda s: s, lambda s: s.encode()):
        want = []
        for i in range(n):
            want.append((e(""), e(f"t{i}"), e("")))
            want.append((e("'"), e("a\\'b"), e("'")) if i % 2 else (e('"'), e("c'd"), e('"')))
        expect([x for x in T.split_quoted_strings(e(text)) if any(x)], want, "quoted strings")
        s = e("'" + "x" * n + "\\'" * n + "'")
        expect([x for x in T.split_quoted_strings(s) if any(x)], [(e("'"), s[1:-1], e("'"))], "one long quoted string")
        q = e("'" * (n + 1))
        expect([x for x in T.split_quoted_strings(q + e("ab") + q + e("c"), (q,)) if any(x)], [(q, e("ab"), q), (e(""), e("c"), e(""))], "a long quote mark")
        many = [e(f"<{i}>") for i in range(n)]
        if n:
            got = [x for x in T.split_quoted_strings(e("").join(m + e("x<") + m for m in many), many) if any(x)]
            expect(got, [(m, e("x<"), m) for m in many], "many quote marks")


def delimiting(n):
    for e in (lambda s: s, lambda s: s.encode()):
        kinds = [("(", ")"), ("[", "]"), ("{", "}")]
        pick = [kinds[i % 3] for i in range(n)]
        text = "".join(f"{i}{o}" for i, (o, c) in enumerate(pick)) + "'q)'" + "".join(c + "x" for o, c in reversed(pick))
        want = [(e(str(i)), e(o), e("")) for i, (o, c) in enumerate(pick)]
        want += [(e(""), e("'"), e("")), (e("q)"), e(""), e("'"))]
        close = [c for o, c in reversed(pick)]
        want += [(e("x" if i else ""), e(""), e(c)) for i, c in enumerate(close)]
        if n:
            want.append((e("x"), e(""), e("")))
        expect([x for x in T.split_delimiters(e(text)) if any(x)], want, "nested delimiters")
        if n:
            expect(outcome(lambda: list(T.split_delimiters(e(text[:-1] + ")")))), ('exc', 'SyntaxError'), "one too many")
            state = [e(o) for o, c in pick]
            got = [x for x in T.split_delimiters(e("".join(close)), state=state) if any(x)]
            expect(got, [(e(""), e(""), e(c)) for c in close], "with a state")
        # as many kinds
        if n <= 130:
            many = {e(f"<{i}|"): T.Delimiter(e(f"|{i}>")) for i in range(n)}
            if n:
                s = "".join(f"<{i}|" for i in range(n)) + "".join(f"|{i}>" for i in reversed(range(n)))
                got = [x for x in T.split_delimiters(e(s), many) if any(x)]
                expect(got, [(e(""), e(f"<{i}|"), e("")) for i in range(n)] + [(e(""), e(""), e(f"|{i}>")) for i in reversed(range(n))], "many kinds")


def old_functions(n):
    kinds = [("(", ")"), ("[", "]"), ("{", "}")]
    pick = [kinds[i % 3] for i in range(n)]
    text = "".join(f"{i}{o}" for i, (o, c) in enumerate(pick)) + "".join(c + "x" for o, c in reversed(pick))
    for e in (lambda s: s, lambda s: s.encode()):
        old = [x for x in D.parse_delimiters(e(text)) if any(x)]
        expect((len(old), e("").join(a + b + c for a, b, c in old)), (2 * n + bool(n), e(text)), "deprecated parse_delimiters")
        quoted = "".join(f"t{i}" + ("'a\\'b'" if i % 2 else '"c\'d"') for i in range(n))
        want = []
        for i in range(n):
            want += [(False, e(f"t{i}")), (True, e("'a\\'b'") if i % 2 else e('"c\'d"'))]
        expect(list(D.split_quoted_strings(e(quoted))), want, "deprecated split_quoted_strings")


def lining(n):
    for e in (lambda s: s, lambda s: s.encode()):
        breaks = ["\n", "\r\n", "\r"]
        lines = [f" l{i}\t# c" for i in range(n)]
        text = e("".join(l + breaks[i % 3] for i, l in enumerate(lines)))
        got = list(T.lines(text))
        expect([x[1] for x in got], [e(l) for l in lines] + [e("")], "lines")
        expect([x[0].line_number for x in got], list(range(1, n + 2)), "line numbers")
        expect(e("").join(x[0].line for x in got), text, "text")
        got = list(T.lines_strip(T.lines_strip_line_comments(T.lines(text), e("#"))))
        expect([x[1] for x in got], [e(f"l{i}") for i in range(n)] + [e("")], "stripped")
        expect([x[1] for x in T.lines_sort(T.lines(text))], sorted([e(l) for l in lines] + [e("")]), "sorted")
        expect([x[1] for x in T.lines_containing(T.lines(text), e("7"))], [e(l) for l in lines if "7" in l], "containing")


def indents(n):
    for e in (lambda s: s, lambda s: s.encode()):
        # indents
        m = min(n, 300)
        for back in {0, 1, m // 2, max(m - 1, 0), m}:
            if back <= m:
                text = e("".join(" " * i + f"x{i}\n" for i in range(m + 1)) + " " * back + "y")
                got = [(x[0].indent, x[1]) for x in T.lines_strip_indent(T.lines(text))]
                expect(got, [(i, e(f"x{i}")) for i in range(m + 1)] + [(back, e("y"))], "indents")


def columns(n):
    for e in (lambda s: s, lambda s: s.encode()):
        # tabs
        width = n + 1
        got = [x[1] for x in T.lines_convert_tabs_to_spaces(T.lines(e("a\tb\t\tc"), tab_width=width))]
        expect(got, [e("a\tb\t\tc").expandtabs(width)], "tabs")
        got = [(x[0].column_number, x[1]) for x in T.lines_strip(T.lines(e("\t \tx"), tab_width=width, column_number=n))]
        expect(got, [(n + len("\t \t".expandtabs(width)), e("x"))], "column after tabs")


def comments(n):
    for e in (lambda s: s, lambda s: s.encode()):
        # comment markers
        if n:
            markers = [e(f"%{i};") for i in range(n)]
            src = e("").join(e("a ") + m + e(" b\n") for m in markers)
            got = [x[1] for x in T.lines_strip_line_comments(T.lines(src), markers)]
            expect([x.rstrip() for x in got], [e("a")] * n + [e("")], "many comment markers")


def wrapping(n):
    for e in (lambda s: s, lambda s: s.encode()):
        words = [e("w" * (i % 7 + 1)) for i in range(n + 1)]
        for margin in (n + 1, 20, 79):
            lines, line = [], None
            for w in words:
                if line is not None and len(line) + 1 + len(w) <= margin:
                    line += e(" ") + w
                else:
                    if line is not None:
                        lines.append(line)
                    line = w
            lines.append(line)
            expect(T.wrap_words(words, margin), e("\n").join(lines), f"wrapped at {margin}")
        expect(T.wrap_words([e("x" * (n + 1)), e("y")], 5), e("x" * (n + 1)) + (e(" ") if n + 3 <= 5 else e("\n")) + e("y"), "a long word")
        text = e("\n\n").join(e(" ").join(words[i:i + 5]) for i in range(0, n + 1, 5))
        got = list(T.split_text_with_code(text))
        expect([x for x in got if x.strip()], words, "words")
        expect(e(" ").join(T.wrap_words(got, 100000).split()), e(" ").join(words), "words wrapped")
        code = e("    " + "c" * n + "  d")
        got = list(T.split_text_with_code(e("a\n\n") + code + e("\n\nb")))
        expect([x for x in got if x.strip()], [e("a"), code, e("b")], "code")


def merging(n):
    for e in (lambda s: s, lambda s: s.encode()):
        # columns
        lines = [e(f"l{i}") for i in range(n + 1)]
        got = T.merge_columns((e("\n").join(lines), 8, 8), (e("r"), 1, 4), column_separator=e("|"))
        expect([x.rstrip() for x in got.split(e("\n"))], [(l.ljust(8) + e("|") + (e("r") if not i else e(""))).rstrip() for i, l in enumerate(lines)], "a long column")
        if n <= 300:
            got = T.merge_columns(*[(e(f"{i}\nz"), 3, 5) for i in range(n + 1)])
            a, b = got.split(e("\n"))
            expect((a.split(), b.split()), ([e(str(i)) for i in range(n + 1)], [e("z")] * (n + 1)), "many columns")


def titles(n):
    for e in (lambda s: s, lambda s: s.encode()):
        expect(T.gently_title(e("it's a 'day' " * n + "x")), e("It's A 'Day' " * n + "X"), "gently_title")
        expect(T.gently_title(e("'" * n + "it")), e("'" * n + "It"), "many quote marks")


def dividing(n):
    for e in (lambda s: s, lambda s: s.encode()):
        expect(list(T.split_title_case(e("AbC" * n))) if n else [], [e(x) for x in (["Ab"] + ["C", "Ab"] * (n - 1) + ["C"] if n else [])], "split_title_case")
        expect(list(T.split_title_case(e("A" * n + "b" * n))) if n else [], [e(x) for x in ["A" * (n - 1), "A" + "b" * n] if x] if n else [], "capitals")
        expect(list(T.split_title_case(e("A" * n + "b" * n), split_allcaps=False)) if n else [], [e("A" * n + "b" * n)] if n else [], "capitals together")
        s = e("x" * (n + 1))
        splits = [[s[:i], s[i:]] for i in range(1, min(n, 200) + 1)]
        m = len(splits)
        expect(list(T.combine_splits(s, *splits)), [s[:1]] * m + [s[m:]], "many splits")
        if n <= 4100:
            ones = [s[:1]] * (n + 1)
            twos = [s[:2]] * ((n + 1) // 2) + [s[:1]] * ((n + 1) % 2)
            expect(list(T.combine_splits(s, ones)), ones, "many pieces")
            expect(list(T.combine_splits(s, [s], ones, twos)), ones, "many pieces of several splits")
            expect(list(T.combine_splits(s, twos, [s[:n // 2], s[n // 2:]])), ([s[:2]] * (n // 4) + ([s[:1], s[:1]] if n // 2 % 2 else []) + twos[n // 4 + n // 2 % 2:]), "many pieces of several splits")


def names(n):
    expect(F.translate_filename_to_exfat("a/b:" * n + "c"), F.translate_filename_to_exfat("a/b:") * n + "c", "file name")
    expect(F.translate_filename_to_unix("a/b" * n + "c"), F.translate_filename_to_unix("a/b") * n + "c", "file name")


def encoding(n):
    expect(T.encode_strings(["a"] * n), [b"a"] * n, "a long list")
    expect(T.encode_strings({str(i): (str(i),) for i in range(n)}), {b"%d" % i: (b"%d" % i,) for i in range(n)}, "a large dict")
    expect(T.encode_strings("a" * n), b"a" * n, "a long string")
    nested = "x"
    for i in range(min(n, 150)):
        nested = [nested] if i % 2 else (nested, "y")
    got = T.encode_strings(nested)
    for i in reversed(range(min(n, 150))):
        expect((type(got), len(got)), (list, 1) if i % 2 else (tuple, 2), "nested containers")
        got = got[0]
    expect(got, b"x", "innermost")


def conversions(n):
    digits = "1" + "0" * n
    expect(get_int(digits, None), int(digits) if n < 4300 else None, "get_int")
    expect(try_int(digits), n < 4300, "try_int")
    expect(get_int_or_float("7" * (n + 1)), int("7" * (n + 1)) if n < 4300 else float("inf"), "get_int_or_float")
    expect(get_float("0." + "0" * n + "1"), float("0." + "0" * n + "1"), "get_float")


def versions(n):
    vs = [Version(f"1.{i}") for i in range(n)]
    expect([str(v) for v in sorted(vs[::2] + vs[1::2][::-1])], [str(v) for v in vs], "versions")
    expect(len(set(vs + vs)), n, "hashes")
    zeros = Version("1" + ".0" * n)
    longer = Version("1" + ".0" * n + ".1")
    expect((zeros == Version("1"), hash(zeros) == hash(Version("1")), zeros < longer, longer < Version("2"), Version(str(longer)) == longer), (True,) * 5, "many elements")
    expect([len(longer.release), longer.release[-1], str(longer)], [n + 2, 1, "1" + ".0" * n + ".1"], "many elements")
    a, b = Version("1+" + "a." * n + "1"), Version("1+" + "a." * n + "2")
    expect((a < b, a == b, Version(str(a)) == a, a > Version("1"), Version("1+" + "a." * n + "a") < a), (True, False, True, True, True), "a long local version")
    if n < 4000:
        a, b = Version("1.dev" + "9" * (n + 1)), Version("1.dev1" + "0" * (n + 1))
        expect((a < b, b < Version("1"), str(a)), (True, True, "1.dev" + "9" * (n + 1)), "a long number")


# ---------------------------------------------------------------- files

def files(n):
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="c41.")
    try:
        p = os.path.join(d, "f")
        lines = [f"line {i} " + "x" * (i % 5) for i in range(n)]
        lines += ["y" * n, "needle " + "z" * n, "z" * n + " needle"]
        for tail in ("", "\n"):
            with open(p, "w", newline="") as f:
                f.write("\n".join(lines) + tail)
            expect(list(F.fgrep(p, "needle")), lines[-2:], "fgrep")
            expect(list(F.fgrep(p, "needle", enumerate=True)), [(n + 2, lines[-2]), (n + 3, lines[-1])], "fgrep enumerated")
            expect(list(F.grep(p, "^z*.needle")), lines[-1:], "grep")
            expect(list(F.grep(p, b"^z*.needle")), [x.encode() for x in lines[-1:]], "grep bytes")
            expect(list(F.fgrep(p, "line ")), lines[:n], "fgrep for all")
        # deep directories
        m = min(n, 100)
        deep = os.path.join(d, *["e"] * m, "last")
        F.safe_mkdir(deep)
        expect(os.path.isdir(deep), True, "deep directory")
        stack = []
        os.chdir(d)
        for i in range(m):
            x = F.pushd("e")
            x.__enter__()
            stack.append(x)
        for i in reversed(range(m)):
            expect(os.getcwd(), os.path.realpath(os.path.join(d, *["e"] * (i + 1))), "current directory")
            stack.pop().__exit__(None, None, None)
        expect(os.getcwd(), os.path.realpath(d), "current directory at the end")
        name = "n" * min(n + 1, 255)
        F.touch(os.path.join(d, name))
        expect(os.path.getsize(os.path.join(d, name)), 0, "touched")
        F.safe_unlink(os.path.join(d, name))
        expect(os.path.exists(os.path.join(d, name)), False, "unlinked")
    finally:
        os.chdir(here)
        shutil.rmtree(d)



def faults(n):
    "what has been given before the caller's code raises an exception is intact afterwards"
    class E(Exception):
        pass

    def fails():
        yield from range(n)
        raise E

    h = Heap([5, 3])
    expect(outcome(lambda: h.extend(fails())), ('exc', 'E'), "extend")
    got = h.queue
    expect([h.popleft() for _ in range(len(h))], got, "heap after a failed extend")
    p = PushbackIterator(fails())
    out = []
    for i in range(n):
        out.append(next(p))
    expect((out, outcome(lambda: next(p))), (list(range(n)), ('exc', 'E')), "pushback iterator")
    for i in range(n):
        p.push(i)
    expect([next(p) for i in range(n)], list(range(n))[::-1], "pushed after a failure")
    g = TopologicalSorter()
    expect(outcome(lambda: g.add("x", *range(n), [])), ('exc', 'TypeError'), "an unhashable dependency")
    expect((len(g), bool(g)), (0, False), "nothing was added")
    expect(outcome(lambda: list(T.lines(fails()))), ('exc', 'TypeError' if n else 'E'), "lines of a failing iterator")


FAMILIES = {
    heap: "C03", pushback: "C04", scheduler: "C01", log: "C31", chain: "C05 C07", tangle: "C07", star: "C05", views: "C08", conflicts: "C06", states: "C09 C10",
    classes: "C11", splitting: "C14 C15", stripping: "C16", matching: "C17", quoting: "C18", delimiting: "C19", old_functions: "C35", lining: "C20 C34",
    columns: "C20", indents: "C22", comments: "C21", wrapping: "C23", merging: "C24", titles: "C30", dividing: "C29", names: "C33", encoding: "C32",
    conversions: "C28", versions: "C12 C13", files: "C27", faults: "C39",
}
QUICK = {"tangle": 300, "stripping": 10001, "views": 1025, "conflicts": 700, "old_functions": 1025, "encoding": 10001, "indents": 1025, "columns": 10001, "comments": 1025, "versions": 10001, "classes": 40, "states": 1100, "files": 65537, "star": 4097, "scheduler": 1100, "splitting": 10001, "quoting": 10001, "lining": 10001}
THOROUGH = {"tangle": 1300, "stripping": 10001, "views": 1300, "conflicts": 700, "old_functions": 10001, "indents": 1300, "columns": 10001, "comments": 10001, "classes": 40, "states": 1100, "files": 65537, "star": 10001, "scheduler": 2100, "splitting": 10001, "quoting": 10001, "lining": 10001}


def family_cases(f):
    def cases(tier):
        if tier == "quick":
            return sizes(tier, QUICK.get(f.__name__, 65537), 300)
        return sizes(tier, THOROUGH.get(f.__name__, 65537), 1300)
    return cases


def family_check(f):
    def check(n, st):
        f(n)
        st.transitions += n + 1
    return check


def bound(f):
    a, b = QUICK.get(f.__name__, 65537), THOROUGH.get(f.__name__, 65537)
    if a == b <= 300:
        return f"every size of 0 to {a}"
    return f"every size of 0 to 300 [{min(b, 1300)}], and some around powers of two and ten up to {a} [{b}]"



ALL = {f: Part("sizes: " + f.__name__.replace("_", " "), family_cases(f), family_check(f), bound=bound(f)) for f in FAMILIES}


def for_property(pid):
    return [part for f, part in ALL.items() if pid in FAMILIES[f].split()]
