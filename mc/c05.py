"""C05: what a topological sorter offers, against the definition of 'ready'."""
import graphlib
import itertools
from .core import Part, fail, expect, outcome
from .search import Search, level, thorough_only
from .graphmodel import World, NODES, acyclic
from big.graph import TopologicalSorter

ASSUMPTIONS = [
    "nodes are interchangeable: new nodes are named in one of two orders only",
    "in the unordered searches, states that differ only in the insertion order of dicts and sets are merged; the ordered search does not merge them",
]


class Fixpoint(World):
    n = 3
    budget = {'remove': 2, 'reset': 1}


class Ordered(World):
    n = 3
    unordered = False


class Four(World):
    n = 4


class Views(World):
    n = 2
    selfloops = True
    extra_views = ('V',)
    budget = {'remove': 2, 'reset': 1, 'close': 1, 'view': 1, 'copyview': 1}


# ---- every DAG: static order, and lockstep with graphlib ----

def dags(n):
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    for mask in range(2 ** len(pairs)):
        edges = tuple(p for i, p in enumerate(pairs) if mask >> i & 1)
        preds = {i: {b for a, b in edges if a == i} for i in range(n)}
        if acyclic(preds):
            yield (n, edges)


def dag_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for case in dags(n):
            yield case
    if tier == "quick":
        for case in dags(4):
            yield case + ("short",)
    else:
        for case in dags_up(5):
            yield case + ("short",)


def dags_up(n):
    # node numbers increasing along edges: every DAG up to renaming
    pairs = [(a, b) for a in range(n) for b in range(a)]
    for mask in range(2 ** len(pairs)):
        yield (n, tuple(p for i, p in enumerate(pairs) if mask >> i & 1))


def names(i):
    return (0, '', None, ('t',), 'x')[i]


def build(cls, n, edges, how):
    preds = {names(i): [names(b) for a, b in edges if a == i] for i in range(n)}
    if how == "dict":
        return cls(preds)
    g = cls()
    if how == "edges":
        for a, b in reversed(edges):
            g.add(names(a), names(b))
        for i in range(n):
            g.add(names(i))
    elif how == "nodes":
        for i in range(n):
            g.add(names(i))
        for i in reversed(range(n)):
            g.add(names(i), *preds[names(i)])
            g.add(names(i), *(preds[names(i)] * 2))
    return g


def check_dag(case, st):
    n, edges = case[:2]
    for how in ("dict", "edges", "nodes"):
        g = build(TopologicalSorter, n, edges, how)
        for _ in range(2):
            order = list(g.static_order())
            if len(order) != n or set(order) != {names(i) for i in range(n)}:
                fail(f"{how}: static_order() {order!r}")
            for a, b in edges:
                if order.index(names(b)) > order.index(names(a)):
                    fail(f"{how}: static_order() {order!r}: {names(b)!r} must precede {names(a)!r}")
    # every order of done, and every way of asking or not asking in between
    masks = range(2 ** n) if len(case) == 2 else (0, 2 ** n - 1)
    for perm in itertools.permutations(range(n)):
        for mask in masks:
            for how in ("dict", "nodes") if len(case) == 2 else ("edges",):
                lockstep(build(TopologicalSorter, n, edges, how), build(graphlib.TopologicalSorter, n, edges, how), perm, mask, n)
                st.bump("lockstep runs against graphlib")


def lockstep(g, ref, perm, mask, n):
    expect(outcome(g.prepare), outcome(ref.prepare), "prepare")
    expect(set(g.get_ready()), set(ref.get_ready()), "first get_ready")
    for k, i in enumerate(perm):
        expect(g.is_active(), ref.is_active(), "is_active")
        a, b = outcome(g.done, names(i)), outcome(ref.done, names(i))
        expect(a, b, f"done({names(i)!r})")
        if mask >> k & 1:
            a, b = g.get_ready(), ref.get_ready()
            if len(a) != len(b) or set(a) != set(b):
                fail(f"get_ready: {a!r}, graphlib gives {b!r}")
    while True:
        expect(g.is_active(), ref.is_active(), "is_active")
        expect(bool(g), bool(ref), "truth")
        if not ref.is_active():
            break
        a, b = g.get_ready(), ref.get_ready()
        if len(a) != len(b) or set(a) != set(b):
            fail(f"get_ready: {a!r}, graphlib gives {b!r}")
        out = [names(i) for i in range(n) if outcome(ref.done, names(i)) == ('ret', None)]
        for x in out:
            expect(outcome(g.done, x), ('ret', None), f"done({x!r})")
    for x in [names(i) for i in range(n)] + ["unknown"]:
        expect(outcome(g.done, x), ('exc', 'ValueError'), f"done({x!r}) at the end")


# ---- four nodes with progress, then a few changes ----

def progress_inits(tier):
    """Every DAG on 4 nodes (up to renaming) x every way of having worked some of it off."""
    out = []
    for n, edges in dags_up(4):
        base = tuple(('g', 'add', a) for a in range(4)) + tuple(('g', 'add', a, b) for a, b in edges)
        out.append(base + (('g', 'ready', 'D'),))
        preds = {i: {b for a, b in edges if a == i} for i in range(4)}
        first = [i for i in range(4) if not preds[i]]
        for mask in range(1, 2 ** len(first)):
            done = [f for k, f in enumerate(first) if mask >> k & 1]
            seq = base + (('g', 'ready', 'D'),) + tuple(('g', 'done', 'D', d) for d in done)
            out.append(seq)
            out.append(seq + (('g', 'ready', 'D'),))
    return out


class Progress(World):
    n = 4
    multi = False
    budget = {'reset': 0}

    def fresh(self, present):
        return present


# ---- the module run as a program ----

_program = []


def run_program(text, how):
    "('exit', what) or ('cycle',) or ('ok', lines printed)"
    import contextlib
    import io
    import os
    import sys
    import tempfile
    import big.graph
    if not _program:
        with open(big.graph.__file__) as f:
            _program.append(compile(f.read(), big.graph.__file__, "exec"))
    out = io.StringIO()
    argv, stdin = sys.argv, sys.stdin
    path = None
    try:
        sys.argv = ["graph.py"]
        sys.stdin = io.StringIO(text)
        if how == "-":
            sys.argv.append("-")
        elif how == "file":
            fd, path = tempfile.mkstemp(prefix="mc-tsort")
            os.write(fd, text.encode())
            os.close(fd)
            sys.argv.append(path)
            sys.stdin = io.StringIO("wrong input\n")
        with contextlib.redirect_stdout(out):
            try:
                exec(_program[0], {"__name__": "__main__", "__file__": big.graph.__file__})
            except SystemExit as e:
                return ('exit', e.code, out.getvalue())
            except ValueError as e:
                if type(e).__name__ != "CycleError":
                    raise
                return ('cycle', out.getvalue())
        return ('ok', out.getvalue())
    finally:
        sys.argv, sys.stdin = argv, stdin
        if path:
            os.unlink(path)


LINES = ["a b", "b a", "b c", "c a", " a\tc ", "", "a", "a b c", "dd b"]


def program_cases(tier):
    for k in range(0, 4 if tier == "quick" else 5):
        for w in itertools.product(LINES, repeat=k):
            for end in ("\n", ""):
                for how in ("stdin", "-", "file") if k < 3 else ("stdin",):
                    yield (w, end, how)


def check_program(case, st):
    "python -m big.graph: each line 'A B' says that B comes after A"
    lines, end, how = case
    text = "\n".join(lines) + (end if lines else "")
    got = run_program(text, how)
    what = f"big.graph run as a program on {text!r} ({how})"
    pairs = [l.split() for l in lines if l.strip()]
    st.transitions += len(pairs)
    if any(len(p) != 2 for p in pairs):
        if got[0] != 'exit' or got[1] in (None, 0) or got[2]:
            fail(f"{what}: got {got}, expected an error exit")
        return
    nodes = {x for p in pairs for x in p}
    preds = {x: {a for a, b in pairs if b == x} for x in nodes}
    if not acyclic(preds):
        if got[0] == 'ok' or got[1] in (None, 0):
            fail(f"{what}: got {got} for a cycle")
        return
    order = got[1].split("\n")
    if got[0] != 'ok' or order.pop() != "" or sorted(order) != sorted(nodes):
        fail(f"{what}: got {got}, expected each of {sorted(nodes)} once")
    for a, b in pairs:
        if order.index(a) > order.index(b):
            fail(f"{what}: printed {order}, though {b} comes after {a}")


PARTS = [
    Part("acyclic graphs", dag_cases, check_dag,
         bound="every labelled acyclic graph on up to 4 nodes (thorough: 5 nodes up to renaming), built in 3 ways: static_order; lockstep with graphlib for every order of done and every subset of get_ready calls (4, 5 nodes: two subsets)"),
    Search("ordered", Ordered, lambda tier: [()], depth=level(7, 8), bound="every history of up to 7 (8) operations on 3 nodes and the default view, exact states"),
    Search("fixpoint", Fixpoint, lambda tier: [()], bound="every history of any length with at most 2 removals and 1 reset on 3 nodes and the default view (fixpoint)"),
    Search("views", Views, thorough_only([()]), bound="thorough: any length, 2 nodes with self-loops, 2 removals, 1 reset, a second view"),
    Search("four nodes in progress", Progress, progress_inits, depth=level(2, 3), bound="every acyclic 4-node graph up to renaming in every early state of progress, followed by up to 2 (3) operations"),
    Part("program", program_cases, check_program, bound="every input of up to 3 [4] lines out of 9 (pairs, blank, malformed), with and without final newline, up to 2 also from a file"),
]
