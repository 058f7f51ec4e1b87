"""C07: cycles are reported exactly when they exist, and what is reported is a cycle."""
from .core import Part, fail, expect, outcome
from .search import Search, level, thorough_only
from .graphmodel import World, Side, MView, NODES, acyclic, check_cycle
from big.graph import TopologicalSorter, CycleError

ASSUMPTIONS = [
    "in the unordered searches, states that differ only in the insertion order of dicts and sets are merged",
]


class Queries(World):
    n = 3
    selfloops = True
    multi = False
    cycle_ops = True
    budget = {'remove': 2, 'reset': 0, 'truth': 0, 'done': 0}


class Work(World):
    n = 3
    selfloops = True
    multi = False
    cycle_ops = True
    graph_copies = 2
    budget = {'remove': 1, 'reset': 1, 'truth': 0, 'becomecopy': 1, 'copygraph': 0, 'cycle': 1}


class Ordered(World):
    n = 3
    unordered = False
    selfloops = True
    cycle_ops = True
    graph_copies = 2
    budget = {'truth': 0, 'reset': 0, 'copygraph': 0}


class Two(World):
    n = 2
    selfloops = True
    cycle_ops = True
    graph_copies = 2
    extra_views = ('V',)
    budget = {'remove': 2, 'reset': 1, 'becomecopy': 1, 'copygraph': 0, 'view': 1, 'copyview': 0, 'close': 0, 'truth': 0}


# ---- every directed graph ----

def graph_cases(tier):
    for n in range(0, 5):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for mask in range(2 ** len(pairs)):
            yield (n, mask)
    if tier == "thorough":
        # five nodes without self-loops, at most 7 edges
        import itertools
        pairs = [(a, b) for a in range(5) for b in range(5) if a != b]
        for k in range(2, 7):
            for edges in itertools.combinations(pairs, k):
                yield (5, edges)


def edges_of(case):
    n, e = case
    if isinstance(e, tuple):
        return e
    pairs = [(a, b) for a in range(n) for b in range(n)]
    return [p for i, p in enumerate(pairs) if e >> i & 1]


NAMES = NODES + ('x',)


def side(case, variant):
    n = case[0]
    edges = edges_of(case)
    if variant == "dict":
        s = Side(TopologicalSorter({NAMES[i]: [NAMES[b] for a, b in edges if a == i] for i in range(n)}))
        s.m.preds = {NAMES[i]: {NAMES[b] for a, b in edges if a == i} for i in range(n)}
        s.m.views['D'].status = dict.fromkeys(s.m.preds, 'w')
        return s
    s = Side()
    for k, (a, b) in enumerate(edges if variant != "reversed" else list(edges)[::-1]):
        s.add(NAMES[a], (NAMES[b],))
        if variant == "asked":
            s.cycle()
    for i in range(n):
        s.add(NAMES[i], ())
    return s


def check_graph(case, st):
    n = case[0]
    for variant in ("dict", "reversed", "asked"):
        s = side(case, variant)
        s.cycle()
        s.ready('D')
        s.cycle()
        c = s.copy()
        c.cycle()
        c.ready('D')
        c.new_view('V')
        c.ready('V')
        s.new_view('V')
        s.ready('V')
        # every single removal ends or keeps the cycle
        if n <= 3:
            for i in range(n):
                for j in range(n):
                    s = side(case, variant)
                    s.ready('D')
                    s.remove(NAMES[i])
                    s.cycle()
                    s.ready('D')
                    if j != i:
                        s.remove(NAMES[j])
                        s.cycle()
                    s.drain_all()
                    st.transitions += 1
        else:
            i = sum(a + b for a, b in edges_of(case)) % n
            s.remove(NAMES[i])
            s.cycle()
            s.drain('D')
    if n == 4:
        for i in range(n):
            s = side(case, "dict")
            s.ready('D')
            s.remove(NAMES[i])
            s.cycle()
            s.ready('D')
            st.transitions += 1


PARTS = [
    Part("every graph", graph_cases, check_graph, bound="every directed graph with self-loops on up to 4 nodes (thorough: also 5 nodes, up to 6 edges), built in 3 ways; queries, views, copies and every removal"),
    Search("queries", Queries, lambda tier: [()], bound="every history of any length of edges, at most 2 removals, requests and cycle queries on 3 nodes with self-loops (fixpoint)"),
    Search("two nodes with copies", Two, lambda tier: [()], depth=level(11, None), bound="every history of up to 11 (thorough: any length) operations on 2 nodes with self-loops, 2 removals, 1 reset, 1 graph copy, 1 view (fixpoint)"),
    Search("ordered", Ordered, lambda tier: [()], depth=level(5, 6), bound="every history of up to 5 (6) operations on 3 nodes, exact states, with graph copies"),
    Search("work", Work, thorough_only([()]), bound="thorough: any length, 3 nodes with self-loops, 1 removal, 1 reset, 1 graph copy, 1 query (fixpoint)"),
]
