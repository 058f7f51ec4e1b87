"""C06: a view is incoherent exactly when a handed-out node has an unfinished predecessor."""
from .core import Part, fail, expect, outcome
from .search import Search, level, thorough_only
from .graphmodel import World, Side, NODES
from .c05 import Progress, progress_inits

ASSUMPTIONS = [
    "nodes are interchangeable: new nodes are named in one of two orders only",
    "in the unordered searches, states that differ only in the insertion order of dicts and sets are merged",
]


class Resets(World):
    n = 3
    multi = False
    budget = {'remove': 1, 'reset': 2}


class Views(World):
    n = 3
    multi = False
    extra_views = ('V',)
    budget = {'remove': 1, 'reset': 1, 'close': 0, 'view': 1, 'copyview': 1, 'truth': 0}


class TwoNodes(World):
    n = 2
    extra_views = ('V',)
    budget = {'remove': 2, 'reset': 1, 'close': 0, 'view': 1, 'truth': 0}


class TwoNodesMore(World):
    n = 2
    selfloops = True
    extra_views = ('V', 'W')
    budget = {'remove': 1, 'reset': 1, 'close': 0, 'view': 1, 'copyview': 1}


class ProgressAll(Progress):
    """Conflicts in all four-node situations, resolved by removal or reset."""
    budget = {'reset': 1}


# ---- every pair of statuses, every set of conflicting edges, every way out ----

def table_cases(tier):
    import itertools
    # n1 successors and n2 predecessors in every combination of statuses, every set of edges between them
    shapes = [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if tier == "thorough" else [])
    for ns, np in shapes:
        pairs = [(s, ns + p) for s in range(ns) for p in range(np)]
        for status in itertools.product('wyd', repeat=ns + np):
            for mask in range(1, 2 ** len(pairs)):
                edges = tuple(e for i, e in enumerate(pairs) if mask >> i & 1)
                for order in itertools.permutations(edges):
                    yield (ns + np, status, order)
    if tier == "quick":
        for status in itertools.product('wyd', repeat=4):
            for mask in range(1, 16):
                pairs = [(s, 2 + p) for s in range(2) for p in range(2)]
                yield (4, status, tuple(e for i, e in enumerate(pairs) if mask >> i & 1))


def check_table(case, st):
    import itertools
    n, status, edges = case

    def start():
        s = Side()
        early = [i for i in range(n) if status[i] != 'w']
        for i in early:
            s.add(NODES[i], ())
        s.ready('D')
        s.done('D', [NODES[i] for i in early if status[i] == 'd'])
        for i in range(n):
            if status[i] == 'w':
                s.add(NODES[i], ())
        s.new_view('fresh')
        s.look()
        for a, b in edges:
            s.add(NODES[a], (NODES[b],))
            s.look()
        return s
    s = start()
    s.drain_all()
    s = start()
    s.copy().drain_all()
    # every sequence of removals that ends in coherence or an empty graph
    for k in range(1, n + 1):
        for victims in itertools.permutations(range(n), k):
            s = start()
            for v in victims:
                s.remove(NODES[v])
                s.look()
            st.transitions += 1
            if k < n:
                # the removed nodes come back unrelated
                s.add(NODES[victims[0]], ())
                s.look()
            s.drain_all()
    # reset, then progress again
    s = start()
    s.reset('D')
    s.look()
    s.ready('D')
    s.look()
    s.drain_all()


PARTS = [
    Part("conflict table", table_cases, check_table,
         bound="up to 2 successors x 2 predecessors in every combination of statuses, every set (and, but for 2x2 in the quick tier, order) of new edges, then every sequence of removals, or reset, or graph copy"),
    Search("resets", Resets, lambda tier: [()], bound="every history of any length with at most 1 removal and 2 resets on 3 nodes (fixpoint)"),
    Search("two views, two nodes", TwoNodes, lambda tier: [()], bound="every history of any length with at most 2 removals, 1 reset and 1 new view on 2 nodes (fixpoint)"),
    Search("three views, two nodes", TwoNodesMore, thorough_only([()]), bound="thorough: any length, 1 removal, 1 reset, 1 new and 1 copied view, 2 nodes with self-loops (fixpoint)"),
    Search("two views, three nodes", Views, lambda tier: [()], depth=level(7, 10), bound="every history of up to 7 (10) operations on 3 nodes and up to 2 extra views"),
    Search("four nodes in progress", ProgressAll, progress_inits, depth=level(2, 3), bound="every acyclic 4-node graph up to renaming in every early state of progress, followed by up to 2 (3) operations"),
]
