"""C08: views and copies are independent."""
from .core import Part, fail, expect, outcome
from .search import Search, level, thorough_only
from .graphmodel import World, Side, NODES

ASSUMPTIONS = [
    "nodes are interchangeable: new nodes are named in one of two orders only",
    "in the unordered searches, states that differ only in the insertion order of dicts and sets are merged",
]


class Views(World):
    n = 2
    extra_views = ('V', 'W')
    budget = {'remove': 1, 'reset': 1, 'close': 1, 'view': 1, 'copyview': 1, 'truth': 0}


class Copies(World):
    n = 2
    extra_views = ('V',)
    graph_copies = 1
    budget = {'remove': 1, 'reset': 1, 'close': 0, 'view': 1, 'copyview': 0, 'truth': 0, 'add': 5}


class CopiesLong(World):
    n = 2
    graph_copies = 1
    selfloops = True
    budget = {'remove': 1, 'reset': 1, 'truth': 0}


class Deep(World):
    n = 3
    multi = False
    extra_views = ('V', 'W')
    graph_copies = 1
    budget = {'reset': 1, 'truth': 0}


class Progress(World):
    n = 3
    multi = False
    extra_views = ('V', 'W')
    graph_copies = 1
    budget = {'truth': 0, 'reset': 1, 'remove': 1}


def progress_inits(tier):
    """Small graphs with several views in various states."""
    out = []
    A, R, Dn = (lambda *a: ('g', 'add') + a), (lambda v: ('g', 'ready', v)), (lambda v, *n: ('g', 'done', v) + n)
    graphs = [(A(0), A(1), A(2, 0, 1)), (A(1, 0), A(2, 0)), (A(1, 0), A(2, 1)), (A(0), A(1), A(2))]
    V, CW = ('g', 'view', 'V'), ('g', 'copyview', 'V', 'W')
    work = [(), (R('V'),), (R('V'), Dn('V', 0)), (R('V'), Dn('V', 0), R('V')), (R('D'), Dn('D', 0)), (R('V'), R('D'), Dn('D', 0)),
            (R('V'), Dn('V', 0), CW), (R('V'), CW, Dn('V', 0)), (CW, R('W'), Dn('W', 0), R('V'))]
    for g in graphs:
        for w in work:
            out.append(g + (V,) + w)
    return out


# ---- copies of a graph at every moment of its life, then everything to either side ----

PARTS = [
    Search("views", Views, lambda tier: [()], depth=level(11, None), bound="every history of up to 11 (thorough: any length) operations on 2 nodes with at most 1 removal, 1 reset, 1 close, 1 new and 1 copied view (fixpoint)"),
    Search("graph copies", CopiesLong, lambda tier: [()], depth=level(8, None), bound="every history of up to 8 (thorough: any length) operations on 2 nodes with self-loops and their copies in one copied graph, 1 removal, 1 reset each side"),
    Search("copies with views", Copies, lambda tier: [()], depth=level(7, 11), bound="every history of up to 7 (12) operations on 2 nodes, a view and a graph copy"),
    Search("three nodes in progress", Progress, progress_inits, depth=level(3, 4), bound="36 starting points on 3 nodes with 2 or 3 views in various states, followed by up to 3 (4) operations including graph copies"),
    Search("three nodes", Deep, lambda tier: [()], depth=level(5, 7), bound="every history of up to 5 (7) operations on 3 nodes, views and graph copies"),
]
