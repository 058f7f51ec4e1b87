"""
The reference model of TopologicalSorter: a dict node -> set of predecessors and,
per view, a dict node -> 'w'aiting / 'y'ielded / 'd'one.
"""
from .core import fail, expect, outcome, Violation
from big.graph import TopologicalSorter, CycleError


def acyclic(preds):
    left = {n: set(p) for n, p in preds.items()}
    while left:
        free = [n for n, p in left.items() if not (p & left.keys())]
        if not free:
            return False
        for n in free:
            del left[n]
    return True


def check_cycle(preds, cycle, what):
    """cycle is a sequence of distinct nodes, each a predecessor of the next, the last of the first."""
    try:
        c = list(cycle)
    except TypeError:
        fail(f"{what}: {cycle!r} is no sequence of nodes")
    if len(c) > 1 and c[0] == c[-1]:
        c.pop()     # graphlib's own notation repeats the first node
    if not c or len(set(c)) != len(c):
        fail(f"{what}: {cycle!r} does not list distinct nodes")
    for a, b in zip(c, c[1:] + c[:1]):
        if b not in preds or a not in preds[b]:
            fail(f"{what}: {cycle!r} is not a cycle: {a!r} is no predecessor of {b!r} in {preds!r}")


class MView:
    def __init__(self, status):
        self.status = status        # node -> 'w', 'y', 'd'

    def copy(self):
        return MView(dict(self.status))


class MGraph:
    def __init__(self):
        self.preds = {}
        self.views = {}             # name -> MView (open ones)

    def add(self, node, deps):
        for n in (node,) + tuple(deps):
            if n not in self.preds:
                self.preds[n] = set()
                for v in self.views.values():
                    v.status[n] = 'w'
        self.preds[node] |= set(deps)

    def remove(self, node):
        del self.preds[node]
        for p in self.preds.values():
            p.discard(node)
        for v in self.views.values():
            del v.status[node]

    def incoherent(self, v):
        return any(v.status[s] != 'w' and v.status[p] != 'd' for s, ps in self.preds.items() for p in ps)

    def ready(self, v):
        return {n for n, s in v.status.items() if s == 'w' and all(v.status[p] == 'd' for p in self.preds[n])}


class Side:
    """One real graph with its model.  View 'D' is the default one, driven through the graph."""

    def __init__(self, graph=None):
        self.m = MGraph()
        self.g = TopologicalSorter() if graph is None else graph
        self.v = {'D': self.g}
        self.m.views['D'] = MView({})
        self.closed = []

    def copy(self):
        new = Side(self.g.copy())
        new.m.preds = {n: set(p) for n, p in self.m.preds.items()}
        new.m.views['D'] = self.m.views['D'].copy()
        return new

    # -- operations --
    def add(self, node, deps):
        expect(self.g.add(node, *deps), None, "result of add")
        self.m.add(node, deps)

    def remove(self, node):
        got = outcome(self.g.remove, node)
        if node in self.m.preds:
            expect(got, ('ret', None), f"remove({node!r})")
            self.m.remove(node)
        else:
            expect(got, ('exc', 'ValueError'), f"remove({node!r}), not in the graph")

    def check_raised(self, call, what):
        """Run call; returns ('ret', value), 'RuntimeError', 'ValueError' or ('cycle', nodes)."""
        try:
            return ('ret', call())
        except CycleError as e:
            if len(e.args) < 2:
                fail(f"{what}: CycleError carries no cycle: {e.args!r}")
            return ('cycle', e.args[1])
        except RuntimeError:
            return 'RuntimeError'
        except ValueError:
            return 'ValueError'

    def ready(self, name):
        """One request for ready nodes."""
        v, mv = self.v[name], self.m.views[name]
        what = f"ready() of view {name}"
        got = self.check_raised(v.ready, what)
        bad = self.m.incoherent(mv)
        cyc = not acyclic(self.m.preds)
        if got[0] == 'cycle' and cyc:
            check_cycle(self.m.preds, got[1], what)
            return
        if bad:
            expect(got, 'RuntimeError', f"{what}, incoherent")
            return
        if cyc:
            fail(f"{what} of a cyclic graph: got {got!r}, expected CycleError")
        want = self.m.ready(mv)
        if got[0] != 'ret':
            fail(f"{what}: got {got!r}, expected {want!r}")
        nodes = list(got[1])
        if len(nodes) != len(want) or set(nodes) != want:
            fail(f"{what}: got {nodes!r}, expected {sorted(want, key=repr)!r}")
        for n in want:
            mv.status[n] = 'y'

    def done(self, name, nodes):
        v, mv = self.v[name], self.m.views[name]
        what = f"done{tuple(nodes)!r} of view {name}"
        got = self.check_raised(lambda: v.done(*nodes), what)
        if self.m.incoherent(mv):
            expect(got, 'RuntimeError', f"{what}, incoherent")
            return
        for n in nodes:
            if mv.status.get(n) != 'y':
                expect(got, 'ValueError', f"{what}, {n!r} not handed out")
                return
            mv.status[n] = 'd'
        expect(got, ('ret', None), what)

    def truth(self, name):
        v, mv = self.v[name], self.m.views[name]
        got = outcome(bool, v)
        if self.m.incoherent(mv):
            expect(got, ('exc', 'RuntimeError'), f"truth of incoherent view {name}")
        else:
            expect(got, ('ret', any(s != 'd' for s in mv.status.values())), f"truth of view {name}")

    def reset(self, name):
        expect(self.v[name].reset(), None, "result of reset")
        mv = self.m.views[name]
        for n in mv.status:
            mv.status[n] = 'w'

    def new_view(self, name):
        self.v[name] = self.g.view()
        self.m.views[name] = MView(dict.fromkeys(self.m.preds, 'w'))

    def copy_view(self, source, name):
        v = self.v[source]
        self.v[name] = v.copy()
        self.m.views[name] = self.m.views[source].copy()

    def close_view(self, name):
        v = self.v.pop(name)
        del self.m.views[name]
        expect(v.close(), None, "result of close")
        self.closed = [v]

    def cycle(self):
        got = self.g.cycle()
        if acyclic(self.m.preds):
            expect(got, None, "cycle() of an acyclic graph")
        elif got is None:
            fail(f"cycle() is None, but the graph has a cycle: {self.m.preds!r}")
        else:
            check_cycle(self.m.preds, got, "cycle()")
        got = self.check_raised(self.g.check_for_cycles, "check_for_cycles()")
        if acyclic(self.m.preds):
            expect(got, ('ret', None), "check_for_cycles() of an acyclic graph")
        elif got[0] != 'cycle':
            fail(f"check_for_cycles() of a cyclic graph: {got!r}")
        else:
            check_cycle(self.m.preds, got[1], "CycleError")

    # -- observation --
    def look(self):
        expect(len(self.g), len(self.m.preds), "number of nodes")
        for name in self.v:
            self.truth(name)
        for v in self.closed:
            for what, f in (("bool", lambda: bool(v)), ("ready", v.ready), ("done", v.done), ("done(node)", lambda: v.done(0)),
                            ("reset", v.reset), ("close", v.close), ("copy", v.copy)):
                expect(outcome(f), ('exc', 'ValueError'), f"{what} of a closed view")

    def drain(self, name):
        """Work the view off."""
        mv = self.m.views[name]
        for _ in range(2 * len(mv.status) + 2):
            if self.m.incoherent(mv):
                self.done(name, ())
                self.ready(name)
                self.truth(name)
                self.reset(name)
            self.truth(name)
            self.ready(name)
            self.ready(name)
            for n in [n for n, s in mv.status.items() if s == 'y']:
                self.done(name, (n,))
            self.done(name, ())
            self.truth(name)
        if acyclic(self.m.preds) and any(s != 'd' for s in mv.status.values()):
            fail(f"view {name} never finishes: {mv.status}")

    def drain_all(self):
        self.look()
        for name in list(self.v):
            self.drain(name)
        self.cycle()
        if acyclic(self.m.preds):
            order = list(self.g.static_order())
            position = {n: i for i, n in enumerate(order)}
            if len(order) != len(self.m.preds) or set(order) != set(self.m.preds):
                fail(f"static_order() {order!r} of nodes {sorted(self.m.preds, key=repr)!r}")
            for n, ps in self.m.preds.items():
                for p in ps:
                    if position[p] > position[n]:
                        fail(f"static_order() {order!r}: {p!r} must precede {n!r}")
        else:
            got = self.check_raised(lambda: list(self.g.static_order()), "static_order()")
            if got[0] != 'cycle':
                fail(f"static_order() of a cyclic graph: {got!r}")


# false and equal-looking names, so that truth tests of nodes show
NODES = (0, '', None, ('t',))


class World:
    """The state space of one or two graphs; op literals are (kind, ...)."""
    n = 3
    selfloops = False
    unordered = True
    multi = True
    extra_views = ()        # names of views that may be made besides 'D'
    graph_copies = False
    cycle_ops = False
    budget = {}             # kind -> how many of these operations a history may have

    def __init__(self, init):
        self.left = dict(self.budget)
        self.sides = {'g': Side()}
        for op in init:
            self.step(op)

    def ops(self):
        nodes = range(self.n)
        out = []
        for side in sorted(self.sides):
            s = self.sides[side]
            present = [i for i in nodes if NODES[i] in s.m.preds]
            # nodes are interchangeable: a new name is the next unused one
            names = [i for i in nodes if i < len(present) + 1 or NODES[i] in s.m.preds] if not self.symmetric() else self.fresh(present)
            for a in names:
                if a not in present:
                    out.append((side, 'add', a))
                for b in names:
                    if b != a or self.selfloops:
                        if a in present and b in present and NODES[b] in s.m.preds[NODES[a]]:
                            continue
                        out.append((side, 'add', a, b))
                if self.multi:
                    for b in names:
                        for c in names:
                            if a < b < c or (len(names) == self.n and b < c and a not in (b, c) and not (a in present and b in present and c in present)):
                                out.append((side, 'add', a, b, c))
            for a in present:
                out.append((side, 'remove', a))
            out += self.view_ops(side, s, present)
            if self.cycle_ops:
                out.append((side, 'cycle'))
        if self.graph_copies and len(self.sides) == 1:
            out.append(('g', 'copygraph'))
            if self.graph_copies == 2:
                out.append(('g', 'becomecopy'))
        return [op for op in out if self.left.get(op[1], 1)]

    def symmetric(self):
        return True

    def fresh(self, present):
        unused = [i for i in range(self.n) if i not in present]
        return present + unused[:2]

    def view_ops(self, side, s, present):
        out = []
        for v in sorted(s.v):
            out.append((side, 'ready', v))
            out.append((side, 'truth', v))
            st = s.m.views[v].status
            given = [i for i in present if st[NODES[i]] == 'y']
            for i in given:
                out.append((side, 'done', v, i))
            if len(given) > 1:
                out.append((side, 'done', v) + tuple(given))
            # refused ones: must change nothing
            for i in range(self.n):
                if i not in given:
                    out.append((side, 'done', v, i))
                    break
            out.append((side, 'reset', v))
            if given:
                out.append((side, 'done', v, given[0], given[0]))
        for name in self.extra_views:
            if name not in s.v:
                out.append((side, 'view', name))
                for v in sorted(s.v):
                    if v != 'D':
                        out.append((side, 'copyview', v, name))
                break
        for v in sorted(s.v):
            if v != 'D':
                out.append((side, 'close', v))
        return out

    def step(self, op):
        side, kind, *a = op
        if kind in self.left:
            self.left[kind] -= 1
        s = self.sides[side]
        if kind == 'add':
            s.add(NODES[a[0]], [NODES[i] for i in a[1:]])
        elif kind == 'remove':
            s.remove(NODES[a[0]])
        elif kind == 'ready':
            s.ready(a[0])
        elif kind == 'done':
            s.done(a[0], [NODES[i] for i in a[1:]])
        elif kind == 'reset':
            s.reset(a[0])
        elif kind == 'truth':
            s.truth(a[0])
        elif kind == 'view':
            s.new_view(a[0])
        elif kind == 'copyview':
            s.copy_view(a[0], a[1])
        elif kind == 'close':
            s.close_view(a[0])
        elif kind == 'cycle':
            s.cycle()
        elif kind == 'copygraph':
            self.sides['h'] = s.copy()
        elif kind == 'becomecopy':
            self.sides['g'] = s.copy()
        else:
            raise AssertionError(op)
        if kind != 'close':
            for x in self.sides.values():
                x.closed = []

    def finish(self):
        for x in self.sides.values():
            x.drain_all()
        for x in self.sides.values():
            x.look()
