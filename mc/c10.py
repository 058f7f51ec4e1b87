"""C10: accessor and dispatch, under every configuration, over histories of transitions and calls."""
import inspect
import itertools
from .core import Part, fail, expect, outcome
from big.state import StateManager, TransitionError, accessor, dispatch

ASSUMPTIONS = ["single thread"]


class Boom(Exception):
    pass


class MyStop(BaseException):
    pass


ATTRS = ("state", "st")
MANAGERS = ("state_manager", "sm", "_private")
AFFIXES = ("", "on_", "_event", "state", "x")


class S:
    """A state: records calls; every attribute starting with a known event name is a method."""
    def __init__(self, label, falsy=False):
        self.label = label
        self.calls = []
        self.falsy = falsy
        self.names = set()
    def __bool__(self):
        return not self.falsy
    def __eq__(self, other):
        return isinstance(other, S)
    __hash__ = None
    def __getattr__(self, name):
        if name.startswith("__") or name not in self.__dict__.get("names", ()):
            raise AttributeError(name)
        def method(*a, **k):
            self.calls.append((name, a, k))
            if k.get("boom") == 1:
                raise Boom(name)
            if k.get("boom") == 2:
                raise MyStop(name)
            if k.get("go") is not None:
                k["go"]()
            return (self.label, name, a, k)
        return method


def plain(self):
    "plain doc"
def args(self, a, b=2, *rest, c, d=4, **kw):
    "args doc"
def odd(this, /, self_=1, *, i=None, method=None, prefix=None):
    """odd
    doc"""
def annotated(self, a: int = 3) -> str: ...

EVENTS = {"plain": plain, "args": args, "odd": odd, "annotated": annotated}

# argument shapes; 'go' and 'boom' are interpreted by the state's method
CALLS = [((), {}), ((1,), {}), ((1, None), {"x": 0}), ((), {"i": 1, "method": 2, "prefix": 3, "state_manager": 4, "fn": 5}), (((),), {"a": {}}),
         ((), {"boom": 1}), ((False,), {"boom": 2})]


def config_cases(tier):
    for attr in ATTRS + (None,):
        for mgr in MANAGERS + (None,):
            for prefix in (None, "", "on_", "x"):
                for suffix in (None, "", "_event", "y"):
                    for reuse in (False, True):
                        yield (attr, mgr, prefix, suffix, reuse)


def make(attr, mgr, prefix, suffix, reuse, with_accessor=True):
    dk = {}
    if prefix is not None: dk["prefix"] = prefix
    if suffix is not None: dk["suffix"] = suffix
    da = () if mgr is None else (mgr,)
    if mgr is None:
        mgr_name = "state_manager"
    else:
        mgr_name = mgr
    shared = dispatch(*da, **dk)
    ns = {}
    for name, f in EVENTS.items():
        # a fresh function object each time
        g = type(f)(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
        g.__kwdefaults__ = f.__kwdefaults__
        g.__doc__ = f.__doc__
        g.__annotations__ = dict(f.__annotations__)
        g.__qualname__ = f"Machine.{name}"
        g.marker = name
        ns[name] = (shared if reuse else dispatch(*da, **dk))(g)
    M = type("Machine", (), ns)
    if with_accessor:
        ak = {}
        if attr is not None: ak["attribute"] = attr
        if mgr is not None: ak["state_manager"] = mgr
        r = accessor(**ak)(M)
        if r is not M:
            fail("accessor returned another class")
    return M, attr or "state", mgr_name


def check_config(case, st):
    attr, mgr, prefix, suffix, reuse = case
    M, attr, mgr = make(*case)
    # metadata
    for name, f in EVENTS.items():
        w = M.__dict__[name]
        expect(w.__name__, name, "name of a dispatched method")
        expect(w.__qualname__, f"Machine.{name}", "qualified name")
        expect(w.__doc__, f.__doc__, f"doc of {name}")
        expect(inspect.signature(w), inspect.signature(f), f"signature of {name}")
        expect(w.__annotations__, f.__annotations__, f"annotations of {name}")
        expect(w.__module__, f.__module__, f"module of {name}")
        expect(getattr(w, "marker", None), name, "attribute of the decorated function")
    a, b = M(), M()
    states = [S("A"), S("B", True), S("C")]
    names = [f"{prefix or ''}{n}{suffix or ''}" for n in EVENTS]
    for s in states:
        s.names.update(names)
    for m in (a, b):
        setattr(m, mgr, StateManager(states[0]))
    current = {id(a): 0, id(b): 0}
    for m, target in ((a, 1), (b, 2), (a, 0), (a, 2), (b, 1)):
        for who in (a, b):
            for name in EVENTS:
                for pa, pk in CALLS:
                    call_and_compare(who, name, f"{prefix or ''}{name}{suffix or ''}", states, current[id(who)], pa, pk)
                    st.transitions += 1
            if getattr(who, attr) is not states[current[id(who)]]:
                fail(f"accessor shows {getattr(who, attr).label}")
            if getattr(who, mgr).state is not states[current[id(who)]]:
                fail("manager shows another state")
        if target % 2:
            setattr(m, attr, states[target])
        else:
            getattr(m, mgr).state = states[target]
        current[id(m)] = target
    # assignments refused by the manager are refused by the accessor
    for bad, exc in ((states[current[id(a)]], "TransitionError"), (None, "ValueError")):
        expect(outcome(setattr, a, attr, bad), ('exc', exc), f"assigning {bad!r} through the accessor")
        if getattr(a, attr) is not states[current[id(a)]]:
            fail("a refused assignment changed the state")
    setattr(a, mgr, StateManager(states[1], state_class=S))
    expect(outcome(setattr, a, attr, 5), ('exc', 'TypeError'), "assigning a wrong class")
    if getattr(a, attr) is not states[1]:
        fail("the accessor does not follow a replaced manager")
    call_and_compare(a, "plain", f"{prefix or ''}plain{suffix or ''}", states, 1, (), {})
    # missing method
    states[1].names.clear()
    expect(outcome(a.plain), ('exc', 'AttributeError'), "dispatch to a method the state lacks")


def call_and_compare(who, name, real, states, cur, pa, pk):
    for s in states:
        s.calls.clear()
    try:
        got = ('ret', getattr(who, name)(*pa, **pk))
    except (Boom, MyStop) as e:
        got = ('exc', type(e).__name__, e.args)
    want = ('exc', 'Boom', (real,)) if pk.get("boom") == 1 else ('exc', 'MyStop', (real,)) if pk.get("boom") == 2 else ('ret', (states[cur].label, real, pa, pk))
    expect(got, want, f"{name}(*{pa}, **{pk})")
    for i, s in enumerate(states):
        expect(s.calls, [(real, pa, pk)] if i == cur else [], f"calls received by state {s.label}")
        for n, a, k in s.calls:
            if any(x is not y for x, y in zip(a, pa)) or any(k[x] is not pk[x] for x in pk):
                fail("an argument was replaced by an equal one")


# ---- histories: transitions (also from inside dispatched calls), bound methods kept across transitions ----

OPS = [("go", 0), ("go", 1), ("go", 2), ("call", "plain"), ("call", "args"), ("callgo", 0), ("callgo", 1), ("keep",), ("kept",), ("kept!",),
       ("other", 0), ("other", 1), ("swap",), ("direct", 1), ("raise",)]


def history_cases(tier):
    depth = 5 if tier == "quick" else 6
    for d in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=d):
            kept = 0
            for op in seq:
                if op[0] == "keep": kept = 1
                elif op[0].startswith("kept") and not kept: break
            else:
                yield seq


SHARED = make("st", "sm", "on_", None, True)


def check_history(case, st):
    M, attr, mgr = SHARED
    a, b = M(), M()
    states = [S(x) for x in "ABC"]
    for s in states:
        s.names.update({"on_plain", "on_args"})
    a.sm, b.sm = StateManager(states[0]), StateManager(states[1])
    cur = [0, 1]
    kept = None
    for op in case:
        k, *x = op
        if k in ("go", "direct", "other"):
            m, i = (b, 1) if k == "other" else (a, 0)
            got = outcome(setattr, m.sm if k == "direct" else m, "state" if k == "direct" else attr, states[x[0]])
            if cur[i] == x[0]:
                expect(got, ('exc', 'TransitionError'), f"{op}")
            else:
                expect(got, ('ret', None), f"{op}")
                cur[i] = x[0]
        elif k == "call":
            call_and_compare(a, x[0], "on_" + x[0], states, cur[0], (1,), {"z": None})
        elif k == "callgo":
            # the state's method makes a transition
            before = cur[0]
            def go():
                if cur[0] != x[0]:
                    a.st = states[x[0]]
                    cur[0] = x[0]
            call_and_compare(a, "args", "on_args", states, before, (), {"go": go})
            call_and_compare(a, "plain", "on_plain", states, cur[0], (), {})
        elif k == "keep":
            kept = (a.plain, 0)
        elif k == "kept":
            class Who: plain = staticmethod(kept[0])
            call_and_compare(Who, "plain", "on_plain", states, cur[kept[1]], ("k",), {})
        elif k == "kept!":
            class Who: plain = staticmethod(kept[0])
            call_and_compare(Who, "plain", "on_plain", states, cur[kept[1]], (), {"boom": 1})
        elif k == "swap":
            # the manager objects change places
            a.sm, b.sm = b.sm, a.sm
            cur.reverse()
        elif k == "raise":
            call_and_compare(b, "args", "on_args", states, cur[1], (), {"boom": 1})
        for m, i in ((a, 0), (b, 1)):
            if m.st is not states[cur[i]] or m.sm.state is not states[cur[i]]:
                fail(f"after {op}: accessor {m.st.label}, manager {m.sm.state.label}, expected {states[cur[i]].label}")
    st.transitions += len(case)


# ---- several accessors and inheritance ----

def inherit_cases(tier):
    for a1, m1, a2, m2 in itertools.product(("state", "one"), ("sm", "m1"), ("two", "other"), ("m2", "sm2")):
        for order in range(2):
            for sub in range(3):
                yield (a1, m1, a2, m2, order, sub)


def check_inherit(case, st):
    a1, m1, a2, m2, order, sub = case
    d1, d2 = dispatch(m1, prefix="p_"), dispatch(m2, suffix="_s")
    class M:
        @d1
        def first(self): "1"
        @d2
        def second(self): "2"
        @d1
        def both(self): "3"
    decs = [accessor(a1, m1), accessor(a2, m2)]
    if order: decs.reverse()
    if sub == 0:
        for d in decs: M = d(M)
    elif sub == 1:
        M = decs[0](M)
        class M(M): pass
        M = decs[1](M)
    else:
        for d in decs: M = d(M)
        class M(M):
            second = None
            @d2
            def first(self): "1b"
    m = M()
    x, y, z = (S(c) for c in "xyz")
    for s in (x, y, z):
        s.names.update({"p_first", "second_s", "first_s", "p_both"})
    setattr(m, m1, StateManager(x)); setattr(m, m2, StateManager(y))
    for _ in range(2):
        if getattr(m, a1) is not x or getattr(m, a2) is not y:
            fail("accessors mixed up")
        expect(m.first(), ("y", "first_s", (), {}) if sub == 2 else ("x", "p_first", (), {}), "first")
        expect(m.both(), ("x", "p_both", (), {}), "both")
        if sub != 2:
            expect(m.second(), ("y", "second_s", (), {}), "second")
        setattr(m, a1, z)
        if getattr(m, a1) is not z or getattr(m, a2) is not y or getattr(m, m1).state is not z:
            fail("assignment through an accessor went elsewhere")
        expect(m.both(), ("z", "p_both", (), {}), "both")
        setattr(m, a1, x)


# ---- where the manager is kept, and what was there before the accessor ----

class FalsyManager(StateManager):
    def __bool__(self): return False
    def __len__(self): return 0
    def __eq__(self, other): return True
    __hash__ = None


HOMES = ("instance", "slot", "class", "property", "__getattr__", "inherited slot", "instance over class")
BEFORE = ("nothing", "own value", "own property", "own method", "inherited value", "inherited property", "inherited accessor", "own accessor", "__getattr__ too")


def home_cases(tier):
    return itertools.product(HOMES, BEFORE, (StateManager, FalsyManager), ("state", "st"))


def check_home(case, st):
    """The accessor replaces whatever had its name, and follows the manager wherever it is."""
    home, before, manager, attr = case
    x, y, z = (S(c) for c in "xyz")
    for s in (x, y, z): s.names.add("event")
    decoy = manager(S("decoy"))
    m = manager(x)
    ns, pns = {}, {}
    if before == "own value": ns[attr] = 3
    elif before == "own property": ns[attr] = property(lambda self: 3)
    elif before == "own method": ns[attr] = lambda self: 3
    elif before == "inherited value": pns[attr] = 3
    elif before == "inherited property": pns[attr] = property(lambda self: 3)
    getattrs = {}
    if before == "__getattr__ too": getattrs[attr] = 3
    if home == "class": ns["sm"] = m
    elif home == "instance over class": ns["sm"] = decoy
    elif home == "property": ns["sm"] = property(lambda self: m)
    elif home == "__getattr__": getattrs["sm"] = m
    elif home == "slot": ns["__slots__"] = ("sm", "decoy"); pns["__slots__"] = ()
    elif home == "inherited slot": ns["__slots__"] = ("decoy",); pns["__slots__"] = ("sm",)
    if getattrs:
        def __getattr__(self, n):
            if n in getattrs: return getattrs[n]
            raise AttributeError(n)
        ns["__getattr__"] = __getattr__
    @dispatch("sm")
    def event(self): pass
    ns["event"] = event
    P = type("P", (), pns)
    if before == "inherited accessor": P = accessor(attr, "decoy")(P)
    C = type("C", (P,), ns)
    if before == "own accessor": C = accessor(attr, "decoy")(C)
    C = accessor(attr, "sm")(C)
    c = C()
    if "slot" in home or home.startswith("instance"): c.sm = m
    if "accessor" in before: c.decoy = decoy
    if getattr(c, attr) is not x:
        fail(f"the accessor shows {getattr(c, attr)!r}")
    for s in (y, z, x):
        setattr(c, attr, s)
        if getattr(c, attr) is not s or m.state is not s or c.sm is not m:
            fail("an assignment through the accessor did not reach the manager")
        expect(c.event(), (s.label, "event", (), {}), "dispatch")
        expect(outcome(setattr, c, attr, s), ('exc', 'TransitionError'), "assigning the current state")
    m.state = y
    if getattr(c, attr) is not y:
        fail("the accessor does not follow its manager")
    expect(c.event(), ("y", "event", (), {}), "dispatch")
    expect(decoy.state.label, "decoy", "the other manager's state")
    # a subclass may name another manager
    D = accessor(attr, "other")(type("D", (C,), {}))
    d = D()
    if "slot" in home or home.startswith("instance"): d.sm = manager(x)
    d.other = manager(z)
    if getattr(d, attr) is not z or getattr(c, attr) is not y:
        fail("the subclass's own accessor was not used")
    setattr(d, attr, x)
    if d.other.state is not x or d.sm.state is not (y if d.sm is m else x):
        fail("the subclass's accessor assigned to another manager")


PARTS = [
    Part("configurations", config_cases, check_config, bound="3x4 attribute names x 4x4 affixes x shared or separate decorator, 4 method signatures x 7 argument shapes on two machines through 5 transitions"),
    Part("histories", history_cases, check_history, bound="every history of up to 5 (thorough 6) of 15 operations on two machines"),
    Part("several accessors", inherit_cases, check_inherit, bound="two accessors and dispatchers in both orders, with and without subclassing"),
    Part("homes", home_cases, check_home, bound="7 places for the manager x 9 things the accessor replaces x plain and falsy managers x 2 names, and a subclass with an accessor of its own"),
]
