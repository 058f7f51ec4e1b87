"""
C09: StateManager's transition protocol.  Every callback (exit hook, observer, enter
hook) may do something unexpected; every history with a bounded number of such
deviations is run and the complete log of callbacks is compared with the model's.
"""
import itertools
from .core import Part, fail, expect
from big.state import StateManager, TransitionError, State

ASSUMPTIONS = ["callbacks act on the manager only through its public attributes"]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


STATES = "ABC"
HOOKS = {
    "default": ({}, "on_enter", "on_exit"),
    "custom": ({"on_enter": "enter", "on_exit": "leave"}, "enter", "leave"),
    "no enter": ({"on_enter": None}, None, "on_exit"),
    "no exit": ({"on_exit": ""}, "on_enter", None),
    "none": ({"on_enter": False, "on_exit": 0}, None, None),
    "swapped": ({"on_enter": "on_exit", "on_exit": "on_enter"}, "on_exit", "on_enter"),
}
# callback actions, harmless one first
ACTIONS = [("set", "A"), ("set", "B"), ("set", "C"), ("raise",), ("raise!",), ("obs+",), ("obs-",), ("obs=",), ("set!", "B"), ("set", None), ("hooks",)]
TOP = [("set", "A"), ("set", "B"), ("set", "C"), ("set", None), ("set", "wrong"), ("obs+",), ("obs-",), ("obs=",), ("hooks",)]


class Abort(BaseException):
    """The model's exception."""
    def __init__(self, kind):
        self.kind = kind


class Model:
    def __init__(self, hooks, checked, kinds, observers, deviations, limit=40):
        _, self.enter, self.exit = HOOKS[hooks]
        self.checked = checked
        self.kinds = kinds          # state -> names of its hooks
        self.state = self.next = None
        self.observers = []
        self.fresh = 0
        self.deviations = dict(deviations)
        self.log = []
        self.count = 0
        self.limit = limit

    def assign(self, x):
        if x is None:
            raise Abort(("ValueError", "TypeError") if self.checked else ("ValueError",))
        if x == "wrong" and self.checked:
            raise Abort(("TypeError",))
        if self.next is not None:
            raise Abort(("TransitionError",))
        if x == self.state:
            raise Abort(("TransitionError",))
        self.next = x
        try:
            if self.exit and self.exit in self.kinds.get(self.state, ()):
                self.call("exit", self.state)
            for o in list(self.observers):
                self.call("observer", o)
        except Abort:
            self.next = None
            raise
        self.state, self.next = x, None
        if self.enter and self.enter in self.kinds.get(x, ()):
            self.call("enter", x)

    def call(self, what, who):
        index = self.count
        self.count += 1
        self.log.append((what, who, self.state, self.next))
        if self.count > self.limit:
            return
        a = self.deviations.get(index)
        if a:
            self.act(a)

    def act(self, a):
        if a[0] == "set":
            try:
                self.assign(a[1])
                self.log.append(("ok", a[1], self.state, self.next))
            except Abort as e:
                if e.kind == ("BaseBoom",):
                    raise
                self.log.append(("refused", e.kind, self.state, self.next))
        elif a[0] == "set!":
            self.assign(a[1])
        elif a[0] == "raise":
            raise Abort(("Boom",))
        elif a[0] == "raise!":
            raise Abort(("BaseBoom",))
        elif a[0] == "obs+":
            self.observers.append(self.fresh); self.fresh += 1
        elif a[0] == "obs-":
            del self.observers[:1]
        elif a[0] == "obs=":
            # every observer replaced by another one that compares equal to it
            self.observers = [self.fresh + i for i in range(len(self.observers))]
            self.fresh += len(self.observers)
        elif a[0] == "hooks":
            # every state that has hooks loses them, and the other way around
            self.kinds = {x: () if k else self.all_hooks for x, k in self.kinds.items()}

    def top(self, a):
        """-> outcome of one top-level operation"""
        try:
            if a[0] == "set":
                self.assign(a[1])
            else:
                self.act(a)
            self.log.append(("ok", None, self.state, self.next))
        except Abort as e:
            self.log.append(("raised", e.kind, self.state, self.next))


class Real:
    def __init__(self, deviations, limit=40):
        self.log = []
        self.count = 0
        self.deviations = dict(deviations)
        self.fresh = 0
        self.limit = limit
        self.manager = None
        self.names = {}

    def view(self):
        m = self.manager
        return (self.name(m.state), self.name(m.next))

    def name(self, o):
        return None if o is None else o.label

    def call(self, what, who):
        index = self.count
        self.count += 1
        self.log.append((what, who) + self.view())
        if self.count > self.limit:
            return
        a = self.deviations.get(index)
        if a:
            self.act(a)

    def act(self, a):
        m = self.manager
        if a[0] == "set":
            try:
                m.state = self.target(a[1])
                self.log.append(("ok", a[1]) + self.view())
            except Exception as e:
                self.log.append(("refused", (type(e).__name__,)) + self.view())
        elif a[0] == "set!":
            m.state = self.target(a[1])
        elif a[0] == "raise":
            raise Boom()
        elif a[0] == "raise!":
            raise BaseBoom()
        elif a[0] == "obs+":
            m.observers.append(self.observer())
        elif a[0] == "obs-":
            del m.observers[:1]
        elif a[0] == "obs=":
            m.observers[:] = [self.observer() for _ in m.observers]
        elif a[0] == "hooks":
            for o in self.states.values():
                o.__class__ = self.other_class[type(o)]

    def observer(self):
        n = self.fresh
        self.fresh += 1
        return Observer(self, n)

    def target(self, x):
        return None if x is None else self.states[x]

    def top(self, a):
        try:
            if a[0] == "set":
                self.manager.state = self.target(a[1])
            else:
                self.act(a)
            self.log.append(("ok", None) + self.view())
        except (Exception, BaseBoom) as e:
            self.log.append(("raised", (type(e).__name__,)) + self.view())


class Observer:
    """All observers look the same: only identity tells them apart."""
    def __init__(self, real, n):
        self.real, self.n = real, n
    def __eq__(self, other):
        return True
    def __ne__(self, other):
        return False
    __hash__ = None
    def __call__(self, manager, *more, **kw):
        if manager is not self.real.manager or more or kw:
            fail(f"observer called with {(manager,) + more}, {kw}")
        self.real.call("observer", self.n)


def state_class(base, hooks, falsy):
    """A state class with the given hook names."""
    ns = {}
    if falsy:
        ns["__bool__"] = lambda self: False
        ns["__eq__"] = lambda self, other: True
        ns["__hash__"] = None
    def make(what):
        def hook(self, *a, **k):
            if a or k:
                fail(f"hook called with {a}, {k}")
            self.real.call(what, self.label)
        return hook
    for attr, what in hooks.items():
        ns[attr] = make(what)
    return type("S", base, ns)


KINDSETS = {
    # which states have which hooks
    "all": {s: True for s in STATES},
    "A bare": {"A": False, "B": True, "C": True},
    "B bare": {"A": True, "B": False, "C": True},
}


def hook_names(hooks):
    _, enter, exit_ = HOOKS[hooks]
    names = {}
    for n in ("on_enter", "on_exit", "enter", "leave"):
        what = "enter" if n == enter else "exit" if n == exit_ else "WRONG HOOK"
        names[n] = what
    return names


def model_for(config, deviations):
    hooks, checked, kindset, falsy, observers = config
    present = {s: (tuple(hook_names(hooks)) if KINDSETS[kindset][s] else ()) for s in STATES}
    present["wrong"] = ()
    m = Model(hooks, checked, present, observers, deviations)
    m.all_hooks = tuple(hook_names(hooks))
    m.pre = observers
    return m


def run_model(config, ops, deviations):
    m = model_for(config, deviations)
    m.top(("set", "A"))         # the constructor
    for _ in range(config[4]):
        m.act(("obs+",))
    for op in ops:
        m.top(op)
    return m


class Base:
    pass


def check(case, st):
    config, ops, deviations = case
    hooks, checked, kindset, falsy, observers = config
    m = run_model(config, ops, deviations)
    r = Real(deviations)
    class M(StateManager):
        def __init__(self, *a, **k):
            r.manager = self
            super().__init__(*a, **k)
    full = state_class((Base,), hook_names(hooks), falsy)
    bare = state_class((Base,), {}, falsy)
    wrong = state_class((), {}, falsy)
    wrong_full = state_class((), hook_names(hooks), falsy)
    r.other_class = {full: bare, bare: full, wrong: wrong_full, wrong_full: wrong}
    r.states = {}
    for s in STATES:
        o = full() if KINDSETS[kindset][s] else bare()
        o.label, o.real = s, r
        r.states[s] = o
    r.states["wrong"] = wrong()
    r.states["wrong"].label, r.states["wrong"].real = "wrong", r
    # like top(), but for the constructor
    try:
        M(r.states["A"], state_class=Base if checked else None, **HOOKS[hooks][0])
        r.log.append(("ok", None) + r.view())
    except (Exception, BaseBoom) as e:
        r.log.append(("raised", (type(e).__name__,)) + r.view())
        # no manager was made: the rest cannot happen
        compare(m.log[:len(r.log)], r.log, case)
        st.transitions += m.count
        return
    for _ in range(observers):
        r.act(("obs+",))
    for op in ops:
        r.top(op)
    compare(m.log, r.log, case)
    st.transitions += m.count


def compare(want, got, case):
    for i, (w, g) in enumerate(zip(want, got)):
        ok = w == g
        if not ok and w[0] in ("raised", "refused") and g[0] == w[0]:
            ok = g[1][0] in w[1] and g[2:] == w[2:]
        if not ok:
            fail(f"step {i}: expected {w}, got {g} as (what, who, state, next)\nexpected log {want}\ngot log      {got}")
    if len(want) != len(got):
        fail(f"expected log {want}\ngot log      {got}")


CONFIGS = [
    ("default", False, "all", True, 1),
    ("default", True, "A bare", False, 2),
    ("custom", False, "B bare", False, 1),
    ("custom", True, "all", True, 0),
    ("no enter", False, "all", False, 1),
    ("no exit", False, "all", False, 2),
    ("none", True, "all", True, 1),
    ("swapped", False, "all", False, 1),
]


def cases(tier):
    deep = tier == "thorough"
    for config in CONFIGS:
        for length, dev in ((1, 3), (2, 2), (3, 1), (4, 0)) if not deep else ((1, 3), (2, 3), (3, 2), (4, 1), (5, 0)):
            for ops in itertools.product(TOP, repeat=length):
                yield from deviate(config, ops, (), dev)


def deviate(config, ops, deviations, left):
    yield (config, ops, deviations)
    if not left:
        return
    m = run_model(config, ops, deviations)
    start = deviations[-1][0] + 1 if deviations else 0
    for i in range(start, min(m.count, 12)):
        for a in ACTIONS:
            yield from deviate(config, ops, deviations + ((i, a),), left - 1)


# ---- configuration checks ----

def config_cases(tier):
    for name in ("on_enter", "on_exit"):
        for v in ("not an identifier", "1x", "a.b", 3, ("x",), "x", "", None, 0, False, (), b"x"):
            yield (name, v)
    for v in ("3", "'x'", "int", "(int,)", "None", "object"):
        yield ("state_class", v)


def check_config(case, st):
    name, v = case
    if name == "state_class":
        v = eval(v)
    class S:
        log = []
        def x(self):
            self.log.append(name)
    s = S()
    try:
        StateManager(s, **{name: v})
        got = "ok"
    except (TypeError, ValueError) as e:
        got = type(e).__name__
    if name == "state_class":
        if v is None or v is object:
            expect(got, "ok", f"state_class={v!r}")
        else:
            expect(got, "TypeError", f"state_class={v!r}")
    elif not v:
        expect(got, "ok", f"{name}={v!r}")
    elif isinstance(v, str) and v.isidentifier():
        expect(got, "ok", f"{name}={v!r}")
        expect(S.log, [name] if name == "on_enter" else [], "hooks called by the constructor")
    else:
        expect(got, "ValueError", f"{name}={v!r}")


# ---- what states and hooks may be ----

MAKERS = {
    "big ints": lambda: int("1000" + "0" * 20),
    "floats": lambda: float("2.5"),
    "strings": lambda: "".join(["st", "ate"]),
    "empty lists": lambda: [],
    "lists": lambda: [1],
    "tuples": lambda: tuple([1, 2]),
    "dicts": lambda: {},
    "objects": object,
    "exceptions": lambda: ValueError("x"),
    "classes": lambda: type("S", (), {}),
    "functions": lambda: (lambda: None),
    "small ints": iter((1, 0, 2)).__next__,
    "booleans": iter((True, False, 1)).__next__,
}


def value_cases(tier):
    n = 4 if tier == "quick" else 6
    for name in MAKERS:
        for d in range(1, n + 1):
            for ops in itertools.product(range(3), repeat=d):
                for observers in range(2):
                    yield (name, ops, observers)


VALUES = {name: [make() for _ in range(3)] for name, make in MAKERS.items()}


def check_values(case, st):
    """Any object but None can be a state, and only the very same object is refused."""
    name, ops, observers = case
    values = VALUES[name]
    m = StateManager(values[0])
    cur = 0
    seen = []
    if observers:
        m.observers.append(lambda who: seen.append((who.state, who.next)))
    for op in ops:
        before = len(seen)
        try:
            m.state = values[op]
            got = "ok"
        except TransitionError:
            got = "refused"
        expect(got, "refused" if op == cur else "ok", f"from {values[cur]!r} to {values[op]!r} (number {cur} to {op})")
        if observers and got == "ok":
            expect(len(seen), before + 1, "calls of the observer")
            if seen[-1][0] is not values[cur] or seen[-1][1] is not values[op]:
                fail(f"the observer saw {seen[-1]}")
        elif len(seen) != before:
            fail("a refused transition was announced")
        cur = op
        if m.state is not values[cur] or m.next is not None:
            fail(f"state {m.state!r}, next {m.next!r}")
    st.transitions += len(ops)


class FalsyHook:
    """A hook that is callable and false, and equal to anything."""
    def __init__(self, f):
        self.f = f
    def __call__(self):
        return self.f()
    def __bool__(self):
        return False
    def __len__(self):
        return 0
    def __eq__(self, other):
        return True
    __hash__ = None


HOOK_KINDS = ("method", "class method", "static method", "instance attribute", "falsy callable", "property", "inherited", "__getattr__", "slot", "metaclass", "nothing", "None")


def hook_cases(tier):
    for kinds in itertools.product(HOOK_KINDS, repeat=2):
        for names in (("on_enter", "on_exit"), ("enter", "leave")):
            yield kinds + names


def hooked(kinds, names, log, label):
    """A state whose hooks are of the given kinds."""
    entries = list(zip(kinds, names))
    ns, bases, instance, dynamic, meta = {}, (), {}, {}, {}
    slots = [n for k, n in entries if k == "slot"]
    for k, n in entries:
        def f(n=n): log.append((label, n))
        if k == "method": ns[n] = (lambda f: lambda self: f())(f)
        elif k == "class method": ns[n] = classmethod((lambda f: lambda cls: f())(f))
        elif k == "static method": ns[n] = staticmethod(f)
        elif k in ("instance attribute", "slot"): instance[n] = f
        elif k == "falsy callable": instance[n] = FalsyHook(f)
        elif k == "property": ns[n] = property((lambda f: lambda self: f)(f))
        elif k == "inherited": bases += (type("P", (), {n: (lambda f: lambda self: f())(f)}),)
        elif k == "__getattr__": dynamic[n] = f
        elif k == "None": ns[n] = None
        elif k == "metaclass": meta[n] = (lambda f: lambda cls: f())(f)
    if dynamic:
        def __getattr__(self, n):
            try:
                return dynamic[n]
            except KeyError:
                raise AttributeError(n) from None
        ns["__getattr__"] = __getattr__
    if slots:
        ns["__slots__"] = tuple(slots) + (("__dict__",) if len(slots) < len(instance) else ())
    cls = type("Meta", (type,), meta)("S", bases, ns)
    s = cls()
    for n, f in instance.items():
        setattr(s, n, f)
    return s


def check_hooks(case, st):
    """A state has a hook if it has the attribute, however it comes by it."""
    *kinds, enter, leave = case
    log = []
    a, b = (hooked(kinds, (enter, leave), log, label) for label in "ab")
    # a metaclass's method is not an attribute of the instance
    has = [k not in ("nothing", "None", "metaclass") for k in kinds]
    m = StateManager(a, on_enter=enter, on_exit=leave)
    want = [("a", enter)] if has[0] else []
    expect(log, want, "hooks called by the constructor")
    for old, new, o in (("a", "b", b), ("b", "a", a)):
        m.state = o
        if has[1]: want.append((old, leave))
        if has[0]: want.append((new, enter))
        expect(log, want, f"hooks called up to the transition from {old} to {new}")
    # hooks of a state that is a class: those of the class itself
    m = StateManager(a, on_enter=None, on_exit=None)
    del log[:]
    m.state = b
    expect(log, [], "hooks called though both are off")


PARTS = [
    Part("configurations", config_cases, check_config, bound="valid and invalid hook names and state classes"),
    Part("transitions", cases, check, bound="8 configurations; every history of 1/2/3/4 operations of 9 with up to 3/2/1/0 (thorough 1-5 with 3/3/2/1/0) deviating callbacks of 11 kinds at any of the first 12 callback points"),
    Part("values as states", value_cases, check_values, bound="13 kinds of states, three (mostly equal) objects of each: every history of up to 4 (6) assignments, with and without an observer"),
    Part("kinds of hooks", hook_cases, check_hooks, bound="every pair of 12 ways a state may have, or lack, on_enter and on_exit, with default and other names"),
]
