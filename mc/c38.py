"""C38: pure virtual methods in every small class hierarchy, against the method resolution order."""
import inspect
import itertools
from .core import Part, fail, outcome
from big.builtin import pure_virtual

ASSUMPTIONS = ["the decorated function is a method: it has at least the instance (or class) as its argument"]

RAN = []

KINDS = ["absent", "pure", "real", "super"]


def base_lists(n):
    "ordered selections of up to two earlier classes"
    for k in range(0, 3):
        yield from itertools.permutations(range(n), k)


def hierarchies(n, first=()):
    if len(first) == n:
        yield first
        return
    for bases in base_lists(len(first)):
        for kind in KINDS:
            if kind == "super" and not bases:
                continue
            yield from hierarchies(n, first + ((bases, kind),))


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        yield from hierarchies(n)


def build(h):
    classes = []
    for i, (bases, kind) in enumerate(h):
        def pure(self, *a, i=i, **kw):
            "docs of pure"
            RAN.append(i)
        def real(self, *a, i=i, **kw):
            return [("real", i, a, tuple(sorted(kw.items())))]
        def sup(self, *a, i=i, **kw):
            return [("super", i)] + super(classes[i], self).f(*a, **kw)
        ns = {}
        if kind == "pure":
            pure.__name__ = "f"
            ns["f"] = pure_virtual()(pure)
        elif kind == "real":
            ns["f"] = real
        elif kind == "super":
            ns["f"] = sup
        try:
            classes.append(type(f"C{i}", tuple(classes[b] for b in bases), ns))
        except TypeError:
            return None        # no consistent method resolution order
    return classes


def resolve(h, mro, k, a, kw):
    "what calling f does, looked up in mro[k:]"
    for j in range(k, len(mro)):
        i = mro[j]
        kind = h[i][1]
        if kind == "pure":
            return ('exc', 'NotImplementedError')
        if kind == "real":
            return ('ret', [("real", i, a, tuple(sorted(kw.items())))])
        if kind == "super":
            r = resolve(h, mro, j + 1, a, kw)
            return r if r[0] == 'exc' else ('ret', [("super", i)] + r[1])
    return ('exc', 'AttributeError')


CALLS = [((), {}), ((1,), {}), ((1, 2), {"x": 3}), ((), {"y": 4})]


def check(h, st):
    classes = build(h)
    if classes is None:
        return
    st.states += 1
    del RAN[:]
    for n, c in enumerate(classes):
        mro = [classes.index(k) for k in c.__mro__ if k is not object]
        o = outcome(c)
        if o[0] != 'ret':
            fail(f"{h}: making an instance of class {n}: {o}")
        for a, kw in CALLS:
            want = resolve(h, mro, 0, a, kw)
            for how, f in (("instance", lambda: o[1].f(*a, **kw)), ("class", lambda: c.f(o[1], *a, **kw))):
                got = outcome(f)
                st.transitions += 1
                if got != want:
                    fail(f"classes {h}: calling f{a}{kw} of class {n} through the {how}: got {got}, expected {want}")
    if RAN:
        fail(f"classes {h}: the body of a pure virtual method ran")


# ---------------------------------------------------------------- every shape of function

PARAMS = ["", "a", "a, b=2", "*args", "a, *args, k, **kw", "a, /, b", "*, k=1", "**kw", "fn, name=3", "args, kwargs", "wrapper=None", "self_=None"]


def shape_check(case, st):
    p, name, doc, body, kind = case
    ns = {"pure_virtual": pure_virtual, "RAN": RAN}
    src = f"class A:\n    {kind}\n    @pure_virtual()\n    def {name}(self{', ' + p if p else ''}) -> int:\n        {doc}\n        {body}\n    X = 1\n"
    plain = src.replace("@pure_virtual()", "")
    del RAN[:]
    exec(src, ns)
    A = ns["A"]
    ns2 = {"RAN": []}
    exec(plain, ns2)
    B = ns2["A"]
    key = f"_A{name}" if name == "__f" else name
    f, g = getattr(A, key), getattr(B, key)
    for attr in ("__name__", "__doc__", "__qualname__", "__module__", "__annotations__"):
        if getattr(f, attr, None) != getattr(g, attr, None):
            fail(f"{src}: {attr} is {getattr(f, attr, None)!r}, the function's is {getattr(g, attr, None)!r}")
    if inspect.signature(f) != inspect.signature(g):
        fail(f"{src}: the signature is {inspect.signature(f)}, the function's is {inspect.signature(g)}")
    if not inspect.isroutine(f):
        fail(f"{src}: not a function")
    args = [(), (1,), (1, 2), (1, 2, 3)]
    kws = [{}, {"k": 1}, {"a": 1, "b": 2}, {"fn": 1, "name": 2, "args": 3, "kwargs": 4, "wrapper": 5}]
    for a, kw in itertools.product(args, kws):
        calls = [lambda: getattr(A(), key)(*a, **kw)]
        if not kind:
            calls.append(lambda: f(A(), *a, **kw))
            calls.append(lambda: f("anything", *a, **kw))
        else:
            calls.append(lambda: f(*a, **kw))
        for c in calls:
            got = outcome(c)
            st.transitions += 1
            if got != ('exc', 'NotImplementedError'):
                fail(f"{src}: called with {a} {kw}: got {got}")
    if RAN:
        fail(f"{src}: the body ran")


def shape_cases(tier):
    for p in PARAMS:
        for name in ("f", "__f", "_f", "on_reset", "__call__"):
            for doc in ("", "'docs'"):
                for body in ("...", "RAN.append(1)", "return 5", "yield RAN.append(1)"):
                    for kind in ("", "@classmethod"):
                        yield (p, name, doc, body, kind)


def many_check(case, st):
    "several pure virtual methods, made by one decorator or by several, don't get mixed up"
    names, shared = case
    one = pure_virtual()
    ns = {}
    for n in names:
        def f(self): RAN.append(n)
        f.__name__ = n
        f.__doc__ = "docs " + n
        f.__qualname__ = "A." + n
        f.mark = n
        ns[n] = (one if shared else pure_virtual())(f)
    A = type("A", (), ns)
    for done in itertools.product([0, 1], repeat=len(names)):
        B = type("B", (A,), {n: (lambda self, n=n: n) for n, d in zip(names, done) if d})
        for n, d in zip(names, done):
            got = outcome(getattr(B(), n))
            if got != (('ret', n) if d else ('exc', 'NotImplementedError')):
                fail(f"pure virtual methods {names} ({'one decorator' if shared else 'a decorator each'}), overridden {done}: calling {n} got {got}")
            st.transitions += 1
    for n in names:
        f = getattr(A, n)
        if (f.__name__, f.__doc__, f.mark) != (n, "docs " + n, n):
            fail(f"pure virtual methods {names}: {n} is called {f.__name__}, {f.__doc__}")


PARTS = [
    Part("hierarchies", cases, check, auto=False, bound="every hierarchy of up to 4 [5] classes with up to two bases each, the method absent, pure virtual, defined or calling super in each; 4 calls through instance and class"),
    Part("shapes", shape_cases, shape_check, bound="12 parameter lists x 5 names x docstring x 4 bodies x method or class method: metadata and 16 calls"),
    Part("several", lambda tier: [(names, s) for k in range(1, 5) for names in itertools.permutations("abcd", k) for s in (0, 1)], many_check, bound="up to 4 pure virtual methods, one decorator or several, every subset overridden"),
]
