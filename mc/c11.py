"""C11: bound inner classes over all small inheritance graphs, orders of access and access paths."""
import abc
import copy
import gc
import itertools
import weakref
from .core import Part, fail, expect, outcome
import big.boundinnerclass
from big.boundinnerclass import BoundInnerClass, UnboundInnerClass

ASSUMPTIONS = ["single thread (the documented race is excluded)", "inner classes keep their names and are reachable under them (documented rule)"]

NAMES = "ABCDE"


class Falsy(type):
    "a metaclass whose classes are false and odd about equality"
    def __bool__(cls):
        return False


class Len0(abc.ABCMeta):
    def __len__(cls):
        return 0


METAS = (type, Falsy, Len0)


def make_init(i, kind, log):
    # closures over nothing but the log and the class cell
    def build(cls_ref):
        if kind == "B":
            def __init__(self, outer, *args, **kw):
                log.append((i, outer, args, kw))
                super(cls_ref[0], self).__init__(*args, **kw)
        else:
            def __init__(self, *args, **kw):
                log.append((i, None, args, kw))
                super(cls_ref[0], self).__init__(*args, **kw)
        return __init__
    return build


class Root:
    "swallows the arguments at the end of the chain"
    def __init__(self, *args, **kw):
        pass


class Equal:
    "an outer that is false, equals everything and cannot be hashed"
    def __bool__(self):
        return False
    def __len__(self):
        return 0
    def __eq__(self, other):
        return True
    __hash__ = None


DECORATE = {"B": BoundInnerClass, "U": UnboundInnerClass, "P": lambda c: c}


def build(spec, log, meta=type, outer_base=object):
    """
    spec: tuple of (kind, own init, base indices, outer index).
    -> plain classes, outer classes (each deriving from the one before), or None if Python refuses the graph
    """
    plain = []
    spaces = [{}, {}]
    for i, (kind, own, bases, where) in enumerate(spec):
        ref = []
        ns = {"__doc__": f"doc {i}", "__qualname__": f"Outer{where + 1}.{NAMES[i]}", "__annotations__": {f"a{i}": int}}
        if own:
            ns["__init__"] = make_init(i, kind, log)(ref)
        try:
            c = meta(NAMES[i], tuple(plain[b] for b in bases) or (Root,), ns)
        except TypeError:
            return None
        ref.append(c)
        plain.append(c)
        spaces[where][NAMES[i]] = DECORATE[kind](c)
    o1 = type("Outer1", (outer_base,), spaces[0])
    o2 = type("Outer2", (o1,), spaces[1])
    return plain, (o1, o2)


def base_choices(i):
    yield ()
    for n in (1, 2):
        yield from itertools.permutations(range(i), n)


def specs(n, kinds="BUP", inits=(True, False), wheres=(0, 1)):
    def rec(i, acc):
        if i == n:
            yield tuple(acc)
            return
        for bases in base_choices(i):
            lo = max([acc[b][3] for b in bases], default=0)
            for kind in kinds:
                if kind == "P" and any(acc[b][0] != "P" for b in bases):
                    continue    # rule: descendants of bound classes must be decorated
                for own in inits:
                    for where in wheres:
                        if where < lo:
                            continue
                        yield from rec(i + 1, acc + [(kind, own, bases, where)])
    return rec(0, [])


def init_owner(plain, spec, i):
    for c in plain[i].__mro__:
        if c in plain and spec[plain.index(c)][1]:
            return plain.index(c)
    return None


def usable(plain, spec):
    # a bound class without an __init__ of its own must not inherit one that does not take the outer
    for i, s in enumerate(spec):
        if s[0] == "B" and not s[1]:
            o = init_owner(plain, spec, i)
            if o is None or spec[o][0] != "B":
                return False
    return True


def direct_calls(bound, plain, spec):
    """
    The constructors that run if a bound class without a constructor calls its
    inherited one directly instead of the next one in line (known finding).
    """
    ran = []
    mro = bound.__mro__
    pos = 0
    while pos < len(mro):
        c = mro[pos]
        pos += 1
        if c in plain:
            j = plain.index(c)
            if spec[j][1]:
                ran.append(j)
        elif c.__bases__[0] in plain:
            j = plain.index(c.__bases__[0])
            if spec[j][0] == "B":
                z = init_owner(plain, spec, j)
                ran.append(z)
                pos = mro.index(plain[z]) + 1
    return ran


def check_instance(o, other, i, plain, spec, log, what):
    """everything that must hold of o.X for the i-th class."""
    kind = spec[i][0]
    name = NAMES[i]
    bound = getattr(o, name)
    if kind == "P":
        if bound is not plain[i]:
            fail(f"{what}: a plain inner class changed")
    else:
        if bound is plain[i]:
            fail(f"{what}: the inner class is not bound")
        if not issubclass(bound, plain[i]):
            fail(f"{what}: the bound class is no subclass of the plain one")
        expect((bound.__name__, bound.__doc__, bound.__module__), (name, f"doc {i}", plain[i].__module__), f"{what}: name, doc, module")
        expect((bound.__qualname__, bound.__annotations__), (f"Outer{spec[i][3] + 1}.{name}", {f"a{i}": int}), f"{what}: qualified name, annotations")
    for (args, kw) in (((), {}), ((1, None), {"k": 2, "self_": 3})):
        del log[:]
        inst = bound(*args, **kw)
        if type(inst) is not bound:
            fail(f"{what}: the instance is a {type(inst)}")
        want = [j for c in plain[i].__mro__ if c in plain for j in [plain.index(c)] if spec[j][1]]
        ran = [e[0] for e in log]
        if ran != want:
            known = ran == direct_calls(bound, plain, spec) and any(k == "B" and not own for k, own, _, _ in spec)
            expect(ran, want, f"{what}: constructors that ran", "inherited-constructor-in-diamond" if known else None)
        for j, got, a, k in log:
            if spec[j][0] == "B":
                if got is not o:
                    fail(f"{what}: constructor of {NAMES[j]} got {got!r} instead of its outer instance")
            expect((a, k), (args, kw), f"{what}: arguments of constructor {NAMES[j]}")
        del log[:]
        for j in range(len(plain)):
            rel = issubclass(plain[i], plain[j])
            b2 = getattr(o, NAMES[j])
            expect(issubclass(bound, plain[j]), rel, f"{what}: issubclass(bound {name}, plain {NAMES[j]})")
            expect(issubclass(bound, b2), rel, f"{what}: issubclass(bound {name}, bound {NAMES[j]})")
            expect(isinstance(inst, b2), rel, f"{what}: isinstance(bound {name}, bound {NAMES[j]})")
            if spec[j][0] != "P":
                expect(issubclass(bound, getattr(other, NAMES[j])), False, f"{what}: issubclass across instances")
                expect(isinstance(inst, getattr(other, NAMES[j])), False, f"{what}: isinstance across instances")
        if kind == "P":
            break
    r = repr(inst)
    if "object bound to" in r and repr(o) not in r:
        fail(f"{what}: repr {r}")


def hierarchy_case(case, st):
    spec, order, meta, mode = case
    log = []
    made = build(spec, log, METAS[meta], Equal if mode % 2 else object)
    if made is None or not usable(made[0], spec):
        st.bump("graphs Python or the documented rules refuse")
        return
    plain, outers = made
    live = range(len(plain))
    o, p = outers[1](), outers[1]()
    refs = {}
    # interleave the two instances, the second one in the opposite order
    for i, j in zip(order, reversed(order)):
        refs["o", i] = getattr(o, NAMES[i])
        refs["p", j] = getattr(p, NAMES[j])
        if mode >= 2:
            del log[:]
            refs["o", i]()
            del log[:]
    for i in live:
        for outer in outers:
            if spec[i][3] == 0 or outer is outers[1]:
                if getattr(outer, NAMES[i]) is not plain[i]:
                    fail(f"{outer.__name__}.{NAMES[i]} is not the plain class")
        for n, x in (("o", o), ("p", p)):
            for _ in range(2):
                if getattr(x, NAMES[i]) is not refs[n, i]:
                    fail(f"{n}.{NAMES[i]} changed between accesses")
        if spec[i][0] != "P" and refs["o", i] is refs["p", i]:
            fail("two instances share a bound class")
    for i in live:
        check_instance(o, p, i, plain, spec, log, f"o.{NAMES[i]}")
        check_instance(p, o, i, plain, spec, log, f"p.{NAMES[i]}")
    del log[:]
    # an instance of the base outer class
    q = outers[0]()
    for i in live:
        expect(hasattr(q, NAMES[i]), spec[i][3] == 0, "inner class of the derived outer class in the base one")
    # nothing keeps the outer instances alive, not even their classes
    w = [weakref.ref(x) for x in (o, p, q)]
    o = p = q = x = None
    if any(r() is not None for r in w):
        gc.collect()
    if any(r() is not None for r in w):
        fail("an outer instance is kept alive by its bound classes")


def hierarchies(tier):
    t = tier != "quick"
    for n in (1, 2, 3):
        for spec in specs(n):
            for mode in (0, 3) if n == 3 and not t else range(4):
                for order in itertools.permutations(range(n)):
                    yield (spec, order, 0, mode)
    for n in (2, 3):
        for spec in specs(n, inits=(True,), wheres=(0,)):
            for meta in (1, 2):
                yield (spec, tuple(reversed(range(n))), meta, 0)
    for spec in specs(4, inits=(True,), wheres=(0,), kinds="BUP" if t else "BU"):
        for order in itertools.permutations(range(4)) if t else ((0, 1, 2, 3), (3, 2, 1, 0), (2, 3, 0, 1)):
            yield (spec, order, 0, 0)


# ---------------------------------------------------------------------------
# Sequences of accesses along different paths.
#
# Outer has Inner, Child(Inner), Un(Inner), alias = Inner; Sub(Outer) has its own
# Inner (a plain override, or deriving from Outer's), Late(Outer.Child).

def world(variant):
    log = []

    class Outer(Equal if variant & 4 else object):
        @BoundInnerClass
        class Inner:
            def __init__(self, outer, *a):
                log.append(("Inner", outer, a))
        alias = Inner
        @BoundInnerClass
        class Child(Inner.cls):
            def __init__(self, outer, *a):
                log.append(("Child", outer, a))
                super(Outer.Child, self).__init__(*a)
        @UnboundInnerClass
        class Un(Child.cls):
            def __init__(self, *a):
                log.append(("Un", None, a))
                super(Outer.Un, self).__init__(*a)
        calias = Child
        ualias = Un

    if variant & 1:
        class Sub(Outer):
            @BoundInnerClass
            class Un(Outer.Child):
                def __init__(self, outer, *a):
                    log.append(("SubUn", outer, a))
                    super(Sub.Un, self).__init__(*a)
            @BoundInnerClass
            class Late(Un.cls):
                def __init__(self, outer, *a):
                    log.append(("Late", outer, a))
                    super(Sub.Late, self).__init__(*a)
    else:
        class Sub(Outer):
            @UnboundInnerClass
            class Late(Outer.Un):
                def __init__(self, *a):
                    log.append(("Late", None, a))
                    super(Sub.Late, self).__init__(*a)
    if variant & 2:
        Sub.alias2 = Outer.__dict__["Un"]
        Outer.inherited = Outer.__dict__["Child"]
    return log, Outer, Sub


# (path, attribute)
ACCESS = [("o", "Inner"), ("o", "alias"), ("o", "Child"), ("o", "calias"), ("o", "Un"), ("o", "ualias"), ("o", "Late"),
          ("super", "Inner"), ("super", "Un"), ("super", "Child"), ("p", "Un"), ("class", "Un")]


def target(variant, path, name):
    """the name of the class that an access denotes"""
    name = {"alias": "Inner", "calias": "Child", "ualias": "Un*"}.get(name, name)
    if name == "Un" and variant & 1 and path != "super":
        return "SubUn"
    return "Un" if name == "Un*" else name


CHAIN = {"Inner": ["Inner"], "Child": ["Child", "Inner"], "Un": ["Un", "Child", "Inner"], "SubUn": ["SubUn", "Child", "Inner"]}


def paths_case(case, st):
    variant, ops = case
    log, Outer, Sub = world(variant)
    o, p = Sub(), Sub()
    CH = dict(CHAIN, Late=["Late", "SubUn", "Child", "Inner"] if variant & 1 else ["Late", "Un", "Child", "Inner"])
    plain = {"Inner": Outer.Inner, "Child": Outer.Child, "Un": Outer.Un, "Late": Sub.Late, "SubUn": Sub.Un}
    seen = {}
    for path, name in ops:
        t = target(variant, path, name)
        if path == "class":
            if getattr(Sub, name) is not plain[t]:
                fail(f"Sub.{name} is not the plain class")
            continue
        x = p if path == "p" else o
        got = getattr(super(Sub, o), name) if path == "super" else getattr(x, name)
        if got is plain[t] or not issubclass(got, plain[t]):
            fail(f"{path}.{name} is {got} with the wrong base")
        before = seen.setdefault((path == "p", t), got)
        if before is not got:
            fail(f"{path}.{name} is not the same class as before")
        if seen.get((path != "p", t)) is got:
            fail(f"{path}.{name} is shared between instances")
        del log[:]
        inst = got(7)
        expect([l[0] for l in log], CH[t], f"constructors of {path}.{name}")
        for l in log:
            bound = l[0] in ("Inner", "Child", "SubUn") or l[0] == "Late" and variant & 1
            if bound and l[1] is not x:
                fail(f"constructor of {l[0]} did not get the outer instance")
            expect(l[2], (7,), f"arguments of constructor {l[0]}")
        for (other, u), c in seen.items():
            rel = other == (path == "p") and u in CH[t]
            # a class that overrides the name of another one is bound, and hides it
            expect(issubclass(got, c), rel, f"issubclass({path}.{name}, bound {u})")
    del log[:]
    w = [weakref.ref(o), weakref.ref(p)]
    inst = x = o = p = l = None
    if any(r() is not None for r in w):
        gc.collect()
    if any(r() is not None for r in w):
        fail("an outer instance is kept alive by its bound classes")


def path_cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for variant in range(8):
            for ops in itertools.product(ACCESS, repeat=n):
                yield (variant, ops)


# ---------------------------------------------------------------------------
# Copies of the outer object have bound classes of their own.

class Copied:
    @BoundInnerClass
    class B:
        def __init__(self, outer):
            self.seen = [outer]

    @BoundInnerClass
    class S(B.cls):
        def __init__(self, outer):
            super().__init__()
            self.seen.append(outer)

    @UnboundInnerClass
    class U(S.cls):
        pass

    alias = S


class EqualCopied(Equal, Copied):
    pass


COPYING = {"copy": copy.copy, "deepcopy": copy.deepcopy}


def copied_dict(o):
    c = type(o)()
    c.__dict__.update(o.__dict__)
    return c


COPYING["dict"] = copied_dict


def copies_cases(tier):
    ops = [("get", k, name) for k in range(3) for name in ("B", "S", "U", "alias")] + [(how, k) for k in range(2) for how in COPYING] + [("forget", k) for k in range(2)]
    last = [op for op in ops if op[0] == "get"]
    n = 3 if tier == "quick" else 4
    for length in range(1, n + 1):
        for seq in itertools.product(ops, repeat=length):
            made = 1
            for op in seq:
                if op[1] >= made:
                    break
                made += op[0] in COPYING
            else:
                if made == 1 or made > 3:
                    continue
                yield ("Copied", seq)
                yield ("EqualCopied", seq)


def copies_case(case, st):
    cls, seq = case
    objects = [globals()[cls]()]
    refs = [{}]

    def get(k, name):
        o = objects[k]
        if o is None:
            return
        c = getattr(o, name)
        key = "S" if name == "alias" else name
        if refs[k].setdefault(key, c) is not c:
            fail(f"object {k}: {name} changed")
        for j, r in enumerate(refs):
            if j != k and r.get(key) is c:
                fail(f"object {k} has the {name} of object {j}")
        x = c()
        if len(x.seen) != (1 if key == "B" else 2) or any(y is not o for y in x.seen):
            fail(f"object {k}: {name} is bound to another object")
        for j, r in enumerate(refs):
            for other in r:
                related = j == k and other <= key or j == k and key == "U"
                if other == "U" and key != "U":
                    related = False
                if key == "B":
                    related = j == k and other == "B"
                if isinstance(x, r[other]) != related:
                    fail(f"isinstance of {name} of object {k} and {other} of object {j}")
    for op in seq:
        if op[0] == "get":
            get(op[1], op[2])
        elif op[0] == "forget":
            objects[op[1]] = None
            refs[op[1]].clear()
        else:
            o = objects[op[1]]
            objects.append(None if o is None else COPYING[op[0]](o))
            refs.append({})
            o = None
        st.transitions += 1
    for name in ("U", "S", "B"):
        for k in range(len(objects)):
            get(k, name)
    for name in ("B", "alias", "U"):
        for k in range(len(objects)):
            get(k, name)


# ---------------------------------------------------------------------------
# Odd inner classes, odd outers: nesting, builtin bases, coincidental names.

def odd_case(case, st):
    globals()["odd_" + case]()


def odd_nested():
    class A:
        @BoundInnerClass
        class B:
            def __init__(self, a):
                self.a = a
            @BoundInnerClass
            class C:
                def __init__(self, b):
                    self.b = b
    a = A()
    b, b2 = a.B(), a.B()
    c = b.C()
    if b.a is not a or c.b is not b or b.C is not b.C or b.C is b2.C or b2.C().b is not b2:
        fail("nested binding")
    # only the immediate outer binds
    if not issubclass(b.C, A.B.C) or a.B.C is not A.B.C:
        fail("nested plain class")


def odd_foreign():
    "a bound inner class of another outer class as the base: the outer is filled in by hand"
    class A:
        @BoundInnerClass
        class B:
            def __init__(self, a):
                self.a = a
    class C:
        @BoundInnerClass
        class D(A.B):
            def __init__(self, c, a):
                super().__init__(a)
                self.c = c
    class E:
        @BoundInnerClass
        class B(A.B):
            def __init__(self, c, a):
                super().__init__(a)
                self.c = c
    a = A()
    for o, cls in ((C(), "D"), (E(), "B")):
        i = getattr(o, cls)(a)
        if i.c is not o or i.a is not a or isinstance(i, a.B) or not isinstance(i, A.B):
            fail("foreign bound base")


def odd_coincidence():
    "an unrelated attribute of the outer that is named like a base of the inner class"
    class Base:
        def __init__(self):
            self.base = True
    class Plain:
        pass
    for value in (type("Base", (Base,), {"extra": 1}), type("Base", (Plain,), {}), Base, Base(), 0, None, object, property(lambda self: 1 / 0), Base.__init__):
        class Outer:
            @BoundInnerClass
            class Inner(Base):
                def __init__(self, outer):
                    super().__init__()
                    self.outer = outer
        Outer.Base = value
        o = Outer()
        i = o.Inner()
        if i.outer is not o or not i.base or hasattr(i, "extra"):
            fail(f"a coincidental attribute {value!r} changed the class")
        if isinstance(value, type) and value is not Base and value is not object and isinstance(i, value):
            fail(f"a coincidental attribute {value!r} became a base class")


def odd_builtins():
    "inner classes deriving from built-in types, with slots, without constructors, with arguments by keyword"
    class Outer:
        @BoundInnerClass
        class I(int):
            def __init__(self, outer, v=0):
                self.outer = outer
        @BoundInnerClass
        class E(Exception):
            def __init__(self, outer, *a):
                super().__init__(*a)
                self.outer = outer
        @BoundInnerClass
        class F(E.cls):
            def __init__(self, outer, *a):
                super().__init__(*a)
                assert self.outer is outer
        @BoundInnerClass
        class D(dict):
            def __init__(self, outer, *a, **k):
                super().__init__(*a, **k)
                self.outer = outer
            def __repr__(self):
                return "custom"
        @BoundInnerClass
        class S:
            __slots__ = ("outer", "v")
            def __init__(self, outer, *, v):
                self.outer = outer
                self.v = v
        @BoundInnerClass
        class T(S.cls):
            __slots__ = ("w",)
            def __init__(self, outer, w, **k):
                super().__init__(**k)
                self.w = w
    o = Outer()
    t = o.T(1, v=2)
    if t.outer is not o or (t.w, t.v) != (1, 2) or not isinstance(t, o.S):
        fail("slots")
    i = o.I(5)
    if i != 5 or i.outer is not o:
        fail("int")
    try:
        raise o.F(1, 2)
    except o.E as e:
        if e.args != (1, 2) or e.outer is not o:
            fail("exception")
    d = o.D({"a": 1}, self_=2)
    if d != {"a": 1, "self_": 2} or d.outer is not o or repr(d) != "custom":
        fail("dict")
    try:
        o.S(1)
    except TypeError:
        pass
    else:
        fail("a wrong argument was accepted")


def odd_dead():
    "a bound class used after its outer is gone must not resurrect or crash the interpreter"
    class Outer:
        @BoundInnerClass
        class Inner:
            def __init__(self, outer):
                self.seen = outer
    o = Outer()
    c = o.Inner
    r = weakref.ref(o)
    del o
    gc.collect()
    if r() is not None:
        fail("the bound class alone keeps its outer alive")
    got = outcome(lambda: c().seen)
    if got[0] == 'ret' and got[1] is not None:
        fail(f"bound to {got[1]!r} after the outer died")


def odd_late():
    "inner classes added to the outer class after instances exist; and removed from the instance"
    class Outer:
        pass
    o = Outer()
    @BoundInnerClass
    class Inner:
        def __init__(self, outer):
            self.outer = outer
    Outer.Inner = Inner
    if o.Inner().outer is not o or o.Inner is not o.Inner or Outer.Inner is o.Inner:
        fail("late inner class")
    @BoundInnerClass
    class Child(Inner.cls):
        def __init__(self, outer):
            super().__init__()
    Outer.Child = Child
    if not isinstance(o.Child(), o.Inner) or o.Child().outer is not o:
        fail("late child")


def odd_annotations():
    class Outer:
        @BoundInnerClass
        class Inner:
            x: int
            y = 3
            @staticmethod
            def s(v): return v
            @classmethod
            def c(cls): return cls
            @property
            def p(self): return self.y
            def __init__(self, outer): pass
    o = Outer()
    i = o.Inner()
    if o.Inner.__annotations__ != {"x": int} or i.s(1) != 1 or i.c() is not o.Inner or i.p != 3 or o.Inner.y != 3:
        fail("attributes of the bound class")


def odd_repr():
    "a class's own repr is kept, however the class comes by it"
    class Mixin:
        def __repr__(self):
            return "mixin"
    class Meta(type):
        def __repr__(cls):
            return "meta"
    class Outer:
        @BoundInnerClass
        class Own:
            def __init__(self, outer): pass
            def __repr__(self): return "own"
        @BoundInnerClass
        class Inherited(Mixin):
            def __init__(self, outer): super().__init__()
        @BoundInnerClass
        class FromBound(Own.cls):
            def __init__(self, outer): super().__init__()
        @BoundInnerClass
        class Assigned:
            def __init__(self, outer): pass
            __repr__ = Mixin.__repr__
        @BoundInnerClass
        class List(list):
            def __init__(self, outer, *a): super().__init__(*a)
        @BoundInnerClass
        class Error(ValueError):
            def __init__(self, outer, *a): super().__init__(*a)
        @UnboundInnerClass
        class Unbound(Mixin):
            pass
        @BoundInnerClass
        class OfMeta(metaclass=Meta):
            def __init__(self, outer): pass
            def __repr__(self): return "of meta"
        @BoundInnerClass
        class Late:
            def __init__(self, outer): pass
    o = Outer()
    for name, want in (("Own", "own"), ("Inherited", "mixin"), ("FromBound", "own"), ("Assigned", "mixin"), ("Unbound", "mixin"), ("OfMeta", "of meta")):
        x = getattr(o, name)()
        if repr(x) != want or str(x) != want:
            fail(f"repr of an instance of {name}: {x!r}")
    x = o.List([1])
    if repr(x) != "[1]" or repr(o.Error("x")).count("'x'") != 1:
        fail(f"repr of instances of built-in bases: {x!r}")
    class Sub(o.Own):
        pass
    if repr(Sub()) != "own":
        fail("repr of a subclass of a bound class")


def odd_slots():
    "outer classes with slots"
    for slots in (("__dict__", "__weakref__"), ("__dict__", "__weakref__", "x"), ("__dict__",)):
        weak = "__weakref__" in slots
        class Outer:
            __slots__ = slots
            if weak:
                @BoundInnerClass
                class B:
                    def __init__(self, outer): self.outer = outer
            @UnboundInnerClass
            class U:
                pass
            @UnboundInnerClass
            class V(U.cls):
                pass
        o, p = Outer(), Outer()
        for name in ("U", "V") + (("B",) if weak else ()):
            c = getattr(o, name)
            if getattr(o, name) is not c or getattr(p, name) is c:
                fail(f"slots {slots}: {name} of one object changes, or is shared")
        if weak and (o.B().outer is not o or p.B().outer is not p):
            fail("bound to another object")
        if not issubclass(o.V, o.U) or issubclass(o.V, p.U) or not isinstance(p.V(), p.U):
            fail(f"slots {slots}: inheritance of unbound inner classes")


ODD = sorted(n[4:] for n in globals() if n.startswith("odd_") and n != "odd_case")

PARTS = [
    Part("odd", lambda tier: ODD, odd_case, bound="representations, slots, nesting, foreign bases, built-in bases, slots, coincidental names, late definition, dead outers"),
Part("copies", copies_cases, copies_case, bound="every sequence of <= 3 (thorough 4) accesses, copies (shallow, deep, of the dictionary) and deletions of an ordinary, or false and all-equal, outer object and its copies; then every class of each"),
        Part("paths", path_cases, paths_case, bound="every sequence of <= 3 (thorough 4) accesses through instance, alias, super() and class over 8 outer hierarchies"),
    Part("hierarchies", hierarchies, hierarchy_case,
         bound="all inheritance graphs of <= 3 inner classes (bound/unbound/plain, with/without constructor, in the base or derived outer class) and of 4 with constructors; orders of first access; ordinary and false/all-equal outers, odd metaclasses"),
]
