"""C39: whatever the caller supplies may raise: the exception gets through, and nothing is lost or left half done."""
import itertools
import re
from .core import Part, fail, expect, outcome
import big.text as T
import big.deprecated as D
from big.heap import Heap
from big.itertools import PushbackIterator
from big.graph import TopologicalSorter, CycleError
from big.log import Log
from big.boundinnerclass import BoundInnerClass

ASSUMPTIONS = ["exceptions raised by comparisons, hashing and equality of values are excluded (nodes that can't be hashed are not)", "a call that raised is either done or not at all (a heap extended by an iterable that raised may have the values yielded before)"]


class Custom(Exception):
    pass


class Base(BaseException):
    pass


EXCEPTIONS = [TypeError, ValueError, KeyError, IndexError, AttributeError, OSError, ZeroDivisionError, AssertionError, RuntimeError, UnicodeDecodeError, Custom, Base, KeyboardInterrupt]


def make(e):
    return UnicodeDecodeError("ascii", b"x", 0, 1, "y") if e is UnicodeDecodeError else e("deliberate")


class It:
    "an iterable: the items, then the exception, if any"
    def __init__(self, items, exc=None):
        self.items = items
        self.exc = exc

    def __iter__(self):
        yield from self.items
        if self.exc is not None:
            raise self.exc


# ---------------------------------------------------------------- heaps

HEAP_OPS = [("append", 2), ("append", 0), ("popleft",), ("ap", 1), ("pa", 3), ("remove", 1), ("remove", 7), ("clear",)]
ITEMS = [(), (1,), (0,), (3, 0), (0, 2, 1)]


def heap_cases(tier):
    n = 4 if tier == "quick" else 5
    for start in ((), (2,), (1, 3), (2, 1, 3), (5, 4, 3, 2)):
        for items in ITEMS:
            for before in range(0, 2):
                for ops in itertools.product(HEAP_OPS, repeat=n):
                    yield (start, items, ops, before)


def heap_apply(h, model, op):
    name = op[0]
    if name == "append":
        h.append(op[1])
        model.append(op[1])
    elif name == "popleft":
        got = outcome(h.popleft)
        expect(got, ('ret', min(model)) if model else ('exc', 'IndexError'), "popleft")
        if model:
            model.remove(min(model))
    elif name == "ap":
        model.append(op[1])
        expect(h.append_and_popleft(op[1]), min(model), "append_and_popleft")
        model.remove(min(model))
    elif name == "pa":
        got = outcome(h.popleft_and_append, op[1])
        expect(got, ('ret', min(model)) if model else ('exc', 'IndexError'), "popleft_and_append")
        if model:
            model.remove(min(model))
            model.append(op[1])
    elif name == "remove":
        got = outcome(h.remove, op[1])
        expect(got[0] == 'ret', op[1] in model, "remove")
        if op[1] in model:
            model.remove(op[1])
    else:
        h.clear()
        model.clear()


def heap_look(h, model, what):
    want = sorted(model)
    got = (h.queue, list(h), len(h), bool(h), [h[i] for i in range(len(model))], h.copy() == h, h[0:], h[:2], h[-1:])
    if got != (want, want, len(want), bool(want), want, True, want, want[:2], want[-1:]):
        fail(f"{what}: got {got}, expected {want}")


def heap_check(case, st):
    "extending by an iterable that raises, then any operations"
    start, items, ops, before = case
    for e in (Custom, Base):
        h = Heap(start)
        model = list(start)
        for op in ops[:before]:
            heap_apply(h, model, op)
        exc = make(e)
        try:
            h.extend(It(items, exc))
            fail(f"Heap({start}).extend() swallowed the exception of its iterable")
        except e as got:
            if got is not exc:
                fail(f"Heap({start}).extend() raised another exception")
        added = len(h) - len(model)
        if not 0 <= added <= len(items):
            fail(f"Heap({start}).extend() of {items} and an exception: length {len(h)}")
        model += items[:added]
        what = f"Heap({start}) after {ops[:before]} and extending by {items} and an exception"
        heap_look(h, model, what)
        for op in ops[before:]:
            heap_apply(h, model, op)
            st.transitions += 1
        heap_look(h, model, f"{what}, then {ops[before:]}")
    exc = make(Custom)
    try:
        Heap(It(items, exc))
        fail("Heap() swallowed the exception of its iterable")
    except Custom as got:
        if got is not exc:
            fail("Heap() raised another exception")


# ---------------------------------------------------------------- pushback iterators

class Source:
    "an iterator that raises at some calls and goes on; every call is recorded"
    def __init__(self, n, bad, exc):
        self.n = n
        self.bad = bad
        self.exc = exc
        self.calls = 0
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.calls += 1
        if self.calls - 1 in self.bad:
            raise self.exc
        if self.i >= self.n:
            raise StopIteration
        self.i += 1
        return ("item", self.i)


PB = ["next", "default", "bool", "push", "list"]


def push_cases(tier):
    for n in range(0, 3):
        for k in range(1, 3):
            for bad in itertools.combinations(range(4), k):
                for ops in itertools.product(PB, repeat=6 if tier == "quick" else 7):
                    yield (n, bad, ops)


def push_check(case, st):
    n, bad, ops = case
    exc = make(EXCEPTIONS[(n + len(bad) * 3 + sum(bad)) % len(EXCEPTIONS)])
    p = PushbackIterator(Source(n, bad, exc))
    m = Source(n, bad, exc)
    stack = []
    done = False

    def pull():
        "the next item according to the description"
        nonlocal done
        if stack:
            return stack.pop()
        if not done:
            try:
                return next(m)
            except StopIteration:
                done = True
        raise StopIteration

    def run(f):
        try:
            return ("ret", f())
        except StopIteration:
            return ("stop",)
        except BaseException as e:
            return ("exc", e is exc, type(e).__name__)

    def truth():
        try:
            stack.append(pull())
            return True
        except StopIteration:
            return False

    def default():
        try:
            return pull()
        except StopIteration:
            return "default"

    def everything(f):
        out = []
        while True:
            got = run(f)
            out.append(got)
            if got[0] != "ret" or len(out) > 20:
                return out

    for j, op in enumerate(ops):
        if op == "push":
            p.push(j)
            stack.append(j)
            continue
        if op == "list":
            got, want = everything(lambda: next(p)), everything(pull)
        else:
            got = run({"next": lambda: next(p), "default": lambda: p.next("default"), "bool": lambda: bool(p)}[op])
            want = run({"next": pull, "default": default, "bool": truth}[op])
        st.transitions += 1
        if got != want:
            fail(f"PushbackIterator over {n} items, raising {type(exc).__name__} at calls {bad}: {op} after {ops[:j]}: got {got}, expected {want}")


# ---------------------------------------------------------------- graphs

GRAPH_OPS = [("add", 0), ("add", 1), ("add", 0, 1), ("add", 2, 0), ("bad", 0, 1), ("bad", 2, 1, 0), ("badnode", 1), ("ready",), ("done",), ("remove", 0), ("view",)]


def graph_cases(tier):
    for ops in itertools.product(GRAPH_OPS, repeat=5 if tier == "quick" else 6):
        if any(o[0].startswith("bad") for o in ops):
            yield ops


class GraphRun:
    """Runs the operations. How: 'skip' leaves out the calls that raise, 'do' makes them, 'part' adds their hashable arguments."""
    def __init__(self, how):
        self.how = how
        self.g = TopologicalSorter()
        self.views = []
        self.out = []
        self.handed = []

    def op(self, op):
        g = self.g
        if op[0] == "add":
            return outcome(g.add, *op[1:])
        if op[0] == "bad":
            if self.how == "do":
                got = outcome(g.add, *op[1:], [])
                if got != ('exc', 'TypeError'):
                    fail(f"adding a dependency that can't be hashed: {got}")
                got = outcome(g.add, op[1], [], *op[2:])
                if got != ('exc', 'TypeError'):
                    fail(f"adding a dependency that can't be hashed: {got}")
        elif op[0] == "badnode":
            if self.how == "do":
                got = outcome(g.add, [], *op[1:])
                if got != ('exc', 'TypeError'):
                    fail(f"adding a node that can't be hashed: {got}")
        elif op[0] == "ready":
            got = outcome(g.ready)
            if got[0] == 'ret':
                self.handed += got[1]
                return sorted(got[1])
            return got
        elif op[0] == "done":
            if self.handed:
                return outcome(g.done, self.handed.pop(0))
        elif op[0] == "remove":
            self.handed = [h for h in self.handed if h != op[1]]
            return outcome(g.remove, op[1])
        else:
            self.views.append(g.view())
        return None

    def finish(self):
        out = []
        for v in self.views + [self.g]:
            for _ in range(10):
                got = outcome(v.ready)
                if got[0] != 'ret' or not got[1]:
                    out.append(got[0] if got[0] == 'ret' else got)
                    break
                out.append(sorted(got[1]))
                for n in got[1]:
                    out.append(outcome(v.done, n))
            out.append(outcome(bool, v))
        g2 = self.g.copy()
        g2.reset()
        got = outcome(lambda: list(g2.static_order()))
        out.append(sorted(got[1]) if got[0] == 'ret' else got)
        return out


def graph_check(ops, st):
    "a call of add that raises changes nothing: everything goes on as if it had not been made"
    a, b = GraphRun("do"), GraphRun("skip")
    for i, op in enumerate(ops):
        x, y = a.op(op), b.op(op)
        # which node a 'done' is for depends on the order of the ready ones
        a.handed.sort()
        b.handed.sort()
        st.transitions += 1
        if x != y:
            fail(f"{op} after {ops[:i]}: got {x}, without the calls that raised {y}")
    x, y = a.finish(), b.finish()
    if x != y:
        fail(f"working off the graph after {ops}: got {x}, without the calls that raised {y}")


def construct_check(case, st):
    items, k, e = case
    exc = make(EXCEPTIONS[e])
    try:
        TopologicalSorter({"a": It(items[:k], exc)})
        fail("TopologicalSorter() swallowed an exception")
    except BaseException as got:
        if got is not exc:
            raise


# ---------------------------------------------------------------- logs

LOG_OPS = ["log", "enter", "exit", "reset"]


def log_cases(tier):
    for k in range(1, 5 if tier == "quick" else 7):
        for ops in itertools.product(LOG_OPS, repeat=k):
            for bad in range(k):
                yield (ops, bad)


def log_check(case, st):
    "the clock raises: the exception gets through; other events are in the log once, in order, with their times"
    ops, bad = case
    state = {"t": 0, "bad": False}
    exc = make(Custom)

    def clock():
        if state["bad"]:
            raise exc
        return state["t"]
    log = Log(clock=clock)
    zero = 0
    want = [(0, "log start")]
    depth = 0
    lost = None
    for i, op in enumerate(ops):
        state["t"] += 7
        state["bad"] = i == bad
        if op == "exit" and depth == 0 and lost != "enter":
            continue
        f = {"log": lambda: log(f"event {i}"), "enter": lambda: log.enter(f"sub {i}"), "exit": log.exit, "reset": log.reset}[op]
        try:
            f()
            if i == bad:
                fail(f"the log's {op} swallowed the exception of the clock")
        except Custom as e:
            if e is not exc or i != bad:
                raise
            # whether the log is now inside the subsystem isn't said
            if op in ("enter", "exit"):
                state["bad"] = False
                names = [e for _, _, e, _ in log]
                if len(names) != len(want):
                    fail(f"{op} raised, but it is in the log: {names}")
                return
            continue
        except IndexError:
            return
        if op == "reset":
            want = [(0, "log start")]
            zero = state["t"]
            depth = 0
        elif op == "log":
            want.append((state["t"] - zero, f"event {i}"))
        elif op == "enter":
            want.append((state["t"] - zero, f"sub {i} start"))
            depth += 1
        else:
            want.append((state["t"] - zero, None))
            depth -= 1
        st.transitions += 1
    state["bad"] = False
    got = [(t, e) for t, _, e, _ in log]
    if len(got) != len(want) or any(a[0] != b[0] or b[1] not in (None, a[1]) for a, b in zip(got, want)):
        fail(f"log of {ops}, the clock raising at {bad}: {got}, expected {want}")
    # printing: the print function raises at any call, then a whole print
    lines = []
    log.print(print=lines.append)
    for k in range(len(lines)):
        out = []

        def bad_print(s):
            if len(out) == k:
                raise exc
            out.append(s)
        try:
            log.print(print=bad_print)
            fail("log.print swallowed an exception")
        except Custom as e:
            if e is not exc:
                raise
        expect(out, lines[:k], "lines printed before the exception")
    again = []
    log.print(print=again.append)
    expect(again, lines, "printing again")


# ---------------------------------------------------------------- iterables given to the text functions

def pairs(s, f=lambda li: li):
    return list(f(T.lines(s)))


CALLS = [c.strip() for c in r"""
["a", "b"] | T.multisplit("xaybz", X)
["a", "b"] | T.multisplit("xaybz", X, keep=True, strip=True)
["ab", "b"] | T.multisplit("xabybz", X, reverse=True, separate=True)
[b"a", b"b"] | T.multisplit(b"xaybz", X)
["a", "b"] | [T.multistrip("abxba", X)]
["ab", "b"] | [T.multistrip("abxbab", X, left=False)]
["a", "b"] | T.multipartition("xaybz", X, 2)
["a", "b"] | T.multirpartition("xaybz", X, 2)
["a", "b"] | [T.normalize_whitespace("xaybz", X, "-")]
["a", "b", "c"] | T.lines(X)
[("a", "\n"), ("b", "\n")] | T.lines(X)
["a", "b"] | T.lines("xaybz", X)
P | T.lines_strip(X)
P | T.lines_rstrip(X)
P | T.lines_strip(X, ("a",))
P | T.lines_filter_empty_lines(X)
P | T.lines_containing(X, "a")
P | T.lines_containing(X, "a", invert=True)
P | T.lines_grep(X, "a")
P | T.lines_grep(X, "a", invert=True)
P | T.lines_sort(X)
P | T.lines_convert_tabs_to_spaces(X)
P | T.lines_strip_indent(X)
P | T.lines_filter_line_comment_lines(X, "#")
P | T.lines_strip_line_comments(X, "#")
P | T.lines_strip_line_comments(X, "#", quotes=("'",))
["a", "b"] | T.lines_strip(T.lines("abxa\nb"), X)
["a", "b"] | T.lines_rstrip(T.lines("abxa\nb"), X)
["#", "//"] | T.lines_filter_line_comment_lines(T.lines("a\n#b\n//"), X)
["#", "//"] | T.lines_strip_line_comments(T.lines("a\n#b\nc//"), X)
["'", '"'] | T.lines_strip_line_comments(T.lines("a\n'#'b\nc#"), "#", quotes=X)
["'''", '"'] | T.lines_strip_line_comments(T.lines("a\n'''#\n'''b\nc#"), "#", multiline_quotes=X)
["'", '"'] | T.split_quoted_strings("a'b'c", X)
["'", '"'] | T.split_quoted_strings("a'b\n'c", (), multiline_quotes=X)
["aa", "b", "", "", "c"] | [T.wrap_words(X, 5)]
["aa", "b.", "c"] | [T.wrap_words(X, 5, two_spaces=False)]
["ab", "c"] | T.combine_splits("abc", X, ["a", "bc"])
["a", "bc"] | T.combine_splits("abc", ["ab", "c"], X)
["'", "x"] | [T.gently_title("it's a day", apostrophes=X)]
["'", "x"] | [T.gently_title("it's a 'day'", double_quotes=X)]
["#", "//"] | D.lines_strip_comments(T.lines("a\n#b\nc//"), X)
["'", '"'] | D.lines_strip_comments(T.lines("a\n'#'b\nc#"), "#", quotes=X)
["'", '"'] | D.split_quoted_strings("a'b'c", X)
["()", "[]"] | D.parse_delimiters("a(b)[c]", X)
""".strip().split("\n")]

TEXTS = ["a\n\tb # c\n\n\tea\nf", " \n#\n"]


def picture(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], T.LineInfo):
        i = x[0]
        return (i.line, i.line_number, i.column_number, i.leading, i.trailing, i.indent, x[1])
    return repr(x)


def consume(expression, X, text):
    "what it yields, and the exception that ends it"
    out = []
    try:
        for x in eval(expression, {"T": T, "D": D, "X": X}):
            out.append(picture(x))
    except BaseException as e:
        return out, e
    return out, None


def call_cases(tier):
    for c in range(len(CALLS)):
        for t in range(len(TEXTS) if CALLS[c].startswith("P ") else 1):
            for kind in ("iterable", "iterator"):
                yield (c, t, kind)


def items_of(c, t):
    source, expression = CALLS[c].split(" | ", 1)
    if source == "P":
        return lambda: list(T.lines(TEXTS[t])), expression
    return lambda: eval(source), expression


def call_check(case, st):
    c, t, kind = case
    items, expression = items_of(c, t)
    wrap = iter if kind == "iterator" else (lambda x: x)
    want, e = consume(expression, items(), t)
    if e is not None:
        fail(f"{expression} with a list {items()}: {e!r}")
    got, e = consume(expression, wrap(It(items())), t)
    if e is not None or got != want:
        fail(f"{expression} with an {kind}: got {got}, {e!r}; with a list {want}")
    for k in range(len(items()) + 1):
        for ex in EXCEPTIONS:
            exc = make(ex)
            got, e = consume(expression, wrap(It(items()[:k], exc)), t)
            st.transitions += 1
            if e is not exc:
                fail(f"{expression} with an {kind} that raises {ex.__name__} after {k} items: {'swallowed it' if e is None else f'raised {e!r}'}, giving {got}")
            if got != want[:len(got)]:
                fail(f"{expression} with an {kind} that raises {ex.__name__} after {k} items: gave {got}, not the beginning of {want}")
        got, e = consume(expression, wrap(It(items())), t)
        if e is not None or got != want:
            fail(f"{expression} after an exception: got {got}, {e!r}; expected {want}")


def sort_key_check(case, st):
    "a key function that raises"
    n, bad, e = case
    exc = make(EXCEPTIONS[e])
    calls = []

    def key(pair):
        calls.append(pair)
        if len(calls) > bad:
            raise exc
        return 0
    lines = list(T.lines("\n".join("cab"[:n])))
    try:
        list(T.lines_sort(iter(lines), key=key))
        if len(lines) > bad:
            fail("lines_sort swallowed the exception of its key")
    except BaseException as got:
        if got is not exc:
            raise


# ---------------------------------------------------------------- bound inner classes

INNER_OPS = [(op, i) for op in ("access", "access!", "create", "create!", "sub", "sub!", "forget") for i in (0, 1) if op != "forget" or i == 0]


def inner_cases(tier):
    for ops in itertools.product(INNER_OPS, repeat=4 if tier == "quick" else 5):
        if any(o[0].endswith("!") for o in ops):
            yield ops


def inner_check(ops, st):
    "classes whose creation (__init_subclass__) or instances' creation (__init__) raises now and then"
    exc = make(EXCEPTIONS[sum(i for i, o in enumerate(ops) if o[0].endswith("!")) % len(EXCEPTIONS)])
    state = {"sub": False, "init": False}

    class Base:
        def __init_subclass__(cls, **kw):
            super().__init_subclass__(**kw)
            if state["sub"]:
                raise exc

    class Outer:
        @BoundInnerClass
        class Inner(Base):
            def __init__(self, outer, x):
                self.outer = outer
                if state["init"]:
                    raise exc
                self.x = x

        @BoundInnerClass
        class Sub(Inner.cls):
            def __init__(self, outer, x):
                super().__init__(x)
                self.sub_outer = outer

    outers = [Outer(), Outer()]
    seen = {}

    def run(f, want):
        try:
            got = f()
        except BaseException as e:
            if e is not exc or not want:
                fail(f"{op} after {ops[:i]}: raised {e!r}, {'not the exception of the class' if want else 'without a reason'}")
            return None
        return got

    for i, op in enumerate(ops):
        kind, k = op
        st.transitions += 1
        if kind == "forget":
            outers[0] = Outer()
            seen = {key: v for key, v in seen.items() if key[0] != 0}
            continue
        name = "Sub" if kind.startswith("sub") else "Inner"
        bad = kind.endswith("!")
        if kind.startswith("create"):
            cls = run(lambda: getattr(outers[k], name), False)
            state["init"] = bad
            got = run(lambda: cls(i), bad)
            state["init"] = False
            if bad and got is not None:
                fail(f"{op} after {ops[:i]}: swallowed the exception of the constructor")
            if not bad and (got.outer is not outers[k] or got.x != i):
                fail(f"{op} after {ops[:i]}: wrong instance")
        else:
            state["sub"] = bad
            cls = run(lambda: getattr(outers[k], name), bad)
            state["sub"] = False
            if cls is None:
                continue
        if seen.setdefault((k, name), cls) is not cls:
            fail(f"{op} after {ops[:i]}: another class than before")
        if cls is getattr(Outer, name) or not issubclass(cls, getattr(Outer, name)):
            fail(f"{op} after {ops[:i]}: not a bound class")
    for k in (0, 1):
        sub = outers[k].Sub(9)
        if not (sub.outer is sub.sub_outer is outers[k]) or sub.x != 9 or not isinstance(sub, outers[k].Sub) or not isinstance(sub, outers[k].Inner) or isinstance(sub, outers[1 - k].Inner):
            fail(f"after {ops}: outer {k} has wrong classes")


PARTS = [
    Part("heaps", heap_cases, heap_check, bound="5 heaps extended by 5 iterables that then raise, among all sequences of 4 [5] of 8 operations"),
    Part("pushback", push_cases, push_check, bound="iterators of up to 2 items raising at one or two of the first 4 calls, all sequences of 6 [7] of 5 operations"),
    Part("graphs", graph_cases, graph_check, bound="all histories of 5 [6] of 11 operations with additions of arguments that can't be hashed"),
    Part("graph construction", lambda tier: [(i, k, e) for i in ((), ("b",), ("b", "c")) for k in range(len(i) + 1) for e in range(len(EXCEPTIONS))], construct_check, bound="dependencies that raise"),
    Part("inner classes", inner_cases, inner_check, bound="all histories of 4 [5] of 13 operations on two outer instances and two inner classes, whose creation or instantiation raises at any of them"),
    Part("logs", log_cases, log_check, bound="all histories of up to 4 [6] operations, the clock raising at each; the print function raising at each line"),
    Part("calls", call_cases, call_check, bound="44 calls of text functions with an iterable or iterator that raises one of 13 exceptions after any number of items"),
    Part("sort keys", lambda tier: [(n, b, e) for n in range(1, 4) for b in range(n + 1) for e in range(len(EXCEPTIONS))], sort_key_check, bound="keys that raise"),
]
