"""C37: every order of importing the modules, with optional packages missing and asserts stripped: the same library."""
import ast
import builtins
import collections, functools, heapq, re, threading, time     # noqa: must be there to be compared
import importlib
import importlib.machinery
import importlib.util
import itertools
import os
import resource
import select
import signal
import sys
import traceback
from .core import Part, fail, rearm, REPO

ASSUMPTIONS = ["the names promised are those with a heading in the README, except four that exist nowhere (date_ensure_timezone, date_set_timezone, OverflowResponse, and the unexported Event outside its module)",
               "an optional package is missing when importing it raises ImportError"]

MODULES = ["boundinnerclass", "builtin", "deprecated", "file", "graph", "heap", "itertools", "log", "metadata", "scheduler", "state", "text", "time", "version", "all"]

NAMES = {
    'boundinnerclass': 'BoundInnerClass UnboundInnerClass',
    'builtin': 'get_float get_int get_int_or_float pure_virtual try_float try_int',
    'deprecated': '',
    'file': 'fgrep file_mtime file_mtime_ns file_size grep pushd safe_mkdir safe_unlink touch translate_filename_to_exfat translate_filename_to_unix',
    'graph': 'CycleError TopologicalSorter',
    'heap': 'Heap',
    'itertools': 'PushbackIterator',
    'log': 'default_clock Log',
    'metadata': '',
    'scheduler': 'Regulator Scheduler',
    'state': 'accessor dispatch State StateManager TransitionError',
    'text': '''ascii_linebreaks ascii_linebreaks_without_crlf ascii_whitespace ascii_whitespace_without_crlf bytes_linebreaks
        bytes_linebreaks_without_crlf bytes_whitespace bytes_whitespace_without_crlf combine_splits Delimiter encode_strings
        gently_title int_to_words linebreaks linebreaks_without_crlf LineInfo lines lines_convert_tabs_to_spaces
        lines_filter_empty_lines lines_filter_line_comment_lines lines_containing lines_grep lines_rstrip lines_sort lines_strip
        lines_strip_indent lines_strip_line_comments merge_columns multipartition multisplit multistrip normalize_whitespace
        re_partition re_rpartition reversed_re_finditer split_delimiters split_quoted_strings split_text_with_code
        split_title_case str_linebreaks str_linebreaks_without_crlf str_whitespace str_whitespace_without_crlf
        unicode_linebreaks unicode_linebreaks_without_crlf unicode_whitespace unicode_whitespace_without_crlf whitespace
        whitespace_without_crlf wrap_words''',
    'time': 'datetime_ensure_timezone datetime_set_timezone timestamp_3339Z timestamp_human parse_timestamp_3339Z',
    'version': 'Version',
}
NAMES = {k: v.split() for k, v in NAMES.items()}
# promised by their modules, but not exported
MORE = {'scheduler': ['Event'], 'metadata': ['version'], 'text': ['OverflowStrategy']}

OPTIONAL = ["regex", "dateutil", "graphlib"]
STDLIB = ["time", "itertools", "builtins", "heapq", "re", "os", "threading", "functools", "collections"]

# an optional package is what makes these available
NEEDS = {'parse_timestamp_3339Z': 'dateutil'}


# ------------------------------------------------- what each module does (valid uses only)

def use_boundinnerclass(m):
    class O:
        @m.BoundInnerClass
        class I:
            def __init__(self, outer, x):
                self.o, self.x = outer, x

        @m.UnboundInnerClass
        class U(I.cls if hasattr(I, "cls") else I):
            pass
    o = O()
    i = o.I(3)
    return i.o is o, i.x, isinstance(i, o.I), o.I is o.I, type(o.U).__name__


def use_builtin(m):
    class A:
        @m.pure_virtual()
        def f(self):
            "doc"
    try:
        A().f()
        r = "returned"
    except NotImplementedError as e:
        r = type(e).__name__
    return [m.get_int(x) for x in ("1", "1.5", "x", None)], [m.get_float(x, 7) for x in ("1", "1.5", "x", None)], [m.get_int_or_float(x) for x in ("1", "1.0", 2.0, 2.5, "x", float("inf"))], m.try_int("1"), m.try_float("x"), r, A.f.__name__, A.f.__doc__


def use_deprecated(m):
    return (list(m.split_quoted_strings("a 'b' c")), list(m.parse_delimiters("a(b[c])")),
            [l for i, l in m.lines_strip_comments(iter([]), "#")], sorted(m.utf8_newlines), m.newlines_without_dos)


def use_file(m):
    here = os.getcwd()
    with m.pushd("/"):
        there = os.getcwd()
    return there, os.getcwd() == here, m.translate_filename_to_exfat("a:b?c*"), m.translate_filename_to_unix("a/b"), m.file_size(__file__) > 100, len(m.grep(__file__, "^def use_file")), len(m.fgrep(__file__, b"def use_" b"file("))


def use_graph(m):
    g = m.TopologicalSorter({"a": ["b"], "b": ["c"]})
    out = [list(g.static_order())]
    g = m.TopologicalSorter()
    g.add("x", "y")
    v = g.view()
    out.append([v.ready(), v.done("y"), v.ready(), bool(v), v.done("x"), bool(v)])
    g.add("y", "x")
    out.append(sorted(g.cycle()))
    try:
        g.view().ready()
        out.append("returned")
    except m.CycleError as e:
        out.append(issubclass(m.CycleError, ValueError))
    return out


def use_heap(m):
    h = m.Heap([3, 1, 2])
    h.append(0)
    return h[0], h[-1], h[1:3], h.popleft(), h.append_and_popleft(5), len(h), 5 in h, list(h), h.copy() == h


def use_itertools(m):
    p = m.PushbackIterator([1, 2, 3])
    a = next(p)
    p.push(9)
    return a, bool(p), list(p), p.next("z"), bool(p)


def use_log(m):
    t = itertools.count(5, 10)
    l = m.Log(clock=lambda: next(t))
    l("a")
    l.enter("b")
    l("c")
    l.exit()
    out = []
    l.print(print=out.append)
    return list(l), out, type(m.default_clock()).__name__


def use_metadata(m):
    return repr(m.version), str(m.version) == sys.modules["big"].__version__


def use_scheduler(m):
    class R(m.Regulator):
        t = 0
        def now(self): return self.t
        def sleep(self, x): self.t += x
        def wake(self): pass
        class lock:
            def __enter__(self): pass
            def __exit__(self, *a): pass
        lock = lock()
    s = m.Scheduler(R())
    e = s.schedule("late", 5)
    s.schedule("b", 2)
    s.schedule("a", 2, priority=1)
    s.schedule("c", 2)
    e.cancel()
    return list(s.non_blocking()), list(s), len(s.queue), isinstance(e, m.Event)


def use_state(m):
    log = []

    @m.accessor()
    @m.dispatch()
    class Base(m.State):
        pass

    @m.accessor("st", "sm")
    class Machine:
        def __init__(self):
            self.sm = m.StateManager(On(self))
        @m.dispatch("sm")
        def go(self):
            "docs"

    class On(m.State):
        def __init__(self, owner): self.owner = owner
        def on_enter(self): log.append("enter on")
        def on_exit(self): log.append("exit on")
        def go(self):
            self.owner.st = Off(self.owner)
            return "went"

    class Off(On):
        def on_enter(self): log.append("enter off")
        def go(self): return "nowhere"
    x = Machine()
    x.sm.observers.append(lambda sm: log.append(type(sm.next).__name__))
    out = [x.go(), x.go(), type(x.st).__name__]
    try:
        x.sm.state = x.sm.state
    except m.TransitionError as e:
        out.append(type(e).__name__)
    return log, out, issubclass(m.TransitionError, RecursionError)


def use_text(m):
    import re
    D = m.Delimiter
    out = [
        list(m.multisplit("aXbYcX", ("X", "Y"), keep=True)), list(m.multisplit(" a  b ", strip=True)), list(m.multisplit(b"a\r\nb", m.bytes_linebreaks)),
        list(m.multisplit("a,b;c", ",;", maxsplit=1, reverse=True, keep=m.AS_PAIRS)),
        m.multipartition("a.b-c", (".", "-"), 2), m.multistrip("--a--", "-"), m.normalize_whitespace(" a  b\n"),
        [str(x) for x in m.re_partition("abc", "b")], m.re_rpartition("abab", re.compile("b"))[0], [x.span() for x in m.reversed_re_finditer("a+", "aabaa")],
        list(m.split_quoted_strings("a 'b c' d")), list(m.split_delimiters("a(b)'c'")), list(m.split_delimiters("a<b>", {"<": D(">")})),
        list(m.combine_splits("abcdef", ["ab", "cdef"], ["abc", "def"])), m.gently_title("peter o'toole's 'day'"), list(m.split_title_case("someHTMLParser")),
        [m.int_to_words(i) for i in (0, -21, 1001, 10 ** 15)], m.int_to_words(23, ordinal=True), m.int_to_words(1001, flowery=False),
        m.wrap_words("hello there this is it.  New one".split(), 12), m.wrap_words(m.split_text_with_code("para graph\n\n    code = 1\n    more\n"), 20),
        m.merge_columns(("a b\nc", 3, 5), ("d\ne\nf", 2, 9)), m.merge_columns(("a longer line\nx", 3, 5), ("d\ne\nf", 2, 9), overflow_strategy=m.OverflowStrategy.DELAY_ALL, overflow_before=1),
        m.encode_strings(["a", ("b", {"c"})]),
    ]
    chain = "a\tb # c\n\n  x  \n    y\n z\n"
    li = m.lines(chain)
    li = m.lines_filter_empty_lines(m.lines_rstrip(m.lines_strip_line_comments(m.lines_convert_tabs_to_spaces(li), "#")))
    out.append([(i.line_number, i.column_number, i.line, i.leading, i.trailing, i.end, l) for i, l in li])
    out.append([(l, i.indent) for i, l in m.lines_strip_indent(m.lines("a\n  b\n    c\nd\n"))])
    out.append([l for i, l in m.lines_sort(m.lines_grep(m.lines_containing(m.lines("ab\nac\nb\nc\naa"), "a"), "a[ab]"))])
    out.append([l for i, l in m.lines_strip(m.lines_filter_line_comment_lines(m.lines("#a\n b \n//c"), ("#", "//")))])
    out += [len(getattr(m, n)) for n in NAMES["text"] if n.endswith(("whitespace", "linebreaks", "_without_crlf")) and n != "normalize_whitespace"]
    return out


def use_time(m):
    import datetime
    utc = datetime.timezone.utc
    d = datetime.datetime(2021, 5, 25, 6, 46, 35, 425327, tzinfo=utc)
    out = [m.timestamp_3339Z(d), m.timestamp_3339Z(1234567890), m.timestamp_3339Z(d, False), m.timestamp_human(d).replace("/", "-")[:8], m.datetime_ensure_timezone(d, None) is d, m.datetime_set_timezone(d.replace(tzinfo=None), utc) == d]
    if hasattr(m, "parse_timestamp_3339Z"):
        out.append(m.parse_timestamp_3339Z("2021-05-25T06:46:35.425327Z") == d)
    return out


def use_version(m):
    V = m.Version
    return str(V("1.3.24rc37")), V("1.0") == V("1"), sorted(map(str, map(V, ("1.0.post1", "1.0rc1", "1.0.dev0", "1!0.1", "1.0")))), repr(V(release=(1, 2), dev=3)), hash(V("1.0")) == hash(V("1")), V("2+abc").local


def use_all(m):
    return m.gently_title("x"), m.get_int("1"), m.Version("1") < m.Version("2")


USES = {name: globals()["use_" + name] for name in MODULES}


# ---------------------------------------------------------------- fresh imports

class Missing:
    "as if the package weren't installed"
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ImportError(f"no module named {name}")
        return None


CODE = {}


class Loader(importlib.machinery.SourceFileLoader):
    "compiles each file once per optimization level"
    level = 0

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        key = (path, Loader.level)
        if key not in CODE:
            CODE[key] = compile(self.get_data(path), path, "exec", dont_inherit=True, optimize=Loader.level)
        return CODE[key]


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "big" or name.startswith("big."):
            rel = name.replace(".", "/")
            for f, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
                if os.path.exists(f):
                    return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[f"{REPO}/{rel}"] if pkg else None)
        return None


def purge(*tops):
    for n in list(sys.modules):
        if n.split(".")[0] in tops:
            del sys.modules[n]


def setup(k):
    "compile everything before forking for each case"
    for level in (0, 1, 2):
        Loader.level = level
        for n in ["__init__"] + MODULES:
            p = f"{REPO}/big/{n}.py"
            CODE[p, level] = compile(open(p, "rb").read(), p, "exec", dont_inherit=True, optimize=level)
    import datetime, dateutil.parser, regex, graphlib     # noqa: present in the full configuration
    DEFAULT.update(in_child(lambda: play(MODULES, (), 0)))


DEFAULT = {}
CPU_SECONDS = 200


def in_child(f):
    "f() in a forked process: what it returns"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS + 5))
            try:
                out = ("ok", f())
            except BaseException as e:
                out = ("failed", f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))
            data = repr(out).encode("utf-8", "backslashreplace")
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    used = -1
    try:
        while True:
            if not select.select([r], [], [], 2)[0]:
                # it's still working if it uses the processor
                with open(f"/proc/{pid}/stat") as h:
                    now = sum(map(int, h.read().rsplit(")", 1)[1].split()[11:13]))
                if now > used + 2:
                    used = now
                    rearm()
                continue
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        fail(f"the process importing big died, or used more than {CPU_SECONDS} s")
    status, value = ast.literal_eval(data.decode("utf-8"))
    if status != "ok":
        fail(value)
    return value


def play(order, missing, level):
    "import the modules in this order in a process that has none of them; returns what each one does"
    purge("big", *missing)
    Loader.level = level
    sys.meta_path.insert(0, Finder)
    if missing:
        sys.meta_path.insert(0, Missing(missing))
    before = {n: sys.modules[n] for n in STDLIB}
    dicts = {n: dict(vars(m)) for n, m in before.items()}
    builtins_before = set(vars(builtins))
    result = {}
    for name in order:
        what = f"importing {' then '.join(order)}" + (f" without {', '.join(missing)}" if missing else "") + (f" at optimization level {level}" if level else "")
        try:
            m = importlib.import_module("big." + name if name else "big")
        except BaseException as e:
            fail(f"{what}: {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))
        check_module(name, m, missing, what)
    for name in order:
        result[name] = repr(USES[name](sys.modules["big." + name]))
    for n, m in before.items():
        if sys.modules.get(n) is not m:
            fail(f"{what}: the standard module {n} was replaced")
        new = {k for k, v in vars(m).items() if k not in dicts[n] or dicts[n][k] is not v}
        # interpreters load lazily, and keep caches; names that weren't there or changed what they are
        new = {k for k in new if callable(dicts[n].get(k)) and dicts[n][k] is not vars(m)[k]}
        if new:
            fail(f"{what}: the standard module {n} was changed: {sorted(new)}")
    if set(vars(builtins)) - builtins_before - {"_"}:
        fail(f"{what}: added builtins {set(vars(builtins)) - builtins_before}")
    return result


def available(names, missing):
    return [n for n in names if NEEDS.get(n) not in missing]


def check_module(name, m, missing, what):
    if m is not sys.modules.get("big." + name):
        fail(f"{what}: the module isn't the one in sys.modules")
    if getattr(sys.modules["big"], name, None) is not m:
        fail(f"{what}: big.{name} isn't the module")
    if name != "all":
        for n in available(NAMES[name] + MORE.get(name, []), missing):
            if not hasattr(m, n):
                fail(f"{what}: big.{name} has no {n}")
        for n, need in NEEDS.items():
            if name == "time" and need in missing and hasattr(m, n):
                fail(f"{what}: big.{name}.{n} is there without {need}")
    star = {}
    exec(f"from big.{name} import *", star)
    star.pop("__builtins__", None)
    clash = set(star) & set(vars(builtins))
    if clash - {"__doc__", "__name__"}:
        fail(f"{what}: from big.{name} import * hides the builtins {sorted(clash)}")
    want = {}
    for other in MODULES if name == "all" else [name]:
        if other in ("all", "deprecated"):
            continue
        mod = sys.modules.get("big." + other)
        if mod is None:
            fail(f"{what}: big.all didn't import big.{other}")
        for n in available(NAMES[other], missing):
            want[n] = getattr(mod, n)
        if name == "all":
            if getattr(m, other, None) is not mod:
                fail(f"{what}: big.all.{other} isn't the module")
            for n in getattr(mod, "__all__", ()):
                want[n] = getattr(mod, n)
    if name == "all" and "big.deprecated" not in sys.modules:
        fail(f"{what}: big.all didn't import big.deprecated")
    for n, v in want.items():
        if n not in star:
            fail(f"{what}: from big.{name} import * doesn't import {n}")
        if star[n] is not v:
            fail(f"{what}: {n} imported from big.{name} isn't that of its module")


def order_cases(tier):
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for order in itertools.permutations(MODULES, k):
            yield (order, (), 0)
    yield (tuple(MODULES), (), 0)
    yield (tuple(reversed(MODULES)), (), 0)
    for i in range(len(MODULES)):
        yield (tuple(MODULES[i:] + MODULES[:i]), (), 0)


def config_cases(tier):
    for k in range(len(OPTIONAL) + 1):
        for missing in itertools.combinations(OPTIONAL, k):
            for level in (0, 1, 2):
                for r in range(1, 2 if tier == "quick" else 3):
                    for order in itertools.permutations(MODULES, r):
                        yield (order, missing, level)
                yield (tuple(MODULES), missing, level)


# ---------------------------------------------------------------- many calls in each configuration

def all_calls(missing, level):
    "what every call in mc/c36.py gives in this configuration"
    purge("big", *missing)
    sys.modules.pop("mc.c36", None)
    Loader.level = level
    sys.meta_path.insert(0, Finder)
    if missing:
        sys.meta_path.insert(0, Missing(missing))
        importlib.import_module("big.all")
        del sys.meta_path[0]
    c36 = importlib.import_module("mc.c36")
    out = []
    for s in c36.CALLS:
        if "parse_timestamp" in s and "dateutil" in missing:
            out.append(None)
            continue
        try:
            out.append(repr(c36.run(s, c36.environment())))
        except BaseException as e:
            out.append(f"{type(e).__name__}")
    return list(zip(c36.CALLS, out))


def calls_check(case, st):
    missing, level = case
    want = in_child(lambda: all_calls((), 0))
    got = in_child(lambda: all_calls(missing, level))
    for (s, a), (s2, b) in zip(want, got):
        st.transitions += 1
        if "AssertionError" in a or b is None:
            continue
        if a != b:
            fail(f"without {missing} at optimization level {level}: {s} gives {b}, otherwise {a}")


# ---------------------------------------------------------------- the other properties in each configuration

CONFIGS = [((), 1), ((), 2), (("regex",), 0), (("dateutil",), 0), (("graphlib",), 0), (tuple(OPTIONAL), 2)]
OTHERS = [f"c{i:02}" for i in range(1, 36) if i not in (2, 27)]
FIRST = {"quick": 150, "thorough": 1500}
SLOW = {"c20": 2, "c25": 10, "c26": 10, "c33": 2}
# what these parts use isn't there
WITHOUT = {("c17", "types"): "regex", ("c26", "parsing"): "dateutil"}


def others_cases(tier):
    for o in OTHERS:
        for missing, level in CONFIGS:
            yield (o, missing, level, FIRST[tier] // SLOW.get(o, 1))


def others_check(case, st):
    other, missing, level, first = case
    st.transitions += in_child(lambda: run_other(other, missing, level, first))


def run_other(other, missing, level, first):
    "the first cases of every part of another check in this configuration"
    from .core import Stats, rearm
    for n in ("mc." + other, "mc.splitmodel", "mc.linesmodel", "mc.graphmodel", "mc.schedlib", "mc.threads"):
        sys.modules.pop(n, None)
    purge("big", *missing)
    Loader.level = level
    sys.meta_path.insert(0, Finder)
    if missing:
        # big doesn't find them, the check may
        sys.meta_path.insert(0, Missing(missing))
        importlib.import_module("big.all")
        del sys.meta_path[0]
    module = importlib.import_module("mc." + other)
    st = Stats()
    n = 0
    for part in module.PARTS:
        if hasattr(part, "inits") or WITHOUT.get((other, part.name), "") in missing:
            continue
        if part.setup:
            part.setup(0)
        for c in itertools.islice(part.cases("quick"), first):
            try:
                part.check(c, st)
            except Exception as e:
                if getattr(e, "key", None) is not None:
                    continue
                fail(f"without {', '.join(missing) or 'nothing'} at optimization level {level}: {part.name} of {other.upper()}, case {c!r}: {type(e).__name__}: {e}")
            n += 1
    return n


def same(got, case):
    order, missing, level = case
    for name, r in got.items():
        want = DEFAULT[name]
        if level == 2 and name == "builtin":
            want = want.replace("'doc'", "None")    # -OO strips docstrings, also of the functions here
            r = r.replace("'doc'", "None")
        if name == "time" and "dateutil" in missing:
            want = want[:want.rindex(",")] + "]"
        if r != want:
            fail(f"importing {' then '.join(order)} without {missing} at optimization level {level}: big.{name} did {r}, expected {want}")


def check(case, st):
    got = in_child(lambda: play(*case))
    same(got, case)
    st.transitions += len(case[0])


def reload_cases(tier):
    for a in MODULES:
        for b in MODULES:
            yield (a, b)


def reload_check(case, st):
    "a module imported in two ways, or looked up while another is imported, is one module with one set of classes"
    a, b = case

    def f():
        purge("big")
        Loader.level = 0
        sys.meta_path.insert(0, Finder)
        ma = importlib.import_module("big." + a)
        ids = {n: id(v) for n, v in vars(ma).items() if not n.startswith("__")}
        mb = importlib.import_module("big." + b)
        ns = {}
        exec(f"import big.{b}, big.{a}\nfrom big import {a} as x, {b} as y", ns)
        if ns["x"] is not ma or ns["y"] is not mb:
            fail(f"from big import {a}, {b}: not the same modules as import big.{a}, big.{b}")
        for n, i in ids.items():
            if n in vars(ma) and id(vars(ma)[n]) != i and n not in MODULES:
                fail(f"importing big.{b} after big.{a} changed big.{a}.{n}")
        return None
    in_child(f)


PARTS = [
    Part("orders", order_cases, check, setup=setup, bound="every order of importing up to 2 [3] of 15 modules, all rotations of all of them; each checked for its names and used"),
    Part("configurations", config_cases, check, setup=setup, bound="8 sets of missing optional packages (regex, dateutil, graphlib) x 3 optimization levels (asserts and docstrings stripped) x each module first [every pair], and all modules"),
    Part("calls", lambda tier: [(m, l) for k in range(len(OPTIONAL) + 1) for m in itertools.combinations(OPTIONAL, k) for l in (0, 1, 2)], calls_check, setup=setup, bound="the calls of C36's list in each of the 24 configurations"),
    Part("properties", others_cases, others_check, setup=setup, bound="the first 150 [3000] cases of every part of the other checks (but C02, C27, C36) with optimization level 1, 2, without regex, without dateutil, without graphlib, and without all three at level 2"),
    Part("identity", reload_cases, reload_check, setup=setup, bound="every pair of modules: importing the second changes nothing in the first"),
]
