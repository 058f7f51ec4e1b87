"""C36: results depend on the arguments alone: every history of calls, every interleaving of two iterators, another call at every line."""
import itertools
import os
import pickle
import re
import signal
import sys
import datetime
import tempfile
import time as realtime
from .core import Part, fail
from .c36calls import EXTRA
import big.text as T
import big.file as F
import big.time as TM
import big.version as V
import big.builtin as B
import big.deprecated as D
import big.itertools as I
import big.heap as H
import big.graph as G
import big.state as SM
import big.log as LOG
import big.scheduler as SC

ASSUMPTIONS = ["only calls from the list in mc/c36.py are combined", "another call at every line stands for another thread that is scheduled there and runs a whole call"]


def freeze(o):
    "a comparable picture of a result or an argument"
    if isinstance(o, T.LineInfo):
        return ("LineInfo", o.line, o.line_number, o.column_number, o.indent, o.leading, o.trailing, o.end, freeze(o.match))
    if isinstance(o, re.Match):
        return ("match", o.span(), o.group(), o.groups())
    if isinstance(o, (re.Pattern,)):
        return ("pattern", o.pattern, o.flags)
    if isinstance(o, T.Delimiter):
        return ("Delimiter", o.close, o.escape, o.quoting, o.multiline)
    if isinstance(o, D.Delimiter):
        return ("old Delimiter", o.open, o.close, o.backslash, o.nested)
    if isinstance(o, V.Version):
        return ("Version", str(o), repr(o))
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(repr, o)))
    if isinstance(o, dict):
        return ("dict", [(freeze(k), freeze(v)) for k, v in o.items()])
    if isinstance(o, (tuple, list)):
        return (type(o).__name__, [freeze(x) for x in o])
    if hasattr(o, "__next__"):
        return ("iterator", [freeze(x) for x in o])
    return (type(o).__name__, repr(o))


def environment():
    "fresh arguments; the expressions below use them"
    d = T.Delimiter
    return dict(
        T=T, F=F, TM=TM, V=V, B=B, D=D, I=I, H=H, G=G, SM=SM, LOG=LOG, SC=SC, re=re, datetime=datetime, sys=sys, realtime=realtime,
        L=["ab", "b"], L2=["b", "a", "ab"], LB=[b"ab", b"b"], S={"a", "b"}, S2={"ab", "b"},
        Q=["'", '"'], MQ=["'''"], M=["#", "//"],
        P={"(": d(")"), "'": d("'", escape="\\", quoting=True, multiline=False)},
        P2={"(": d(")"), "'": d("'", escape="\\", quoting=True, multiline=True)},
        P3={"(": d(")"), "'": d("'", escape="/", quoting=True, multiline=False)},
        P4={"(": d("]"), "'": d("'", escape="\\", quoting=True, multiline=False)},
        PB={b"(": d(b")"), b"'": d(b"'", escape=b"\\", quoting=True, multiline=False)},
        W=["a", "bb.", "c", "", "dd"],
        A=[["ab", "c"], ["a", "bc"]],
        C=("a b\nc", 2, 4), C2=("ddd\ne", 1, 3),
        R=re.compile("a+"), RB=re.compile(b"a+"),
        STATE=["("],
    )


CALLS = [c.strip() for c in r"""
T.multisplit("aabab b", L)
T.multisplit("aabab b", L2)
T.multisplit(b"aabab b", LB)
T.multisplit("aabab b", S)
T.multisplit("aabab b", S2)
T.multisplit("aabab b", L, keep=True)
T.multisplit("aabab b", L, keep=T.ALTERNATING)
T.multisplit("aabab b", L, keep=T.AS_PAIRS)
T.multisplit("aabab b", L, separate=True)
T.multisplit("aabab b", L, separate=True, keep=True)
T.multisplit("aabab b", L, reverse=True)
T.multisplit("aabab b", L, strip=True)
T.multisplit("aabab b", L, strip=T.PROGRESSIVE, maxsplit=1)
T.multisplit("a b\tc")
T.multisplit(b"a b\tc")
T.multisplit("a b", ())
T.multisplit("a b", b"b")
T.multisplit("a b", "b")
T.multisplit("a b", "ab")
T.multisplit("a b", ("ab",))
T.multisplit("a b", ("",))
T.multistrip("babcab", L)
T.multistrip("babcab", S)
T.multistrip("babcab", L, right=False)
T.multistrip(b"babcab", LB)
T.multipartition("cabcbc", L)
T.multipartition("cabcbc", L, 2)
T.multipartition("cabcbc", L, separate=False)
T.multirpartition("cabcbc", L)
T.re_partition("caabac", "a+")
T.re_partition("caabac", R, 2)
T.re_partition(b"caabac", b"a+")
T.re_partition("caabAc", "a+", flags=re.I, reverse=True)
T.re_rpartition("caabAc", "a+")
T.reversed_re_finditer("a+", "caabac")
T.reversed_re_finditer("aa|a", "caabac")
T.reversed_re_finditer(RB, b"caabac")
T.normalize_whitespace(" a  b ")
T.normalize_whitespace(" a  b ", L, "-")
T.normalize_whitespace(b" a  b ")
T.split_quoted_strings("a'b\"c' \"d\"")
T.split_quoted_strings("a'b\"c' \"d\"", Q)
T.split_quoted_strings("a'b\\'\"c' \"d\"", ("'",))
T.split_quoted_strings("a'b'c' \"d\"", ("'",), escape="b")
T.split_quoted_strings("a'''b\n'c'''d", Q, multiline_quotes=MQ)
T.split_quoted_strings("b\n'c'''d", Q, multiline_quotes=MQ, state="'''")
T.split_quoted_strings("b\n'c", Q)
T.split_quoted_strings(b"a'b\"c' \"d\"")
T.split_delimiters("a(b[c]'d)\\'e')")
T.split_delimiters("a(b'd)\\'e')", P)
T.split_delimiters("a(b'd)/'e')", P3)
T.split_delimiters("a(b'd]\\'e']", P4)
T.split_delimiters("a(b'd\n'e)", P)
T.split_delimiters("a(b'd\n'e)", P2)
T.split_delimiters("b)c", P, state=STATE)
T.split_delimiters(b"a(b'd)\\'e')", PB)
T.split_delimiters(b"a(b[c]'d)\\'e')")
T.split_delimiters("a)", P)
T.split_delimiters("a", PB)
T.lines("a\nb\r\nc")
T.lines("a\nb\r\nc", line_number=3, column_number=0, tab_width=4)
T.lines("aabab", L)
T.lines("aabab", ("ab",))
T.lines(b"a\nb\r\nc")
T.lines(["a", "b"])
T.lines_strip(T.lines(" a \n\tb"))
T.lines_strip(T.lines("bab c\nab"), L)
T.lines_rstrip(T.lines(" a \n\tb"))
T.lines_filter_empty_lines(T.lines_strip(T.lines(" a \n\t\nb")))
T.lines_containing(T.lines("ab\nc\nbc"), "b")
T.lines_grep(T.lines("ab\nc\nbc"), "^b")
T.lines_grep(T.lines("ab\nC\nbc"), "c", flags=re.I)
T.lines_grep(T.lines("ab\nC\nbc"), "c", invert=True)
T.lines_sort(T.lines("c\na\nb"))
T.lines_sort(T.lines("c\na\nb"), reverse=True)
T.lines_filter_line_comment_lines(T.lines("a\n # b\n//\nc"), M)
T.lines_filter_line_comment_lines(T.lines("a\n # b\n//\nc"), ("#",))
T.lines_strip_line_comments(T.lines("a 'b#' # c\nd // e"), M)
T.lines_strip_line_comments(T.lines("a 'b#' # c\nd // e"), M, quotes=Q)
T.lines_strip_line_comments(T.lines("a '''b#\n''' # c"), M, quotes=Q, multiline_quotes=MQ)
T.lines_strip_line_comments(T.lines("a 'b# # c\nd // e"), M, quotes=Q)
T.lines_convert_tabs_to_spaces(T.lines("a\tb\n\tc"))
T.lines_strip_indent(T.lines("a\n b\n  c\nd"))
T.lines_strip_indent(T.lines("a\n  b\n c\nd"))
T.wrap_words(W, 4)
T.wrap_words(W, 6, two_spaces=False)
T.split_text_with_code("a b\n\n    c d\n\ne")
T.split_text_with_code("a b\n\n    c d\n\ne", allow_code=False)
T.split_text_with_code("a\tb\n\n\tc\td", tab_width=4, convert_tabs_to_spaces=False)
T.split_text_with_code(b"a b\n\n    c d\n\ne")
T.merge_columns(C, C2)
T.merge_columns(C2, C, column_separator="|")
T.merge_columns(("aaa bbb\nc", 2, 3), C2, overflow_strategy=T.OverflowStrategy.DELAY_ALL)
T.merge_columns(("aaa bbb\nc", 2, 3), C2, overflow_strategy=T.OverflowStrategy.INTRUDE_ALL, overflow_before=1)
T.merge_columns(("aaa bbb\nc", 2, 3), C2)
T.int_to_words(1234567)
T.int_to_words(1234567, flowery=False)
T.int_to_words(-20, ordinal=True)
T.gently_title("a 'b' don't \"c\" \u2018d\u2019")
T.gently_title("a 'b' don't \"c\" \u2018d\u2019", apostrophes="'")
T.gently_title("a 'b' don't \"c\" \u2018d\u2019", double_quotes="d")
T.gently_title(b"a 'b' don't \"c\"")
T.split_title_case("aBcDEf")
T.split_title_case("aBcDEf", split_allcaps=False)
T.split_title_case(b"aBcDEf")
T.combine_splits("abc", *A)
T.combine_splits("abc", A[1])
T.encode_strings(A)
T.encode_strings(P, "utf-16")
D.split_quoted_strings("a'b\"c' \"d\"", Q)
D.split_quoted_strings("a'''b'c'''", Q)
D.parse_delimiters("a(b'c)')")
D.parse_delimiters("a(b]c", ["(]"])
D.parse_delimiters(b"a(b'c)')")
D.lines_strip_comments(T.lines("a '#' # b"), M)
D.lines_strip_comments(T.lines("a '#' # b"), M, quotes=None)
F.translate_filename_to_exfat("a:b/c ")
F.translate_filename_to_unix("a:b/c ")
V.Version("1!2.0a1.post2.dev3+x.4")
V.Version("1.0")
V.Version("1.0") < V.Version("1.0.post1")
V.Version("1.0") == V.Version("1.0.0")
V.Version("1.0x")
sorted(map(V.Version, ["1", "1a1", "1.dev1", "0!1.1"]))
V.Version(release=(1, 2), release_level="rc", serial=1)
TM.timestamp_3339Z(0.25)
TM.timestamp_3339Z(0, want_microseconds=True)
TM.timestamp_3339Z(datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone.utc))
TM.timestamp_human(0, want_microseconds=True)
TM.parse_timestamp_3339Z("2020-01-02T03:04:05Z")
TM.parse_timestamp_3339Z("2020-01-02T03:04:05.5Z", timezone=None)
B.get_int_or_float("1.5")
B.get_int_or_float("x", None)
B.get_int("1", 3)
B.get_float("x")
""".strip().split("\n")]

def extra_check(case, st):
    call, related = case

    def sweep():
        env = environment()
        for s in [call, *CALLS, call]:
            got = run(s, env)
            if got != BASE[(s,)]:
                return f"after {call!r} and the calls of mc/c36.py up to {s!r}: it gives {got!r}, but {BASE[(s,)]!r} by itself"

    def several(others):
        env = environment()
        for s in (call, *others, call):
            got = run(s, env)
            if got != BASE[(s,)]:
                return f"after {call!r}, {others!r}: {s} gives {got!r}, but {BASE[(s,)]!r} by itself"

    base(call)
    for other in related:
        base(other)
    for f in [sweep] + [lambda o=o: several([o]) for o in related] + [lambda: several(related)]:
        st.states += 1
        st.traces += 1
        st.transitions += 3
        bad = in_child(f)
        if bad:
            fail(bad)


def extra_cases(tier):
    for s in EXTRA:
        yield s, [x for x in CALLS + EXTRA if x != s]


TEXT = [c for c in CALLS if c.startswith(("T.", "D."))]
# changes of the arguments between two calls
CHANGES = [c.strip() for c in '''
L.append("c")
L.reverse()
L.clear()
L[:] = ["a"]
L2.pop()
S.add("c")
S2.clear()
LB.append(b"a")
Q.pop()
MQ.append('"')
MQ.clear()
M.append("a")
M[:] = ["//"]
P["["] = T.Delimiter("]")
P.pop("(")
P["'"] = T.Delimiter("'", escape="x", quoting=True)
W.append("z")
A[0][:] = ["a", "b", "c"]
A.append(["abc"])
STATE.clear()
'''.strip().split("\n")]

_code = {}


def code(s):
    if s not in _code:
        try:
            _code[s] = compile(s, "<call>", "eval"), True
        except SyntaxError:
            _code[s] = compile(s, "<call>", "exec"), False
    return _code[s]


def run(s, env):
    c, is_eval = code(s)
    if not is_eval:
        exec(c, env)
        return "changed"
    try:
        return freeze(eval(c, env))
    except Exception as e:
        return ("raised", type(e).__name__)


def in_child(f):
    "f() in a forked process; its result or a message"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    kind, value = pickle.loads(data)
    if kind == "error":
        fail(value)
    return value


BASE = {}


def base(*history):
    "the result of the last call of the history in a fresh process"
    if history not in BASE:
        def f():
            env = environment()
            for s in history:
                out = run(s, env)
            return out
        BASE[history] = in_child(f)
    return BASE[history]


def setup(k):
    for s in CALLS:
        base(s)


def history_check(case, st):
    first, depth = case
    env0 = {k: freeze(v) for k, v in environment().items() if k.isupper() or len(k) == 2 and k[1].isdigit()}
    for k in ("T", "F", "TM", "V", "B", "D", "I", "H", "G", "SM", "LOG", "SC"):
        env0.pop(k, None)

    def f(history):
        env = environment()
        for s in history:
            got = run(s, env)
            if got != BASE[(s,)]:
                return f"after {history!r}: {s} gives {got!r}, but {BASE[(s,)]!r} by itself"
            for k, v in env0.items():
                if freeze(env[k]) != v:
                    return f"{s} changed its argument {k}: {freeze(env[k])!r}, was {v!r}"
        return None

    for rest in itertools.product(CALLS if depth == 2 else TRIPLES, repeat=depth - 1):
        history = (first,) + rest
        st.states += 1
        st.transitions += depth
        st.traces += 1
        bad = in_child(lambda: f(history))
        if bad:
            fail(bad)


# for histories of three
TRIPLES = [s for s in CALLS if re.search(r"\b(L|P2?|Q|S|PB)\b|'b'c'|int_to|gently|Version\(\"1", s)]


def history_cases(tier):
    for s in CALLS:
        yield (s, 2)
    if tier != "quick":
        for s in TRIPLES:
            yield (s, 3)


def change_check(case, st):
    call, change = case
    names = set(re.findall(r"\b[A-Z]+[0-9]?\b", change)) & set(re.findall(r"\b[A-Z]+[0-9]?\b", call)) - {"T"}
    if not names:
        return
    want = base(change, call)
    got = in_child(lambda: (lambda env: [run(s, env) for s in (call, change, call)][-1])(environment()))
    st.transitions += 1
    if got != want:
        fail(f"{call}, then {change}, then {call}: {got!r}, expected {want!r}")


def change_cases(tier):
    return itertools.product(CALLS, CHANGES)


def is_iterator(s):
    try:
        return hasattr(eval(code(s)[0], environment()), "__next__")
    except Exception:
        return False


class Steps:
    "one call as a sequence of steps: the call, then each item"
    def __init__(self, s, env):
        self.s, self.env, self.out, self.it = s, env, [], None
        self.over = False

    def step(self):
        try:
            if self.it is None:
                self.it = eval(code(self.s)[0], self.env)
                if not hasattr(self.it, "__next__"):
                    self.out.append(freeze(self.it))
                    self.over = True
                return
            self.out.append(freeze(next(self.it)))
        except StopIteration:
            self.over = True
        except Exception as e:
            self.out.append(("raised", type(e).__name__))
            self.over = True


def alone(s):
    key = ("steps", s)
    if key not in BASE:
        def f():
            x = Steps(s, environment())
            n = 0
            while not x.over:
                x.step()
                n += 1
            return x.out, n
        BASE[key] = in_child(f)
    return BASE[key]


ITERATORS = None


def interleave_setup(k):
    global ITERATORS
    ITERATORS = [s for s in TEXT if is_iterator(s)]


def interleave_check(case, st):
    "every interleaving of the first steps of two calls, and then the rest"
    a, limit = case
    interleave_setup(0)
    wa, na = alone(a)
    for b in ITERATORS:
        wb, nb = alone(b)
        ka, kb = min(na, limit), min(nb, limit)
        for places in itertools.combinations(range(ka + kb), ka):
            env = environment()
            x, y = Steps(a, env), Steps(b, env)
            for i in range(ka + kb):
                (x if i in places else y).step()
            for z in (x, y):
                while not z.over:
                    z.step()
            st.states += 1
            st.transitions += na + nb
            st.traces += 1
            for z, w in ((x, wa), (y, wb)):
                if z.out != w:
                    fail(f"{a} and {b} interleaved (the steps of the first are {places}, from 0): {z.s} gives {z.out!r}, but {w!r} by itself")


def interleave_cases(tier):
    interleave_setup(0)
    for s in ITERATORS:
        yield (s, 4 if tier == "quick" else 5)


HERE = os.path.dirname(T.__file__)


def preempt(a, b, place, env):
    "run a; at its place-th executed line in big, run the whole of b. Returns (result of a, result of b or None)"
    count = [0]
    other = [None]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == place:
                sys.settrace(None)
                other[0] = run(b, env)
                sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(HERE) else None

    sys.settrace(glob)
    try:
        out = run(a, env)
    finally:
        sys.settrace(None)
    return out, other[0], count[0]


def preempt_check(case, st):
    a, every = case
    n = preempt(a, "0", -1, environment())[2]
    others = CALLS if every else PREEMPT
    for b in others:
        for place in range(1, n + 1):
            env = environment()
            got, other, _ = preempt(a, b, place, env)
            st.states += 1
            st.transitions += 1
            st.traces += 1
            if got != base(a):
                fail(f"{a} with {b} run at its line {place}: {got!r}, but {base(a)!r} by itself")
            if other is not None and other != base(b):
                fail(f"{b} run at line {place} of {a}: {other!r}, but {base(b)!r} by itself")


def cold_check(case, st):
    "the same, but neither call has been made before: nothing is cached"
    a, others = case
    n = in_child(lambda: preempt(a, "0", -1, environment())[2])
    for b in others:
        for place in range(1, n + 1):
            got, other, _ = in_child(lambda: preempt(a, b, place, environment()))
            st.states += 1
            st.transitions += 1
            st.traces += 1
            if got != base(a):
                fail(f"{a} with {b} run at its line {place}, nothing cached: {got!r}, but {base(a)!r} by itself")
            if other is not None and other != base(b):
                fail(f"{b} run at line {place} of {a}, nothing cached: {other!r}, but {base(b)!r} by itself")


PREEMPT = [s for s in CALLS if s in {
    'T.multisplit("aabab b", L, keep=True)', 'T.multisplit(b"aabab b", LB)', 'T.multistrip("babcab", L)', 'T.re_partition("caabac", "a+")',
    'T.reversed_re_finditer("a+", "caabac")', 'T.split_quoted_strings("a\'b\\"c\' \\"d\\"")', 'T.split_delimiters("a(b\'d)\\\\\'e\')", P)',
    'T.lines_strip_indent(T.lines("a\\n b\\n  c\\nd"))', 'T.wrap_words(W, 4)', 'T.split_text_with_code("a b\\n\\n    c d\\n\\ne")',
    'T.merge_columns(C, C2)', 'T.int_to_words(1234567)', 'T.gently_title("a \'b\' don\'t \\"c\\" \\u2018d\\u2019")', 'T.split_title_case("aBcDEf")', 'T.combine_splits("abc", *A)',
    'V.Version("1!2.0a1.post2.dev3+x.4")', 'D.parse_delimiters("a(b\'c)\')")'}]
assert len(PREEMPT) == 17, len(PREEMPT)


def same_function(a):
    name = a.split("(")[0]
    return [b for b in CALLS if b.split("(")[0] == name]


def preempt_cases(tier):
    for s in CALLS:
        yield (s, tier != "quick")


def cold_cases(tier):
    for s in CALLS:
        if tier != "quick":
            yield (s, same_function(s) + PREEMPT)
        elif s in PREEMPT:
            yield (s, same_function(s)[:3])


PARTS = [
    Part("histories", history_cases, history_check, auto=False, setup=setup, bound=f"every sequence of two of {len(CALLS)} calls (thorough: of three of {len(TRIPLES)}), each in a fresh process; shared arguments, unchanged after each call"),
    Part("more options", extra_cases, extra_check, auto=False, setup=setup, bound=f"{len(EXTRA)} more calls: each with any other call, and each before all the others in one process"),
    Part("changed arguments", change_cases, change_check, setup=setup, bound=f"a call, one of {len(CHANGES)} changes of an argument, the call again, each in a fresh process"),
    Part("interleavings", interleave_cases, interleave_check, auto=False, setup=interleave_setup, bound="every interleaving of the first 4 (5) steps of every two lazy calls, sharing arguments"),
    Part("another call at every line", preempt_cases, preempt_check, auto=False, setup=setup, bound=f"every call with one of {len(PREEMPT)} (thorough: all) calls run at each of its executed lines"),
    Part("uncached", cold_cases, cold_check, auto=False, setup=setup, bound="the same for calls of the same function, each in a fresh process"),
]
