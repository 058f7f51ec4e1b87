"""C40: instances of subclasses of str and bytes count as the strings they are."""
import ast
import enum
import itertools
from .core import Part, fail
from . import c36
import big.text as T

ASSUMPTIONS = ["the subclasses may override __str__, __repr__ and __format__ (as an enum.Enum with str does), but not the methods that examine the string", "only calls from the list in mc/c36.py and mc/c40.py"]


class Plain(str):
    pass


class Named(str):
    "prints otherwise"
    def __str__(self):
        return "<named>"
    __repr__ = __str__

    def __format__(self, spec):
        return "<named>"


class PlainBytes(bytes):
    pass


class NamedBytes(bytes):
    def __str__(self):
        return "<named>"
    __repr__ = __str__

    def __bytes__(self):
        return b"<named>"


MEMBERS = {}


def member(s):
    "s as a member of an enumeration of strings"
    if s not in MEMBERS:
        MEMBERS[s] = enum.Enum("E", {"x": s}, type=type(s))(s)
    return MEMBERS[s]


KINDS = {
    "plain": (Plain, PlainBytes),
    "named": (Named, NamedBytes),
    "enum": (member, member),
}

CALLS = [c.strip() for c in r"""
T.lines([("a", "\n"), ("b", "")])
T.lines([b"a", b"b"])
T.lines_strip(T.lines([" a", "b "]))
T.lines_rstrip(T.lines([" a", "b "]))
T.lines_strip_indent(T.lines(["a", " b", "  c", "d"]))
T.lines_sort(T.lines(["b", "a"]))
T.lines_containing(T.lines(["b", "a"]), "a")
T.lines_convert_tabs_to_spaces(T.lines(["b\tc", "a"]))
T.lines_filter_line_comment_lines(T.lines(["b", " # a"]), "#")
T.lines_strip_line_comments(T.lines(["b", "'#' # a"]), "#", quotes=("'",))
T.lines_grep(T.lines(["b", "a"]), "a")
T.lines_filter_empty_lines(T.lines(["b", ""]))
T.normalize_whitespace(" ", None, "x")
T.normalize_whitespace("aba", "b", "x")
T.normalize_whitespace("b", "b", "x")
T.normalize_whitespace("", "b", "x")
T.normalize_whitespace(b"b ", b"b", b"x")
T.multistrip("abc", "x")
T.multistrip("abc", ("x", "yy"))
T.multistrip("", "x")
T.multistrip(b"abc", b"x", left=False)
T.multistrip("abc", "a", left=False, right=False)
T.multistrip("abca", ("a",), left=False)
T.multistrip("aa", ("a",))
T.multisplit("")
T.multisplit("abc")
T.multisplit("abc", maxsplit=0)
T.multisplit("abc", "b", keep=True, maxsplit=0)
T.multisplit(b"abc", b"b", keep=T.AS_PAIRS, reverse=True)
T.multisplit("a\r\nb", T.linebreaks, keep=T.AS_PAIRS)
T.multipartition("abc", "x")
T.multipartition("abc", "b", 0)
T.multipartition(b"abc", b"b", 2)
T.multirpartition("abc", ("x", "y"))
T.re_partition("abc", "x")
T.re_partition("abc", "b", 0)
T.re_rpartition("abc", "x")
T.re_rpartition("abc", "b", 2)
T.split_title_case("")
T.split_title_case("ab")
T.gently_title("")
T.gently_title("a")
T.gently_title("A", apostrophes=("x",), double_quotes=("yy",))
T.combine_splits("abc", ["abc"])
T.combine_splits("abc", ["abc"], ["abc"])
T.wrap_words(["a"])
T.wrap_words(["aaa"], 2)
T.wrap_words(["a", "\n", "b", "\n\n", "c"])
T.split_text_with_code("a")
T.split_text_with_code("    a")
T.merge_columns(("a", 1, 2))
T.merge_columns(("a", 1, 2), ("b", 1, 2), column_separator="|")
T.split_quoted_strings("a")
T.split_quoted_strings("'a'")
T.split_quoted_strings("a'b", state="'")
T.split_delimiters("a")
T.split_delimiters("a(b)", {"(": T.Delimiter(")")})
T.split_delimiters("a)", {"(": T.Delimiter(")")}, state=("(",))
T.split_delimiters("a\"\\\"b\"", {"\"": T.Delimiter("\"", escape="\\", quoting=True)})
T.split_delimiters("a(b)", {"(": T.Delimiter(close=")")}, state="")
T.encode_strings("a")
T.encode_strings({"a": ["b", {"c"}, ("d",)]})
T.encode_strings(["a"], "ascii")
F.translate_filename_to_exfat("a:b")
F.translate_filename_to_exfat("ab")
F.translate_filename_to_unix("a/b")
F.translate_filename_to_unix("ab")
V.Version("1.0")
V.Version(release=(1, 2), release_level="rc", local=("a", "1"))
str(V.Version("1.0rc1+a"))
B.get_int("3")
B.get_int_or_float("3.5")
B.get_float("x")
B.get_int("x")
TM.parse_timestamp_3339Z("2020-01-02T03:04:05Z")
D.lines_strip_comments(T.lines("a # b"), "#")
D.parse_delimiters("a(b)", ["()"])
D.split_quoted_strings("a'b'", ["'"])
""".strip().split("\n")]
ALL = c36.CALLS + [c for c in CALLS if c not in c36.CALLS]


class Sub(ast.NodeTransformer):
    "replaces the chosen string constants"
    def __init__(self, chosen):
        self.chosen = chosen
        self.n = 0

    def visit_Constant(self, node):
        if isinstance(node.value, (str, bytes)):
            self.n += 1
            if self.chosen is not None and self.n - 1 in self.chosen:
                return ast.copy_location(ast.Call(ast.Name("SUB", ast.Load()), [node], []), node)
        return node


def substitute(call, chosen):
    t = Sub(chosen)
    tree = ast.fix_missing_locations(t.visit(ast.parse(call, mode="eval")))
    return compile(tree, "<call>", "eval"), t.n, ast.unparse(tree)


def first_string(call):
    return repr(next(n.value for n in ast.walk(ast.parse(call, mode="eval")) if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes))))


def sub_deep(o, sub):
    "the strings in a container replaced"
    if isinstance(o, (str, bytes)):
        return sub(o)
    if isinstance(o, (list, tuple, set)):
        return type(o)(sub_deep(x, sub) for x in o)
    if isinstance(o, dict):
        return {sub_deep(k, sub): v for k, v in o.items()}
    return o


# these are documented to return only str and bytes objects
STRICT = tuple("T." + f + "(" for f in ("multisplit", "multistrip", "multipartition", "multirpartition", "re_partition", "re_rpartition", "normalize_whitespace", "lines"))


def picture(o, strict):
    if isinstance(o, str) and not strict:
        o = "".join((o,))
    elif isinstance(o, bytes) and not strict:
        o = b"".join((o,))
    elif isinstance(o, (tuple, list)):
        return (type(o).__name__, [picture(x, strict) for x in o])
    elif hasattr(o, "__next__"):
        return ("iterator", [picture(x, strict) for x in o])
    return c36.freeze(o)


def evaluate(code, env, strict):
    try:
        return picture(eval(code, env), strict)
    except Exception as e:
        return ("raised", type(e).__name__)


def subsets(n):
    if n <= 6:
        for k in range(1, n + 1):
            yield from itertools.combinations(range(n), k)
    else:
        for k in range(n):
            yield (k,)
        yield tuple(range(n))


def sub_cases(tier):
    for c in ALL:
        n = substitute(c, None)[1]
        for kind in KINDS:
            for containers in (False, True):
                for chosen in itertools.chain([()], subsets(n)):
                    if chosen or containers:
                        yield (c, kind, containers, chosen)


def sub_check(case, st):
    call, kind, containers, chosen = case
    text_class, bytes_class = KINDS[kind]

    def sub(s):
        return text_class(s) if isinstance(s, str) else bytes_class(s)
    strict = call.startswith(STRICT)
    want = evaluate(substitute(call, None)[0], c36.environment(), strict)
    env = c36.environment()
    if containers:
        for k, v in list(env.items()):
            if k.isupper() and k != "T" or len(k) == 2 and k[1].isdigit():
                env[k] = sub_deep(v, sub)
    env["SUB"] = sub
    code, _, text = substitute(call, chosen)
    got = evaluate(code, env, strict)
    st.transitions += 1
    if got != want:
        key = None
        if call.startswith("T.multistrip(") and got != want == evaluate(code, env, False) and want[1] == first_string(call):
            # nothing was stripped
            key = "multistrip-keeps-subclass"
        fail(f"{text} with {kind} instances of subclasses{' also in containers' if containers else ''}: {got}, but {want} with plain strings", key=key)


# (alphabet, call); every text takes the place of the braces
TEMPLATES = [c.strip().split(" ", 1) for c in r"""
ab T.multistrip({}, "a")
ab T.multistrip({}, ("ab", "b"), right=False)
ab T.multisplit({}, "a")
ab T.multisplit({}, ("ab", "a"), keep=True, reverse=True)
ab T.multisplit({}, ("b",), keep=T.AS_PAIRS, strip=True)
ab T.multisplit({}, ("b",), maxsplit=1, keep=T.ALTERNATING)
ab T.multipartition({}, ("b", "ab"))
ab T.multirpartition({}, ("b",), 2)
ab T.re_partition({}, "a+", 2)
ab T.re_rpartition({}, "a*")
ab T.normalize_whitespace({}, "a", "bb")
a\s T.normalize_whitespace({}, None, "x")
a\n T.lines({})
ab T.lines([{}, "b"])
ab T.lines([({}, "b")])
a'" T.split_quoted_strings({}, quotes=("'", '"'))
a(] T.split_delimiters({}, {{"(": T.Delimiter("]")}})
aA T.split_title_case({})
a' T.gently_title({})
ab T.combine_splits({}, [{}], [{}])
a\n T.wrap_words([{}, "b"], 2)
a\s\n T.split_text_with_code({})
a\n T.merge_columns(({}, 1, 4), ("b", 1, 4))
a: F.translate_filename_to_exfat({})
1. V.Version({})
1. B.get_int_or_float({})
a# T.lines_strip_line_comments(T.lines([{}]), "#")
a\s T.lines_strip(T.lines([{}]))
""".strip().split("\n")]
TEMPLATES = [(a.replace("\\s", " ").replace("\\n", "\n"), t) for a, t in TEMPLATES]


def text_cases(tier):
    for alphabet, template in TEMPLATES:
        for n in range(6 if tier == "quick" else 8):
            for w in itertools.product(alphabet, repeat=n):
                yield (template, "".join(w))


def text_check(case, st):
    "the strings of each call replaced by instances of any mixture of classes"
    template, s = case
    for text in (s, s.encode()):
        call = template
        if isinstance(text, bytes):
            tree = ast.parse(call.replace("{{", "{").replace("}}", "}").replace("{}", "XX"), mode="eval")
            call = ast.unparse(Bytes().visit(tree)).replace("{", "{{").replace("}", "}}").replace("XX", "{}")
        call = call.format(*[repr(text)] * 3)
        n = substitute(call, None)[1]
        strict = call.startswith(STRICT)
        want = evaluate(substitute(call, None)[0], c36.environment(), strict)
        code = substitute(call, range(n))[0]
        for classes in itertools.product([None] + list(KINDS), repeat=min(n, 4)):
            env = c36.environment()
            it = iter(classes + classes[-1:] * n)

            def sub(s):
                kind = next(it, None)
                return s if kind is None else KINDS[kind][isinstance(s, bytes)](s)
            env["SUB"] = sub
            it = iter(classes + classes[-1:] * n)
            got = evaluate(code, env, strict)
            st.transitions += 1
            if got != want:
                key = None
                if call.startswith("T.multistrip("):
                    it = iter(classes + classes[-1:] * n)
                    if want[1] == repr(text) and got != want == evaluate(code, env, False):
                        key = "multistrip-keeps-subclass"
                fail(f"{call} with its strings of the classes {classes}: {got}, but {want} with plain strings", key=key)


class Bytes(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, str):
            return ast.copy_location(ast.Constant(node.value.encode()), node)
        return node


PARTS = [
    Part("calls", sub_cases, sub_check, bound="every subset of the strings in each call (of more than 6: each one, and all) replaced by an instance of one of 3 kinds of subclasses, alone and together with those in containers"),
    Part("texts", text_cases, text_check, bound="28 calls with all texts of up to 5 [7] characters, text and bytes, each of the first 4 strings plain or an instance of one of 3 kinds of subclasses"),
]
