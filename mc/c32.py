"""C32: every text function on bytes gives the image of what it gives on the same ASCII text; mixtures are refused."""
import collections
import itertools
import re
from .core import Part, fail, expect, outcome
import big.text as T
from big.text import *

ASSUMPTIONS = ["the characters on which str and bytes themselves disagree (VT and FF as line breaks, 1c to 1f as white space) are excluded"]

D = T.Delimiter


def image(o):
    "the bytes image of arguments and results, independently of encode_strings"
    if isinstance(o, str):
        return o.encode("ascii")
    if o is None or isinstance(o, (bytes, int, float, OverflowStrategy)):
        return o
    if isinstance(o, tuple):
        return tuple(image(x) for x in o)
    if isinstance(o, list):
        return [image(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return type(o)(image(x) for x in o)
    if isinstance(o, dict):
        return {image(k): image(v) for k, v in o.items()}
    if isinstance(o, D):
        return D(image(o.close), escape=image(o.escape), quoting=o.quoting, multiline=o.multiline)
    if isinstance(o, re.Pattern):
        return re.compile(o.pattern.encode("ascii"), o.flags & ~re.UNICODE)
    if type(o) in (type(LEFT),):
        return o
    raise TypeError(f"harness: no image of {o!r}")


CONSTANTS = (LEFT, RIGHT, ALTERNATING, AS_PAIRS, PROGRESSIVE)


def image_kw(kw):
    return {k: v if any(v is c for c in CONSTANTS) else v if k == "match" or callable(v) else image(v) for k, v in kw.items()}


def freeze(o):
    "a comparable picture of a result"
    if isinstance(o, (str, bytes, int, float)) or o is None:
        if isinstance(o, str):
            return ('s', o)
        if isinstance(o, bytes):
            return ('s', o.decode("ascii"))
        return o
    if isinstance(o, (tuple, list)):
        return [freeze(x) for x in o]
    if isinstance(o, dict):
        return {freeze(k): freeze(v) for k, v in o.items()}
    if isinstance(o, LineInfo):
        m = o.match
        return ('LineInfo', freeze(o.line), o.line_number, o.column_number, o.indent, freeze(o.leading), freeze(o.trailing), freeze(o.end), None if m is None else (freeze(m.group()), m.span(), freeze(m.groups())))
    if isinstance(o, re.Match):
        return ('match', freeze(o.group()), o.span(), freeze(o.groups()))
    if isinstance(o, D):
        return ('delimiter', freeze(o.close), freeze(o.escape), o.quoting, o.multiline)
    if hasattr(o, "__iter__"):
        return [freeze(x) for x in o]
    raise TypeError(f"harness: result {type(o)}")


def types_in(o):
    "the string types in a result"
    if isinstance(o, (str, bytes)):
        return {type(o)}
    if isinstance(o, (tuple, list)):
        return set().union(*[types_in(x) for x in o]) if o else set()
    if isinstance(o, LineInfo):
        return types_in([o.line, o.leading, o.trailing, o.end])
    if isinstance(o, re.Match):
        return types_in([o.group()])
    if isinstance(o, D):
        return types_in([o.close, o.escape])
    return set()


def listed(f):
    def call(*a, **kw):
        r = f(*a, **kw)
        if isinstance(r, (str, bytes, tuple, list)) or r is None:
            return r
        return list(r)
    call.__name__ = f.__name__
    return call


def through(*mods):
    "lines(s) through a chain of modifiers, each (function, args, kwargs)"
    def call(s, bytes_):
        li = lines(s)
        for f, args, kw in mods:
            li = f(li, *(image(args) if bytes_ else args), **(image_kw(kw) if bytes_ else kw))
        return [(info, line) for info, line in li]
    return call


# (name, function, further arguments, keyword arguments); the string comes first
CALLS = []


def add(f, *args, **kw):
    CALLS.append((f.__name__, listed(f), args, kw))


for kw in ({}, {"keep": True}, {"keep": AS_PAIRS}, {"keep": ALTERNATING, "separate": True}, {"maxsplit": 1}, {"maxsplit": 1, "reverse": True}, {"strip": True}, {"strip": LEFT, "separate": True}, {"strip": PROGRESSIVE, "maxsplit": 2}, {"separate": True}, {"reverse": True}):
    add(multisplit, **kw)
add(multisplit, None)
for seps in (" a", ("a", "B"), (" ", "\r\n"), ["aB", "a"], {"'"}):
    add(multisplit, seps)
    add(multisplit, seps, keep=True, separate=True)
    add(multisplit, seps, keep=AS_PAIRS, maxsplit=1, reverse=True)
    add(multistrip, seps)
    add(multistrip, seps, left=False)
    add(multistrip, seps, right=False)
    add(multipartition, seps)
    add(multipartition, seps, 2)
    add(multipartition, seps, reverse=True)
    add(multirpartition, seps)
    add(multirpartition, seps, 2, separate=False)
    add(normalize_whitespace, seps)
    add(normalize_whitespace, seps, "-")
add(normalize_whitespace)
add(normalize_whitespace, None, "")
add(normalize_whitespace, replacement="+")
for pat in ("a", "[aB]+", r"\s", "(a)|(B)", re.compile("a.")):
    add(re_partition, pat)
    add(re_partition, pat, 2)
    add(re_partition, pat, reverse=True)
    add(re_rpartition, pat)
    if not isinstance(pat, re.Pattern):
        add(re_partition, pat, flags=re.I)
        CALLS.append(("reversed_re_finditer", lambda s, p: list(reversed_re_finditer(p, s)), (pat,), {}))
        CALLS.append(("reversed_re_finditer", lambda s, p, flags: list(reversed_re_finditer(p, s, flags)), (pat,), {"flags": re.I}))
add(split_title_case)
add(split_title_case, split_allcaps=False)
add(gently_title)
add(gently_title, apostrophes="'a", double_quotes='"#')
add(gently_title, apostrophes=("'",), double_quotes=['"', "'"])
add(split_quoted_strings)
add(split_quoted_strings, ("'",))
add(split_quoted_strings, "'#")
add(split_quoted_strings, escape="")
add(split_quoted_strings, escape="#")
add(split_quoted_strings, ("'",), multiline_quotes=('"',))
add(split_quoted_strings, ("'",), multiline_quotes='"', escape="#")
add(split_quoted_strings, state="'")
add(split_quoted_strings, state='"')
add(split_delimiters)
add(split_delimiters, {"(": D(")"), "a": D("B", escape="#", quoting=True)})
add(split_delimiters, {"(": D(")"), "'": D("'", escape="\\", quoting=True, multiline=False)})
add(split_delimiters, state="(")
add(split_delimiters, state=("(", '"'))
add(split_delimiters, state=["("])
add(lines)
add(lines, line_number=5, column_number=0, tab_width=4)
add(lines, ("\n", "a"))
add(lines, "\n ")
LINE_MODS = [
    ((lines_rstrip, (), {}),), ((lines_rstrip, ((" ", "a"),), {}),), ((lines_rstrip, ("a ",), {}),),
    ((lines_strip, (), {}),), ((lines_strip, (("a", "\t"),), {}),), ((lines_strip, (" a",), {}),),
    ((lines_filter_line_comment_lines, ("#",), {}),), ((lines_filter_line_comment_lines, (("#", "aB"),), {}),),
    ((lines_containing, ("a",), {}),), ((lines_containing, ("a",), {"invert": True}),),
    ((lines_grep, ("a.",), {}),), ((lines_grep, (re.compile("[aB]"),), {"invert": True}),), ((lines_grep, ("A",), {"flags": re.I}),),
    ((lines_sort, (), {}),), ((lines_sort, (), {"reverse": True}),),
    ((lines_strip_line_comments, ("#",), {}),), ((lines_strip_line_comments, (("#", "aB"),), {"quotes": ("'", '"')}),), ((lines_strip_line_comments, ("#",), {"quotes": "'", "multiline_quotes": ('"',)}),), ((lines_strip_line_comments, ("#",), {"quotes": ("'",), "escape": "a"}),), ((lines_strip_line_comments, ("#",), {"quotes": "'\"", "escape": ""}),),
    ((lines_convert_tabs_to_spaces, (), {}),), ((lines_strip_indent, (), {}),), ((lines_filter_empty_lines, (), {}),),
    ((lines_strip_indent, (), {}), (lines_rstrip, (), {}), (lines_filter_empty_lines, (), {})),
    ((lines_convert_tabs_to_spaces, (), {}), (lines_strip_line_comments, ("#",), {"quotes": ("'",)}), (lines_strip, (), {})),
]
for mods in LINE_MODS:
    f = through(*mods)
    CALLS.append(("lines, " + ", ".join(m[0].__name__ for m in mods), f, "THROUGH", {}))
add(split_text_with_code)
add(split_text_with_code, tab_width=4, allow_code=False)
add(split_text_with_code, code_indent=2, convert_tabs_to_spaces=False)


def wrapped(s, margin, two_spaces):
    return wrap_words(split_text_with_code(s), margin, two_spaces=two_spaces)


def wrapped_split(s, margin):
    return wrap_words(s.split(), margin)


CALLS.append(("wrap_words(split_text_with_code())", wrapped, (79, True), {}))
CALLS.append(("wrap_words(split_text_with_code())", wrapped, (4, False), {}))
CALLS.append(("wrap_words(s.split())", wrapped_split, (3,), {}))


def merged(s, kw):
    b = isinstance(s, bytes)
    other = b"x\ny" if b else "x\ny"
    s = s.replace(b"\r" if b else "\r", b"" if b else "").replace(b"\t" if b else "\t", b"" if b else "")
    return merge_columns((s, 1, 3), (other, 2, 2), **kw)


STRATEGIES = [{}, {"overflow_strategy": OverflowStrategy.INTRUDE_ALL}, {"overflow_strategy": OverflowStrategy.INTRUDE_ALL, "overflow_before": 1}, {"column_separator": "|", "overflow_strategy": OverflowStrategy.DELAY_ALL}]
for kw in STRATEGIES:
    CALLS.append(("merge_columns", lambda s, kw=kw: merged(s, image_kw(kw) if isinstance(s, bytes) else kw), (), {}))
CALLS.append(("combine_splits", lambda s: list(combine_splits(s, [s[:1], s[1:]], [s[:2], s[2:]])), (), {}))
CALLS.append(("encode_strings", lambda s: (s if isinstance(s, bytes) else encode_strings(s)), (), {}))


def describe(i):
    name, f, args, kw = CALLS[i]
    return f"{name}(..., {'' if args == 'THROUGH' else args} {kw})"


def both(s, i):
    name, f, args, kw = CALLS[i]
    b = s.encode("ascii")
    if args == "THROUGH":
        r1 = outcome(f, s, False)
        r2 = outcome(f, b, True)
    else:
        r1 = outcome(f, s, *args, **kw)
        r2 = outcome(f, b, *image(args), **image_kw(kw))
    if r1[0] == 'exc' or r2[0] == 'exc':
        if r1 != r2:
            fail(f"{describe(i)} of {s!r}: got {r1} for text, {r2} for bytes")
        return
    if freeze(r1[1]) != freeze(r2[1]):
        fail(f"{describe(i)} of {s!r}: got {r1[1]!r} for text, but {r2[1]!r} for bytes")
    if types_in(r1[1]) - {str} or name != "encode_strings" and types_in(r2[1]) - {bytes}:
        if name != "encode_strings":
            fail(f"{describe(i)} of {s!r}: mixed types in the result {r1[1]!r} or {r2[1]!r}")


def words(letters, n, least=0):
    for k in range(least, n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


FULL = "aB'\"()\\# \t\n\r"
NARROW = "aB'\"# \n"


def same_cases(tier):
    yield from words(FULL, 3 if tier == "quick" else 4)
    yield from words(NARROW, 5 if tier == "quick" else 6, 4)
    yield from words("(a)\n'\\", 5 if tier == "quick" else 6, 4)


def same_check(s, st):
    for i in range(len(CALLS)):
        both(s, i)
    st.transitions += 2 * len(CALLS)


ALL_ASCII = [chr(i) for i in range(128) if chr(i) not in "\x0b\x0c\x1c\x1d\x1e\x1f"]


def ascii_cases(tier):
    for c in ALL_ASCII:
        for w in ("{0}", "a{0}", "{0}a", "a{0}b", " {0} ", "a {0} b", "{0}{0}", "'{0}'", "\n{0}\n", "a{0}\n b", "A{0}b", "({0})"):
            yield w.format(c)
    if tier != "quick":
        for c in ALL_ASCII:
            for d in ALL_ASCII:
                yield f"a{c}{d}b"


# ---------------------------------------------------------------- mixtures

def mixtures():
    "calls with text and bytes mixed; each must raise TypeError (ValueError for delimiters and states)"
    out = []

    def m(f, *args, **kw):
        out.append((f, args, kw))
    for s, o in (("ab c\nd'", b"b"), (b"ab c\nd'", "b")):
        ok = s[:1]
        for sep in (o, (o,), [o], (ok, o), {o}, (o, ok)):
            m(multisplit, s, sep)
            m(multisplit, s, sep, keep=True, reverse=True)
            m(multistrip, s, sep)
            m(multipartition, s, sep)
            m(multirpartition, s, sep)
            m(normalize_whitespace, s, sep)
            m(lines, s, sep)
        m(normalize_whitespace, s, (ok,), o)
        m(normalize_whitespace, s, None, o)
        for p in (o, re.compile(o)):
            m(re_partition, s, p)
            m(re_partition, s, p, 2)
            m(re_partition, s, p, reverse=True)
            m(re_rpartition, s, p)
            m(reversed_re_finditer, p, s)
        for q in ((o,), [ok, o], o):
            m(split_quoted_strings, s, q)
            m(split_quoted_strings, s, (ok,), multiline_quotes=q)
        m(split_quoted_strings, s, (ok,), escape=o)
        m(split_quoted_strings, s, (ok,), state=o)
        m(split_quoted_strings, s, state=o)
        m(gently_title, s, apostrophes=o)
        m(gently_title, s, double_quotes=(o,))
        m(gently_title, s, apostrophes=(ok, o))
        c = b"x" if isinstance(o, bytes) else "x"
        e = type(o)()
        m(split_delimiters, s, {o: D(c, escape=e)})
        m(split_delimiters, s, {ok: D(type(ok)(ok + ok), escape=type(ok)()), o: D(c, escape=e)})
        m(split_delimiters, s, state=b"(" if isinstance(o, bytes) else "(")
        m(split_delimiters, s, state=(b"(" if isinstance(o, bytes) else "(",))
        for f in (lines_rstrip, lines_strip):
            for sep in (o, (o,), (ok, o)):
                m(lambda s, f=f, sep=sep: f(lines(s), sep), s)
        for mark in (o, (o,), (ok, o)):
            m(lambda s, mark=mark, ok=ok: lines_filter_line_comment_lines(lines(s), mark), s)
            m(lambda s, mark=mark, ok=ok: lines_strip_line_comments(lines(s), mark), s)
            m(lambda s, mark=mark, ok=ok: lines_strip_line_comments(lines(s), ok, quotes=mark), s)
            m(lambda s, mark=mark, ok=ok: lines_strip_line_comments(lines(s), ok, multiline_quotes=mark), s)
        m(lambda s, o=o: lines_containing(lines(s), o), s)
        m(lambda s, o=o: lines_grep(lines(s), o), s)
        m(lambda s, o=o: lines_grep(lines(s), re.compile(o)), s)
        m(wrap_words, [s, o])
        m(wrap_words, [s, o], 2)
        m(merge_columns, (s, 1, 9), (o, 1, 9))
        m(merge_columns, (s, 1, 9), (s, 1, 9), column_separator=o)
        m(D, b")" if isinstance(o, bytes) else ")", escape="x" if isinstance(o, bytes) else b"x")
    return out


MIXTURES = mixtures()


def mixture_check(i, st):
    f, args, kw = MIXTURES[i]
    got = outcome(lambda: freeze(listed(f)(*args, **kw)))
    if got != ('exc', 'TypeError') and not (got == ('exc', 'ValueError') and (f is D or "state" in kw)):
        fail(f"{getattr(f, '__name__', f)}{args} {kw} (mixture {i}): got {got}, expected TypeError")


# ---------------------------------------------------------------- encode_strings

class SS(str): pass
class LL(list): pass
class DD(dict): pass
class TT(tuple): pass
N1 = collections.namedtuple("N1", "a")
N2 = collections.namedtuple("N2", "a b")


def enc_values(depth):
    leaves = ["", "a", b"", b"\xff", SS("x")]
    if depth == 0:
        return leaves
    sub = enc_values(depth - 1)
    hashable = [x for x in sub if not isinstance(x, (list, dict, set))]
    out = list(leaves)
    pick = sub[:: max(1, len(sub) // 12)]
    hpick = hashable[:: max(1, len(hashable) // 8)]
    for t in (list, tuple, LL, TT, lambda x=(): (N1(*x) if len(x) == 1 else N2(*x)) if x else ()):
        out.append(t())
        for a in pick:
            out.append(t([a]))
            for b in pick:
                out.append(t([a, b]))
    for a in hpick:
        try:
            hash(a)
        except TypeError:
            continue
        out.append({a})
        for b in hpick:
            try:
                out.append({a, b})
            except TypeError:
                pass
        for t in (dict, DD, collections.OrderedDict, lambda d: collections.defaultdict(list, d), lambda d: collections.defaultdict(None, d)):
            for v in pick:
                out.append(t({a: v}))
    return out


def enc_model(o, encoding):
    if isinstance(o, bytes):
        return o
    if isinstance(o, str):
        return o.encode(encoding)
    if isinstance(o, dict):
        return {enc_model(k, encoding): enc_model(v, encoding) for k, v in o.items()}
    if hasattr(o, "_make"):
        return type(o)(*[enc_model(x, encoding) for x in o])
    return type(o)(enc_model(x, encoding) for x in o)


ENC = {}


def enc_cases(tier):
    for i in range(len(enc_list(tier))):
        yield (tier, i)


def enc_list(tier):
    if tier not in ENC:
        ENC[tier] = enc_values(2 if tier == "quick" else 3)
    return ENC[tier]


def enc_check(case, st):
    o = enc_list(case[0])[case[1]]
    before = repr(o)
    for kw in ({}, {"encoding": "ascii"}, {"encoding": "utf-16"}):
        want = enc_model(o, kw.get("encoding", "ascii"))
        got = encode_strings(o, **kw)
        if got != want or isinstance(o, (list, tuple, set, dict)) and type(got) is not type(o):
            fail(f"encode_strings({o!r}, {kw}): got {got!r}, expected {want!r}")
        if isinstance(o, collections.defaultdict) and got.default_factory is not o.default_factory:
            fail(f"encode_strings({o!r}): other default factory")
        st.transitions += 1
    expect(repr(o), before, "argument after encode_strings")
    expect(encode_strings(encode_strings(o)), encode_strings(o), f"encode_strings twice of {o!r}")


BAD = [1, None, 1.5, object(), frozenset("a"), bytearray(b"x"), len, {1: "a"}, ["a", 1], ("a", None), {"a": 2}, [["a", [3]]], range(2), iter("ab")]


def bad_check(i, st):
    expect(outcome(encode_strings, BAD[i]), ('exc', 'TypeError'), f"encode_strings({BAD[i]!r})")
    expect(outcome(encode_strings, "\xe9"), ('exc', 'UnicodeEncodeError'), "encode_strings('\xe9')")
    expect(encode_strings(["\xe9", "\u20ac"], encoding="utf-8"), [b"\xc3\xa9", b"\xe2\x82\xac"], "encode_strings in UTF-8")


PARTS = [
    Part("same", same_cases, same_check, bound=f"{len(CALLS)} calls (28 functions, default and explicit arguments) on all strings up to length 3 [4] over 12 characters, of length 4 and 5 [to 6] over 7 and over 6"),
    Part("every ASCII character", ascii_cases, same_check, bound="every ASCII character but those str and bytes disagree on, in 12 contexts [and every pair]"),
    Part("mixtures", lambda tier: range(len(MIXTURES)), mixture_check, bound=f"{len(MIXTURES)} calls mixing text and bytes"),
    Part("encode_strings", enc_cases, enc_check, bound="nested containers to depth 2 [3]"),
    Part("encode_strings, bad", lambda tier: range(len(BAD)), bad_check, bound="14 values of other types, alone and nested"),
]
