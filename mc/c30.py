"""C30: gently_title against a definition by positions, on all small strings and several sets of quote marks."""
import itertools
from .core import Part, fail, expect, outcome
from big.text import gently_title, apostrophes as APOSTROPHES, double_quotes as QUOTES, ascii_apostrophes, ascii_double_quotes

ASSUMPTIONS = ["an opening parenthesis starts a new word even inside a word, as white space does",
               "what follows D or O and several quote marks may be capitalized or not (the documentation can be read both ways)",
               "letters with a lower case configured as quote marks are excluded"]


def model(s, apos, quotes):
    "a list with the set of admissible outputs for each character"
    n = len(s)
    marks = apos + quotes
    start = [i == 0 or s[i - 1].isspace() or s[i - 1] == "(" for i in range(n)]
    up = set()
    maybe = set()
    for i in range(n):
        if not start[i] or s[i].isspace() or s[i] == "(":
            continue
        up.add(i)
        if s[i] in marks:
            j = i
            while j < n and s[j] in marks:
                j += 1
            up.add(j)
        elif s[i] in "dDoO" and i + 1 < n and s[i + 1] in apos:
            j = i + 1
            while j < n and s[j] in marks:
                j += 1
            if j == i + 2:
                up.add(j)
            else:
                maybe.add(j)
    return [{c.upper()} if i in up else ({c, c.upper()} if i in maybe else {c}) for i, c in enumerate(s)]


def matches(out, want):
    i = 0
    # outputs of one character can be of several lengths
    ends = {0}
    for w in want:
        ends = {e + len(x) for e in ends for x in w if out.startswith(x, e)}
    return len(out) in ends


def one(s, apos, quotes, kw, what=""):
    got = gently_title(s, **kw)
    want = model(s, apos, quotes)
    if type(got) is not str or not matches(got, want):
        fail(f"gently_title({s!r}, {kw}): got {got!r}, expected {''.join(max(w) if len(w) == 1 else '[' + '/'.join(sorted(w)) + ']' for w in want)!r}")
    again = gently_title(got, **kw)
    if again != got:
        fail(f"gently_title({s!r}, {kw}) is {got!r}, but applied again {again!r}")
    return got


LENGTHS = {"quick": (8, 7), "thorough": (9, 8)}


def words(letters, n):
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


def ascii_check(s, st):
    b = s.encode()
    got = one(s, APOSTROPHES, QUOTES, {})
    gotb = gently_title(b)
    if type(gotb) is not bytes or gotb != got.encode():
        fail(f"gently_title({b!r}): got {gotb!r}, expected {got.encode()!r}")
    st.transitions += 3


CONFIGS = [
    # keyword arguments, apostrophes, double quotes
    ({"apostrophes": "X"}, "X", QUOTES),
    ({"double_quotes": "Z"}, APOSTROPHES, "Z"),
    ({"apostrophes": "X", "double_quotes": "Z"}, "X", "Z"),
    ({"apostrophes": ("'", "X"), "double_quotes": ["Z", '"']}, "'X", 'Z"'),
    ({"apostrophes": "'", "double_quotes": "'"}, "'", "'"),
    ({"apostrophes": '"', "double_quotes": "'"}, '"', "'"),
    ({"apostrophes": {"X"}, "double_quotes": {"'": 1}}, "X", "'"),
    ({"apostrophes": "'XZ", "double_quotes": None}, "'XZ", QUOTES),
]


def to_bytes(v):
    if v is None:
        return None
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, dict):
        return {k.encode(): x for k, x in v.items()}
    return type(v)(x.encode() for x in v)


def config_check(case, st):
    i, s = case
    kw, apos, quotes = CONFIGS[i]
    got = one(s, apos, quotes, kw)
    gens = {k: (x for x in v) for k, v in kw.items() if v is not None}
    g = gently_title(s, **gens)
    if g != got:
        fail(f"gently_title({s!r}, iterators of {kw}): got {g!r}, expected {got!r}")
    if s.isascii():
        b = gently_title(s.encode(), **{k: to_bytes(v) for k, v in kw.items()})
        # the default quote marks of bytes are the ASCII ones
        if type(b) is not bytes or b != got.encode():
            fail(f"gently_title({s.encode()!r}, {kw} as bytes): got {b!r}, expected {got.encode()!r}")
    st.transitions += 3


def config_cases(tier):
    for s in words("aoX'Z\" ", LENGTHS[tier][1] - 1):
        for i in range(len(CONFIGS)):
            yield (i, s)


def unicode_check(s, st):
    one(s, APOSTROPHES, QUOTES, {})
    st.transitions += 2


def marks_check(case, st):
    "every default mark, every whitespace character, every other character below the bound, in every role"
    c = case
    for s in (c + "a", " " + c + "a", "(" + c + "a", "b" + c + "a", "o" + c + "a", "D" + c + "a", "'" + c + "a", '"' + c + "a", "o'" + c + "a", "o" + c + " a", c + " a", c + c + "a", c + "'a", "d" + c + "(a", c, "x o" + c + "oa", "bo" + c + "a"):
        one(s, APOSTROPHES, QUOTES, {})
        st.transitions += 2


def marks_cases(tier):
    last = 0x3100 if tier == "quick" else 0x110000
    for i in range(last):
        yield chr(i)


def bytes_check(case, st):
    c = bytes([case])
    for b in (c + b"a", b" " + c + b"a", b"(" + c + b"a", b"b" + c + b"a", b"o" + c + b"a", b"D" + c + b"a", b"'" + c + b"a", b'"' + c + b"a", b"o'" + c + b"a", c + b" a", c + c + b"a"):
        got = gently_title(b)
        s = "".join(chr(x) if x < 128 else "\u4e2d" for x in b)
        want = model(s, "'", '"')
        # bytes have their own notion of white space: only the ASCII one without the separators 1c to 1f
        if 0x1c <= case <= 0x1f:
            s = s.replace(chr(case), "\u4e2d")
            want = model(s, "'", '"')
        want = [{bytes([b[i]]).upper() if x != s[i] else b[i:i + 1] for x in w} for i, w in enumerate(want)]
        if type(got) is not bytes or not matches(got, want) or len(got) != len(b):
            fail(f"gently_title({b!r}): got {got!r}")
        st.transitions += 1


class S(str): pass
class B(bytes): pass


ERRORS = [
    ("a'b", {"apostrophes": b"'"}, TypeError), ("a'b", {"double_quotes": b"'"}, TypeError), (b"a'b", {"apostrophes": "'"}, TypeError), (b"a'b", {"double_quotes": "'"}, TypeError),
    ("a'b", {"apostrophes": [b"'"]}, TypeError), (b"a'b", {"apostrophes": ["'"]}, TypeError), ("a", {"apostrophes": ["'", b"'"]}, TypeError), (b"a", {"double_quotes": [b"'", "'"]}, TypeError),
    ("", {"apostrophes": b"'"}, TypeError), (b"", {"apostrophes": "'"}, TypeError), (S("a"), {"apostrophes": B(b"'")}, TypeError), (B(b"a"), {"apostrophes": S("'")}, TypeError),
    ("a", {"apostrophes": [1]}, TypeError), ("a", {"double_quotes": [None]}, TypeError), ("a", {"apostrophes": 5}, TypeError), ("a", {"double_quotes": object()}, TypeError),
    ("a", {"apostrophes": ""}, ValueError), ("a", {"double_quotes": ""}, ValueError), (b"a", {"apostrophes": b""}, ValueError), (b"a", {"double_quotes": b""}, ValueError),
    ("a", {"apostrophes": []}, ValueError), ("a", {"double_quotes": ()}, ValueError), ("a", {"apostrophes": ["'", ""]}, ValueError), (b"a", {"double_quotes": [b"", b"'"]}, ValueError),
    ("a", {"apostrophes": "GEN"}, ValueError), (b"a", {"double_quotes": "GEN"}, ValueError),
]


def error_check(i, st):
    s, kw, exc = ERRORS[i]
    args = {k: iter(()) if v == "GEN" else v for k, v in kw.items()}
    expect(outcome(gently_title, s, **args), ('exc', exc.__name__), f"gently_title({s!r}, {kw})")


def subclass_check(s, st):
    for t, want, b in ((S(s), gently_title(s), False), (B(s.encode()), gently_title(s.encode()), True)):
        for kw in ({}, {"apostrophes": "'", "double_quotes": '"'}, {"apostrophes": S("'"), "double_quotes": S('"')}, {"apostrophes": [S("'")], "double_quotes": (S('"'), )}):
            if b:
                kw = {k: (B if isinstance(v, S) else bytes)(v.encode()) if isinstance(v, str) else [B(v[0].encode())] for k, v in kw.items()}
            got = gently_title(t, **kw)
            if type(got) is not type(want) or got != want:
                fail(f"gently_title({type(t).__name__}({s!r}), {kw}): got {type(got)} {got!r}, expected {want!r}")
            st.transitions += 1


PARTS = [
    Part("ascii", lambda tier: words("aodD' \"(", LENGTHS[tier][1]), ascii_check, bound="all strings up to length 7 [8] over a o d D ' \" ( space, text and bytes, twice"),
    Part("narrow", lambda tier: words("ao' \"", LENGTHS[tier][0] + 1), ascii_check, bound="all strings up to length 9 [10] over a o ' \" space"),
    Part("unicode", lambda tier: words("oa\u2019\u201c\u00a0\u00dfO(", LENGTHS[tier][1] - 1), unicode_check, bound="all strings up to length 6 [7] with Unicode quotes, no-break space, sharp s"),
    Part("configurations", config_cases, config_check, bound="all strings up to length 6 [7] over a o X ' Z \" space x 8 configurations as given, as iterators, as bytes"),
    Part("every character", marks_cases, marks_check, bound="every code point below U+3100 [all] in 17 positions"),
    Part("every byte", lambda tier: range(256), bytes_check, bound="every byte in 11 positions"),
    Part("subclasses", lambda tier: words("o'a \"", 5), subclass_check, bound="subclasses of str and bytes, all strings up to length 5"),
    Part("errors", lambda tier: range(len(ERRORS)), error_check, bound="26 wrong arguments"),
]
