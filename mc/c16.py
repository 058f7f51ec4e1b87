"""C16: multistrip and normalize_whitespace on every short string and small set of separators."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import strip_left, strip_right, scan, grouped, words, pool, subsets
import big.text as T
from big.text import multistrip, normalize_whitespace

ASSUMPTIONS = []
ENDS = [(True, True), (True, False), (False, True), (False, False)]


class Str(str):
    pass


class Bytes(bytes):
    pass


def stripped(s, seps, left, right):
    seps = sorted(seps, key=len, reverse=True)
    lo = strip_left(s, seps) if left else 0
    hi = strip_right(s, seps, lo) if right else len(s)
    return s[lo:hi]


def same(got, want, what):
    if got != want or type(got) is not type(want):
        fail(f"{what}: got {got!r} ({type(got).__name__}), expected {want!r} ({type(want).__name__})")


def strip_check(case, st):
    s, seps = case
    for left, right in ENDS:
        st.transitions += 1
        want = stripped(s, seps, left, right)
        same(multistrip(s, seps, left, right), want, f"multistrip({s!r}, {seps!r}, {left}, {right})")
        if all(len(p) == 1 for p in seps):
            chars = s[:0].join(seps)
            same(want, {(True, True): s.strip, (True, False): s.lstrip, (False, True): s.rstrip}.get((left, right), lambda c: s)(chars), "the model itself against str.strip")
            same(multistrip(s, chars, left, right), want, f"multistrip({s!r}, {chars!r}, {left}, {right})")
        # and from the property directly
        if left and not right and any(want.startswith(p) for p in seps) or right and not left and any(want.endswith(p) for p in seps):
            fail("a separator is left over")
    same(multistrip(s, seps), stripped(s, seps, True, True), f"multistrip({s!r}, {seps!r})")


def letter_cases(tier):
    t = tier != "quick"
    for seps in subsets(pool("ab", 3), (1, 2, 3) if t else (1, 2)):
        for s in words("abx", 0, 6 if not t else 6 if len(seps) == 3 else 8):
            yield (s, seps)
    for seps in subsets(pool("ab", 2), (3, 4, 5, 6)):
        for s in words("abx", 0, 6 if not t else 7):
            yield (s, seps)
    for seps in subsets(pool("ab", 4), (1, 2)):
        for s in words("ab", 5 if t else 6, 10 if t else 7):
            yield (s, seps)


SPECIAL = [("\n",), ("\r\n",), ("\r\n", "\n"), ("\r", "\n", "\r\n"), (".",), ("*", "."), ("^", "$"), ("\\",), ("\\n",), ("[", "]", "[]"), ("|",), ("a|b",),
           ("-", "--"), (" ", "\t", "  "), (" ",), ("\n ", " "), ("#", "(?#)"), ("{2}", "{"), ("\x00",), ("\u2028", "\x85"), ("\ud800",), ("\n\r", "\r"), ("\\.", "."), (" .", "."),
           ("?", "+"), ("(", ")"), ("(?:", "("), ("\\b", "b"), ("]", "^]")]


def special_letters(seps):
    return sorted(set("".join(seps)) | {"x", "\n"})[:6]


def special_cases(tier):
    for seps in SPECIAL:
        letters = special_letters(seps)
        for s in words(letters, 0, (6 if len(letters) <= 3 else 5) + (tier != "quick")):
            yield (s, seps)


def bytes_cases(tier):
    for seps in ((b" ",), (b"\r\n", b"\n"), (b"\xff", b"\xff\xfe"), (b"ab", b"b"), (b"\x00",), T.bytes_whitespace, T.bytes_linebreaks, (b".", b"^"), (b"\xc3",)):
        letters = sorted({b"".join(seps)[i:i + 1] for i in range(len(b"".join(seps)))} | {b"x", b"\n"})[:6]
        for n in range(0, 6 if tier == "quick" else 7):
            for w in itertools.product(letters, repeat=n):
                yield (b"".join(w), seps)


TABLES = {n: getattr(T, n) for n in ("whitespace", "linebreaks", "whitespace_without_crlf", "linebreaks_without_crlf", "ascii_whitespace", "unicode_whitespace", "str_linebreaks", "ascii_linebreaks")}


def table_check(case, st):
    s, name = case
    seps = TABLES[name]
    strip_check((s, seps), st)
    for r in ("-", ""):
        same(normalize_whitespace(s, seps, r), normalized(s, seps, r), f"normalize_whitespace({s!r}, {name}, {r!r})")


def table_cases(tier):
    for name in TABLES:
        for s in words("\r\n x\x1c\u2028", 0, 4 if tier == "quick" else 6):
            yield (s, name)
        for c in range(0x110000 if tier != "quick" else 0x3100):
            yield ("x" + chr(c) + "y", name) if c % 2 else (chr(c) + "x" + chr(c), name)


def normalized(s, seps, replacement):
    out = []
    i = 0
    for a, b in grouped(scan(s, sorted(seps, key=len, reverse=True), False), False):
        out += [s[i:a], replacement]
        i = b
    return s[:0].join(out + [s[i:]])


def norm_check(case, st):
    s, seps = case
    e = s[:0]
    if seps is None:
        real = T.bytes_whitespace_without_crlf if isinstance(s, bytes) else T.whitespace_without_crlf
        assert set(b"".join(real) if isinstance(s, bytes) else real) >= set(b" \t\n\r" if isinstance(s, bytes) else " \t\n\r\u2028\x1c")
    else:
        real = seps
    for r in (b" ", b"", b"-", b"ab", b"\\1") if isinstance(s, bytes) else (" ", "", "-", "ab", "\\1"):
        st.transitions += 1
        same(normalize_whitespace(s, seps, r), normalized(s, real, r), f"normalize_whitespace({s!r}, {seps!r}, {r!r})")
    same(normalize_whitespace(s, seps), normalized(s, real, b" " if isinstance(s, bytes) else " "), f"normalize_whitespace({s!r}, {seps!r})")
    same(normalize_whitespace((Bytes if isinstance(s, bytes) else Str)(s), seps), normalized(s, real, b" " if isinstance(s, bytes) else " "), f"normalize_whitespace(subclass {s!r}, {seps!r})")


def norm_cases(tier):
    t = tier != "quick"
    for seps in subsets(pool("ab", 3), (1, 2)):
        for s in words("abx", 0, 6 if t else 5):
            yield (s, seps)
    for seps in subsets(pool("ab", 2), (3, 4)):
        for s in words("abx", 0, 6 if t else 5):
            yield (s, seps)
    for seps in SPECIAL:
        letters = special_letters(seps)
        for s in words(letters, 0, 4 + t):
            yield (s, seps)
    for s in words("\r\n \tx\x1c\u2028y", 0, 5 + t):
        yield (s, None)
    for n in range(0, 6 + t):
        for w in itertools.product((b"\r", b"\n", b" ", b"x", b"\x1c", b"\x85"), repeat=n):
            yield (b"".join(w), None)
    for seps in ((b" ",), (b"\r\n", b"\n"), (b"\xff", b"\xff\xfe"), (b"ab", b"b"), (b".", b"^")):
        for n in range(0, 5 + t):
            for w in itertools.product((b"\xff", b"\xfe", b"a", b"b", b"\n", b"."), repeat=n):
                yield (b"".join(w), seps)


class Once:
    __hash__ = None
    def __init__(self, items):
        self.items = items
    def __iter__(self):
        return iter(self.items)


def container_check(case, st):
    s, seps = case
    for perm in itertools.permutations(seps):
        for make in (list, tuple, iter, dict.fromkeys, lambda p: dict.fromkeys(p).keys(), lambda p: (x for x in p), lambda p: map(Str, p), lambda p: p + p, Once, set, frozenset):
            for left, right in ENDS:
                st.transitions += 1
                same(multistrip(s, make(perm), left=left, right=right), stripped(s, seps, left, right), f"multistrip({s!r}, {make(perm)!r}, {left}, {right})")
                expect(multistrip(Str(s), make(perm), left=left, right=right), stripped(s, seps, left, right), f"multistrip(str subclass {s!r}, {make(perm)!r}, {left}, {right})")
            same(normalize_whitespace(s, make(perm)), normalized(s, seps, " "), f"normalize_whitespace({s!r}, {make(perm)!r})")
            b = s.encode()
            bs = [p.encode() for p in perm]
            if make is list:
                for left, right in ENDS:
                    expect(multistrip(Bytes(b), bs, left, right), stripped(b, bs, left, right), f"multistrip(bytes subclass {b!r}, {bs!r}, {left}, {right})")


def container_cases(tier):
    for seps in subsets(pool("ab", 2), (1, 2, 3)):
        for s in words("abx", 0, 4 if tier == "quick" else 5):
            yield (s, seps)


def refuse_check(case, st):
    for s, good, bad in (("a b", [" "], b" "), (b"a b", [b" "], " "), ("", [" "], b" "), (b"", [b" "], " ")):
        e = s[:0]
        for seps, err in (([], "ValueError"), ((), "ValueError"), (set(), "ValueError"), (e, "ValueError"), (lambda: iter([]), "ValueError"), ([e], "ValueError"), (good + [e], "ValueError"), ([e] + good, "ValueError"),
                          (bad, "TypeError"), ([bad], "TypeError"), (good + [bad], "TypeError"), ([1], "TypeError"), (1.5, "TypeError"), ([None], "TypeError"), (lambda: iter(good + [bad]), "TypeError"), (object(), "TypeError")):
            for left, right in ENDS:
                expect(outcome(lambda: multistrip(s, seps() if callable(seps) else seps, left, right)), ('exc', err), f"multistrip({s!r}, {seps!r}, {left}, {right})")
            if seps != e:
                expect(outcome(lambda: normalize_whitespace(s, seps() if callable(seps) else seps)), ('exc', err), f"normalize_whitespace({s!r}, {seps!r})")
        for r in (bad, 1, [], object()):
            expect(outcome(lambda: normalize_whitespace(s, good, r)), ('exc', "TypeError"), f"normalize_whitespace({s!r}, {good!r}, {r!r})")
            expect(outcome(lambda: normalize_whitespace(s, None, r)), ('exc', "TypeError"), f"normalize_whitespace({s!r}, None, {r!r})")
    # long inputs end promptly
    for s in ("a" * 3000 + "x", "x" + "a" * 3000 + "x", "ab" * 1500 + "x", "x" + "ab" * 1500):
        for seps in (("a", "aa", "ab", "aaa"), ("ab", "ba", "aba"), ("a", "b")):
            for left, right in ENDS:
                same(multistrip(s, seps, left, right), stripped(s, seps, left, right), f"multistrip(long, {seps})")
            same(normalize_whitespace(s, seps), normalized(s, seps, " "), f"normalize_whitespace(long, {seps})")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="empty, mistyped and exhausted separators and replacements; long repetitive inputs"),
    Part("normalize", norm_cases, norm_check, bound="all separator sets of <= 2 words of <= 3 letters (3, 4 of <= 2), strings of <= 5 (6) letters; default separators on strings of <= 5 (6) whitespace and other characters; bytes; 5 replacements"),
    Part("tables", table_cases, table_check, bound="the named tables: all strings of <= 4 (6) of 6 characters; every character up to U+30FF (all) at the ends or in the middle"),
    Part("containers", container_cases, container_check, bound="every order and kind of container of <= 3 separators, subclasses, strings of <= 4 (5)"),
    Part("special", special_cases, strip_check, bound="separators with regex and line-break characters, strings of <= 5 (6-7) over their characters"),
    Part("bytes", bytes_cases, strip_check, bound="bytes, strings of <= 5 (6)"),
    Part("letters", letter_cases, strip_check, bound="all sets of <= 2 (3) separators of <= 3 letters, <= 6 of <= 2 letters, all strings over 3 letters of <= 6 (8); pairs of <= 4 letters on strings of 7 (10)"),
]
