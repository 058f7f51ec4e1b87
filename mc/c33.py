"""C33: character tables for every code point and byte, their use as defaults, and file name translation."""
import itertools
import re
import unicodedata
from .core import Part, fail, expect, outcome
import big.text as T
import big.file as F
from big.text import multisplit, normalize_whitespace, lines, lines_strip, lines_rstrip
from big.file import translate_filename_to_exfat, translate_filename_to_unix

ASSUMPTIONS = ["Python's own isspace and splitlines define white space and line breaks for str and bytes; Unicode's are Python's without U+001C to U+001F"]

EVERY = [chr(i) for i in range(0x110000)]
EVERY_BYTE = [bytes([i]) for i in range(256)]


def breaks(c):
    x = b"x" if isinstance(c, bytes) else "x"
    return len((x + c + x).splitlines()) == 2


def unicode_space(c):
    return c.isspace() and not "\x1c" <= c <= "\x1f"


def unicode_break(c):
    return breaks(c) and not "\x1c" <= c <= "\x1f"


DEFINITIONS = {
    "whitespace": (EVERY, str.isspace),
    "str_whitespace": (EVERY, str.isspace),
    "unicode_whitespace": (EVERY, unicode_space),
    "ascii_whitespace": (EVERY, lambda c: c < "\x80" and unicode_space(c)),
    "bytes_whitespace": (EVERY_BYTE, bytes.isspace),
    "linebreaks": (EVERY, breaks),
    "str_linebreaks": (EVERY, breaks),
    "unicode_linebreaks": (EVERY, unicode_break),
    "ascii_linebreaks": (EVERY, lambda c: c < "\x80" and unicode_break(c)),
    "bytes_linebreaks": (EVERY_BYTE, breaks),
}


def table_check(name, st):
    domain, pred = DEFINITIONS[name]
    want = {c for c in domain if pred(c)}
    st.transitions += len(domain)
    t = type(domain[0])
    crlf = "\r\n" if t is str else b"\r\n"
    for n, w in ((name, want | {crlf}), (name + "_without_crlf", want)):
        got = getattr(T, n)
        if not isinstance(got, tuple) or any(type(x) is not t for x in got):
            fail(f"{n} isn't a tuple of {t.__name__} objects: {got!r}")
        if len(set(got)) != len(got):
            fail(f"{n} contains duplicates: {got!r}")
        if set(got) != w:
            fail(f"{n}: missing {sorted(w - set(got))!r}, too much {sorted(set(got) - w)!r}")


QUOTE_TABLES = {
    # as documented in the README
    "apostrophes": "'\u2018\u2019\u201a\u201b",
    "double_quotes": "\"\u201c\u201d\u201e\u201f\u00ab\u00bb\u2039\u203a",
    "ascii_apostrophes": b"'",
    "ascii_double_quotes": b'"',
}


def quote_check(name, st):
    want = QUOTE_TABLES[name]
    got = getattr(T, name)
    if type(got) is not type(want) or sorted(got) != sorted(want):
        fail(f"{name}: got {got!r}, expected the characters {want!r}")
    if isinstance(want, str):
        u = getattr(T, "utf8_" + name)
        if type(u) is not bytes or sorted(u.decode("utf-8")) != sorted(want):
            fail(f"utf8_{name}: got {u!r}")


def use_cases(tier):
    step = 64
    for lo in range(0, 0x110000, step):
        yield lo


def use_check(lo, st):
    "the functions' defaults are these tables, for every character"
    for i in range(lo, lo + 64):
        c = chr(i)
        s = f"a{c}b"
        space, brk = c.isspace(), breaks(c)
        got = list(multisplit(s))
        if got != (["a", "b"] if space else [s]):
            fail(f"multisplit({s!r}): got {got!r}")
        got = normalize_whitespace(s)
        if got != ("a b" if space else s):
            fail(f"normalize_whitespace({s!r}): got {got!r}")
        got = [(x.line, y) for x, y in lines(s)]
        if got != ([("a" + c, "a"), ("b", "b")] if brk else [(s, s)]):
            fail(f"lines({s!r}): got {got!r}")
        if space and not brk:
            t = f"{c}a{c}"
            got = [y for x, y in lines_strip(lines(t))]
            expect(got, ["a"], f"lines_strip(lines({t!r}))")
            got = [y for x, y in lines_rstrip(lines(t))]
            expect(got, [c + "a"], f"lines_rstrip(lines({t!r}))")
        elif not brk:
            t = f"{c}a{c}"
            expect([y for x, y in lines_strip(lines(t))], [t], f"lines_strip(lines({t!r}))")
            expect([y for x, y in lines_rstrip(lines(t))], [t], f"lines_rstrip(lines({t!r}))")
        st.transitions += 5


def bytes_use_check(i, st):
    c = bytes([i])
    for j in range(256):
        d = bytes([j])
        s = b"a" + c + d + b"b"
        got = list(multisplit(s))
        want = s.split()
        if c.isspace() == d.isspace() == False:
            want = [s]
        if got != want:
            fail(f"multisplit({s!r}): got {got!r}, expected {want!r}")
        got = normalize_whitespace(s)
        if got != b" ".join(want):
            fail(f"normalize_whitespace({s!r}): got {got!r}, expected {b' '.join(want)!r}")
        got = [y for x, y in lines(s)]
        want = s.splitlines()
        if got != want:
            fail(f"lines({s!r}): got {got!r}, expected {want!r}")
        st.transitions += 3


def pairs_use_check(case, st):
    "every pair of special characters: the DOS line break is one, all others are two"
    c, d = case
    s = f"a{c}{d}b"
    expect(list(multisplit(s)), s.split(), f"multisplit({s!r})")
    expect([y for x, y in lines(s)], s.splitlines(), f"lines({s!r})")
    expect(normalize_whitespace(s), " ".join(s.split()), f"normalize_whitespace({s!r})")
    st.transitions += 3


SPECIAL = [c for c in EVERY if c.isspace() or breaks(c)] + ["x", "\u200b", "\x00", "\u180e", "\ufeff"]


# ---------------------------------------------------------------- file names

EXFAT_ILLEGAL = frozenset([chr(i) for i in range(32)] + list('/\\:*?"<>|'))
UNIX_ILLEGAL = frozenset("\x00/")
CONTROLS = frozenset(chr(i) for i in range(1, 32))


def pattern(s, illegal):
    anything = "[^" + re.escape("".join(sorted(illegal))) + "]+"
    return "".join(anything if c in illegal else re.escape(c) for c in s)


def translated(f, s, illegal):
    """
    "": right.  Otherwise what is wrong.
    """
    got = f(s)
    if type(got) is not str:
        return f"{f.__name__}({s!r}): got {got!r}"
    bad = [c for c in got if c in illegal]
    if bad:
        return f"{f.__name__}({s!r}): got {got!r}, which contains the illegal {bad[0]!r}"
    if not bad and not any(c in illegal for c in s):
        if got != s:
            return f"{f.__name__}({s!r}): got {got!r}, expected no change"
    elif len(s) < 40 and not re.fullmatch(pattern(s, illegal), got, re.S):
        return f"{f.__name__}({s!r}): got {got!r}, legal characters were not kept"
    again = f(got)
    if again != got:
        return f"{f.__name__}({s!r}) is {got!r}, which {f.__name__} changes again to {again!r}"
    return ""


def one(s):
    bad = translated(translate_filename_to_unix, s, UNIX_ILLEGAL)
    if bad:
        fail(bad)
    if CONTROLS & set(s):
        # the part "control characters" reports how these are translated; here they mustn't disturb the others
        got = translate_filename_to_exfat(s)
        want = "".join(f"?{ord(c):02x}" if c in CONTROLS else c for c in s)
        if "?" not in s and got.count("?") == sum(c in CONTROLS for c in s):
            rest = re.sub(r"\?[01][0-9a-f]", "\0", got)
            if rest.count("\0") != sum(c in CONTROLS for c in s):
                fail(f"translate_filename_to_exfat({s!r}): got {got!r}")
            pat = "".join("\0" if c in CONTROLS else x for c, x in zip(s, (pattern(c, EXFAT_ILLEGAL) for c in s)))
            if not re.fullmatch(pat, rest, re.S):
                fail(f"translate_filename_to_exfat({s!r}): got {got!r}, legal characters were not kept")
            return
        bad = translated(translate_filename_to_exfat, s, EXFAT_ILLEGAL)
        if bad and "?" not in s:
            fail(bad)
        return
    bad = translated(translate_filename_to_exfat, s, EXFAT_ILLEGAL)
    if bad:
        fail(bad)


def name_cases(tier):
    for lo in range(0, 0x110000, 256):
        yield lo


def name_check(lo, st):
    for i in range(lo, lo + 256):
        c = chr(i)
        for s in (c, f"a{c}", f"{c}b", f"a{c}b", f"a{c} b", f"{c}{c}", f"{c} {c}"):
            one(s)
            st.transitions += 2


NAME_LETTERS = {"quick": (4, 'a .:/\\*?"<>|-\x00\x01\x1f'), "thorough": (5, 'a .:/\\*?"<>|-\x00\x01\x1f')}


def word_cases(tier):
    n, letters = NAME_LETTERS[tier]
    for k in range(1, n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)
    for k in range(n + 1, n + 4):
        for w in itertools.product(": a/", repeat=k):
            yield "".join(w)


def word_check(s, st):
    one(s)
    st.transitions += 2


def control_check(i, st):
    c = chr(i)
    bad = translated(translate_filename_to_exfat, "a" + c + "b", EXFAT_ILLEGAL)
    if bad:
        got = translate_filename_to_exfat("a" + c + "b")
        fail(bad, "exfat-question-mark-for-control-characters" if got == f"a?{i:02x}b" else None)


class S(str): pass


def wrong_check(i, st):
    for f in (translate_filename_to_exfat, translate_filename_to_unix):
        for v in ("", S(""), None, 0, 35, b"", b"a", [], ["a"], object()):
            expect(outcome(f, v), ('exc', 'ValueError'), f"{f.__name__}({v!r})")
        expect(f(S("a b")), "a b", f"{f.__name__} of a subclass of str")


def names_exist_check(i, st):
    for n in T.__all__:
        if not hasattr(T, n):
            fail(f"big.text exports {n!r}, which it doesn't have")
    import big.all
    for n in T.__all__ + F.__all__:
        if not hasattr(big.all, n):
            fail(f"big.all doesn't have {n!r}")


PARTS = [
    Part("tables", lambda tier: sorted(DEFINITIONS), table_check, bound="every code point or byte, for 20 tables"),
    Part("quotes", lambda tier: sorted(QUOTE_TABLES), quote_check, bound="6 tables"),
    Part("exports", lambda tier: [0], names_exist_check, bound="every exported name of big.text and big.file"),
    Part("text defaults", use_cases, use_check, bound="every code point through multisplit, normalize_whitespace, lines, lines_strip, lines_rstrip"),
    Part("bytes defaults", lambda tier: range(256), bytes_use_check, bound="every pair of bytes through multisplit, normalize_whitespace, lines"),
    Part("pairs", lambda tier: itertools.product(SPECIAL, repeat=2), pairs_use_check, bound="every pair of 35 special characters"),
    Part("file names", name_cases, name_check, bound="every code point in 7 contexts, both translations, applied twice"),
    Part("file name words", word_cases, word_check, bound="all names up to length 4 [5] over 16 characters and to 7 [8] over 4"),
    Part("control characters", lambda tier: range(1, 32), control_check, bound="all 31"),
    Part("wrong names", lambda tier: [0], wrong_check, bound="10 values that aren't file names"),
]
