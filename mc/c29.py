"""C29: combine_splits and split_title_case against the definition of their cut points, on all small inputs."""
import itertools
from .core import Part, fail, expect, outcome
from big.text import combine_splits, split_title_case, multisplit, ALTERNATING

ASSUMPTIONS = ["split arrays need not reach the end of the string (the test suite asserts what remains is added); arrays that are too long may be refused"]


def cut(s, points):
    points = [0] + sorted(p for p in set(points) if 0 < p < len(s)) + [len(s)]
    return [s[a:b] for a, b in zip(points, points[1:]) if a < b]


def compositions(n):
    "all ways of writing n as an ordered sum"
    for mask in range(2 ** (n - 1)) if n else (0,):
        if n == 0:
            yield ()
            return
        parts = []
        k = 1
        for i in range(n - 1):
            if mask >> i & 1:
                parts.append(k)
                k = 1
            else:
                k += 1
        parts.append(k)
        yield tuple(parts)


def points(parts):
    return list(itertools.accumulate(parts))


def pieces(s, parts):
    out = []
    i = 0
    for k in parts:
        out.append(s[i:i + k])
        i += k
    return out


ALPHABET = "abcdefghijklmn"
WHOLE = {"quick": [(1, 4), (2, 4), (3, 4), (4, 4), (5, 4), (6, 3), (7, 2), (8, 2), (10, 1)], "thorough": [(1, 4), (2, 5), (3, 5), (4, 5), (5, 4), (6, 4), (7, 3), (8, 2), (9, 2), (12, 1)]}
SHORT = {"quick": [(2, 4), (3, 4), (4, 3), (5, 3)], "thorough": [(2, 5), (3, 4), (4, 4), (5, 3), (6, 3)]}


def whole_cases(tier):
    yield (0, ())
    for n, m in WHOLE[tier]:
        cs = list(compositions(n))
        for k in range(m + 1):
            for arrays in itertools.product(cs, repeat=k):
                yield (n, arrays)


def short_cases(tier):
    for n, m in SHORT[tier]:
        cs = [c for k in range(n + 1) for c in compositions(k)]
        for k in range(1, m + 1):
            for arrays in itertools.product(cs, repeat=k):
                yield (n, arrays)


def whole_check(case, st):
    n, arrays = case
    s = ALPHABET[:n]
    want = cut(s, [p for a in arrays for p in points(a)])
    splits = [pieces(s, a) for a in arrays]
    got = list(combine_splits(s, *splits))
    if got != want:
        fail(f"combine_splits({s!r}, *{splits}): got {got}, expected {want}")
    if splits != [pieces(s, a) for a in arrays]:
        fail(f"combine_splits({s!r}, *{arrays}) changed its arguments: {splits}")
    b = s.encode()
    got = list(combine_splits(b, *[(x.encode() for x in sp) for sp in splits]))
    if got != [w.encode() for w in want]:
        fail(f"combine_splits({b!r}, *{arrays}): got {got}, expected {want}")
    st.transitions += 2


def empty_cases(tier):
    for n, m in ((1, 2), (2, 2), (3, 2)) + (((4, 2),) if tier != "quick" else ()):
        cs = []
        for k in range(n + 1):
            for c in compositions(k):
                for mask in range(2 ** (len(c) + 1)):
                    parts = []
                    for i in range(len(c) + 1):
                        if mask >> i & 1:
                            parts.append(0)
                        if i < len(c):
                            parts.append(c[i])
                    cs.append(tuple(parts))
        for k in range(1, m + 1):
            for arrays in itertools.product(cs, repeat=k):
                yield (n, arrays)


def long_cases(tier):
    for n in (0, 1, 2, 3):
        cs = [c for k in range(1, n + 3) for c in compositions(k)]
        for k in (1, 2, 3) if tier != "quick" or n < 3 else (1, 2):
            for arrays in itertools.product(cs, repeat=k):
                if any(sum(a) > n for a in arrays):
                    yield (n, arrays)


def long_check(case, st):
    n, arrays = case
    s = ALPHABET[:n]
    filler = ALPHABET[:n] + "zzzzzzzz"
    splits = [pieces(filler, a) for a in arrays]
    got = outcome(lambda: list(combine_splits(s, *splits)))
    want = cut(s, [p for a in arrays for p in points(a)])
    if got == ('exc', 'ValueError') or got == ('ret', want):
        if len(arrays) == 1 and n and got[0] == 'ret':
            fail(f"combine_splits({s!r}, *{splits}): got {got}, expected ValueError")
        return
    fail(f"combine_splits({s!r}, *{splits}): got {got}, expected ValueError")


def multisplit_check(s, st):
    "the documented use: with the pieces of multisplit"
    seps = [[" "], ["-"], [" ", "-"], [" -"]]
    arrays = [list(multisplit(s, sep, keep=ALTERNATING, separate=True)) for sep in seps]
    arrays += [list(multisplit(s, sep, keep=True, separate=True)) for sep in seps[:2]]
    for a, b in itertools.permutations(range(len(arrays)), 2):
        pts = [p for x in (arrays[a], arrays[b]) for p in itertools.accumulate(len(y) for y in x)]
        expect(list(combine_splits(s, arrays[a], arrays[b])), cut(s, pts), f"combine_splits({s!r}, {arrays[a]}, {arrays[b]})")
        st.transitions += 1


# ---------------------------------------------------------------- title case

def title_cuts(s, split_allcaps):
    up = [c.isupper() for c in s]
    lo = [c.islower() for c in s]
    for i in range(1, len(s)):
        if up[i] and (lo[i - 1] or (split_allcaps and up[i - 1] and i + 1 < len(s) and lo[i + 1])):
            yield i


# two of each kind, so that text isn't only told by its letters' positions; dz with caron is a title-case letter
LETTERS = {"quick": (7, "AbB1 "), "thorough": (9, "AbB1 ")}


def title_words(n, letters):
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


def title_cases(tier):
    n, letters = LETTERS[tier]
    yield from title_words(n, letters)
    yield from title_words(12 if tier == "quick" else 15, "Ab")


def title_check(s, st):
    bs = s.encode() if s.isascii() else None
    for kw in ({}, {"split_allcaps": True}, {"split_allcaps": False}, {"split_allcaps": 1}, {"split_allcaps": ""}):
        want = cut(s, title_cuts(s, kw.get("split_allcaps", True))) or [s]
        got = list(split_title_case(s, **kw))
        if got != want:
            fail(f"split_title_case({s!r}, {kw}): got {got}, expected {want}")
        st.transitions += 1
        if bs is not None:
            got = list(split_title_case(bs, **kw))
            if got != [w.encode() for w in want]:
                fail(f"split_title_case({bs!r}, {kw}): got {got}, expected {want}")
            st.transitions += 1


def unicode_title_cases(tier):
    yield from title_words(5 if tier == "quick" else 6, "A\u00e9\u01c5\u00df\u4e2d\u0130\u00aa")


def bytes_title_cases(tier):
    for n in (1, 2):
        for w in itertools.product(range(256), repeat=n):
            if n == 1 or tier != "quick" or w[0] in (0x41, 0x61, 0xe9, 0xc9, 0x30) or w[1] in (0x41, 0x61, 0xe9, 0xc9, 0x30):
                yield bytes(w)
    for w in itertools.product((0x41, 0x61, 0xc9, 0xe9), repeat=4):
        yield bytes(w)


def bytes_title_check(b, st):
    "outside ASCII no byte is a letter"
    s = "".join(chr(c) if c < 128 else "\u4e2d" for c in b)
    for allcaps in (True, False):
        pts = [0, *title_cuts(s, allcaps), len(s)]
        want = [b[i:j] for i, j in zip(pts, pts[1:])]
        got = list(split_title_case(b, split_allcaps=allcaps))
        if got != want:
            fail(f"split_title_case({b!r}, split_allcaps={allcaps}): got {got}, expected {want}")
        st.transitions += 1


PARTS = [
    Part("combine", whole_cases, whole_check, bound="all strings of n letters x all k-tuples of ways of splitting them, text and bytes, lists and iterators: n<=5 k<=4, n=6 k<=3, n<=8 k<=2 [n<=4 k<=5, n<=6 k<=4, n=7 k<=3, n<=9 k<=2]"),
    Part("combine short", short_cases, whole_check, bound="splits of prefixes: n<=3 k<=4, n<=5 k<=3 [n=2 k<=5, n<=4 k<=4, n<=6 k<=3]"),
    Part("combine empty", empty_cases, whole_check, bound="splits with empty strings anywhere, n<=3 [4], k<=2"),
    Part("combine long", long_cases, long_check, bound="splits exceeding the string by up to 2, n<=3, k<=3"),
    Part("combine multisplit", lambda tier: title_words(6 if tier == "quick" else 8, "a -"), multisplit_check, bound="pieces of multisplit for all strings up to length 6 [8] over a, space, hyphen, all pairs of 6 splits"),
    Part("title", title_cases, title_check, bound="all strings up to length 7 [9] over A b B 1 space and 12 [15] over A b, text and bytes, 5 values of split_allcaps"),
    Part("title unicode", unicode_title_cases, title_check, bound="all strings up to length 5 [6] over 7 letters that are lower, upper, title, both or neither"),
    Part("title bytes", bytes_title_cases, bytes_title_check, bound="all one- and [all] two-byte strings; four letters to length 4"),
]
