"""C17: regular expression partitioning and reversed search: every small pattern on every short string."""
import re
from .core import Part, fail, expect, outcome
from .splitmodel import words
from big.text import re_partition, re_rpartition, reversed_re_finditer

ASSUMPTIONS = ["Python's re module is right about where a pattern matches from a given position up to a given end."]


def generate(size, memo={}):
    "every pattern of that many nodes: literal, any; star, plus, optional, lazy star; concatenation, alternation (kind, text)"
    if size not in memo:
        out = []
        if size == 1:
            out = ["a", "b", "."]
        else:
            for p in generate(size - 1):
                q = p if len(p) == 1 else f"(?:{p})"
                out += [q + "*", q + "+", q + "?", q + "*?"]
            for k in range(1, size - 1):
                for p in generate(k):
                    for q in generate(size - 1 - k):
                        out.append("".join(x if "|" not in x else f"(?:{x})" for x in (p, q)))
                        out.append(f"{p}|{q}")
        memo[size] = list(dict.fromkeys(out))
    return memo[size]


# nothing in these looks to the right of the match
LEFT = ["(a)(b)?", "(a|ab)(c|bc)?", "^a", "^", "^a|b", "(?m)^", "(?m)^a", "(?<=a)b", "(?<!a)b", "(?<=a)", "(?<!a)b*", r"(a)\1", r"(a|b)\1", "abc|bc|c", "(?:a|ab)(?:c|bcd)*", "c*b", r"\Aa", "^|a+",
        "(?i)A", "[ab]+", "[^a]", "a{2}", "a{1,2}?b", "(?P<x>a)|b", "(?<=(a))b", r"(?<=^a)b", "(?s).", ".", "a.c", "ab.", "(?:ab|a)*", r"\n", "\n|ab", "a??", "|a", "a|", "", "(?:)", "()", "(a)|(b)|c", "(?:a(b)?)+", "x"]
# these do
RIGHT = ["a$", "$", r"a\Z", r"\Z", r"\b", r"\B", r"\ba", r"a\b", r"\w+", r"\b\w+\b", "a(?=b)", "a(?!b)", "(?=a)", "(?!a)", "(?=ab)a|b", "(?m)$", "(?m)a$", "(?m)^a*$", "^$", r"(?=(ab))a", "^a$|b", r"(?:a(?=b)|b)+", "a*(?=b)", r"\b|a", "a*$"]


def key(m):
    return (m.end(), -m.start())


def matches_at(p, s, pos, limit):
    "what can match there: a pattern that prefers nothing may also match something"
    out = []
    for m in p.finditer(s, pos, limit):
        if m.start() != pos:
            break
        out.append(m)
        if m.end() != pos:
            break
    return out


def exact(p, s):
    "the rightmost-ending, then longest, match that ends where the last one started, again and again"
    out = []
    limit = len(s)
    empty_at = None
    while True:
        best = None
        for pos in range(limit + 1):
            for m in matches_at(p, s, pos, limit):
                if not (m.start() == m.end() == empty_at) and (best is None or key(m) > key(best)):
                    best = m
        if best is None:
            return out
        out.append(best)
        limit = best.start()
        empty_at = limit if best.end() == limit else None


def shape(m):
    return (m.span(), m.groups(), m.groupdict(), [m.span(i) for i in range(m.re.groups + 1)])


def plausible(p, s, found):
    "what must hold whatever a pattern that looks right is taken to see there"
    limit = len(s)
    empty_at = None
    full = [m for i in range(len(s) + 1) for m in matches_at(p, s, i, len(s))]
    for m in found + [None]:
        best = max((key(f) for f in full if f.end() <= limit and f.start() <= limit and not f.start() == f.end() == empty_at), default=None)
        if m is None:
            if best:
                return f"stops before the match at {-best[1]}:{best[0]}"
            return None
        if m.end() > limit or m.start() == m.end() == empty_at:
            return f"{m.span()} overlaps the match before"
        if best and key(m) < best:
            return f"{m.span()} comes before the match at {-best[1]}:{best[0]}"
        if not any(shape(f) == shape(m) for e in range(m.end(), len(s) + 1) for f in matches_at(p, s, m.start(), e)):
            return f"{m.span()} is no match"
        limit = m.start()
        empty_at = limit if m.end() == limit else None
    return None


def pieces(s, matches, count, reverse):
    e = s[:0]
    matches = matches[:count]
    out = []
    if not reverse:
        i = 0
        for m in matches:
            out += [s[i:m.start()], m.span()]
            i = m.end()
        out.append(s[i:])
        return out + [None, e] * (count - len(matches))
    j = len(s)
    for m in matches:
        out += [s[m.end():j], m.span()]
        j = m.start()
    out.append(s[:j])
    return [e, None] * (count - len(matches)) + out[::-1]


def flat(t):
    return [x.span() if hasattr(x, "span") else x for x in t]


def run(pattern, s, right, st, arg=None, flags=0):
    p = pattern if hasattr(pattern, "match") else re.compile(pattern, flags)
    arg = pattern if arg is None else arg
    what = f"{getattr(arg, 'pattern', arg)!r} on {s!r}"
    kw = {"flags": flags} if flags else {}
    forward = list(p.finditer(s))
    back = list(reversed_re_finditer(arg, s, **kw))
    st.transitions += 1
    if right:
        bad = plausible(p, s, back)
        if bad:
            fail(f"reversed_re_finditer {what}: {[m.span() for m in back]}: {bad}")
    else:
        want = exact(p, s)
        if [shape(m) for m in back] != [shape(m) for m in want]:
            fail(f"reversed_re_finditer {what}: got {[shape(m) for m in back]}, expected {[shape(m) for m in want]}")
    for m in back:
        if m.string != s or m.re != p:
            fail(f"reversed_re_finditer {what}: a match object of something else")
    for matches, reverse, functions in ((forward, False, (re_partition, lambda *a, **k: re_partition(*a, **k, reverse=False))), (back, True, (re_rpartition, lambda *a, **k: re_partition(*a, **k, reverse=True)))):
        for f in functions:
            for count in (0, 1, 2, len(matches) + 1):
                got = f(s, arg, count, **kw)
                st.transitions += 1
                want = pieces(s, matches, count, reverse)
                if type(got) is not tuple or flat(got) != want:
                    fail(f"{'re_rpartition' if reverse else 're_partition'} {what}, count {count}: got {got!r}, expected {want!r}")
                for x in got[1::2]:
                    if x is not None and shape(x) not in [shape(m) for m in matches]:
                        fail(f"re_partition {what}, count {count}: {x!r} is not the match")
                joined = s[:0].join(x.group() if hasattr(x, "group") else x for x in got if x is not None)
                if joined != s or any(type(x) is not type(s[:0]) for x in got[0::2]):
                    fail(f"re_partition {what}, count {count}: {got!r} does not add up to the text")
            if flat(f(s, arg, **kw)) != pieces(s, matches, 1, reverse):
                fail(f"re_partition {what}: without a count: {f(s, arg, **kw)!r}")


def pattern_check(case, st):
    pattern, s = case
    run(pattern, s, False, st)


def generated_cases(tier):
    t = tier != "quick"
    for size in (1, 2, 3, 4) if not t else (1, 2, 3, 4, 5):
        for p in generate(size):
            for s in words("ab", 0, {1: 8, 2: 7, 3: 6 + t, 4: 4 + t, 5: 4}[size]):
                yield (p, s)


def family_check(case, st):
    pattern, s, right = case
    run(pattern, s, right, st)
    run(re.compile(pattern), s, right, st)


def family_cases(tier):
    for right, family in ((False, LEFT), (True, RIGHT)):
        for p in family:
            letters = "ab\n" if "\\n" in p or "\n" in p or "(?m)" in p else "abc" if "c" in p else "ab " if "\\b" in p.lower() or "\\w" in p else "ab\n" if "$" in p or "\\Z" in p else "ab"
            for s in words(letters, 0, (5 if len(letters) > 2 else 7) + (tier != "quick")):
                yield (p, s, right)


def other_check(case, st):
    pattern, s = case
    class Str(str):
        pass
    class Bytes(bytes):
        pass
    b = s.encode()
    bp = pattern.encode()
    run(bp, b, False, st)
    run(re.compile(bp), b, False, st)
    run(pattern, s, False, st, flags=re.I)
    run(bp, b, False, st, flags=re.I)
    # subclasses, and what comes back of them
    for x, y, plain in ((Str(s), pattern, str), (Str(s), Str(pattern), str), (s, Str(pattern), str), (Bytes(b), bp, bytes), (Bytes(b), Bytes(bp), bytes)):
        for f in (re_partition, re_rpartition):
            for count in (0, 1, 2):
                got = f(x, y, count)
                want = f(plain(x), plain(y), count)
                if flat(got) != flat(want) or any(type(i) is not plain for i in got[0::2]):
                    fail(f"{f.__name__}({type(x).__name__} {x!r}, {type(y).__name__} {y!r}, {count}): {got!r}, {[type(i).__name__ for i in got]}")
    for f in (re_partition, re_rpartition):
        for count in (-1, -2):
            expect(outcome(f, s, pattern, count), ('exc', 'ValueError'), f"{f.__name__}({s!r}, {pattern!r}, {count})")
        for bad in ((s, bp), (b, pattern), (s, re.compile(bp)), (b, re.compile(pattern))):
            expect(outcome(f, *bad), ('exc', 'TypeError'), f"{f.__name__}{bad!r}")
    try:
        import regex
    except ImportError:
        return
    p = regex.compile(pattern)
    run(p, s, False, st)


def other_cases(tier):
    for p in ("a", "ab|a", "a*", "(a)(b)?", "a|b|ab", "aba", "[ab]+", "a.b?", "", "(?:ab)*"):
        for s in words("abA", 0, 4 if tier == "quick" else 5):
            yield (p, s)


PARTS = [
    Part("families", family_cases, family_check, bound="67 patterns with groups, anchors, look-around, boundaries, empty matches on all strings of <= 5-7 (6-8) letters"),
    Part("types", other_cases, other_check, bound="bytes, flags, subclasses, mixed types, negative counts, regex package patterns"),
    Part("generated", generated_cases, pattern_check, bound="every pattern of <= 4 (5) nodes over two letters and any, with *, +, ?, *?, concatenation, alternation, on all strings of <= 8, 7, 6, 4 (8, 7, 7, 5, 4) letters; counts 0, 1, 2, all + 1"),
]
