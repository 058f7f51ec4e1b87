"""C15: multisplit and multipartition against Python's own str and bytes methods, and against the scanner."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import scan, grouped, words, pool, subsets
import big.text as T
from big.text import multisplit, multipartition, multirpartition

ASSUMPTIONS = []


def same(got, want, what):
    if got != want:
        fail(f"{what}: got {got!r}, expected {want!r}")


def split_ws_check(case, st):
    """str.split and rsplit without a separator."""
    s = case
    seps = (None, T.bytes_whitespace) if isinstance(s, bytes) else (None, T.whitespace)
    for maxsplit in (-1, 0, 1, 2, 3, 4):
        for sep in seps:
            for reverse in (False, True):
                got = list(multisplit(s, sep, maxsplit=maxsplit, reverse=reverse, strip=T.PROGRESSIVE))
                if got and not got[-1]:
                    got.pop()
                same(got, s.rsplit(None, maxsplit) if reverse else s.split(None, maxsplit), f"multisplit({s!r}, maxsplit={maxsplit}, reverse={reverse}, strip=PROGRESSIVE)")
                st.transitions += 1
    for sep in seps:
        got = list(multisplit(s, sep, strip=True))
        if got == [s[:0]]:
            got = []
        same(got, s.split(), f"multisplit({s!r}, strip=True)")


def text_words(tier):
    n = 5 if tier == "quick" else 6
    yield from words("a \r\n\x1c\u2029", 0, n)
    for w in itertools.product((b"a", b" ", b"\r", b"\n", b"\x1c", b"\x0b"), repeat=n):
        yield b"".join(w)
    for k in range(n):
        for w in itertools.product((b"a", b" ", b"\r", b"\n", b"\x1c", b"\x85"), repeat=k):
            yield b"".join(w)


def split_sep_check(case, st):
    """str.split, rsplit, partition and rpartition with one separator."""
    s, sep = case
    for as_bytes in (False, True):
        if as_bytes:
            try:
                s, sep = s.encode("latin-1"), sep.encode("latin-1")
            except UnicodeEncodeError:
                return
        for maxsplit in (-1, 0, 1, 2, 3):
            for reverse in (False, True):
                got = list(multisplit(s, (sep,), maxsplit=maxsplit, reverse=reverse, separate=True))
                same(got, s.rsplit(sep, maxsplit) if reverse else s.split(sep, maxsplit), f"multisplit({s!r}, ({sep!r},), maxsplit={maxsplit}, reverse={reverse}, separate=True)")
                st.transitions += 1
        for f, kw, want in ((multipartition, {}, s.partition), (multipartition, {"reverse": True}, s.rpartition), (multirpartition, {}, s.rpartition), (multirpartition, {"reverse": True}, s.partition)):
            same(f(s, (sep,), **kw), want(sep), f"{f.__name__}({s!r}, ({sep!r},), {kw})")


def sep_cases(tier):
    n = 6 if tier == "quick" else 8
    for sep in pool("ab", 3):
        for s in words("ab", 0, n + 2):
            yield (s, sep)
        for s in words("abx", 1, n):
            yield (s, sep)
    for sep in ("\n", "\r\n", ".", "$", "^", "\\", "(", " ", "[a]", "\xe9", "a|"):
        for s in words(sorted(set(sep) | {"x", "\n"}), 0, n):
            yield (s, sep)


def lines_check(case, st):
    s = case
    breaks = T.bytes_linebreaks if isinstance(s, bytes) else T.linebreaks
    for keepends in (False, True):
        for reverse in (False, True):
            got = list(multisplit(s, breaks, keep=keepends, separate=True, strip=False, reverse=reverse))
            if got and not got[-1]:
                got.pop()
            same(got, s.splitlines(keepends), f"multisplit({s!r}, linebreaks, keep={keepends}, separate=True, reverse={reverse})")
        if not isinstance(s, bytes):
            # the same without relying on the order of the table
            got = list(multisplit(s, list(reversed(breaks)), keep=keepends, separate=True, strip=False))
            if got and not got[-1]:
                got.pop()
            same(got, s.splitlines(keepends), f"multisplit({s!r}, reversed linebreaks, keep={keepends}, separate=True)")


def line_words(tier):
    n = 5 if tier == "quick" else 6
    yield from words("a\r\n\x0b\x1e\x85\u2028", 0, n)
    for k in range(n + 2):
        for w in itertools.product((b"a", b"\r", b"\n", b"\x0b", b"\x1e"), repeat=k):
            yield b"".join(w)


def partition_model(s, seps, count, reverse, separate):
    found = scan(s, sorted(seps, key=len, reverse=True), reverse)
    if not separate:
        found = grouped(found, reverse)
    found = found[:count]
    missing = count - len(found)
    if reverse:
        found = found[::-1]
    out = []
    i = 0
    for a, b in found:
        out += [s[i:a], s[a:b]]
        i = b
    out.append(s[i:])
    pad = [s[:0]] * (2 * missing)
    return tuple(pad + out if reverse else out + pad)


def partition_check(case, st):
    s, seps = case
    for f, flip in ((multipartition, False), (multirpartition, True)):
        for reverse in (None, False, True):
            for separate in (None, True, False):
                for count in (None, 0, 1, 2, 3, 5):
                    kw = {k: v for k, v in (("count", count), ("reverse", reverse), ("separate", separate)) if v is not None}
                    got = f(s, seps, **kw)
                    n = 1 if count is None else count
                    want = partition_model(s, seps, n, bool(reverse) != flip, separate is not False)
                    st.transitions += 1
                    if got != want:
                        fail(f"{f.__name__}({s!r}, {seps!r}, {kw}): got {got!r}, expected {want!r}")
                    if type(got) is not tuple or len(got) != 2 * n + 1 or s[:0].join(got) != s:
                        fail(f"{f.__name__}({s!r}, {seps!r}, {kw}): {got!r} loses text")
    if len(s) < 4:
        same(multipartition(s, iter(list(seps)), 2), partition_model(s, seps, 2, False, True), "separators as an iterator, count positional")
        same(multipartition(s.encode(), [p.encode() for p in seps], 2, reverse=True), tuple(x.encode() for x in partition_model(s, seps, 2, True, True)), "bytes")


def partition_cases(tier):
    n = 5 if tier == "quick" else 6
    for seps in subsets(pool("ab", 3), (1, 2)):
        for s in words("abx", 0, n):
            yield (s, seps)
    for seps in subsets(pool("ab", 2), (3,)):
        for s in words("abx", 0, n):
            yield (s, seps)
    for seps in (("\n",), ("\r\n", "\n"), ("$", "\n"), (".", "\\"), (" ", "  ")):
        for s in words(sorted(set("".join(seps)) | {"x"}), 0, n):
            yield (s, seps)


def refuse_check(case, st):
    for f in (multipartition, multirpartition):
        for c in (-1, -5):
            expect(outcome(f, "a b", " ", c), ('exc', 'ValueError'), f"{f.__name__} count={c}")
        for s, seps, err in (("a", [], "ValueError"), ("a", "", "ValueError"), ("a", [""], "ValueError"), ("a", b"x", "TypeError"), (b"a", "x", "TypeError"), ("a", ["x", b"y"], "TypeError")):
            for c in (0, 1, 2):
                expect(outcome(f, s, seps, c), ('exc', err), f"{f.__name__}({s!r}, {seps!r}, {c})")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="bad counts and separators"),
    Part("lines", line_words, lines_check, bound="str/bytes.splitlines on all strings of <= 5 (6) of 7 characters, bytes of <= 6 (7)"),
    Part("whitespace", text_words, split_ws_check, bound="str/bytes.split() and rsplit() on all strings of <= 5 (6) of 6 characters, 6 maxsplits"),
    Part("one separator", sep_cases, split_sep_check, bound="split, rsplit, partition, rpartition for every separator of <= 3 letters on all strings of <= 6 (8), 5 maxsplits, str and bytes"),
    Part("partition", partition_cases, partition_check, bound="all sets of <= 2 separators of <= 3 letters (3 of <= 2), all strings of <= 5 (6), counts <= 5, both directions, both kinds"),
]
