"""C34: cutting into lines, filtering, sorting and stripping them, against the built-in tests, sorts and strips."""
import itertools
import re
from .core import Part, fail, expect, outcome
from .splitmodel import words, pool, subsets
from .linesmodel import REAL, MODEL, cut_lines, model_lines, compare
import big.text as T

ASSUMPTIONS = ["str.splitlines, str.strip, str.expandtabs, re and list.sort are the oracle for what they define"]


def pairs_of(s):
    "by str.splitlines, not by the model of multisplit"
    out = []
    for l in s.splitlines(True):
        body = l.splitlines()[0]
        out.append((body, l[len(body):]))
    if not out or out[-1][1]:
        out.append((s[:0], s[:0]))
    return out


def cut_check(case, st):
    s = case
    for x in (s, s.encode("latin-1")) if s.isascii() else (s,):
        got = [(info.line_number, line, info.end, info.line) for info, line in T.lines(x)]
        want = [(k + 1, a, b, a + b) for k, (a, b) in enumerate(pairs_of(x))]
        st.transitions += len(want)
        if got != want:
            fail(f"lines({x!r}): got {got!r}, expected {want!r}")


def cut_cases(tier):
    yield from words("a \r\n\x0b\x1c\u2028", 0, 5 if tier == "quick" else 6)


def every_check(case, st):
    for c in range(case, case + 0x1000):
        c = chr(c)
        for s in ("a" + c + "b", c, "\r" + c, c + "\n"):
            got = [(line, info.end) for info, line in T.lines(s)]
            st.transitions += 1
            if got != pairs_of(s):
                fail(f"lines({s!r}): got {got!r}, expected {pairs_of(s)!r}")
            li = list(T.lines_strip(T.lines([s])))
            if li[0][1] != s.strip() or li[0][0].leading + li[0][1] + li[0][0].trailing != s or (li[0][1] and li[0][0].leading != s[:len(s) - len(s.lstrip())]):
                fail(f"lines_strip(lines([{s!r}])): got {li!r}")
            li = list(T.lines_rstrip(T.lines([s])))
            if li[0][1] != s.rstrip() or li[0][1] + li[0][0].trailing != s:
                fail(f"lines_rstrip(lines([{s!r}])): got {li!r}")
    if case == 0:
        for c in range(256):
            for s in (b"a" + bytes([c]) + b"b", bytes([c]), bytes([c]) + b"\n", b"\r" + bytes([c])):
                expect([(line, info.end) for info, line in T.lines(s)], pairs_of(s), f"lines({s!r})")
                expect([line for info, line in T.lines_strip(T.lines([s]))], [s.strip()], f"lines_strip(lines([{s!r}]))")
                expect([line for info, line in T.lines_rstrip(T.lines([s]))], [s.rstrip()], f"lines_rstrip(lines([{s!r}]))")


def separators_check(case, st):
    s, seps = case
    for form in (tuple(seps), list(reversed(seps)), iter(seps), set(seps)):
        li = T.lines(s, form, line_number=7)
        compare(li, model_lines(cut_lines(s, seps), 7), f"lines({s!r}, {seps!r})", li)
    b = s.encode()
    compare(T.lines(b, [x.encode() for x in seps]), model_lines(cut_lines(b, [x.encode() for x in seps])), f"lines({b!r}, {seps!r} in bytes)")
    st.transitions += len(s)


def separators_cases(tier):
    for seps in subsets(pool("ab", 2), (1, 2)):
        for s in words("ab\n", 0, 5 if tier == "quick" else 6):
            yield (s, seps)


NEEDLES = ["", "a", "b", " ", "ab", "ba", "a ", "aa", "c"]
PATTERNS = ["a", "^a", "b$", "", "^$", "a+b?", ".", "(?P<x>b)|a", "[ab] ", "\\Aab\\Z", "(?!)"]


def filter_check(case, st):
    s, full = case
    pairs = pairs_of(s)
    plain = [a for a, b in pairs]
    numbered = list(enumerate(plain, 1))

    def run(f, want, what):
        st.transitions += len(pairs)
        li = T.lines(s)
        got = []
        for info, line in f(li):
            if info.line != "".join(pairs[info.line_number - 1]) or info.end != pairs[info.line_number - 1][1] or info.leading or info.trailing or info.column_number != 1 or info.lines is not li:
                fail(f"{what} of {s!r}: {info}")
            got.append((info.line_number, line))
        if got != want:
            fail(f"{what} of {s!r}: got {got!r}, expected {want!r}")

    for x in NEEDLES:
        run(lambda li: T.lines_containing(li, x), [t for t in numbered if x in t[1]], f"lines_containing({x!r})")
        run(lambda li: T.lines_containing(li, x, invert=True), [t for t in numbered if x not in t[1]], f"lines_containing({x!r}, invert=True)")
    run(T.lines_filter_empty_lines, [t for t in numbered if t[1]], "lines_filter_empty_lines")
    run(T.lines_convert_tabs_to_spaces, [(n, t.expandtabs(8)) for n, t in numbered], "lines_convert_tabs_to_spaces")
    for reverse in (False, True):
        run(lambda li: T.lines_sort(li, reverse=reverse), sorted(numbered, key=lambda t: t[1], reverse=reverse), f"lines_sort(reverse={reverse})")
        run(lambda li: T.lines_sort(li, key=lambda t: len(t[1]), reverse=reverse), sorted(numbered, key=lambda t: len(t[1]), reverse=reverse), f"lines_sort(key=length, reverse={reverse})")
        run(lambda li: T.lines_sort(li, key=lambda t: -t[0].line_number, reverse=reverse), numbered if reverse else numbered[::-1], f"lines_sort(key=line_number, reverse={reverse})")
        run(lambda li: T.lines_sort(li, key=lambda t: 0, reverse=reverse), numbered, f"lines_sort(key=constant, reverse={reverse})")
    for p in PATTERNS:
        for pattern, flags in ((p, 0), (re.compile(p, re.I), 0), (p, re.I)):
            for invert in (False, True):
                for name in (None, "found"):
                    kw = {"match": name} if name else {}
                    c = re.compile(p, re.I if flags or not isinstance(pattern, str) else 0)
                    want = [(t, c.search(t[1])) for t in numbered]
                    want = [(t, m and (m.span(), m.groupdict())) for t, m in want if bool(m) != invert]
                    got = []
                    for info, line in T.lines_grep(T.lines(s), pattern, invert=invert, flags=flags, **kw):
                        m = getattr(info, name or "match")
                        if name and info.match is not None:
                            fail(f"lines_grep(match={name!r}) also sets match")
                        got.append(((info.line_number, line), m and (m.span(), m.groupdict())))
                    if got != want:
                        fail(f"lines_grep({pattern!r}, invert={invert}, flags={flags}, match={name!r}) of {s!r}: got {got!r}, expected {want!r}")
                    if not full:
                        break
            if not full:
                break
    if full:
        b = s.encode()
        bn = [(n, t.encode()) for n, t in numbered]
        for x in NEEDLES:
            for invert in (False, True):
                expect([(i.line_number, l) for i, l in T.lines_containing(T.lines(b), x.encode(), invert=invert)], [t for t in bn if (x.encode() in t[1]) != invert], f"lines_containing({x.encode()!r}, invert={invert}) of {b!r}")
        for p in PATTERNS:
            for invert in (False, True):
                expect([(i.line_number, l) for i, l in T.lines_grep(T.lines(b), p.encode(), invert=invert)], [t for t in bn if bool(re.search(p.encode(), t[1])) != invert], f"lines_grep({p.encode()!r}, invert={invert}) of {b!r}")
        expect([(i.line_number, l) for i, l in T.lines_sort(T.lines(b))], sorted(bn, key=lambda t: t[1]), f"lines_sort of {b!r}")
        expect([(i.line_number, l) for i, l in T.lines_filter_empty_lines(T.lines(b))], [t for t in bn if t[1]], f"lines_filter_empty_lines of {b!r}")
        for tw in (1, 2, 4):
            expect([l for i, l in T.lines_convert_tabs_to_spaces(T.lines(s, tab_width=tw))], [x.expandtabs(tw) for x in plain], f"lines_convert_tabs_to_spaces of {s!r}, tab_width {tw}")


def filter_cases(tier):
    n = 6 if tier == "quick" else 8
    for s in words("ab\n", 0, n + 1):
        yield (s, len(s) <= 4)
    for s in words("aB \t\n", 0, n - 1):
        yield (s, len(s) <= 4)


EMBEDDED = ["a", "^a", "a$", "^$", "a.b", "^b$", r"\Ab", r"b\Z", "A", r"a\s", "(?x) a  b"]
FLAGS = [0, re.M, re.I, re.S, re.X, re.A, re.M | re.S, re.M | re.I, re.S | re.I, re.M | re.I | re.S | re.X]


def embedded_check(s, st):
    "lines cut at ';', so that they contain line breaks"
    for e in (lambda s: s, lambda s: s.encode()):
        text = e(s)
        numbered = list(enumerate(text.split(e(";")), 1))
        for p in EMBEDDED:
            for flags in FLAGS:
                c = re.compile(e(p), flags)
                for invert in (False, True):
                    want = [t for t in numbered if bool(c.search(t[1])) != invert]
                    for pattern, f in ((e(p), flags), (c, 0)):
                        got = [(info.line_number, line) for info, line in T.lines_grep(T.lines(text, (e(";"),)), pattern, flags=f, invert=invert)]
                        if got != want:
                            fail(f"lines_grep({pattern!r}, flags={flags}, invert={invert}) of {text!r} cut at ';': got {got!r}, expected {want!r}")
        for reverse in (False, True):
            got = [(info.line_number, line) for info, line in T.lines_sort(T.lines(text, (e(";"),)), reverse=reverse)]
            expect(got, sorted(numbered, key=lambda t: t[1], reverse=reverse), f"lines_sort of {text!r} cut at ';'")
        got = [(info.line_number, line) for info, line in T.lines_filter_empty_lines(T.lines(text, (e(";"),)))]
        expect(got, [t for t in numbered if t[1]], f"lines_filter_empty_lines of {text!r} cut at ';'")
        got = [(info.line_number, line) for info, line in T.lines_containing(T.lines(text, (e(";"),)), e("\n"))]
        expect(got, [t for t in numbered if e("\n") in t[1]], f"lines_containing of {text!r} cut at ';'")
    st.transitions += 2 * len(EMBEDDED) * len(FLAGS)


def strip_check(case, st):
    s, seps = case
    for left in (False, True):
        name = "strip" if left else "rstrip"
        for form in (tuple(seps), iter(seps), set(seps)):
            li = T.lines(s, ("\n",))
            compare(REAL[name](li, form), MODEL[name](model_lines(cut_lines(s, ("\n",))), seps), f"lines_{name}({s!r}, {seps!r})", li)
        b = s.encode()
        bs = [x.encode() for x in seps]
        compare(REAL[name](T.lines(b, (b"\n",)), bs), MODEL[name](model_lines(cut_lines(b, (b"\n",))), bs), f"lines_{name}({b!r}, {bs!r})")
        if all(len(x) == 1 for x in seps):
            for line, (info, got) in zip(s.split("\n"), REAL[name](T.lines(s, ("\n",)), "".join(seps))):
                expect(got, line.strip("".join(seps)) if left else line.rstrip("".join(seps)), f"lines_{name}({s!r}, {''.join(seps)!r})")
    st.transitions += 2


def strip_cases(tier):
    n = 5 if tier == "quick" else 6
    for seps in subsets(pool("ab", 3), (1, 2)):
        for s in words("abx", 0, n):
            yield (s, seps)
        for s in words("abx\n", 2, n - 1):
            if "\n" in s:
                yield (s, seps)
    for seps in ((" ", "\t"), (" ",), (" \t", " "), ("\r", "\x0b")):
        for s in words("a" + "".join(sorted(set("".join(seps)))) + "\n", 0, n):
            yield (s, seps)


def refuse_check(case, st):
    expect(outcome(lambda: T.lines("a", line_number="1"))[1], "TypeError", "line_number must be an integer")
    expect(outcome(lambda: T.lines("a", column_number=1.5))[1], "TypeError", "column_number must be an integer")
    expect(outcome(lambda: T.lines("a", tab_width=None))[1], "TypeError", "tab_width must be an integer")
    expect(outcome(lambda: T.lines(["a"], "x"))[1], "ValueError", "separators for an iterable of lines")
    expect(outcome(lambda: T.lines_grep(T.lines("a"), "a", match="a b"))[1], "ValueError", "match must be an identifier")
    li = T.lines("a", x=3, y="z")
    expect((li.x, li.y, li.s, li.tab_width), (3, "z", "a", 8), "attributes of lines")
    m = re.match("a", "abc")
    expect(T.LineInfo(li, "abc", 1, 1, match=m).match, m, "LineInfo(match=re.Match)")
    for key in (None, False, 0):
        expect([l for i, l in T.lines_sort(T.lines("b\na"), key=key)], ["a", "b"], f"lines_sort(key={key})")
    for s, n in (("", 1), ("\n", 2), ("a", 1), ("a\n", 2), ("\r\n", 2), ("\n\r", 3)):
        expect(len(list(T.lines(s))), n, f"number of lines of {s!r}")


def names_check(name, st):
    """The attribute lines_grep stores the match in: any identifier, and nothing else."""
    for invert in (False, True):
        r = outcome(lambda: list(T.lines_grep(T.lines("xa\nb"), "a", match=name, invert=invert)))
        st.transitions += 1
        if not name.isidentifier():
            expect(r[1], "ValueError", f"lines_grep(match={name!r})")
            continue
        if r[0] != "ret":
            fail(f"lines_grep(match={name!r}) raised {r[1]}")
        [(info, line)] = r[1]
        m = getattr(info, name)
        if (info.line_number, line, m and m.span()) != ((2, "b", None) if invert else (1, "xa", (1, 2))):
            fail(f"lines_grep(match={name!r}, invert={invert}) stored {m!r}, line {info.line_number}")


PARTS = [
    Part("names", lambda tier: list(words("aZ_1\u00e9 -.", 0, 3 if tier == "quick" else 5)) + ["match", "found", "my_match", "class"], names_check, bound="lines_grep's attribute: every name of <= 3 (5) of 8 characters"),
    Part("refusals", lambda tier: [0], refuse_check, bound="argument types"),
    Part("every character", lambda tier: range(0, 0x110000 if tier != "quick" else 0x4000, 0x1000), every_check, bound="every character up to U+3FFF (all), every byte, alone and after CR or before LF"),
    Part("cut", cut_cases, cut_check, bound="all texts of <= 5 (6) of 7 characters, 5 of them line breaks"),
    Part("separators", separators_cases, separators_check, bound="all sets of <= 2 separators of <= 2 letters, all texts of <= 5 (6)"),
    Part("filters", filter_cases, filter_check, bound="all texts of <= 7 (9) of 3 characters, <= 5 (7) of 5; 9 substrings, 11 patterns x flags x inversion x attribute, 4 sort keys"),
    Part("embedded newlines", lambda tier: words("abA\n;", 0, 4 if tier == "quick" else 6), embedded_check, bound="lines cut at ';': all texts of <= 4 (6) of 5 characters, 11 patterns x 10 combinations of flags, as string and compiled, text and bytes"),
    Part("strip", strip_cases, strip_check, bound="all sets of <= 2 separators of <= 3 letters, all texts of <= 5 (6) of 3-4 characters"),
]
