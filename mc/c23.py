"""C23: wrapping every short sequence of words and splitting every short text, against line-by-line references."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
from big.text import wrap_words, split_text_with_code

ASSUMPTIONS = ["white space other than spaces, tabs and newlines at the start of a line raises RuntimeError (the test suite asserts it) and is only checked for that", "words made of white space other than line breaks are not checked"]


class S(str):
    pass


class B(bytes):
    pass


def wrap_model(ws, margin, two):
    out = ""
    col = 0
    prev = ""
    for w in ws:
        if w in ("\n", "\n\n"):
            out += w
            col = 0
        elif not col:
            out += w
            col = len(w)
        else:
            gap = "  " if two and prev[-1:] in (".", "?", "!") else " "
            if col + len(gap) + len(w) <= margin:
                out += gap + w
                col += len(gap) + len(w)
            else:
                out += "\n" + w
                col = len(w)
        prev = w
    return out


def wrap_check(case, st):
    ws = case
    for two in (True, False):
        for margin in range(0, 13):
            got = wrap_words(ws, margin, two_spaces=two)
            want = wrap_model(ws, margin, two)
            st.transitions += 1
            if got != want:
                fail(f"wrap_words({ws!r}, {margin}, two_spaces={two}): got {got!r}, expected {want!r}")
    want = wrap_model(ws, 79, True)
    if len(ws) <= 4:
        expect(wrap_words(iter(ws)), want, f"wrap_words(iter({ws!r})), defaults")
        for kind in (S, B):
            x = [w.encode() if kind is B else w for w in ws]
            got = wrap_words([kind(w) for w in x], margin=5)
            expect((got, type(got)), (wrap_model(ws, 5, True).encode() if kind is B else wrap_model(ws, 5, True), kind.__base__), f"wrap_words of a subclass, {ws!r}")
        expect(wrap_words([w.encode() for w in ws], 6, two_spaces=False), wrap_model(ws, 6, False).encode(), f"wrap_words of bytes, {ws!r}")


def wrap_cases(tier):
    t = tier != "quick"
    for n in range(1, 8 if t else 7):
        yield from itertools.product(("a", "bb", "a.", "ccccc", "d?!", "e.f", "\n", "\n\n"), repeat=n)
    for n in range(1, 11 if t else 9):
        yield from itertools.product(("a", "bbb", "\n", "b."), repeat=n)
    for n in range(1, 5):
        yield from itertools.product(("a", "   b c", "x! ", "    y.", "\n", "\n\n", "..", "'.'", "abcdefghijklmnop"), repeat=n)
    for n in range(1, 6 if t else 5):
        yield from itertools.product((".", "?", "!", "a", ":", "b.c", ".)", "\n"), repeat=n)
    for long in ("x" * 79, "y" * 78, "z" * 80, "w" * 76 + "."):
        for n in (1, 2):
            for t in itertools.product(("a", long, "b.", "\n"), repeat=n):
                yield t


def default_margin_check(case, st):
    n = case
    for k in range(70, 82):
        for e in ("", "."):
            ws = ["x" * k + e, "y" * n, "z"]
            for two in (True, False):
                expect(wrap_words(ws, two_spaces=two), wrap_model(ws, 79, two), f"wrap_words({ws!r}, two_spaces={two})")
            st.transitions += 2


def split_model(s, tab_width, allow_code, code_indent, convert):
    out = []
    prev = None
    breaks = 0
    for line in s.split("\n"):
        breaks += 1
        if not line.strip():
            continue
        body = line.rstrip()
        col = 0
        wide = ""
        for c in body:
            if c == "\t":
                n = tab_width - len(wide) % tab_width
                wide += " " * n
            else:
                wide += c
        indent = len(wide) - len(wide.lstrip())
        if allow_code and indent >= code_indent:
            if prev == "code":
                out += ["\n"] * breaks
            elif prev:
                out.append("\n\n")
            out.append(wide if convert else body)
            prev = "code"
        else:
            if prev and (prev == "code" or breaks > 1):
                out.append("\n\n")
            out += body.split()
            prev = "text"
        breaks = 0
    return out or [""]


OPTIONS = [dict(tab_width=t, code_indent=c) for t, c in ((4, 2), (8, 4), (2, 3), (1, 1), (3, 5))]


def split_check(case, st):
    s, full = case
    for kw in OPTIONS if full else OPTIONS[:1]:
        for convert in (True, False):
            got = split_text_with_code(s, convert_tabs_to_spaces=convert, **kw)
            want = split_model(s, kw["tab_width"], True, kw["code_indent"], convert)
            st.transitions += 1
            if got != want:
                fail(f"split_text_with_code({s!r}, {kw}, convert_tabs_to_spaces={convert}): got {got!r}, expected {want!r}")
    want = split_model(s, 8, False, 4, True)
    got = split_text_with_code(s, allow_code=False)
    if got != want:
        fail(f"split_text_with_code({s!r}, allow_code=False): got {got!r}, expected {want!r}")
    if full:
        want = split_model(s, 8, True, 4, True)
        got = split_text_with_code(s)
        if got != want:
            fail(f"split_text_with_code({s!r}): got {got!r}, expected {want!r}")
        for x in (S(s), s.encode(), B(s.encode())):
            t = bytes if isinstance(x, bytes) else str
            got = split_text_with_code(x)
            expect(got, [w.encode() for w in want] if t is bytes else want, f"split_text_with_code of {type(x).__name__} {s!r}")
            if {type(w) for w in got} != {t}:
                fail(f"split_text_with_code of {type(x).__name__} {s!r}: types of {got!r}")
        # text that is wrapped again keeps its words
        for margin in (1, 4, 20):
            text = wrap_words(split_text_with_code(s), margin)
            if text.split() != s.split():
                fail(f"wrapping {s!r} gives {text!r}")
            if split_text_with_code(text) != want and "\n    " not in "\n" + text and not any(len(w) > margin for w in s.split()):
                fail(f"wrapping {s!r} at {margin} gives {text!r}: paragraphs are lost")


def split_cases(tier):
    t = tier != "quick"
    for s in words("a \t\n", 0, 11 if t else 9):
        yield (s, len(s) <= (7 if t else 6))
    # longer texts, line by line
    for n in range(1, 8 if t else 6):
        for ls in itertools.product(("", "a b", "    c", " \td  e", "  ", "   f "), repeat=n):
            yield ("\n".join(ls), n <= 4)
            if n <= 4:
                yield ("\n".join(ls) + "\n", True)


def grid_check(case, st):
    i, j, k, blank = case
    for tail in ("", " c\td"):
        s = " " * i + "a" + tail + "\n" * blank + " " * j + "b\n" + ("\t" if k == 10 else " " * k) + "c\n"
        for indent in range(0, 11):
            for tab in (1, 3, 4, 8, 10):
                for convert in (True, False):
                    want = split_model(s, tab, True, indent, convert)
                    got = split_text_with_code(s, tab_width=tab, code_indent=indent, convert_tabs_to_spaces=convert)
                    st.transitions += 1
                    if got != want:
                        fail(f"split_text_with_code({s!r}, tab_width={tab}, code_indent={indent}, convert_tabs_to_spaces={convert}): got {got!r}, expected {want!r}")


def grid_cases(tier):
    return itertools.product(range(11), range(11), range(11), (1, 2, 3))


def odd_check(case, st):
    c = chr(case)
    if not c.isspace() or c in " \t\n":
        return
    # between words it separates, at the end of a line it is ignored, in indents and code it is refused
    expect(split_text_with_code(f"a{c}b{c}\nc"), ["a", "b", "c"], f"{c!r} between words")
    expect(split_text_with_code(f"a\n{c}\nb"), ["a", "\n\n", "b"], f"{c!r} on an empty line")
    expect(outcome(split_text_with_code, f"a\n{c}b")[0], "exc", f"{c!r} in front of a word")
    expect(split_text_with_code(f"a\n{c}b", allow_code=False), ["a", "b"], f"{c!r} in front of a word, no code")


def refuse_check(case, st):
    expect(outcome(wrap_words, []), ('exc', 'ValueError'), "wrap_words([])")
    expect(outcome(wrap_words, iter(())), ('exc', 'ValueError'), "wrap_words of nothing")
    for ws in (["a", b"b"], [b"a", "b"]):
        expect(outcome(wrap_words, ws), ('exc', 'TypeError'), f"wrap_words({ws})")
    expect(split_text_with_code(""), [""], "split_text_with_code('')")
    expect(split_text_with_code(b""), [b""], "split_text_with_code(b'')")
    expect(wrap_words(split_text_with_code("")), "", "empty text")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="nothing to wrap, mixed types, empty text"),
    Part("white space", lambda tier: range(0x110000 if tier != "quick" else 0x4000), odd_check, bound="every white-space character"),
    Part("default margin", lambda tier: range(0, 12), default_margin_check, bound="words around 79 columns"),
    Part("wrap", wrap_cases, wrap_check, bound="all sequences of <= 6 (7) out of 8 words and breaks, <= 8 (10) out of 4, <= 4 out of 9 with inner spaces, <= 4 (5) out of 8 mostly punctuation; margins 0-12; both spacings"),
    Part("indents", grid_cases, grid_check, bound="three lines, each indented by 0-10 columns, 0-2 blank lines; every code indent 0-10, five tab widths"),
    Part("split", split_cases, split_check, bound="all texts of <= 9 (11) of 4 characters, all sequences of <= 5 (7) lines of 6 kinds; 5 settings of tab width and code indent, tabs converted or not, code allowed or not"),
]
