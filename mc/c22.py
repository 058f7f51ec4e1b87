"""C22: lines_strip_indent on every sequence of short indents, against a stack of columns."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
from .linesmodel import MODEL, cut_lines, model_lines, compare
import big.text as T

ASSUMPTIONS = []


def run(s, column, tw, st, what=""):
    li = T.lines(s, column_number=column, tab_width=tw)
    pairs = cut_lines(s)
    st.transitions += len(pairs)
    return compare(T.lines_strip_indent(li), MODEL["indent"](model_lines(pairs, 1, column, tw)), f"lines_strip_indent({s!r}, column_number={column}, tab_width={tw})", li)


def deep_check(case, st):
    """every sequence of depths and blanks"""
    depths = case
    s = "\n".join(d if isinstance(d, str) else " " * d + "x" for d in depths)
    run(s, 1, 8, st)
    if len(depths) <= 4:
        run(s, 0, 1, st)
        run(s, -2, 8, st)
        run(s.replace("\n", "\r\n") + "\r\n", 5, 4, st)
        run(s.encode(), 1, 8, st)
        run(s.replace("x", "x y \t") + "\n", 1, 8, st)


def deep_cases(tier):
    t = tier != "quick"
    for n in range(1, 10 if t else 9):
        for d in itertools.product(range(4), repeat=n):
            yield d
    for n in range(1, 8 if t else 7):
        for d in itertools.product((0, 1, 2, 3, "", "  "), repeat=n):
            if any(isinstance(x, str) for x in d):
                yield d
    for n in range(1, 8 if t else 7):
        for d in itertools.product((0, 1, 2, 3, 4, 5), repeat=n):
            if max(d) > 3:
                yield d


def tabs_check(case, st):
    parts, tail = case
    s = "\n".join(parts) + tail
    for tw in (8, 4, 3, 2, 1, 0):
        for column in (1, 0, 6):
            run(s, column, tw, st)
    run(s.encode(), 1, 4, st)


def tabs_cases(tier):
    t = tier != "quick"
    full = [i + x for i in words(" \t", 0, 4) for x in ("x", "")]
    short = [i + x for i in words(" \t", 0, 3 if t else 2) for x in ("x", "")]
    for n, pool in ((1, full), (2, full), (3, short)):
        for p in itertools.product(pool, repeat=n):
            for tail in ("", "\n") if n < 3 else ("",):
                yield (p, tail)
    few = ["x", " x", "\tx", "    x", "\t x", "  \tx", " ", "        x"]
    for p in itertools.product(few, repeat=5 if t else 4):
        yield (p, "")
    odd = ["x", " x", "\x0cx", "\x0b x", "\xa0\tx", "\x1f", "\u3000x", " \x0c\t"]
    for p in itertools.product(odd, repeat=4 if t else 3):
        if all(len(l.splitlines()) <= 1 and not set(l) & set("\x0c\x0b\x1f") for l in p):
            yield (p, "")


def form_check(case, st):
    """The same through other sources of lines; the lines come one at a time."""
    depths = case
    ls = [d if isinstance(d, str) else " " * d + "x" for d in depths]
    pairs = [(l, "") for l in ls]
    for src in (ls, iter(ls), pairs):
        li = T.lines(src, line_number=10)
        compare(T.lines_strip_indent(li), MODEL["indent"](model_lines(pairs, 10, 1, 8)), f"lines_strip_indent of lines {ls!r}", li)
    # separators other than line breaks
    s = ";".join(ls)
    li = T.lines(s, (";",))
    compare(T.lines_strip_indent(li), MODEL["indent"](model_lines(cut_lines(s, (";",)))), f"lines_strip_indent(lines({s!r}, ';'))", li)
    # after blank lines have been dropped, and after the tabs have been converted
    li = T.lines(s, (";",))
    compare(T.lines_strip_indent(T.lines_filter_empty_lines(T.lines_rstrip(li))), MODEL["indent"](MODEL["noempty"](MODEL["rstrip"](model_lines(cut_lines(s, (";",))), None))), f"dropping empty lines: {s!r}")
    st.transitions += 5


def form_cases(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        yield from itertools.product((0, 1, 2, 3, "", " "), repeat=n)


PARTS = [
    Part("forms", form_cases, form_check, bound="<= 5 (6) lines of depth 0-3 or blank as lists, iterators, pairs, with other separators and after other modifiers"),
    Part("tabs", tabs_cases, tabs_check, bound="all pairs of lines with indents of <= 4 spaces and tabs, triples of <= 2 (3), 4 (5) lines of 8 kinds, 6 tab widths, 3 starting columns"),
    Part("depths", deep_cases, deep_check, bound="all sequences of <= 8 (9) lines of depth 0-3, <= 6 (7) lines of depth 0-5 or 0-3 and two kinds of blank lines"),
]
