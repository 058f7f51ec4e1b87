"""C20: every chain of line modifiers on every short text, against the model; every sequence of clips."""
import itertools
from .core import Part, fail, expect
from .splitmodel import words
from .linesmodel import REAL, MODEL, cut_lines, model_lines, compare
import big.text as T

ASSUMPTIONS = []

OPS = (
    ("strip", None), ("rstrip", None), ("indent",), ("tabs",),
    ("comments", "#"), ("comments", "#", '"'), ("comments", "#", (), '"'),
    ("strip", ("a#", " ")), ("rstrip", ("a ", "\t")),
    ("noempty",), ("contains", "a"), ("sort",), ("nocomments", "#"),
)


def chain(functions, li, ops):
    for op in ops:
        li = functions[op[0]](li, *op[1:])
    return li


def chains(n):
    for k in range(n + 1):
        yield from itertools.product(range(len(OPS)), repeat=k)


CHAINS = {n: [tuple(OPS[i] for i in c) for c in chains(n)] for n in (2, 3)}
QUOTING = [c for c in CHAINS[2] if c and any(op[0] == "comments" for op in c)]


def case_check(case, st):
    s, depth = case
    pairs = cut_lines(s)
    for ops in CHAINS[depth]:
        li = T.lines(s)
        compare(chain(REAL, li, ops), chain(MODEL, model_lines(pairs), ops), f"{ops} of {s!r}", li)
        st.transitions += max(1, len(ops)) * len(pairs)


def cases(tier):
    t = tier != "quick"
    for n in range(0, 7 if t else 6):
        for s in words(' a\t#"\n', n, n):
            if n == 6 and '\n' not in s:
                continue
            yield (s, 2)
    for n in range(0, 5 if t else 4):
        for s in words(' a\t#"\n', n, n):
            yield (s, 3)


FEW = [(), (("strip", None),), (("indent",),), (("rstrip", None), ("indent",)), (("tabs",), ("strip", None)), (("rstrip", None), ("strip", None)), (("sort",), ("indent",)), (("strip", (" ", "a\t")), ("strip", ("\t",))), (("comments", "#"), ("indent",))]


class S(str):
    pass


class B(bytes):
    pass


def sources_check(case, st):
    """Starting numbers, tab widths, separators, every kind of source."""
    s = case
    for number, column, tw in ((1, 1, 8), (0, 0, 4), (-3, 7, 1), (100, 1, 3), (1, 2, 0)):
        for ops in FEW:
            what = f"{ops} of {s!r}, line_number={number}, column_number={column}, tab_width={tw}"
            kw = dict(line_number=number, column_number=column, tab_width=tw)
            for seps in (None, ("\n",), ("a", "\n")):
                pairs = cut_lines(s, seps)
                li = T.lines(s, seps, **kw)
                if (li.line_number, li.column_number, li.tab_width, li.s, li.separators) != (number, column, tw, s, seps):
                    fail(f"{what}: attributes of the lines object are wrong")
                n = compare(chain(REAL, li, ops), chain(MODEL, model_lines(pairs, number, column, tw), ops), f"{what}, separators {seps}", li)
                st.transitions += 1
            pairs = cut_lines(s)
            m = lambda p: chain(MODEL, model_lines(p, number, column, tw), ops)
            for source in (pairs, [list(p) for p in pairs], iter(pairs)):
                compare(chain(REAL, T.lines(source, **kw), ops), m(pairs), f"{what}, from pairs")
            plain = [l for l, e in pairs]
            bare = [(l, "") for l in plain]
            for source in (plain, tuple(plain), iter(plain), (x for x in plain)):
                compare(chain(REAL, T.lines(source, **kw), ops), m(bare), f"{what}, from an iterable of lines")
            whole = s.splitlines(True)
            compare(chain(REAL, T.lines(whole, **kw), ops), m([(l, "") for l in whole]), f"{what}, from an iterable of lines with line breaks") if s.isprintable() else None
            b = lambda x: x.encode() if isinstance(x, str) else tuple(b(y) for y in x) if isinstance(x, tuple) else x
            bops = [b(op[:1])[0].decode() and (op[0], *[b(x) for x in op[1:]]) for op in ops]
            bm = lambda p: chain(MODEL, model_lines([b(tuple(x)) for x in p], number, column, tw), bops)
            compare(chain(REAL, T.lines(s.encode(), **kw), bops), bm(cut_lines(s)), f"{what}, bytes")
            compare(chain(REAL, T.lines([x.encode() for x in plain], **kw), bops), bm(bare), f"{what}, from an iterable of bytes")
            compare(chain(REAL, T.lines(S(s), **kw), ops), m(pairs), f"{what}, subclass of str")
            compare(chain(REAL, T.lines(B(s.encode()), **kw), bops), bm(pairs), f"{what}, subclass of bytes")


def clip_check(case, st):
    """Clipping by any mixture of steps from either side, given as text or as a number."""
    line, end, column, tw = case
    src = T.lines(line + end, tab_width=tw, column_number=column)
    for info0, text0 in src:
        break
    n = len(text0)
    seen = set()
    todo = [()]
    while todo:
        path = todo.pop()
        info, text = next(iter(T.lines(line + end, tab_width=tw, column_number=column)))
        a, b = 0, n
        for side, k, numeric in path:
            if side:
                arg = k if numeric else text[len(text) - k:]
                text = info.clip_trailing(text, arg)
                b -= k
            else:
                arg = k if numeric else text[:k]
                text = info.clip_leading(text, arg)
                a += k
            if a == b:
                a = b = 0
        st.transitions += 1
        want = text0[a:b]
        what = f"clips {path} of {line + end!r} (tab_width {tw}, column {column})"
        if text != want:
            fail(f"{what}: {text!r}, expected {want!r}")
        if info.leading + text + info.trailing + info.end != line + end or info.leading != text0[:a]:
            fail(f"{what}: leading {info.leading!r}, text {text!r}, trailing {info.trailing!r}, end {info.end!r}")
        c = column + len(text0[:a].expandtabs(tw))
        if info.column_number != c or info.line_number != 1 or info.line != line + end:
            fail(f"{what}: column {info.column_number}, expected {c}")
        key = (a, b, len(path))
        if len(path) < 4 and (key not in seen or len(path) < 2):
            seen.add(key)
            for side in (0, 1):
                for k in range(len(text) + 1):
                    for numeric in (False, True):
                        todo.append(path + ((side, k, numeric),))


def clip_cases(tier):
    n = 4 if tier == "quick" else 6
    for s in words("a\t ", 1, n):
        for end in ("", "\n", "\r\n"):
            for column, tw in ((1, 8), (0, 4), (5, 3), (1, 1)):
                yield (s, end, column, tw)


PARTS = [
    Part("clips", clip_cases, clip_check, bound="all lines of <= 4 (6) letters, spaces and tabs, all sequences of <= 4 clips from either side by number or text (deduplicated by state), 3 line ends, 4 settings"),
    Part("sources", lambda tier: words(" a\t\n#", 0, 4 if tier == "quick" else 5), sources_check, bound="all texts of <= 4 (5) of 5 characters, 5 settings of starting numbers and tab width, 9 chains, separators, pairs, lists, iterators, bytes, subclasses"),
    Part("chains", cases, case_check, bound="13 modifiers: all chains of <= 2 on all texts of <= 5 (6) of 6 characters, all chains of 3 on texts of <= 3 (4)"),
]
