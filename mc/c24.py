"""C24: merging every combination of short columns, against a row-by-row reference."""
import itertools
from .core import Part, fail, expect, outcome
from big.text import merge_columns, OverflowStrategy

ASSUMPTIONS = ["minimum widths do not exceed maximum widths", "the overflow margins only cover lines the column has (the test suite asserts it)"]

RAISE, INTRUDE, DELAY = OverflowStrategy.RAISE, OverflowStrategy.INTRUDE_ALL, OverflowStrategy.DELAY_ALL


class S(str):
    pass


class B(bytes):
    pass


def model(columns, sep, strategy, before, after):
    "the merged text, or None for an overflow that is an error"
    cols = []
    for text, lo, hi in columns:
        lines = [l.rstrip() for l in text.rstrip().split("\n")]
        over = [i for i, l in enumerate(lines) if len(l) > hi]
        if over and strategy is RAISE:
            return None
        width = max(len(l) for l in lines)
        width = lo if width < lo else hi if width > hi else width
        if strategy is DELAY and over:
            paused = set(range(over[-1] + after + 1))
        else:
            paused = {j for i in over for j in range(i - before, i + after + 1)}
        cols.append((lines, width, paused))
    nexts = [0] * len(cols)
    rows = []
    while any(n < len(c[0]) for n, c in zip(nexts, cols)):
        row = []
        for k, (lines, width, paused) in enumerate(cols):
            i = nexts[k]
            if i < len(lines):
                nexts[k] += 1
                if i in paused:
                    row.append(lines[i])
                    break
                row.append(lines[i] + " " * (width - len(lines[i])))
            else:
                row.append(" " * width)
        rows.append(sep.join(row).rstrip())
    return "\n".join(rows).rstrip()


def run(columns, sep, strategy, before, after, st, enc=False):
    want = model(columns, " " if sep is None else sep, strategy, before, after)
    kw = {}
    if strategy is not RAISE:
        kw = dict(overflow_strategy=strategy, overflow_before=before, overflow_after=after)
    if sep is not None:
        kw["column_separator"] = sep
    if enc:
        columns = [(t.encode(), a, b) for t, a, b in columns]
        want = want and want.encode() or (want if want is None else b"")
        if sep is not None:
            kw["column_separator"] = sep.encode()
    st.transitions += 1
    try:
        got = merge_columns(*columns, **kw)
    except OverflowError:
        got = None
    if got != want:
        fail(f"merge_columns(*{columns!r}, {kw}): got {got!r}, expected {want if want is not None else 'OverflowError'!r}")
    # nothing is lost: every word of every column, in its order
    if got is not None and not enc and sep != "":
        rows = got.replace("|", " ").split()
        for text, lo, hi in columns:
            left = iter(rows)
            if not all(w in left for w in text.split()):
                fail(f"merge_columns(*{columns!r}, {kw}): {got!r} loses text")


MARGINS = [(INTRUDE, b, a) for b in (0, 1, 2) for a in (0, 1, 2)] + [(DELAY, 0, 0), (DELAY, 1, 0), (DELAY, 0, 1), (DELAY, 2, 3)] + [(RAISE, 0, 0)]


def case_check(case, st):
    columns, sep, level = case
    for strategy, b, a in MARGINS:
        if level == 0 and (b > 1 or a > 1):
            continue
        run(columns, sep, strategy, b, a, st)
    if level > 1:
        run(columns, sep, INTRUDE, 1, 1, st, True)
        run(columns, sep, RAISE, 0, 0, st, True)


def texts(pool, n, tail=False):
    for k in range(1, n + 1):
        for t in itertools.product(pool, repeat=k):
            yield "\n".join(t)


def pair_cases(tier):
    t = tier != "quick"
    left = list(texts(("", "a", "bb", "cccc"), 4 if t else 3))
    long = [x for x in texts(("a", "ccc"), 9 if t else 7) if x.count("\n") > 2]
    right = ["z", "x\ny", "w\n\nuuuuu", "pp\nqq\nrr\nss"]
    widths = [(0, 2), (1, 1), (2, 3), (3, 5)]
    # one column
    for l in left + long:
        for w in widths:
            yield (((l, *w),), None, 2)
    for l in left:
        for r in right:
            for w in widths:
                for v in widths:
                    yield (((l, *w), (r, *v)), None, 2)
            for sep in ("|", " | ", "", "  "):
                yield (((l, 1, 2), (r, 1, 2)), sep, 2)
    for l in long:
        for r in right + ["a\nb\nc\nd\ne\nf\ng\nh"]:
            yield (((l, 1, 2), (r, 1, 3)), None, 1)
    more = list(texts(("", "a", "cccc"), 5 if t else 4))
    for l in more:
        for r in more:
            for w in ((0, 3), (2, 2)):
                yield (((l, *w), (r, 1, 3)), None, 0)


def triple_cases(tier):
    t = tier != "quick"
    pool = list(texts(("a", "ccc", ""), 3))
    big = list(texts(("b", "dddd"), 5 if t else 3))
    for a in pool:
        for b in big:
            for c in pool:
                yield (((a, 1, 2), (b, 0, 3), (c, 2, 2)), None, 0)
                if c != "":
                    yield (((b, 0, 2), (a, 2, 4), (c, 0, 9)), "|", 0)
    few = ["a", "ccc\na", "a\nccc", "a\nb\nc"]
    for q in itertools.product(few, repeat=4):
        yield (tuple((x, 1, 2) for x in q), None, 1)


def space_check(case, st):
    "spaces at the ends and inside of lines"
    a, b = case
    for w in ((0, 3), (1, 1), (4, 6), (0, 0)):
        run(((a, *w), (b, 1, 9)), None, INTRUDE, 1, 2, st)
        run(((a, *w), (b, 1, 9)), "|", DELAY, 0, 2, st)
        for strategy in (RAISE, INTRUDE, DELAY):
            for sep in (None, "|", " "):
                run(((a, *w), (b, 1, 9)), sep, strategy, 0, 0, st)
                run(((a, *w), (b, 1, 9), ("z\ny", 1, 1)), sep, strategy, 0, 1, st)


def space_cases(tier):
    pool = ["a", "a ", " a", "a  \nb", "a\nb   ", "\na", "\n", "  ", "", "a\n\n", "a b\nc", " a\n  b \n   c", "a\t\nb", "a\rb\nc", "a\x0bb\x0cc\x85d\u2028e\nf", "cc\n  \n ", "ccccc\n\n \n"]
    if tier != "quick":
        pool += ["a \n \nb", "   a\nb", "a\n\n \nb  \n", "aa  \n  "]
    for a in pool:
        for b in pool:
            yield (a, b)


def misc_check(case, st):
    for args, kw in (((("a", 1, 1), (b"b", 1, 1)), {}), (((b"a", 1, 1), ("b", 1, 1)), {}), ((("a", "1", 1),), {}), ((("a", 1, 1.5),), {}), ((("a", 1, 1), ("b", 1, 1)), {"column_separator": b"x"})):
        expect(outcome(merge_columns, *args, **kw), ('exc', 'TypeError'), f"merge_columns(*{args}, {kw})")
    got = merge_columns((S("a\nb"), 1, 1), (S("c"), 1, 1), column_separator=S("-"))
    expect((got, type(got)), ("a-c\nb-", str), "subclasses of str")
    got = merge_columns((B(b"a\nb"), 1, 1), (B(b"c"), 1, 1), column_separator=B(b"-"))
    expect((got, type(got)), (b"a-c\nb-", bytes), "subclasses of bytes")
    got = merge_columns((S("a"), 1, 1))
    expect((got, type(got)), ("a", str), "one column of a subclass")
    for n in (50, 200):
        long = "\n".join("x" * (i % 7) for i in range(n))
        for strategy, b, a in MARGINS:
            run(((long, 2, 4), ("\n".join("y" * (i % 3 + 1) for i in range(n)), 1, 2), ("z\n" * n, 1, 1)), None, strategy, b, a, st)


PARTS = [
    Part("misc", lambda tier: [0], misc_check, bound="refusals, subclasses, two long columns"),
    Part("spaces", space_cases, space_check, bound="all pairs of 17 (21) texts with spaces at the ends of lines, empty lines and other line breaks, 4 widths, 3 strategies, 3 separators"),
    Part("pairs", pair_cases, case_check, bound="one and two columns: all texts of <= 3 (4) lines of 4 lengths, all pairs of texts of <= 4 (5) lines of 3 lengths, long ones of <= 7 (9) lines, 4 x 4 widths, 5 separators, 3 strategies with margins of 0-2 (3)"),
    Part("more", triple_cases, case_check, bound="all triples of texts of <= 3 (5) lines, all quadruples of 4 texts"),
]
