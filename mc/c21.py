"""C21: line comments on every short text, for many sets of markers and quotes, against a character scanner."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
from .linesmodel import REAL, MODEL, cut_lines, model_lines, compare, drain
import big.text as T

ASSUMPTIONS = ["comment markers and quote marks that overlap each other in the text are not checked (no rule says which one wins)"]


def enc(x):
    return x.encode() if isinstance(x, str) else tuple(enc(y) for y in x)


# markers, quotes, multi-line quotes, escape, letters, length
CONFIGS = [
    ("#", (), (), "\\", 'a#"\n', 6),
    ("#", '"', (), "\\", 'a#"\\\n', 6),
    ("#", ('"', "'"), (), "\\", '#"\'\\\n', 6),
    ("#", (), '"', "\\", 'a#"\\\n', 6),
    ("#", (), '"', "", '#"\\\n', 7),
    ("#", '"', (), None, '#"\\\n', 7),
    ("#", '"', "'", "\\", '#"\'\\\n', 6),
    ("#", '"', "'", "^", '#"\'^\n', 6),
    ("#", "'", ('"""',), "\\", '#"\'\n', 8),
    ("#", '"', ('"""',), "\\", '#"\\\n', 8),
    ("#", ("''", '"'), (), "\\", '#"\'\n', 7),
    ("#", (), ("'''", '"""'), "\\\\", '#"\'\\\n', 6),
    (("//", "#"), '"', (), "\\", '#/"\n', 7),
    (("/", "//"), '"', (), "\\", 'a/"\n', 7),
    (("-", "--!", "!"), "'", (), "\\", "-!'\n", 7),
    (("--", "-!-"), (), "'", "\\", "-!'\n", 7),
    (("#!", "!#"), '"', (), "\\", '#!"\n', 7),
    (("abc", "bc", "cb"), "'", (), "\\", "abc'", 6),
    ((".", "$", "(", "[a]"), '"', (), "\\", '.$([a]"', 4),
    (("^", "|", "*"), '"', (), "", '^|*"\n', 5),
    (("\\",), (), (), "\\", 'a\\"\n', 6),
    (("\\",), '"', (), "", 'a\\"\n', 6),
    ((" #", "# "), '"', (), "\\", ' #"\n', 6),
]


def shape(x, kind):
    "the same collection in another form"
    if isinstance(x, str):
        x = tuple(x)
    if kind == 0:
        return x
    if kind == 1:
        return list(reversed(x))
    if kind == 2:
        return set(x)
    if kind == 3:
        return iter(x)
    return {k: 1 for k in x}


def strip_check(case, st):
    s, k, full = case
    m, q, mq, e = CONFIGS[k][:4]
    what = f"lines_strip_line_comments({s!r}, {m!r}, quotes={q!r}, multiline_quotes={mq!r}, escape={e!r})"
    pairs = cut_lines(s)
    st.transitions += len(pairs)
    li = T.lines(s)
    compare(REAL["comments"](li, m, q, mq, e), MODEL["comments"](model_lines(pairs), m, q, mq, e), what, li)
    if full:
        for kind in range(5):
            li = T.lines(s)
            compare(REAL["comments"](li, shape(m, kind), shape(q, kind), shape(mq, kind), e), MODEL["comments"](model_lines(pairs), m, q, mq, e), f"{what} as {('tuple', 'reversed list', 'set', 'iterator', 'dict')[kind]}", li)
        b = s.encode()
        bm, bq, bmq = enc(m), enc(q), enc(mq)
        bpairs = cut_lines(b)
        compare(REAL["comments"](T.lines(b), bm, bq, bmq, e and enc(e)), MODEL["comments"](model_lines(bpairs), bm, bq, bmq, None if e is None else enc(e)), f"{what} in bytes")
        if e == "\\":
            kw = {}
            if q:
                kw["quotes"] = bq
            if mq:
                kw["multiline_quotes"] = bmq
            compare(T.lines_strip_line_comments(T.lines(b), bm, **kw), MODEL["comments"](model_lines(bpairs), bm, bq, bmq, b"\\"), f"{what} in bytes, default escape")


def strip_cases(tier):
    more = 0 if tier == "quick" else 1
    for k, (m, q, mq, e, letters, n) in enumerate(CONFIGS):
        for s in words(letters, 0, n + more):
            yield (s, k, len(s) <= 4)


def embedded_check(case, st):
    """Line ends that are not line breaks: the text of a line may then contain newlines."""
    s, q = case
    li = T.lines(s, (";",))
    kw = {"quotes": '"'} if q else {"multiline_quotes": '"'}
    want = MODEL["comments"](model_lines(cut_lines(s, (";",))), "#", '"' if q else (), () if q else '"', "\\")
    ps = s.split(";")
    if q:
        # a newline in an ordinary quoted string in front of the comment is an error; not the question here
        for p in ps:
            quoted = False
            for c in p:
                if c == '"':
                    quoted = not quoted
                elif c == "#" and not quoted:
                    break
                elif c == "\n" and quoted:
                    return
    st.transitions += 1
    compare(T.lines_strip_line_comments(li, "#", **kw), want, f"lines_strip_line_comments(lines({s!r}, ';'), '#', {kw})", li)


def embedded_cases(tier):
    for s in words('a#";\n', 0, 6 if tier == "quick" else 7):
        for q in (False, True):
            yield (s, q)


FILTERS = [("#", 'a# \t\n'), (("//",), 'a/ \t\n'), (("#", "//"), '#/a \n'), ("#;", '#;a\t\n'), (("--", "-a"), '-a \n'), ((".", "$"), '.$ a\n'), (("^", "\\"), '^\\ a\n'), (("ab", "a", "ba"), "ab \n"), (("# ",), "# a\n"), (("a b", "#\t"), "#ab \t\n")]


def filter_check(case, st):
    s, k, n = case
    m = FILTERS[k][0]
    pairs = cut_lines(s)
    what = f"lines_filter_line_comment_lines({s!r}, {m!r})"
    st.transitions += len(pairs)
    for kind in range(5) if n else (0,):
        li = T.lines(s)
        compare(REAL["nocomments"](li, shape(m, kind)), MODEL["nocomments"](model_lines(pairs), m), f"{what} as {('tuple', 'reversed list', 'set', 'iterator', 'dict')[kind]}", li)
    if n:
        compare(REAL["nocomments"](T.lines(s), m), MODEL["nocomments"](model_lines(pairs), m), what)
        bm = m.encode() if isinstance(m, str) else enc(m)
        for x in (bm, [bm[i:i + 1] for i in range(len(bm))] if isinstance(bm, bytes) else list(bm)):
            compare(REAL["nocomments"](T.lines(s.encode()), x), MODEL["nocomments"](model_lines(cut_lines(s.encode())), x), f"{what} in bytes")


def filter_cases(tier):
    n = 6 if tier == "quick" else 7
    for k, (m, letters) in enumerate(FILTERS):
        for s in words(letters, 0, n):
            yield (s, k, len(s) <= 4)


def space_check(case, st):
    """Every kind of white space in front of a comment."""
    for c in range(case, min(case + 0x1000, 0x110000)):
        c = chr(c)
        for m in ("#", ("#", "//")):
            for t in (c + "#", "#" + c, c + "a#", " " + c + "#", c + c + "#"):
                want = [] if t.lstrip().startswith("#") else [t]
                st.transitions += 1
                got = [l for i, l in T.lines_filter_line_comment_lines(T.lines([t]), m)]
                if c not in "#/" and got != want:
                    fail(f"lines_filter_line_comment_lines([{t!r}], {m!r}): got {got!r}, expected {want!r}")
    if case == 0:
        for c in range(256):
            c = bytes((c,))
            for m in (b"#", (b"#", b"//")):
                for t in (c + b"#", b"#" + c, c + b"a#", b" " + c + b"#"):
                    if c not in b"#/":
                        expect([l for i, l in T.lines_filter_line_comment_lines(T.lines([t]), m)], [] if t.lstrip().startswith(b"#") else [t], f"{t!r} {m!r}")


def refuse_check(case, st):
    for f in (T.lines_filter_line_comment_lines, T.lines_strip_line_comments):
        for bad in ("", b"", (), [], {}):
            expect(outcome(lambda: list(f(T.lines("a"), bad))), ('exc', 'ValueError'), f"{f.__name__} with markers {bad!r}")
    def attempt(**kw):
        return outcome(lambda: list(T.lines_strip_line_comments(T.lines("a"), "#", **kw)))
    expect(attempt(quotes='"', multiline_quotes='"')[0], 'exc', "a quote mark both ordinary and multi-line")
    expect(attempt(quotes=('"', ''))[0], 'exc', "an empty quote mark")
    expect(attempt(quotes='"', multiline_quotes=("'", '"'))[0], 'exc', "a quote mark both ordinary and multi-line")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="empty or missing markers, bad quotes"),
    Part("white space", lambda tier: range(0, 0x110000 if tier != "quick" else 0x4000, 0x1000), space_check, bound="every character up to U+3FFF (all) before and after a marker"),
    Part("embedded newlines", embedded_cases, embedded_check, bound="lines cut at ';', all texts of <= 6 (7) of 5 characters"),
    Part("filter", filter_cases, filter_check, bound="10 sets of markers, all texts of <= 6 (7) of 4-5 characters; <= 4: in 5 collections and bytes"),
    Part("strip", strip_cases, strip_check, bound="23 configurations of markers, quotes, multi-line quotes and escape, all texts of <= 4-8 (+1) of 3-7 characters; <= 4: in 5 collections, bytes, default escape"),
]
