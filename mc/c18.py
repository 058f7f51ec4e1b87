"""C18: split_quoted_strings on every short text, for many sets of quote marks and escapes, against a character scanner."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
from big.text import split_quoted_strings

ASSUMPTIONS = []
NEWLINES = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
BYTES_NEWLINES = (10, 13)


def has_newline(text):
    return any(c in (BYTES_NEWLINES if isinstance(text, bytes) else NEWLINES) for c in text)


def model(s, quotes, multi, escape, state):
    """(segments, error?, quote left open, places where the text may be cut)"""
    e = s[:0]
    outside = sorted((*quotes, *multi), key=len, reverse=True)
    out = []
    quote = state
    leading = e
    start = i = 0
    cuts = {0, len(s)}
    while True:
        if quote:
            inside = [quote] + ([escape + quote, escape + escape] if escape else [])
            inside.sort(key=len, reverse=True)
        token = None
        while i < len(s):
            cuts.add(i)
            for t in inside if quote else outside:
                if s.startswith(t, i):
                    token = t
                    break
            if token:
                break
            i += 1
        if token and quote and token != quote:
            i += len(token)
            continue
        text = s[start:i]
        if quote and quote not in multi and has_newline(text):
            return out, True, quote, cuts
        if not token:
            if text or quote:
                out.append((leading, text, e))
            return out, False, quote, cuts
        if quote:
            out.append((leading, text, quote))
            quote = leading = e
        else:
            if text:
                out.append((e, text, e))
            quote = leading = token
        i += len(token)
        start = i


def collect(*args, **kw):
    out = []
    try:
        for t in split_quoted_strings(*args, **kw):
            out.append(t)
    except SyntaxError:
        return out, True
    return out, False


def visible(segments):
    "an empty unquoted segment says nothing"
    return [t for t in segments if any(t)]


def case_check(case, st):
    s, quotes, multi, escape, cutting = case
    e = s[:0]
    for state in (e, *quotes, *multi):
        kw = dict(escape=escape, multiline_quotes=multi)
        if state:
            kw["state"] = state
        want, error, left, cuts = model(s, quotes, multi, escape, state)
        got, goterror = collect(s, quotes, **kw)
        st.transitions += 1
        what = f"split_quoted_strings({s!r}, {quotes!r}, {kw})"
        if visible(got) != visible(want) or error != goterror or len(got) - len(want) not in (0, -1):
            fail(f"{what}: got {got!r}{' then SyntaxError' if goterror else ''}, expected {want!r}{' then SyntaxError' if error else ''}")
        if not error and e.join(x for t in got for x in t) != s:
            fail(f"{what}: {got!r} does not add up to the text")
        if not cutting or error:
            continue
        for cut in cuts:
            first, e1, open_, _ = model(s[:cut], quotes, multi, escape, state)
            if e1:
                fail(f"{what}: the model fails before {cut}")
            a, ea = collect(s[:cut], quotes, **kw)
            kw2 = dict(kw, state=open_)
            b, eb = collect(s[cut:], quotes, **kw2)
            st.transitions += 1
            if ea or eb:
                fail(f"{what}: cut at {cut}, a piece raises SyntaxError")
            # the quote left open can be told from the segments
            told = a[-1][0] if a and not a[-1][2] else e
            if state and (not a or len(a) == 1 and not a[0][2]):
                told = state
            if told != open_:
                fail(f"{what}: cut at {cut}: {a!r} should leave {open_!r} open")
            if open_ and a and not a[-1][2]:
                joined = a[:-1] + ([(a[-1][0], a[-1][1] + b[0][1], b[0][2])] + b[1:] if b else [a[-1]])
            elif not open_ and a and b and not any((a[-1][0], a[-1][2], b[0][0], b[0][2])):
                joined = a[:-1] + [(e, a[-1][1] + b[0][1], e)] + b[1:]
            else:
                joined = a + b
            if visible(joined) != visible(got):
                fail(f"{what}: cut at {cut}: {a!r} and {b!r} instead of {got!r}")


# quotes, multiline quotes, escape, letters
CONFIGS = [
    (("'",), (), "", "'x\n"),
    (("'",), (), "\\", "'\\x\n"),
    (("'", '"'), (), "\\", "'\"\\x\n"),
    (("'", '"'), (), "", "'\"x\n"),
    (('"', '"""'), (), "\\", '"\\x\n'),
    (('"',), ('"""',), "\\", '"\\x\n'),
    (('"', '""'), (), "", '"x'),
    (('"""',), ('"',), "\\", '"\\x\n'),
    (("'", '"'), ('"""', "'''"), "\\", "'\"\\\n"),
    ((), ('"',), "\\", '"\\x\n'),
    ((), ('"', "'"), "", "\"'x\n"),
    (("'",), (), "'", "'x\n"),                     # SQL
    (("'", '"'), (), "'", "'\"x"),
    (("'",), ("'''",), "'", "'x\n"),
    (("'",), (), "\\\\", "'\\x"),
    (("'",), ('"',), "\\'", "'\"\\"),
    (("^S", "^Q"), (), "^X", "^SQX"),
    (("ab",), ("ba",), "a", "abx\n"),
    (("ab", "a"), (), "b", "abx"),
    (("aa", "a"), ("aab",), "b", "ab"),
    (("\n",), (), "", "\nx'"),
    (("\n", "'"), (), "\\", "\n'\\x"),
    (("\r\n",), (), "", "\r\nx"),
    ((".",), ("*",), "\\", ".*\\x"),
    (("(", "|"), ("$",), "^", "(|$^"),
    (("x",), (), "x", "xy"),
    (("x",), (), "xx", "xy\n"),
    (("xx",), (), "x", "xy\n"),
    (("'",), ("`",), "\\", "'`\n\u2028"),
    (("'",), (), "\n", "'x\n"),
]


def config_cases(tier):
    t = tier != "quick"
    for quotes, multi, escape, letters in CONFIGS:
        n = {2: 10, 3: 8, 4: 7, 5: 6}[len(letters)] + t
        for s in words(letters, 0, n):
            yield (s, quotes, multi, escape, len(s) <= n - 2)


def bytes_cases(tier):
    for quotes, multi, escape, letters in CONFIGS[:20]:
        enc = lambda t: tuple(x.encode() for x in t)
        n = {2: 8, 3: 6, 4: 5, 5: 4}[len(letters)] + (tier != "quick")
        for s in words(letters, 0, n):
            yield (s.encode(), enc(quotes), enc(multi), escape.encode(), len(s) <= n - 2)


def newline_cases(tier):
    for c in list(range(0x3000)) + ([] if tier == "quick" else list(range(0x3000, 0x110000))):
        for s in (chr(c), "'" + chr(c), "'a" + chr(c) + "b'", '"' + chr(c) + '"' + chr(c)):
            if "'" in s or '"' in s:
                yield (s, ("'",), ('"',), "\\", False)
    for c in range(256):
        for s in (b"'%c", b"'a%cb'", b'"%c"%c'):
            s = s % ((c,) * s.count(b"%"))
            yield (s, (b"'",), (b'"',), b"\\", False)


def generated_cases(tier):
    "every choice of marks and escape among the words of <= 2 letters"
    t = tier != "quick"
    pool = list(words("ab", 1, 2))
    for kinds in itertools.product((0, 1, 2), repeat=len(pool)):
        quotes = tuple(p for p, k in zip(pool, kinds) if k == 1)
        multi = tuple(p for p, k in zip(pool, kinds) if k == 2)
        if not 0 < len(quotes) + len(multi) <= (3 if t else 2):
            continue
        for escape in ("", "a", "b", "x", "ab", "ax"):
            for s in words("abx", 0, 6 if t else 5):
                yield (s, quotes, multi, escape, False)
            for s in words("ab", 6 if not t else 7, 7 if not t else 9):
                yield (s, quotes, multi, escape, False)


def default_check(case, st):
    s, = case
    b = s.encode()
    want, error, _, _ = model(s, ('"', "'"), (), "\\", "")
    wantb, errorb, _, _ = model(b, (b'"', b"'"), (), b"\\", b"")
    for kw in ({}, {"quotes": None}, {"escape": None}, {"multiline_quotes": None}, {"state": None}, {"state": ""}, {"state": b""}):
        expect(collect(s, **kw), (want, error), f"split_quoted_strings({s!r}, {kw})")
        expect(collect(b, **kw), (wantb, errorb), f"split_quoted_strings({b!r}, {kw})")
    # containers and order of the marks
    want, error, _, _ = model(s, ("'",), ('"""', '"'), "\\", "")
    for perm in itertools.permutations(('"""', '"')):
        for make in (tuple, list, set, frozenset, iter, dict.fromkeys, lambda p: (x for x in p)):
            expect(collect(s, make(["'"]), multiline_quotes=make(perm), escape="\\"), (want, error), f"split_quoted_strings({s!r}, {make(perm)!r})")
    want, error, _, _ = model(s, ("'", '"'), (), "\\", "")
    expect(collect(s, "'\""), (want, error), f"split_quoted_strings({s!r}, \"'\\\"\")")
    expect(collect(s, (), multiline_quotes='"', escape=""), model(s, (), ('"',), "", "")[:2], f"split_quoted_strings({s!r}, multiline_quotes='\"')")
    want, error, _, _ = model(b, (b"'", b'"'), (), b"\\", b"")
    expect(collect(b, b"'\""), (want, error), f"split_quoted_strings({b!r}, b\"'\\\"\")")
    expect(collect(b, (), multiline_quotes=b'"', escape=b""), model(b, (), (b'"',), b"", b"")[:2], f"split_quoted_strings({b!r}, multiline_quotes=b'\"')")


def default_cases(tier):
    for s in words("'\"\\x\n", 0, 4 if tier == "quick" else 6):
        yield (s,)


def refuse_check(case, st):
    V, Y = "ValueError", "TypeError"
    for s, q, r, bad in (("x'y", "'", '"', b"'"), (b"x'y", b"'", b'"', "'")):
        e = s[:0]
        for kw, err in (({"quotes": ()}, V), ({"quotes": [q, q]}, V), ({"quotes": [q, e]}, V), ({"quotes": [e]}, V), ({"quotes": [bad]}, Y), ({"quotes": [q, bad]}, Y), ({"quotes": [q, 3]}, Y),
                        ({"quotes": [q], "multiline_quotes": [q]}, V), ({"quotes": [q, r], "multiline_quotes": [q, r]}, V), ({"quotes": [q], "multiline_quotes": [r, r]}, V), ({"quotes": [q], "multiline_quotes": [e]}, V), ({"quotes": [q], "multiline_quotes": [bad]}, Y),
                        ({"quotes": [q], "state": r}, V), ({"quotes": [q], "state": bad}, Y), ({"quotes": [q], "state": q + q}, V), ({"quotes": [q], "multiline_quotes": [r], "state": r + r}, V), ({"quotes": [q], "state": 3}, Y),
                        ({"quotes": [q], "escape": bad}, Y), ({"quotes": [q], "escape": 3}, Y), ({"quotes": [q], "multiline_quotes": [r], "escape": bad}, Y), ({"quotes": [q], "multiline_quotes": [r], "escape": 3}, Y), ({"quotes": r + r if isinstance(s, str) else [r, r]}, V)):
            # refused at once, not when it is iterated over
            expect(outcome(split_quoted_strings, s, **kw), ('exc', err), f"split_quoted_strings({s!r}, {kw})")
    for s in ("'" + "\\'" * 3000 + "'x", "'\"" * 3000, "\\" * 5001 + "'", "x" * 10000 + "'" + "y" * 10000):
        got = list(split_quoted_strings(s))
        expect(got, model(s, ("'", '"'), (), "\\", "")[0], "a long text")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="invalid marks, escapes and states; long inputs"),
    Part("defaults", default_cases, default_check, bound="default arguments, None, kinds of containers, single-string marks, all texts of <= 4 (6) of 5 characters, text and bytes"),
    Part("newlines", newline_cases, case_check, bound="every character up to U+2FFF (all) inside ordinary and multi-line quotes"),
    Part("bytes", bytes_cases, case_check, bound="bytes, 20 configurations, texts of <= 4-8 (+1)"),
    Part("generated", generated_cases, case_check, bound="every choice of <= 2 (3) ordinary or multi-line marks among the words of 1 or 2 letters, 6 escapes, all texts over 3 letters of <= 5 (6) and over 2 of 6, 7 (7-9), every initial state"),
    Part("configurations", config_cases, case_check, bound="30 configurations of marks, multi-line marks and escape, all texts over their characters of <= 6-10 (+1), every initial state; every cut in two of the texts two shorter"),
]
