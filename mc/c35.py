"""C35: the old interfaces of big.deprecated on every short text, against scanners written from their documentation."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
from .linesmodel import compare, cut_lines, model_lines
import big.deprecated as D
import big.text as T

ASSUMPTIONS = ["a character that closes one delimiter and opens another isn't checked (no rule says which it does)"]


def scan(s, quotes, triple, backslash):
    out = []
    start = i = 0
    while i < len(s):
        c = s[i:i + 1]
        if c not in quotes:
            i += 1
            continue
        if start < i:
            out.append((False, s[start:i]))
        close = c
        if triple and s[i:i + 2] == c * 2:
            close = c * 3 if s[i:i + 3] == c * 3 else s[:0]
        j = i + (len(close) or 2)
        while close and j < len(s):
            if s[j:j + 1] == backslash:
                j += 2
            elif s.startswith(close, j):
                j += len(close)
                break
            else:
                j += 1
        out.append((True, s[i:j]))
        start = i = j
    if start < len(s):
        out.append((False, s[start:]))
    return out


def enc(x):
    if isinstance(x, str):
        return x.encode()
    if isinstance(x, tuple):
        return tuple(enc(i) for i in x)
    return x


QUOTES = (None, ("'",), "'", "'\"", '"')
BACKSLASHES = (None, "a", "")


def shapes(q):
    yield "as it is", q
    if q is not None:
        s = tuple(q)
        yield "as an iterator", iter(s)
        yield "as a set", set(s)
        yield "as a list", list(s)


def split_one(x, q, triple, b, st):
    want = scan(x, enc(("'", '"')) if isinstance(x, bytes) and q is None else ("'", '"') if q is None else
                [q[i:i + 1] for i in range(len(q))] if isinstance(q, (str, bytes)) else q, triple,
                (b"\\" if isinstance(x, bytes) else "\\") if b is None else b)
    if isinstance(q, bytes) or len(x) < 3:
        variants = [("as it is", q)] if isinstance(q, bytes) else list(shapes(q))
    else:
        variants = [("as it is", q)]
    for how, quotes in variants:
        what = f"split_quoted_strings({x!r}, {q!r} {how}, triple_quotes={triple}, backslash={b!r})"
        got = list(D.split_quoted_strings(x, quotes, triple_quotes=triple, backslash=b))
        st.transitions += 1
        if [(bool(k), t) for k, t in got] != want:
            fail(f"{what}: got {got!r}, expected {want!r}")
        if any(type(t) is not type(x) for k, t in got) or type(x)().join(t for k, t in got) != x:
            fail(f"{what}: {got!r} doesn't join to the text")


def split_check(case, st):
    s = case
    for q, triple, b in itertools.product(QUOTES, (True, False), BACKSLASHES):
        split_one(s, q, triple, b, st)
        split_one(s.encode(), enc(q), triple, enc(b), st)
    expect([(bool(k), t) for k, t in D.split_quoted_strings(s)], scan(s, "'\"", True, "\\"), f"split_quoted_strings({s!r})")
    expect([(bool(k), t) for k, t in D.split_quoted_strings(s.encode())], scan(s.encode(), enc(("'", '"')), True, b"\\"), f"split_quoted_strings({s.encode()!r})")


def split_cases(tier):
    yield from words("a'\"\\", 0, 7 if tier == "quick" else 9)


def long_cases(tier):
    "more quote marks in a row"
    yield from words("a'", 7, 12 if tier == "quick" else 16)
    yield from words("'\\", 7, 11 if tier == "quick" else 15)


# --- parse_delimiters

def parse_model(s, delimiters):
    "delimiters: (open, close, backslash, nested). Returns (tuples, refused)"
    e = s[:0]
    closers = {c for o, c, b, n in delimiters if o != c}
    openers = {d[0]: d for d in delimiters}
    stack = []
    out = []
    text = e
    i = 0
    while i < len(s):
        c = s[i:i + 1]
        open_, close, backslash, nested = stack[-1] if stack else (None, None, False, True)
        if c == close:
            out.append((text, e, c))
            text = e
            stack.pop()
        elif nested and c in closers:
            return out, True
        elif nested and c in openers:
            out.append((text, c, e))
            text = e
            stack.append(openers[c])
        elif backslash and c in ("\\", b"\\"):
            text += s[i:i + 2]
            i += 1
        else:
            text += c
        i += 1
    if stack:
        return out, True
    if text:
        out.append((text, e, e))
    return out, False


# a literal (open, close, backslash, nested), or a string of two characters
DELIMITERS = [
    None,
    ("()",),
    ("()", "[]"),
    ("(]", "[]"),
    ("()", '""'),
    ("||", "()"),
    (("(", ")", True, True), "[]"),
    (("(", ")", False, False), "[]"),
    (("(", ")", True, False), ("[", "]", True, True)),
    ("()", ('"', '"', True, False)),
    (('"', '"', False, False), ("(", ")", False, True)),
    (('"', '"', True, True), ("(", ")", True, True)),
    ("((", "[]"),
]
DEFAULT = ("()", "[]", "{}", ("'", "'", True, False), ('"', '"', True, False))


def parse_check(case, st):
    k, s = case
    ds = DELIMITERS[k]
    full = [(d[0], d[1], False, True) if isinstance(d, str) else d for d in (DEFAULT if ds is None else ds)]
    for x in (s, s.encode()):
        isb = isinstance(x, bytes)
        want = parse_model(x, [tuple(enc(i) for i in d) if isb else d for d in full])
        if ds is None:
            variants = [("default", ())]
        else:
            def build(cls=D.Delimiter):
                return [(enc(d) if isb else d) if isinstance(d, str) else cls(*(enc(d[:2]) if isb else d[:2]), backslash=d[2], nested=d[3]) for d in ds]
            variants = [("list", (build(),))]
            if len(s) < 3:
                variants += [("tuple reversed", (tuple(build()[::-1]),)), ("iterator", (iter(build()),)), ("set", (set(build()),)),
                    ("Delimiters", ([D.Delimiter(enc(o) if isb else o, enc(c) if isb else c, backslash=b, nested=n) for o, c, b, n in full],))]
        for how, args in variants:
            what = f"parse_delimiters({x!r}, {ds!r} as {how})"
            got = []
            refused = False
            it = D.parse_delimiters(x, *args)
            try:
                for t in it:
                    got.append(t)
            except ValueError:
                refused = True
            st.transitions += 1
            if (got, refused) != want:
                fail(f"{what}: got {got!r}, refused={refused}, expected {want[0]!r}, refused={want[1]}")
            for t in got:
                if type(t) is not tuple or any(type(f) is not type(x) for f in t):
                    fail(f"{what}: yielded {t!r}")
                if sum(map(bool, t[1:])) > 1 or not any(t):
                    fail(f"{what}: yielded {t!r}")
            if not refused and type(x)().join(a + b + c for a, b, c in got) != x:
                fail(f"{what}: {got!r} doesn't join to the text")


def parse_cases(tier):
    full = tier != "quick"
    for k, ds in enumerate(DELIMITERS):
        alphabet = {None: "a()[\"'\\"}.get(ds, None) or "a\\" + "".join(sorted({c for d in ds for c in d[:2]}))
        n = {4: 7, 5: 6, 6: 6, 7: 5}[len(alphabet)] if len(alphabet) > 3 else 8
        for w in words(alphabet, 0, n + full):
            yield (k, w)


def refuse_check(case, st):
    T1 = (ValueError, TypeError)
    kind = case
    f = D.parse_delimiters
    table = {
        "empty": [(("a", []), "ValueError"), (("a", ()), "ValueError"), ((b"a", ()), "ValueError")],
        "length": [(("a", ["("]), "ValueError"), (("a", ["(()"]), "ValueError"), ((b"a", [b"("]), "ValueError"), ((b"a", [b"()", b"[[]"]), "ValueError"), (("a", ["()", ""]), "ValueError")],
        "repeated": [(("a", ["()", "(]"]), "ValueError"), ((b"a", [b"()", b"(]"]), "ValueError"), (("a", ["()", "[]", "()"]), "ValueError"),
                     (("a", ["()", D.Delimiter("(", ")", backslash=True)]), "ValueError")],
        "backslash": [(("a", ["\\)"]), "ValueError"), (("a", ["(\\"]), "ValueError"), ((b"a", [b"\\)"]), "ValueError"), ((b"a", [b"(\\", b"[]"]), "ValueError")],
        "types": [(("a", [b"()"]), "TypeError"), ((b"a", ["()"]), "TypeError"), (("a", [3]), "TypeError"), (("a", ["()", None]), "TypeError")],
    }
    for args, want in table[kind]:
        st.transitions += 1
        # refused at once, not at the first item
        got = outcome(lambda: f(*args) and None)
        if got != ("exc", want):
            fail(f"parse_delimiters{args!r}: got {got!r}, expected {want}")
    if kind == "types":
        for a, b in (("(", b")"), (b"(", ")"), (3, ")"), ("(", 3), (None, None)):
            expect(outcome(lambda: D.Delimiter(a, b) and None), ("exc", "TypeError"), f"Delimiter({a!r}, {b!r})")


# --- lines_strip_comments

MARKERS = (("#",), ("#", "//"), ("/", "//"), "#/")
CQUOTES = ("default", None, ("'",), "\"'", ())


def comment_model(li, markers, quotes, backslash, rstrip, triple):
    for r in li:
        t = r.text
        i = 0
        for quoted, seg in scan(t, quotes, triple, backslash) if quotes else [(False, t)]:
            places = [seg.find(m) for m in markers if m in seg]
            if not quoted and places:
                j = i + min(places)
                r.cut(0, len(t[:j].rstrip()) if rstrip else j)
                break
            i += len(seg)
        yield r


def comments_check(case, st):
    s = case
    for m, q, rstrip, triple in itertools.product(MARKERS, CQUOTES, (True, False), (True, False)):
        if not q and not triple:
            continue
        for x in (s, s.encode()):
            isb = isinstance(x, bytes)
            e = enc if isb else lambda a: a
            for how in (("as it is", "iterator") if len(s) < 4 else ("as it is",)):
                kw = {}
                if q != "default":
                    kw["quotes"] = iter(e(q)) if how == "iterator" and q and not isinstance(e(q), bytes) else e(q)
                if not rstrip:
                    kw["rstrip"] = False
                if not triple:
                    kw["triple_quotes"] = False
                mm = e(m) if how == "as it is" or isinstance(e(m), bytes) else iter(e(m))
                li = T.lines(x)
                what = f"lines_strip_comments(lines({x!r}), {m!r}, quotes={q!r}, rstrip={rstrip}, triple_quotes={triple}) ({how})"
                quotes = ("'", '"') if q == "default" else tuple(q or ())
                compare(D.lines_strip_comments(li, mm, **kw),
                        comment_model(model_lines(cut_lines(x)), e(tuple(m)), e(quotes), e("\\"), rstrip, triple), what, li)
                st.transitions += 1


def comments_cases(tier):
    yield from words("a#\"' /\n", 0, 4 if tier == "quick" else 5)
    yield from words("#\"\\\n", 5, 6 if tier == "quick" else 7)


def chain_check(case, st):
    "with the modifiers of big.text in front and behind; the backslash argument"
    s = case
    for tabs, backslash in itertools.product((False, True), ("\\", "a", "")):
        for x in (s, s.encode()):
            isb = isinstance(x, bytes)
            e = enc if isb else lambda a: a
            li = T.lines(x)
            it = T.lines_filter_empty_lines(D.lines_strip_comments(T.lines_strip(li) if tabs else li, e(("#",)), quotes=e(("'",)), backslash=e(backslash)))
            from .linesmodel import MODEL
            m = model_lines(cut_lines(x))
            m = MODEL["noempty"](comment_model(MODEL["strip"](m, None) if tabs else m, e(("#",)), e(("'",)), e(backslash), True, True))
            compare(it, m, f"{x!r}: {'lines_strip, ' if tabs else ''}lines_strip_comments(backslash={backslash!r}), lines_filter_empty_lines", li)


def chain_cases(tier):
    yield from words("a#' \t\\\n", 0, 4 if tier == "quick" else 5)


def info_check(case, st):
    for s in words("a#", 0, 3):
        for info, line in D.lines_strip_comments(T.lines(s), ("#",)):
            want = s[s.index("#"):] if "#" in s else ""
            got = getattr(info, "comment", None)
            if got is None:
                fail(f"lines_strip_comments(lines({s!r}), '#') sets no comment attribute on the LineInfo", key="no-comment-attribute")
            expect(got, want, f"info.comment for {s!r}")


def refusals_check(case, st):
    for m in ((), "", None, b"", []):
        st.transitions += 1
        got = outcome(lambda: D.lines_strip_comments(T.lines("a"), m) and None)
        if got[0] != "exc":
            fail(f"lines_strip_comments with markers {m!r}: {got!r}")


def tables_check(case, st):
    pairs = [
        ("whitespace_without_dos", T.str_whitespace_without_crlf),
        ("ascii_whitespace_without_dos", T.bytes_whitespace_without_crlf),
        ("newlines", T.str_linebreaks),
        ("newlines_without_dos", T.str_linebreaks_without_crlf),
        ("ascii_newlines", T.bytes_linebreaks),
        ("ascii_newlines_without_dos", T.bytes_linebreaks_without_crlf),
        ("utf8_whitespace", tuple(c.encode() for c in T.str_whitespace)),
        ("utf8_whitespace_without_dos", tuple(c.encode() for c in T.str_whitespace_without_crlf)),
        ("utf8_newlines", tuple(c.encode() for c in T.str_linebreaks)),
        ("utf8_newlines_without_dos", tuple(c.encode() for c in T.str_linebreaks_without_crlf)),
    ]
    for name, want in pairs:
        st.transitions += 1
        got = getattr(D, name)
        if sorted(got) != sorted(want) or type(got) is not tuple:
            fail(f"big.deprecated.{name} is {got!r}, expected {want!r}")
    for name in D.__all__:
        if not hasattr(D, name):
            fail(f"big.deprecated.__all__ has {name}, which isn't there")


def filter_check(case, st):
    s = case
    for m in (("#",), ("#", "//"), "#"):
        for x in (s, s.encode()):
            e = enc if isinstance(x, bytes) else lambda a: a
            li = T.lines(x)
            want = [r for r in model_lines(cut_lines(x)) if not any(r.text.lstrip().startswith(k) for k in e(tuple(m)))]
            compare(D.lines_filter_comment_lines(li, e(m)), iter(want), f"lines_filter_comment_lines({x!r}, {m!r})", li)
            st.transitions += 1


def filter_cases(tier):
    yield from words("a# /\n", 0, 5 if tier == "quick" else 6)


PARTS = [
    Part("split", split_cases, split_check, bound="texts <= 7 (9) over a ' \" \\ as text and bytes, 5 sets of quotes, triple quotes on and off, 3 backslashes"),
    Part("long", long_cases, split_check, bound="texts of 7..12 (16) over a ' and 7..11 (15) over ' \\"),
    Part("parse", parse_cases, parse_check, bound="texts <= 5..8 (one more) over the characters of each of 13 sets of delimiters, text and bytes, all shapes of arguments"),
    Part("parse refusals", lambda tier: ["empty", "length", "repeated", "backslash", "types"], refuse_check, bound="5 kinds of wrong arguments"),
    Part("comments", comments_cases, comments_check, bound="texts <= 4 (5) over a # \" ' space / newline, <= 6 (7) over # \" \\ newline; 4 sets of markers, 5 of quotes, rstrip, triple_quotes; text and bytes"),
    Part("chains", chain_cases, chain_check, bound="texts <= 4 (5) over a # ' space tab \\ newline between lines_strip and lines_filter_empty_lines; 3 backslashes"),
    Part("filter", filter_cases, filter_check, bound="texts <= 5 (6) over a # space / newline"),
    Part("attribute", lambda tier: ["comment"], info_check, bound="texts <= 3"),
    Part("markers", lambda tier: ["markers"], refusals_check, bound="5 empty sets of markers"),
    Part("tables", lambda tier: ["tables"], tables_check, bound="10 tables"),
]
