"""C19: split_delimiters on every short text for many sets of delimiters and initial stacks, against a pushdown scanner."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import words
import big.text as T
from big.text import split_delimiters, Delimiter

ASSUMPTIONS = ["Which characters end a line is taken from str.splitlines and bytes.splitlines."]
NEWLINES = [c for c in map(chr, range(0x3000)) if len(("x" + c + "x").splitlines()) == 2]
BYTES_NEWLINES = [bytes([c]) for c in range(256) if len((b"x" + bytes([c]) + b"x").splitlines()) == 2]


def longest_first(l):
    return sorted(set(l), key=len, reverse=True)


class Model:
    "config: {open: (close, escape or '', multiline)}; an escape makes the pair a quoting one"
    def __init__(self, config, is_bytes=False):
        self.config = config
        self.newlines = BYTES_NEWLINES if is_bytes else NEWLINES
        every = list(config)
        for close, escape, multiline in config.values():
            every.append(close)
            if escape:
                every.append(escape)
        self.every = longest_first(every)
        self.inside = {}
        for open, (close, escape, multiline) in config.items():
            if escape:
                self.inside[open] = longest_first([close, escape] + ([] if multiline else self.newlines))

    def split(self, s, stack=()):
        "(pieces, error?, stack left)"
        e = s[:0]
        stack = list(stack)
        out = []
        start = i = 0
        while i < len(s):
            top = stack[-1] if stack else None
            close, escape, multiline = self.config[top] if stack else (None, None, True)
            for t in self.inside[top] if escape else self.every:
                if s.startswith(t, i):
                    break
            else:
                i += 1
                continue
            if escape and t == escape:
                i += len(t) + 1
                if i > len(s):
                    return out, True, stack
                continue
            if not escape and t in self.config:
                out.append((s[start:i], t, e))
                stack.append(t)
            elif close is not None and (t == close or not escape and t.startswith(close)):
                t = close
                out.append((s[start:i], e, t))
                stack.pop()
            else:
                return out, True, stack
            i += len(t)
            start = i
        if start < len(s):
            out.append((s[start:], e, e))
        return out, False, stack


def delimiters(config):
    out = {}
    for open, (close, escape, multiline) in config.items():
        out[open] = Delimiter(close, escape=escape, multiline=multiline, quoting=True) if escape else Delimiter(close, multiline=multiline)
    return out


def collect(*args, **kw):
    out = []
    try:
        for t in split_delimiters(*args, **kw):
            out.append(t)
    except SyntaxError:
        return out, True
    return out, False


def stacks(config, depth):
    "every stack that can be open"
    yield ()
    level = [()]
    for _ in range(depth):
        level = [s + (o,) for s in level if not s or not config[s[-1]][1] for o in config]
        yield from level


CACHE = {}


def prepared(items):
    if items not in CACHE:
        if len(CACHE) > 50:
            CACHE.clear()
        config = dict(items)
        CACHE[items] = (Model(config, isinstance(items[0][0], bytes)), delimiters(config), config)
    return CACHE[items]


def case_check(case, st):
    s, items, depth = case
    m, d, config = prepared(items)
    for stack in stacks(config, depth):
        want, error, left = m.split(s, stack)
        got, goterror = collect(s, d, state=list(stack))
        st.transitions += 1
        what = f"split_delimiters({s!r}, {config!r}, state={list(stack)!r})"
        if got != want or error != goterror:
            fail(f"{what}: got {got!r}{' then SyntaxError' if goterror else ''}, expected {want!r}{' then SyntaxError' if error else ''}")
        if not error and s[:0].join(x for t in got for x in t) != s:
            fail(f"{what}: {got!r} does not add up to the text")
        # the user's own stack, as the documentation recommends
        if not error:
            mine = list(stack)
            for text, o, c in got:
                if o:
                    mine.append(o)
                if c:
                    if config[mine.pop()][0] != c:
                        fail(f"{what}: {c!r} closes something else")
            if mine != left:
                fail(f"{what}: leaves {mine}, expected {left}")


# the same, after the openings of the initial stack
def prefix_check(case, st):
    s, items, depth = case
    m, d, config = prepared(items)
    e = s[:0]
    for stack in stacks(config, depth):
        first, error, left = m.split(e.join(stack))
        if error or left != list(stack):
            continue          # the openings run together into something else
        if m.split(e.join(stack) + s)[0][:len(first)] != first:
            continue
        got = collect(s, d, state=stack)
        whole = collect(e.join(stack) + s, d)
        st.transitions += 1
        expect((first + got[0], got[1]), whole, f"split_delimiters({s!r}, {config!r}, state={stack!r}) against the text with its openings")


DEFAULT = (("(", (")", "", True)), ("[", ("]", "", True)), ("{", ("}", "", True)), ("'", ("'", "\\", False)), ('"', ('"', "\\", False)))
CONFIGS = [
    (DEFAULT, "([)]'\\\nx"),
    (DEFAULT, "{}\"'\\x"),
    ((("(", (")", "", True)),), "()x\n"),
    ((("<", (">", "\\", True)),), "<>\\x\n"),
    ((("<", (">", "\\", False)),), "<>\\x\n"),
    ((("<", (">", "\\", True)), ("(", (")", "", True))), "<>\\()\n"),
    ((("<", (">", "\\", False)), ("{", ("}", "^", True))), "<>\\{}^\n"),
    ((("'", ("'", "\\", True)), ("(", ("'", "^", False))), "'\\(^\n"),
    ((("(", (")", "", True)), ("[", (")", "", True))), "([)x"),
    ((("(", (")", "", True)), ("[", ("]", "", True)), ("[(", (")]", "", True))), "([)]x"),
    ((("(", (")", "]", True)), ("[", ("]", "", True)), ("[(", (")]", "", True))), "([)]x"),
    ((("(", (")", "", True)), ("[(", (")]", "", True)), ("<[", ("]>", "**", True))), "([)]<>*"),
    ((("<", (">", "\\", True)), ("<<", (">>", "", True))), "<>\\x"),
    ((("<", (">", "\\", True)), ("Q", ("\\>", "", True))), "<>\\Q"),
    ((("<", (">", "\\", True)), ("<<", (">>", "", True)), ("(", (")", "", True))), "<>\\()"),
    ((("<<", (">>", "\\\\", False)), ("<", (">", "", True))), "<>\\\n"),
    ((("^S", ("^Q", "", True)), ("<<", (">>", "", True)), ("^X", ("^X", "**", True))), "^SQX<>*"),
    ((("'", ("'", "\\", False)), ("'''", ("'''", "\\", True))), "'\\x\n"),
    ((("a", ("ba", "b", True)), ("b", ("ab", "", True))), "abx"),
    ((("aa", ("ab", "ba", False)), ("ab", ("bb", "", True))), "ab\n"),
    ((("a", ("bb", "bbb", True)), ("bab", ("aba", "", True))), "abx"),
    ((("<", (">", ">>", True)), ("(", (">>>", "", True))), "<>(x"),
    ((("<", (">>", ">", True)), ("(", (">>>", "", True))), "<>(x"),
    ((("#", ("\n", "\\", True)), ('"', ('"', "\\", False))), "#\n\"\\"),
    ((("(", (")", "", True)), ("\n(", ("\n)", "", True)), ('"', ('"', "\\", False))), "()\n\""),
    ((("(", (")", "", True)), ("(*", ("*)", "", True))), "(*)x"),
    ((("(", (")", "", True)), ("(*", ("*)", "\\", True))), "(*)\\"),
    (((".", ("*", "", True)), ("$", ("|", "^", False))), ".*$|^\n"),
    ((("<", (">", "\\", True)), ("[", ("]\u2028", "", True)), ("(", (")", "^", False))), "<>[]\u2028()"),
]


def config_cases(tier):
    for items, letters in CONFIGS:
        n = {3: 9, 4: 7, 5: 6, 6: 6, 7: 5, 8: 5, 9: 5}[len(letters)] + (tier != "quick")
        for s in words(letters, 0, n):
            yield (s, items, 2 if len(s) < n else 1)


def bytes_cases(tier):
    for items, letters in CONFIGS:
        if not letters.isascii():
            continue
        items = tuple((o.encode(), (c.encode(), e.encode(), m)) for o, (c, e, m) in items)
        n = {3: 7, 4: 6, 5: 5, 6: 4, 7: 4, 8: 4}[len(letters)] + (tier != "quick")
        for s in words(letters, 0, n):
            yield (s.encode(), items, 1)


def generated_cases(tier):
    "every set of two (three) pairs out of a family"
    t = tier != "quick"
    one = []
    for o in ("<", "<<", "(", "(<"):
        for c in (">", ">>", ")", ">)", ")>")[:5 if t else 4]:
            for e, multiline in (("", True), ("\\", True), ("\\", False), (">", True), ("\\>", True), (")", False))[:6 if t else 5]:
                if e != c:
                    one.append((o, (c, e, multiline)))
    for n in (1, 2):
        for items in itertools.combinations(one, n):
            if len({o for o, _ in items}) < n:
                continue
            letters = "".join(sorted(set("".join(o + c + e for o, (c, e, m) in items)))) + ("\n" if not all(m for _, (c, e, m) in items) else "")
            k = 8 if n == 1 else (4 if len(letters) <= 5 or (t and len(letters) <= 6) else 3)
            if n == 1 and len(letters) == 4:
                k = 7
            for s in words(letters, 0, k):
                if len(s) == k and n == 2 and s[0] not in "<(":
                    continue
                yield (s, items, 0 if len(s) > 3 else 1)
    if t:
        few = [(o, (c, e, m)) for o, (c, e, m) in one if e in ("", "\\") and m]
        for items in itertools.combinations(few, 3):
            if len({o for o, _ in items}) < 3:
                continue
            letters = "".join(sorted(set("".join(o + c + e for o, (c, e, m) in items))))
            for s in words(letters, 2, 3):
                if s[0] in "<(":
                    yield (s, items, 0)


def newline_cases(tier):
    for c in range(0x3000 if tier == "quick" else 0x110000):
        c = chr(c)
        for items in (((("'", ("'", "\\", False)),)), (("'", ("'", "\\", True)),), (("(", (")", "", True)), ("'", ("'", "\\", False)))):
            for s in ("'" + c, "'\\" + c + "'", c + "'x'" + c, "(" + c + ")"):
                yield (s, items, 0)
    for c in range(256):
        c = bytes([c])
        for items in (((b"'", (b"'", b"\\", False)),), ((b"(", (b")", b"", True)), (b"'", (b"'", b"\\", False)))):
            for s in (b"'" + c, b"'\\" + c + b"'", c + b"'x'" + c, b"(" + c + b")"):
                yield (s, items, 0)


def default_check(case, st):
    s, = case
    b = s.encode()
    m = Model(dict(DEFAULT))
    mb = Model({o.encode(): (c.encode(), e.encode(), x) for o, (c, e, x) in DEFAULT}, True)
    want = m.split(s)[:2]
    wantb = mb.split(b)[:2]
    for args in ((), (None,), (T.split_delimiters_default_delimiters,), (T.split_delimiters_default_delimiters_bytes,), (dict(T.split_delimiters_default_delimiters),)):
        expect(collect(s, *args), want, f"split_delimiters({s!r}, *{args!r})")
        if args[:1] != (dict(T.split_delimiters_default_delimiters),) or not args or args[0] is T.split_delimiters_default_delimiters:
            expect(collect(b, *args), wantb, f"split_delimiters({b!r}, *{args!r})")
    for stack in ("(", "([", "{\"", "'"):
        for state in (stack, list(stack), tuple(stack), iter(stack)):
            expect(collect(s, state=state), m.split(s, stack)[:2], f"split_delimiters({s!r}, state={stack!r})")
        bs = [c.encode() for c in stack]
        for state in (stack.encode(), bs, tuple(bs), iter(bs)):
            expect(collect(b, state=state), mb.split(b, bs)[:2], f"split_delimiters({b!r}, state={bs!r})")
    for order in ((2, 4, 0, 1, 3), (4, 3, 2, 1, 0)):
        d = delimiters(dict(DEFAULT[i] for i in order))
        expect(collect(s, {k: v.copy() for k, v in d.items()}), want, f"split_delimiters({s!r}) with the delimiters in another order")


def default_cases(tier):
    for s in words("([)'\\\nx", 0, 4 if tier == "quick" else 5):
        yield (s,)


def refuse_check(case, st):
    V, Y, A = "ValueError", "TypeError", "AttributeError"
    D = Delimiter
    for conv, other in ((str, lambda s: s.encode()), (lambda s: s.encode(), str)):
        p, c, q, e, n, x = map(conv, ("(", ")", "'", "\\", "", "x"))
        oc, oq, oe = map(other, (")", "'", "\\"))
        for close, kw, err in ((e, {}, V), (q, {"escape": e}, V), (q, {"quoting": True}, V), (q, {"quoting": True, "escape": n}, V), (q, {"multiline": False}, V), (q, {"escape": n, "multiline": False}, V), (q, {"escape": None, "multiline": False, "quoting": False}, V)):
            expect(outcome(D, close, **kw), ('exc', err), f"Delimiter({close!r}, {kw})")
        quote = D(q, quoting=True, escape=e, multiline=False)
        ok = D(c)
        for d, err in (({}, V), ({p: D(oc)}, Y), ({p: oc}, Y), ({p: c}, Y), ({p: None}, Y), ({p: ok, q: D(q, quoting=True, escape=oe)}, Y), ({p: ok, q: D(oq, quoting=True, escape=e)}, Y), ({e: ok}, V), ({p: ok, e: ok}, V),
                       ({p: ok, c: D(x)}, V), ({p: D(p)}, V), ({p: ok, q: quote, c: D(q, quoting=True, escape=e)}, V), ({p: D(x), c: D(p), x: D(c)}, V), ({3: ok}, Y), ({conv("(") : ok, other("["): ok}, Y)):
            expect(outcome(lambda: list(split_delimiters(x + x, d))), ('exc', err), f"split_delimiters({x + x!r}, {d!r})")
        for d in ({p: D(n)}, {n: ok}, {p: ok, n: ok}):
            expect(outcome(lambda: list(split_delimiters(p + x + c, d))), ('exc', V), f"split_delimiters with an empty delimiter {d!r}")
        for state in ([c], [x], [p, x], [q, p], [x, p], [q, q], [n], [p + p]):
            expect(outcome(split_delimiters, x, {p: ok, q: quote}, state=state), ('exc', V), f"split_delimiters(state={state!r})")
        # Delimiters are values, and read-only
        for make in (lambda: D(c), lambda: D(q, quoting=True, escape=e, multiline=False), lambda: D(q, quoting=True, escape=e), lambda: D(q, quoting=True, escape=x)):
            d = make()
            for o in (make(), d.copy(), D(d)):
                if not (o == d and hash(o) == hash(d)) or (o.close, o.escape, o.quoting, o.multiline) != (d.close, d.escape, d.quoting, d.multiline):
                    fail(f"{o!r} is not equal to {d!r}")
            for name in ("close", "escape", "quoting", "multiline"):
                expect(outcome(setattr, d, name, x), ('exc', A), f"setting {name}")
        a = [D(c), D(x), D(q, quoting=True, escape=e, multiline=False), D(q, quoting=True, escape=e), D(q, quoting=True, escape=x)]
        for i, j in itertools.permutations(range(len(a)), 2):
            if a[i] == a[j]:
                fail(f"{a[i]!r} == {a[j]!r}")
    # long inputs
    m = Model(dict(DEFAULT))
    for s in ("(" * 5000 + ")" * 5000, "()" * 3000 + "]", "'" + "\\'" * 3000 + "'x", "x" * 20000 + "(" + "y" * 20000):
        if collect(s) != m.split(s)[:2]:
            fail("a long text is split wrong")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="invalid delimiters, sets of delimiters, states; Delimiter objects as values; long inputs"),
    Part("defaults", default_cases, default_check, bound="default delimiters in all spellings and orders, states as any iterable, all texts of <= 4 (5) of 7 characters"),
    Part("newlines", newline_cases, case_check, bound="every character up to U+2FFF (all) inside and outside of single-line and multi-line quotes"),
    Part("bytes", bytes_cases, case_check, bound="bytes, 28 configurations, texts of <= 4-7 (+1), stacks of <= 1"),
    Part("prefix", lambda tier: ((s, i, 2) for s, i, d in config_cases("prefix" if tier == "quick" else tier) if len(s) <= (3 if tier == "quick" else 4)), prefix_check, bound="an initial stack against the text with its openings in front, texts of <= 3 (4), stacks of <= 2"),
    Part("configurations", config_cases, case_check, bound="29 configurations incl. overlapping multi-character delimiters, all texts over their characters of <= 5-9 (+1), every initial stack of <= 2 (1 for the longest)"),
    Part("generated", generated_cases, case_check, bound="every one or two pairs out of 4 openings x 4 (5) closings x 5 (6) kinds (thorough: triples of 2 kinds), all texts over their characters of <= 7-8 or 3-4; triples: <= 3"),
]
