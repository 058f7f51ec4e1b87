"""C14: multisplit, every option, on every short string and small set of separators, against a scanner."""
import itertools
from .core import Part, fail, expect, outcome
from .splitmodel import Model, KEEP, STRIP, words, pool, subsets, scan
import big.text as T
from big.text import multisplit

ASSUMPTIONS = []
MAXSPLIT = (-1, None, 0, 1, 2, 3, -2)
KEEPS = dict(zip(KEEP, (False, True, T.ALTERNATING, T.AS_PAIRS)))
STRIPS = dict(zip(STRIP, (False, True, T.LEFT, T.RIGHT, T.PROGRESSIVE)))
ALL = [(k, m, r, sp, st) for k in KEEP for m in MAXSPLIT for r in (False, True) for sp in (False, True) for st in STRIP]


def options(keep, maxsplit, reverse, separate, strip):
    return dict(keep=KEEPS[keep], maxsplit=maxsplit, reverse=reverse, separate=separate, strip=STRIPS[strip])


def case_check(case, st):
    s, seps, which = case
    m = Model(s, seps)
    for o in (ALL if which == "all" else SOME):
        got = list(multisplit(s, seps, **options(*o)))
        want = m.split(*o)
        st.transitions += 1
        if got != want:
            fail(f"multisplit({s!r}, {seps!r}, {options(*o)}): got {got!r}, expected {want!r}")
    # nothing lost (follows from the model, but states the property itself)
    for r in (False, True):
        for sp in (False, True):
            for k in (True, T.ALTERNATING, T.AS_PAIRS):
                l = list(multisplit(s, seps, keep=k, reverse=r, separate=sp))
                if k == T.AS_PAIRS:
                    l = [x for p in l for x in p]
                if s[:0].join(l) != s:
                    fail(f"multisplit({s!r}, {seps!r}, keep={k!r}, reverse={r}, separate={sp}) loses text: {l!r}")


SOME = [(k, m, r, sp, st) for k in (False, "AS_PAIRS") for m in (-1, 1, 2) for r in (False, True) for sp in (False, True) for st in (False, True, "PROGRESSIVE")]


def letter_cases(tier):
    t = tier != "quick"
    p3 = pool("ab", 3)
    p2 = pool("ab", 2)
    for seps in subsets(p3, (1, 2)):
        for s in words("abx", 0, 5 if t else 4):
            yield (s, seps, "all")
    for seps in subsets(p2, (3, 4, 5)):
        for s in words("abx", 0, 5 if t else 4):
            yield (s, seps, "all" if t else "some")
    for seps in subsets(p3, (2, 3) if t else (2,)):
        for s in words("abx", 5, 7 if t and len(seps) == 2 else 6 if t else 6):
            yield (s, seps, "some")
    for seps in subsets(p3, (3,)):
        for s in words("ab", 3, 6 if t else 5):
            yield (s, seps, "some")


SPECIAL = [("\n",), ("\r\n",), ("\r\n", "\n"), ("\r", "\n", "\r\n"), (".",), ("*", "."), ("^", "$"), ("\\",), ("\\n",), ("[", "]", "[]"), ("|",), ("a|b",),
           ("-", "--"), (" ", "\t", "  "), (" ",), ("\n ", " "), ("#", "(?#)"), ("{2}", "{"), ("\x00",), ("\u2028", "\x85"), ("\ud800",), ("\n\r", "\r"), ("\\.", "."), (" .", ".")]


def special_cases(tier):
    n = 5 if tier == "quick" else 6
    for seps in SPECIAL:
        letters = sorted(set("".join(seps)) | {"n" if "\\n" in seps else "x"})[:5]
        for s in words(letters, 0, n if len(letters) <= 3 else n - 1):
            yield (s, seps, "all" if len(s) < 4 else "some")


TABLES = {n: getattr(T, n) for n in T.__all__ if ("whitespace" in n or "linebreaks" in n) and isinstance(getattr(T, n), tuple)}
assert len(TABLES) >= 10
BUILTIN = {"None": None, **{n: t for n, t in TABLES.items() if isinstance(t[0], str)}}


def builtin_check(case, st):
    s, name = case
    seps = BUILTIN[name]
    m = Model(s, T.whitespace if seps is None else seps)
    for o in ALL if len(s) < 3 else SOME:
        got = list(multisplit(s, seps, **options(*o)))
        st.transitions += 1
        if got != m.split(*o):
            fail(f"multisplit({s!r}, {name}, {options(*o)}): got {got!r}, expected {m.split(*o)!r}")


def builtin_cases(tier):
    for name in BUILTIN:
        for s in words("\r\n x\x1c\u2028", 0, 4 if tier == "quick" else 5):
            yield (s, name)


BYTES_BUILTIN = {"None": None, **{n: t for n, t in TABLES.items() if isinstance(t[0], bytes)}, "ab": b"ab", "list": [b"ab", b"b", b"\xff"], "rn": (b"\r\n", b"\n")}


def bytes_check(case, st):
    s, name = case
    seps = BYTES_BUILTIN[name]
    real = seps
    if seps is None:
        real = T.bytes_whitespace
    elif isinstance(seps, bytes):
        real = [seps[i:i + 1] for i in range(len(seps))]
    m = Model(s, real)
    for o in ALL if len(s) < 4 else SOME:
        got = list(multisplit(s, seps, **options(*o)))
        st.transitions += 1
        if got != m.split(*o):
            fail(f"multisplit({s!r}, {name}, {options(*o)}): got {got!r}, expected {m.split(*o)!r}")


def bytes_cases(tier):
    for name in BYTES_BUILTIN:
        letters = {"ab": (b"a", b"b", b"x", b"\xff"), "list": (b"a", b"b", b"\xff", b"x")}.get(name, (b"\r", b"\n", b" ", b"x", b"\x1c", b"\x85"))
        for n in range(0, 5 if tier == "quick" else 6):
            for w in itertools.product(letters, repeat=n):
                yield (b"".join(w), name)


class Str(str):
    pass


class Once:
    "an iterable that is not a container, and cannot be hashed"
    __hash__ = None
    def __init__(self, items):
        self.items = items
    def __iter__(self):
        return iter(self.items)


class Changing:
    "an iterable whose hash and identity stay while its contents change"
    def __init__(self):
        self.items = ()
    def __iter__(self):
        return iter(self.items)


def container_check(case, st):
    """The same result for every order, container, repetition and subclass."""
    s, seps, reverse, separate, strip = case
    kw = dict(reverse=reverse, separate=separate, strip=STRIPS[strip])
    want = Model(s, seps).split(False, -1, reverse, separate, strip)
    wantk = Model(s, seps).split("ALTERNATING", 2, reverse, separate, strip)
    changing = Changing()
    for perm in itertools.permutations(seps):
        forms = [list(perm), tuple(perm), iter(perm), dict.fromkeys(perm), dict.fromkeys(perm).keys(), (x for x in perm), map(Str, perm), perm + perm, Once(perm), (*perm, *reversed(perm))]
        if all(len(p) == 1 for p in perm):
            forms += ["".join(perm), Str("".join(perm))]
        changing.items = perm
        forms.append(changing)
        for f in forms:
            got = list(multisplit(s, f, **kw))
            st.transitions += 1
            if got != want:
                fail(f"multisplit({s!r}, {type(f).__name__} of {perm!r}, {kw}): got {got!r}, expected {want!r}")
        got = list(multisplit(Str(s), perm, keep=T.ALTERNATING, maxsplit=2, **kw))
        if any(type(x) is not str for x in got):
            fail(f"multisplit(str subclass {s!r}) yields {[type(x).__name__ for x in got]}")
        for kw2 in ({}, {"maxsplit": 0}, {"keep": True}):
            for x in multisplit(Str(s), perm, **kw, **kw2):
                if type(x) is not str:
                    fail(f"multisplit(str subclass {s!r}, {perm!r}, {kw}, {kw2}) yields a {type(x).__name__}")
        expect(got, wantk, f"multisplit(str subclass {s!r}, {perm!r}, {kw})")
    for f in (set(seps), frozenset(seps)):
        got = list(multisplit(s, f, **kw))
        if got != want:
            fail(f"multisplit({s!r}, {f!r}, {kw}): got {got!r}, expected {want!r}")
        expect(list(multisplit(s, f, keep=T.ALTERNATING, maxsplit=2, **kw)), wantk, f"multisplit({s!r}, {f!r})")
    # an iterable that changed its mind
    changing.items = ("x",)
    expect(list(multisplit(s, changing, **kw)), Model(s, ("x",)).split(False, -1, reverse, separate, strip), f"multisplit({s!r}) with changed separators")


def container_cases(tier):
    t = tier != "quick"
    for seps in subsets(pool("ab", 2), (1, 2, 3)):
        for s in words("abx", 0, 5 if t else 4):
            for reverse in (False, True):
                for separate in (False, True):
                    for strip in (False, True, "PROGRESSIVE"):
                        if len(s) >= 4 and strip and not t:
                            continue
                        yield (s, seps, reverse, separate, strip)


def refuse_check(case, st):
    for s, good, bad in (("a b", [" "], b" "), (b"a b", [b" "], " ")):
        e = s[:0]
        for seps, err in (([], "ValueError"), ((), "ValueError"), (set(), "ValueError"), (e, "ValueError"), (lambda: iter([]), "ValueError"), ([e], "ValueError"), (good + [e], "ValueError"),
                          (bad, "TypeError"), ([bad], "TypeError"), (good + [bad], "TypeError"), ([1], "TypeError"), (1.5, "TypeError"), ([None], "TypeError"), (lambda: iter(good + [bad]), "TypeError"), (object(), "TypeError")):
            for kw in ({}, {"strip": True}, {"maxsplit": 0}, {"reverse": True, "keep": True}):
                expect(outcome(lambda: list(multisplit(s, seps() if callable(seps) else seps, **kw))), ('exc', err), f"multisplit({s!r}, {seps!r}, {kw})")
    # long inputs end promptly
    for s in ("a" * 3000 + "x", "x" + "a" * 3000 + "x", "ab" * 1500 + "x"):
        for kw in ({}, {"strip": True}, {"reverse": True, "strip": True}, {"maxsplit": 2, "strip": T.PROGRESSIVE}, {"separate": True}):
            l = list(multisplit(s, ("a", "aa", "ab", "aaa"), keep=True, **kw))
            if not kw.get("strip") and "".join(l) != s:
                fail("a long text is damaged")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="empty, mistyped and exhausted separators; long repetitive inputs"),
    Part("built-in", builtin_cases, builtin_check, bound="the named separator tables on all strings of <= 4 (5) of 6 characters, all options"),
    Part("bytes", bytes_cases, bytes_check, bound="bytes with default, named, bytes-string and listed separators, all strings of <= 4 (5)"),
    Part("special", special_cases, case_check, bound="separators with regex and line-break characters, all strings of <= 5 (6) over their characters"),
    Part("containers", container_cases, container_check, bound="every order and kind of container of <= 3 separators, strings of <= 4 (5)"),
    Part("letters", letter_cases, case_check, bound="all sets of <= 2 separators of <= 3 letters (3 with fewer options, 5 of <= 2 letters), all strings over 3 letters of <= 4 (5), all 560 option combinations; up to 6 (7) letters with 72 combinations"),
]
