"""C13: parsing and printing versions, on every string over a token alphabet, against a hand-written PEP 440 parser."""
import itertools
import importlib
import sys
from .c36 import in_child
from .core import Part, fail, expect, outcome
from big.version import Version

ASSUMPTIONS = ["the grammar is that of PEP 440's appendix B, as the project documents"]

FIELDS = ("epoch", "release", "release_level", "serial", "post", "dev", "local")
DIGITS = "0123456789"
ALNUM = DIGITS + "abcdefghijklmnopqrstuvwxyz"
SEPS = "-_."
LEVELS = {"a": "alpha", "b": "beta", "c": "rc", "rc": "rc", "alpha": "alpha", "beta": "beta", "pre": "rc", "preview": "rc"}


def number(s, i):
    "end of the digits at i"
    while i < len(s) and s[i] in DIGITS:
        i += 1
    return i


def marker(s, i, words):
    """
    [sep] word [sep] [number] at i -> (word, number or None, end), every way of
    reading it, preferred first.
    """
    for a in ((i + 1, i) if s[i:i + 1] and s[i] in SEPS else (i,)):
        for w in words:
            if not s.startswith(w, a):
                continue
            b = a + len(w)
            for c in ((b + 1, b) if s[b:b + 1] and s[b] in SEPS else (b,)):
                e = number(s, c)
                for stop in range(e, c, -1):
                    yield w, s[c:stop], stop
                yield w, None, c


def p_post(s, i):
    if s[i:i + 1] == "-":
        e = number(s, i + 1)
        for stop in range(e, i + 1, -1):
            yield int(s[i + 1:stop]), stop
    for w, n, e in marker(s, i, ("post", "rev", "r")):
        yield int(n or 0), e
    yield None, i


def p_local(s, i):
    if i == len(s):
        return True, None
    if s[i] != "+":
        return False, None
    parts = s[i + 1:].replace("-", ".").replace("_", ".").split(".")
    if any(not p or any(c not in ALNUM for c in p) for p in parts):
        return False, None
    return True, tuple(str(int(p)) if p.isdigit() else p for p in parts)


def parse(text):
    """The fields the text denotes, or None."""
    if any(ord(c) > 127 for c in text):
        # white space at the ends may be anything Python strips
        if any(ord(c) > 127 for c in text.strip()):
            return None
    s = text.strip()
    s = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
    i = 1 if s.startswith("v") else 0
    epoch = None
    e = number(s, i)
    if e > i and s[e:e + 1] == "!":
        epoch = int(s[i:e])
        i = e + 1
    # the release segment may end early (backtracking into it never helps: what
    # follows a shorter one would have to start with a digit or ".digit")
    release = []
    e = number(s, i)
    if e == i:
        return None
    release.append(int(s[i:e]))
    i = e
    while s[i:i + 1] == "." and number(s, i + 1) > i + 1:
        e = number(s, i + 1)
        release.append(int(s[i + 1:e]))
        i = e
    while len(release) > 1 and not release[-1]:
        release.pop()
    for pre in itertools.chain(marker(s, i, ("alpha", "a", "beta", "b", "rc", "c", "preview", "pre")), [(None, None, i)]):
        for post, j in p_post(s, pre[2]):
            for dev in itertools.chain(marker(s, j, ("dev",)), [(None, None, j)]):
                ok, local = p_local(s, dev[2])
                if ok:
                    return dict(zip(FIELDS, (epoch, tuple(release), LEVELS[pre[0]] if pre[0] else "final",
                        None if pre[1] is None else int(pre[1]), post, None if dev[0] is None else int(dev[1] or 0), local)))
    return None


def normal_form(f):
    s = f"{f['epoch']}!" if f["epoch"] else ""
    s += ".".join(map(str, f["release"]))
    if f["release_level"] != "final":
        s += {"alpha": "a", "beta": "b", "rc": "rc"}[f["release_level"]] + str(f["serial"] or 0)
    if f["post"] is not None:
        s += f".post{f['post']}"
    if f["dev"] is not None:
        s += f".dev{f['dev']}"
    if f["local"]:
        s += "+" + ".".join(f["local"])
    return s


def field_list(v):
    return [v.epoch or 0, v.release, v.release_level, v.serial or 0, v.post, v.dev, v.local]


def check_version(v, f, what):
    want = [f["epoch"] or 0, f["release"], f["release_level"], f["serial"] or 0, f["post"], f["dev"], f["local"]]
    expect(field_list(v), want, f"fields of {what}")
    r = f["release"]
    expect((v.major, v.minor, v.micro, v.releaselevel), (r[0], r[1] if len(r) > 1 else 0, r[2] if len(r) > 2 else 0, f["release_level"]), f"major, minor, micro, releaselevel of {what}")
    expect(str(v), normal_form(f), f"str of {what}")


def roundtrip(v, f, what):
    s = str(v)
    w = Version(s)
    if not (w == v and v == w and hash(v) == hash(w)) or v < w or w < v:
        fail(f"{what}: its printed form {s!r} is another version")
    expect(field_list(w), field_list(v), f"fields of the printed form of {what}")
    expect(str(w), s, f"printing the printed form of {what}")
    u = eval(repr(v), {"Version": Version})
    if type(u) is not Version or u != v or field_list(u) != field_list(v):
        fail(f"{what}: repr {v!r} does not reproduce it")
    k = Version(**f)
    if k != v or field_list(k) != field_list(v) or str(k) != s or hash(k) != hash(v):
        fail(f"{what}: built by keyword it is {k!r}")


def check_string(s, st):
    f = parse(s)
    got = outcome(Version, s)
    if f is None:
        expect(got, ('exc', 'ValueError'), f"Version({s!r})")
        return
    if got[0] != 'ret':
        fail(f"Version({s!r}) raised {got[1]}, it denotes {f!r}")
    st.bump("valid")
    check_version(got[1], f, repr(s))
    roundtrip(got[1], f, repr(s))


TOKENS = ["0", "1", "02", ".", "-", "_", "!", "+", "a", "b", "c", "rc", "alpha", "beta", "pre", "preview", "post", "rev", "r", "dev", "v", " ", "x", "A", "\n"]
SHORT = ["0", "7", ".", "-", "_", "!", "+", "a", "rc", "post", "r", "dev", "v", " "]
TAIL = ["1", ".", "-", "+", "B", "pre", "Post", "r", "DEV"]


def token_cases(tier):
    t = tier != "quick"
    for n in range(0, 4):
        for w in itertools.product(TOKENS, repeat=n):
            yield "".join(w)
    for w in itertools.product(TOKENS, repeat=4):
        yield "1" + "".join(w)
    for w in itertools.product(SHORT, repeat=5 if t else 4):
        yield "".join(w)
    for w in itertools.product(SHORT, repeat=5 if t else 4):
        yield "1" + "".join(w)
    for w in itertools.product(TAIL, repeat=6 if t else 5):
        yield "1.0" + "".join(w)


def token_case(case, st):
    check_string(case, st)


def casings(s):
    return {s, s.upper(), s.capitalize(), s[:-1] + s[-1:].upper()}


def structured(tier):
    t = tier != "quick"
    seps = ("", ".", "-", "_")
    nums = [("", ""), ("", "0"), ("", "12"), (".", "3"), ("-", "03"), ("_", "4"), ("-", "")]
    pres = [""] + [a + w + b + n for a in seps for l in LEVELS for w in (casings(l) if t else (l, l.upper())) for b, n in nums]
    posts = ["", "-0", "-12"] + [a + w + b + n for a in seps for l in ("post", "rev", "r") for w in (casings(l) if t else (l, l.upper())) for b, n in nums]
    devs = [""] + [a + w + b + n for a in seps for w in ("dev", "DEV", "Dev") for b, n in nums]
    locals_ = ["", "+abc", "+ABC.1", "+01-a_2", "+0", "+a.b-c_d", "+1A", "+", "+a.", "+a..b", "+é"]
    heads = ["1", "v1.0", "V01.2", "0!0", "3!1.0.0.0", "00!2", " 1.10 ", "\t1\n", "1.", ".1", "!1", "v 1", "1!", "\u00a01", "1!v2"]
    few_pre = ["", "a", "RC1", "-beta_2", ".c-", "_preview.05"]
    few_post = ["", "-3", ".post", "R4", "_rev-05", "-post-"]
    few_dev = ["", ".dev", "DEV7", "-dev.02", "_dev-"]
    for a in pres:
        for p in few_post:
            for d in few_dev:
                yield "1" + a + p + d
    for p in posts:
        for a in few_pre:
            for d in few_dev:
                yield "1.2" + a + p + d
    for d in devs:
        for a in few_pre:
            for p in few_post:
                yield "0.1" + a + p + d
    for h in heads:
        for a in few_pre:
            for p in few_post:
                for d in few_dev:
                    for l in locals_:
                        yield h + a + p + d + l
                        yield h + a + p + d + l + " \n"


def character_case(case, st):
    """Every character of the Basic Multilingual Plane and one beyond, at each place of a version."""
    for place in ("1{}0", "1.0{}", "{}1.0", "1.0a{}", "1.0+{}", "1.0+a{}b", "1.0{}1", "1{}!0", "1.0+{}1"):
        for c in range(case, case + 256):
            check_string(place.replace("{}", chr(c)), st)
            st.transitions += 1
    # words with one letter replaced by something that only folds to it
    if case in (0x100, 0x2100):
        for w in ("1.0po\u017ft1", "1.0\u017f", "1.0rc1.po\u017ft2", "1.0+\u212a", "1.0+a\u0130", "1.0+\u0131", "1.0+\u017f"):
            check_string(w, st)


def character_cases(tier):
    for block in range(0, 0x3000 if tier == "quick" else 0x20000, 256):
        if not 0xd800 <= block < 0xe000:
            yield block
    yield from (0xd800, 0xff00, 0x1d700, 0x1f100)


GOOD = {"epoch": (None, 0, 1, 12), "release": ((0,), (1,), (1, 2, 3), (1, 0, 0), (0, 0), (0, 1), (2, 0, 3, 0)), "release_level": (None, "final", "alpha", "beta", "rc"),
        "serial": (None, 0, 1, 23), "post": (None, 0, 7), "dev": (None, 0, 7), "local": (None, ("a",), ("1", "b2"), ("ABC", "01"), ("x",) * 3)}
BAD = {"epoch": (-1, "1", 1.0, (1,)), "release": (None, (), [1], "1.0", 1, (1, -1), (-1,), ("1",), (1, None), (1.0,), (1, 2, -3, 0)),
       "release_level": ("", "Alpha", "c", "gamma", 1, "candidate"), "serial": (-1, "1", 1.5), "post": (-1, "1", 1.5, ()), "dev": (-1, "0", 2.5),
       "local": ((), "abc", [], ["a"], ("",), ("a", ""), ("a.b",), ("a-b",), ("a b",), ("a\n",), ("\u00e9",), (1,), ("+",), (None,), ("a", "b\n"), ("\u017f",), ("\u0661",))}


def keyword_case(case, st):
    f = dict(zip(FIELDS, case))
    full = dict(f)
    if full["release_level"] is None:
        full["release_level"] = "final"
    args = {k: v for k, v in f.items() if v is not None}
    bad = None
    if full["release_level"] == "final" and full["serial"]:
        bad = "a serial of a final release"
    for args in (args, f):
        got = outcome(lambda: Version(**args))
        if bad:
            expect(got, ('exc', 'ValueError'), f"{args!r}: {bad}")
            return
        if got[0] != 'ret':
            fail(f"{args!r} was refused with {got[1]}")
        v = got[1]
        r = list(full["release"])
        while len(r) > 1 and not r[-1]:
            r.pop()
        want = dict(full, release=tuple(r))
        if want["local"] is not None:
            want["local"] = tuple(str(int(x)) if x.isdigit() else x.lower() for x in want["local"])
        check_version(v, want, repr(args))
        roundtrip(v, want, repr(args))
        for name in FIELDS:
            if outcome(setattr, v, name, 1)[0] != 'exc':
                fail(f"{name} can be assigned")


def keyword_cases(tier):
    return itertools.product(*(GOOD[k] for k in FIELDS))


def bad_keyword_case(case, st):
    name, value, others = case
    args = dict({"release": (1, 2)}, **{k: GOOD[k][-2] if k != "release" else (1, 2) for k in others})
    if args.get("release_level") is None:
        args.pop("serial", None)
    args[name] = value
    expect(outcome(lambda: Version(**args)), ('exc', 'ValueError'), f"Version(**{args!r})")


def bad_keyword_cases(tier):
    for name in FIELDS:
        for value in BAD[name]:
            for n in range(4 if tier == "quick" else 7):
                for others in itertools.combinations([f for f in FIELDS if f != name], n):
                    yield (name, value, others)


def misc_case(case, st):
    for name in FIELDS:
        for v in GOOD[name]:
            want = ('ret', Version("1.2")) if v is None else ('exc', 'ValueError')
            expect(outcome(lambda: Version("1.2", **{name: v})), want, f"a string with {name}={v!r}")
    for x in (1, 1.5, b"1.2", ("1", "2"), ["1"], True, object(), 0, 0.0, False, (), b"", Version("1.2")):
        expect(outcome(Version, x), ('exc', 'ValueError'), f"Version({x!r})")
    expect(outcome(Version), ('exc', 'ValueError'), "Version()")
    # (contradictory even if it's illegal)
    for name in FIELDS:
        for v in BAD[name]:
            if v is not None:
                expect(outcome(lambda: Version("1.2", **{name: v})), ('exc', 'ValueError'), f"a string with {name}={v!r}")
    expect(outcome(lambda: Version(None)), ('exc', 'ValueError'), "Version(None)")
    for k in FIELDS:
        if k != "release":
            expect(outcome(lambda: Version(**{k: GOOD[k][-1]})), ('exc', 'ValueError'), f"only {k}")
    i = sys.version_info
    v = Version(i)
    f = {"epoch": 0, "release": tuple(i[:3]), "release_level": {"candidate": "rc"}.get(i.releaselevel, i.releaselevel), "serial": i.serial if i.releaselevel != "final" else 0, "post": None, "dev": None, "local": None}
    r = list(f["release"])
    while len(r) > 1 and not r[-1]:
        r.pop()
    f["release"] = tuple(r)
    check_version(v, f, "sys.version_info")
    class S(str):
        pass
    expect(Version(S("1.2")), Version("1.2"), "a str subclass")
    expect(str(Version("9" * 400 + ".1a" + "8" * 400)), "9" * 400 + ".1a" + "8" * 400, "long numbers")


def python_cases(tier):
    for numbers in ((3, 14, 0), (3, 0, 0), (4, 13, 2), (3, 10, 20)):
        for level in ("alpha", "beta", "candidate", "final"):
            for serial in ((0, 1, 2, 5, 12) if level != "final" else (0,)):
                yield (*numbers, level, serial)


def python_case(case, st):
    "the version information of any Python"
    class version_info(tuple):
        major, minor, micro, releaselevel, serial = (property(lambda self, i=i: self[i]) for i in range(5))

    def f():
        i = sys.version_info = version_info(case)
        for name in [m for m in sys.modules if m == "big" or m.startswith("big.")]:
            del sys.modules[name]
        v = importlib.import_module("big.version").Version(i)
        return [getattr(v, f) for f in FIELDS] + [str(v)]
    r = list(case[:3])
    while len(r) > 1 and not r[-1]:
        r.pop()
    level = {"candidate": "rc"}.get(case[3], case[3])
    text = {"alpha": "a", "beta": "b", "rc": "rc", "final": ""}[level]
    got = in_child(f)
    want = [0, tuple(r), level, case[4], None, None, None, ".".join(map(str, r)) + (text + str(case[4]) if text else "")]
    got = [0 if x is None and k in (0, 3) else x for k, x in enumerate(got)]
    expect(got, want, f"Version of a Python {case}")


def size_cases(tier):
    "long versions: many release numbers or local segments, long numbers"
    most = 24 if tier == "quick" else 64
    for n in range(1, most + 1):
        for tail in ("", "a1", ".post2", ".dev3", "+x"):
            yield ".".join(str(i % 12 + 1) for i in range(n)) + tail
            yield ".".join(["0"] * n) + tail
            yield ".".join(["0"] * n) + ".1" + tail
            yield "1" + ".0" * n + tail
            yield "1" + ".0" * n + ".2" + ".0" * n + tail
        for c in (".", "-", "_"):
            yield "1+" + c.join(f"a{i}" for i in range(n))
            yield "1+" + c.join(f"{i:03}" for i in range(n))
        for digit in "019":
            d = digit * n
            for form in ("{}", "1.{}", "{}!1", "1a{}", "1.post{}", "1-{}", "1.dev{}", "1+{}", "1+a{}b", "1+a.{}"):
                yield form.format(d)
        yield " " * n + "1.0" + "\n" * n


PARTS = [
    Part("sizes", size_cases, token_case, bound="up to 24 (thorough 64) release numbers, local segments, digits and white space characters"),
    Part("misc", lambda tier: [0], misc_case, bound="string together with keywords, other types, sys.version_info"),
    Part("pythons", python_cases, python_case, bound="the version information of Pythons of every release level"),
    Part("bad keywords", bad_keyword_cases, bad_keyword_case, bound="every illegal value of every field together with every subset of <= 3 (thorough: all) other fields"),
    Part("keywords", keyword_cases, keyword_case, bound="the full product of legal field values"),
    Part("structured", structured, token_case, bound="all spellings and separators of each marker times representatives of the others"),
    Part("characters", character_cases, character_case, bound="every code point below U+3000 (thorough: U+20000) in 9 places of a version"),
    Part("tokens", token_cases, token_case, bound="all sequences of <= 3 of 25 tokens, 4 of 14, 5 of 9 after a release (thorough one more)"),
]
