"""C12: the order of versions, on every pair of a product space of fields, against ranks from an independent key."""
import functools
import itertools
from .core import Part, fail, expect, outcome
from big.version import Version

ASSUMPTIONS = ["a development release of a final version sorts between rc and final, as the project's own test suite fixes it (PEP 440 would put it before alpha)"]

PHASE = {"alpha": 0, "beta": 1, "rc": 2, "final": 3}


def cmp_local(a, b):
    "PEP 440 local versions: no local first, then segment by segment, numbers above letters, longer after its prefix"
    if a is None or b is None:
        return (a is not None) - (b is not None)
    for x, y in itertools.zip_longest(a, b):
        if x is None:
            return -1
        if y is None:
            return 1
        x, y = x.lower(), y.lower()
        nx, ny = x.isdigit(), y.isdigit()
        if nx != ny:
            return 1 if nx else -1
        if nx:
            x, y = int(x), int(y)
        if x != y:
            return -1 if x < y else 1
    return 0


def cmp_fields(a, b):
    def sign(x, y):
        return (x > y) - (x < y)
    c = sign(a["epoch"] or 0, b["epoch"] or 0)
    if c:
        return c
    for x, y in itertools.zip_longest(a["release"], b["release"], fillvalue=0):
        if x != y:
            return sign(x, y)
    c = sign((PHASE[a["release_level"] or "final"], a["serial"] or 0), (PHASE[b["release_level"] or "final"], b["serial"] or 0))
    if c:
        return c
    # no post < post0 < post1
    c = sign(-1 if a["post"] is None else a["post"], -1 if b["post"] is None else b["post"])
    if c:
        return c
    if a["dev"] != b["dev"]:
        if a["dev"] is None:
            return 1
        if b["dev"] is None:
            return -1
        return sign(a["dev"], b["dev"])
    return cmp_local(a["local"], b["local"])


FIELDS = ("epoch", "release", "release_level", "serial", "post", "dev", "local")

SPELL = {"alpha": ("a", "alpha", "ALPHA"), "beta": ("b", "beta", "B"), "rc": ("rc", "c", "pre", "Preview"), "final": ("",)}


def spelled(f, style):
    "the version as a string; style varies spelling"
    s = "" if f["epoch"] is None else f"{f['epoch']}!"
    s = ("v" if style == 2 else "") + s
    s += ".".join(("0" if style == 1 else "") + str(n) for n in f["release"])
    level = f["release_level"] or "final"
    if level != "final":
        names = SPELL[level]
        s += ("", ".", "-")[style] + names[style % len(names)]
        if f["serial"] is not None:
            s += ("", "", "_")[style] + str(f["serial"])
    if f["post"] is not None:
        if style == 1 and level != "final" and f["serial"] is None:
            style = 0       # "1a-2" is serial 2
        s += (f".post{f['post']}", f"-{f['post']}", f"_R{f['post']}" if f["post"] else "rev")[style]
    if f["dev"] is not None:
        s += (f".dev{f['dev']}", f"DEV{f['dev']}" if f["dev"] else "dev", f"-dev-{f['dev']}")[style]
    if f["local"] is not None:
        s += "+" + (".", "-", "_")[style].join(f["local"])
    return s


def fields(tier):
    t = tier != "quick"
    epochs = (None, 0, 1)
    releases = ((0,), (1,), (1, 0), (1, 1), (1, 0, 1), (2,), (10,))
    pres = ((None, None), ("final", 0), ("alpha", None), ("alpha", 0), ("alpha", 1), ("beta", None), ("beta", 10), ("beta", 2), ("rc", 0), ("rc", 3))
    posts = (None, 0, 1, 10) if t else (None, 0, 2)
    devs = (None, 0, 1, 10) if t else (None, 0, 2)
    locals_ = (None, ("abc",), ("1",), ("abc", "1"), ("ABC",), ("abc", "b"), ("10",), ("01",), ("a", "b", "c"), ("1a",), ("9",), ("abc", "9"), ("abc", "10"))
    if not t:
        locals_ = locals_[:5] + locals_[6:8] + locals_[10:11]
    for e, r, (l, s), p, d, lo in itertools.product(epochs, releases, pres, posts, devs, locals_):
        if not t and e is None and lo not in (None, ("1",)):
            continue
        yield dict(zip(FIELDS, (e, r, l, s, p, d, lo)))


LARGE = [2 ** k + d for k in (8, 15, 16, 31, 32, 53, 63, 64) for d in (-1, 0, 1)] + [10 ** 18, 10 ** 309, 10 ** 309 + 1]


def large_fields():
    "numbers as large as you like in every field"
    base = dict(zip(FIELDS, (None, (1,), "final", None, None, None, None)))
    yield base
    for n in LARGE:
        yield dict(base, epoch=n)
        for r in ((n,), (1, n), (1, 0, n), (n, n)):
            yield dict(base, release=r)
        for level in ("alpha", "rc"):
            yield dict(base, release_level=level, serial=n)
        for level, serial in (("final", None), ("beta", 1)):
            yield dict(base, release_level=level, serial=serial, post=n)
            yield dict(base, release_level=level, serial=serial, dev=n)
            yield dict(base, release_level=level, serial=serial, post=n, dev=n)
        yield dict(base, local=(str(n),))
        yield dict(base, local=("a", str(n)))
    # many release numbers and local segments
    for n in range(1, 12):
        for last in (0, 1, 2):
            yield dict(base, release=(1,) * n + (last,))
            yield dict(base, local=("1",) * n + (str(last),))
            yield dict(base, local=("a",) * n + (str(last),))


POOL = {}
HAS_LE = Version.__le__ is not object.__le__ and Version.__ge__ is not object.__ge__


def pool(tier):
    """[(rank, version, hash)], the versions built by keyword and from differently spelled strings."""
    if tier not in POOL:
        key = functools.cmp_to_key(cmp_fields)
        fs = sorted(large_fields() if tier == "large" else fields(tier), key=key)
        out = []
        rank = 0
        for i, f in enumerate(fs):
            if i and cmp_fields(fs[i - 1], f) != 0:
                rank += 1
            style = i % 4
            if style == 3:
                got = outcome(lambda: Version(**f))
            else:
                got = outcome(Version, spelled(f, style))
            if got[0] != 'ret':
                fail(f"{f!r} (spelled {spelled(f, min(style, 2))!r}) was refused with {got[1]}")
            out.append((rank, got[1], f))
        POOL[tier] = out
    return POOL[tier]


def row(case, st):
    """One version against all of the pool."""
    tier, i = case
    p = pool(tier)
    rank, v, f = p[i]
    h = hash(v)
    for r, w, g in p:
        lt = v < w
        if lt is not (rank < r):
            fail(f"{f!r} < {g!r}: got {lt!r}, expected {rank < r!r}")
        gt = v > w
        if gt is not (rank > r):
            fail(f"{f!r} > {g!r}: got {gt!r}, expected {rank > r!r}")
        # <= and >= aren't promised, but if they are there they have to agree
        le, ge = (v <= w, v >= w) if HAS_LE else (rank <= r, rank >= r)
        if le is not (rank <= r) or ge is not (rank >= r):
            fail(f"{f!r} and {g!r}: <= is {le!r}, >= is {ge!r}, expected {rank <= r!r}, {rank >= r!r}")
        eq = v == w
        if eq is not (rank == r):
            fail(f"{f!r} == {g!r}: got {eq!r}, expected {rank == r!r}")
        if (v != w) is eq:
            fail(f"{f!r} != {g!r}: agrees with ==")
        if eq and hash(w) != h:
            fail(f"{f!r} and {g!r} are equal but their hashes differ")
    st.transitions += len(p) - 1


def rows(tier):
    for i in range(len(pool(tier))):
        yield (tier, i)


# sorting every permutation of small multisets
SMALL = ["1.0.dev1", "1.0a1", "1.0rc1", "1.0", "1.0.0", "1", "1.0.post1", "1.0+a", "1.0+1", "0!1.0", "1!0", "1.0a1.dev1", "1.0.post1.dev1", "v1.0+1", "1.0+9", "1.0+10"]


def sort_case(case, st):
    vs = [Version(s) for s in case]
    got = sorted(vs)
    for a, b in zip(got, got[1:]):
        if b < a:
            fail(f"sorting {case!r} gave {got!r}")
    want = None
    for perm in itertools.permutations(vs):
        g = sorted(perm)
        if want is None:
            want = g
        expect(g, want, f"sorting a permutation {perm!r}")
        expect([min(perm), max(perm)], [want[0], want[-1]], "min and max")
        st.transitions += 1
    expect(len(set(vs)), len([x for i, x in enumerate(got) if not i or got[i - 1] < x]), "distinct versions in a set")


def sort_cases(tier):
    for n in (2, 3, 4):
        if n == 4 and tier == "quick":
            yield from itertools.combinations(SMALL, 4)
        else:
            yield from itertools.combinations(SMALL, n)


def other_case(case, st):
    v = Version("1.2")
    class E:
        __hash__ = None
    for x in (None, 1, 1.2, "1.2", b"1.2", (1, 2), [1, 2], E(), Version, object(), float("nan"), {}, v._tuple if hasattr(v, "_tuple") else (1,)):
        for a, b in ((v, x), (x, v)):
            expect(outcome(lambda: a == b), ('ret', False), f"{a!r} == {b!r}")
            expect(outcome(lambda: a != b), ('ret', True), f"{a!r} != {b!r}")
            expect(outcome(lambda: a < b), ('exc', 'TypeError'), f"{a!r} < {b!r}")
            expect(outcome(lambda: a > b), ('exc', 'TypeError'), f"{a!r} > {b!r}")
            expect(outcome(lambda: a <= b), ('exc', 'TypeError'), f"{a!r} <= {b!r}")
            expect(outcome(lambda: a >= b), ('exc', 'TypeError'), f"{a!r} >= {b!r}")
    class Sub(Version):
        pass
    expect((Sub("1.2") == v, v == Sub("1.2.0"), v < Sub("1.3"), Sub("1.1") < v, hash(Sub("1.2")) == hash(v)), (True,) * 5, "subclass")


PARTS = [
    Part("others", lambda tier: [0], other_case, bound="comparison with values of other types, both ways round"),
    Part("sorting", sort_cases, sort_case, bound="all permutations of all subsets of <= 4 of 16 versions"),
    Part("large", lambda tier: rows("large"), row, bound="every ordered pair of versions with numbers of up to 310 digits (around the powers of two) in one or two fields, or with up to 12 release numbers or local segments"),
    Part("pairs", rows, row, bound="every ordered pair of a product of 3 epochs, 7 releases, 10 prereleases, posts, devs and local versions, in four ways of writing them"),
]
