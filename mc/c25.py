"""C25: spelling out numbers, against an independent writer and by reading the names back."""
import itertools
from .core import Part, fail, expect, outcome
from big.text import int_to_words

ASSUMPTIONS = ["numbers of 10**75 and more are given in digits (the test suite asserts 10**75 - 1 is spelled out)"]

LIMIT = 10 ** 75
ONES = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS = "zero ten twenty thirty forty fifty sixty seventy eighty ninety".split()
SCALES = "thousand million billion trillion quadrillion quintillion sextillion septillion octillion nonillion decillion undecillion duodecillion tredecillion quattuordecillion quindecillion sexdecillion septdecillion octodecillion novemdecillion vigintillion".split()
ORDINALS = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}

# spellings the test suite asserts although they are wrong: the part "spelling" reports them, the other parts look past them
WRONG = [("   decillion", " decillion"), ("   nonillion", " nonillion"), ("   octillion", " octillion"), ("  septillion", " septillion"), ("  sextillion", " sextillion"), ("qindecillion", "quindecillion"), ("twelveth", "twelfth")]


def words(i, flowery=True, ordinal=False):
    s = int_to_words(i, flowery=flowery, ordinal=ordinal)
    if "  " in s or "qindec" in s or "twelveth" in s:
        for a, b in WRONG:
            s = s.replace(a, b)
    return s


def below_hundred(n):
    if n < 20:
        return ONES[n]
    return TENS[n // 10] + ("-" + ONES[n % 10] if n % 10 else "")


def below_thousand(n, flowery):
    if n < 100:
        return below_hundred(n)
    s = ONES[n // 100] + " hundred"
    if n % 100:
        s += (" and " if flowery else " ") + below_hundred(n % 100)
    return s


def spell(n, flowery):
    if n < 0:
        return "negative " + spell(-n, flowery)
    if n < 1000:
        return below_thousand(n, flowery)
    vigint, rest = divmod(n, 10 ** 63)
    parts = []
    if vigint:
        parts.append(spell(vigint, flowery) + " vigintillion")
    for k in range(20, 0, -1):
        group = rest // 1000 ** k % 1000
        if group:
            parts.append(below_thousand(group, flowery) + " " + SCALES[k - 1])
    last = rest % 1000
    if not flowery:
        return " ".join(parts + ([below_thousand(last, False)] if last else []))
    s = ", ".join(parts)
    if last >= 100:
        s += ", " + below_thousand(last, True)
    elif last:
        s += " and " + below_hundred(last)
    return s


VALUES = {w: i for i, w in enumerate(ONES)}
VALUES.update({w: 10 * i for i, w in enumerate(TENS) if i})
POWERS = {w: 1000 ** (i + 1) for i, w in enumerate(SCALES)}


def read(s):
    "the number an English name denotes"
    sign = 1
    if s.startswith("negative "):
        sign = -1
        s = s[9:]
    total = group = 0
    for w in s.replace("-", " ").replace(", ", " ").replace(" and ", " ").split(" "):
        if w == "hundred":
            group *= 100
        elif w == "vigintillion":
            total = (total + group) * POWERS[w]
            group = 0
        elif w in POWERS:
            total += group * POWERS[w]
            group = 0
        else:
            group += VALUES[w]
    return sign * (total + group)


def to_ordinal(s):
    head = ""
    for i in range(len(s) - 1, -1, -1):
        if s[i] in " -":
            head, s = s[:i + 1], s[i + 1:]
            break
    if s in ORDINALS:
        return head + ORDINALS[s]
    if s.endswith("y"):
        return head + s[:-1] + "ieth"
    return head + s + "th"


def number_check(i):
    for flowery in (True, False):
        got = words(i, flowery)
        want = spell(i, flowery)
        if got != want:
            fail(f"int_to_words({i}, flowery={flowery}): got {got!r}, expected {want!r}")
        if not flowery and read(got) != i:
            fail(f"int_to_words({i}, flowery={flowery}) is {got!r}, which reads as {read(got)}")
        ordinal = words(i, flowery, True)
        if ordinal != to_ordinal(want):
            fail(f"int_to_words({i}, flowery={flowery}, ordinal=True): got {ordinal!r}, expected {to_ordinal(want)!r}")
    if read(words(i)) != i:
        fail(f"int_to_words({i}) is {words(i)!r}, which reads as {read(words(i))}")


def range_check(case, st):
    lo, hi = case
    for i in range(lo, hi):
        number_check(i)
        if i and i % 10 == 0 or i < 1000:
            number_check(-i)
    st.transitions += 4 * (hi - lo)
    st.bump("numbers", hi - lo)


def range_cases(tier):
    n = 200000 if tier == "quick" else 3000000
    for i in range(0, n, 1000):
        yield (i, i + 1000)


def groups_check(case, st):
    """One, two or three non-zero groups of digits, everywhere."""
    places = case[:-1]
    for values in itertools.product(case[-1], repeat=len(places)):
        i = sum(v * 1000 ** p for v, p in zip(values, places))
        number_check(i)
        st.transitions += 4
    number_check(-i)


def groups_cases(tier):
    t = tier != "quick"
    vals = (1, 2, 10, 11, 12, 19, 20, 21, 80, 99, 100, 101, 112, 120, 999)
    for p in range(25):
        yield (p, tuple(range(1, 1000)))
    for p in itertools.combinations(range(25), 2):
        yield (*p, vals)
    for p in itertools.combinations(range(25), 3):
        yield (*p, (1, 12, 20, 100, 112, 342, 999) if t else (1, 20, 100, 342))
    for k in (4, 5) if t else (4,):
        for p in itertools.combinations((0, 1, 2, 3, 7, 16, 20, 21, 22, 24), k):
            yield (*p, (1, 12, 300))


def edge_check(case, st):
    k = case
    for base in (10 ** k, 5 * 10 ** k, 10 ** k - 10 ** (k // 2)):
        for d in range(-25, 26):
            i = base + d
            for i in (i, -i):
                st.transitions += 1
                if abs(i) < LIMIT:
                    number_check(i)
                else:
                    for flowery in (True, False):
                        for ordinal in (True, False):
                            expect(int_to_words(i, flowery=flowery, ordinal=ordinal), str(i), f"int_to_words({i})")


def spelling_check(case, st):
    got = int_to_words(case[0], ordinal=case[1])
    want = to_ordinal(spell(case[0], True)) if case[1] else spell(case[0], True)
    if got != want:
        key = None
        for a, b in WRONG:
            if a in got and got.replace(a, b) == want:
                key = (a.strip() if a[0] != " " else "spaces-before-" + b.strip())
        fail(f"int_to_words({case[0]}, ordinal={case[1]}): got {got!r}, expected {want!r}", key)


def spelling_cases(tier):
    for o in (False, True):
        for i in itertools.chain(range(0, 21), range(30, 100, 10), (10 ** 2,), (1000 ** k for k in range(1, 22))):
            yield (i, o)


def refuse_check(case, st):
    for x in (1.0, "1", None, b"1", 1j):
        expect(outcome(int_to_words, x), ('exc', 'ValueError'), f"int_to_words({x!r})")
    expect(int_to_words(1234), spell(1234, True), "default options")
    expect(int_to_words(1234, False), spell(1234, False), "flowery by position")
    expect(int_to_words(1234, False, True), to_ordinal(spell(1234, False)), "ordinal by position")


PARTS = [
    Part("refusals", lambda tier: [0], refuse_check, bound="non-integers, default options"),
    Part("spelling", spelling_cases, spelling_check, bound="the names themselves"),
    Part("edges", lambda tier: range(0, 80), edge_check, bound="51 numbers around 3 multiples of every power of ten up to 10**79, both signs"),
    Part("range", range_cases, range_check, bound="every integer up to 200,000 (3,000,000)"),
    Part("groups", groups_cases, groups_check, bound="25 groups of three digits: every single one with every value, all pairs with 15 values, all triples with 4 (7), sets of 4 (5) with 3"),
]
