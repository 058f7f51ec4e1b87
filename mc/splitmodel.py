"""Reference model of multisplit and friends: a scanner that takes the longest separator at each place."""
import itertools

KEEP = (False, True, "ALTERNATING", "AS_PAIRS")
STRIP = (False, True, "LEFT", "RIGHT", "PROGRESSIVE")


def strip_left(s, seps):
    "seps sorted longest first; index of the first character left"
    i = 0
    while True:
        for p in seps:
            if s.startswith(p, i):
                i += len(p)
                break
        else:
            return i


def strip_right(s, seps, lo=0):
    j = len(s)
    while True:
        for p in seps:
            if j - len(p) >= lo and s.endswith(p, lo, j):
                j -= len(p)
                break
        else:
            return j


def scan(s, seps, reverse):
    "the separators of s, one by one, in the order of the scan: [(start, end)]"
    found = []
    n = len(s)
    if not reverse:
        i = 0
        while i < n:
            for p in seps:
                if s.startswith(p, i):
                    found.append((i, i + len(p)))
                    i += len(p)
                    break
            else:
                i += 1
    else:
        j = n
        while j > 0:
            for p in seps:
                if s.endswith(p, 0, j):
                    found.append((j - len(p), j))
                    j -= len(p)
                    break
            else:
                j -= 1
    return found


def grouped(found, reverse):
    out = []
    for a, b in found:
        if out and not reverse and out[-1][1] == a:
            out[-1] = (out[-1][0], b)
        elif out and reverse and out[-1][0] == b:
            out[-1] = (a, out[-1][1])
        else:
            out.append((a, b))
    return out


class Model:
    """One string and one set of separators; split() for every option."""
    def __init__(self, s, seps):
        self.s = s
        self.empty = s[:0]
        self.seps = sorted(seps, key=len, reverse=True)
        self.cache = {}

    def cuts(self, lo, hi, reverse, separate):
        key = (lo, hi, reverse, separate)
        if key not in self.cache:
            found = scan(self.s[lo:hi], self.seps, reverse)
            if not separate:
                found = grouped(found, reverse)
            self.cache[key] = [(a + lo, b + lo) for a, b in found]
        return self.cache[key]

    def bounds(self, strip):
        "what multistrip leaves"
        key = strip
        if key not in self.cache:
            lo, hi = 0, len(self.s)
            if strip and strip != "RIGHT":
                lo = strip_left(self.s, self.seps)
            if strip and strip != "LEFT":
                hi = strip_right(self.s, self.seps, lo)
            self.cache[key] = (lo, hi)
        return self.cache[key]

    def split(self, keep, maxsplit, reverse, separate, strip):
        s = self.s
        if maxsplit is None or maxsplit < 0:
            maxsplit = None
        progressive = False
        if strip == "PROGRESSIVE":
            if maxsplit is None:
                strip = True
            else:
                progressive = True
                strip = "RIGHT" if reverse else "LEFT"
        lo, hi = self.bounds(strip)
        cuts = self.cuts(lo, hi, reverse, separate) if lo < hi else []
        complete = maxsplit is None or len(cuts) <= maxsplit
        if not complete:
            cuts = cuts[:maxsplit]
        if progressive and complete and maxsplit:
            # the far side: drop separators (and the nothing around them) at the end
            cuts = list(cuts)
            if reverse:
                while cuts and cuts[-1][0] == lo:
                    lo = cuts.pop()[1]
            else:
                while cuts and cuts[-1][1] == hi:
                    hi = cuts.pop()[0]
        if reverse:
            cuts = cuts[::-1]
        texts = []
        seps = []
        i = lo
        for a, b in cuts:
            texts.append(s[i:a])
            seps.append(s[a:b])
            i = b
        texts.append(s[i:hi])
        if not keep:
            return texts
        if keep == "ALTERNATING":
            out = [texts[0]]
            for p, t in zip(seps, texts[1:]):
                out += [p, t]
            return out
        pairs = list(zip(texts, seps + [self.empty]))
        if keep == "AS_PAIRS":
            return pairs
        return [t + p for t, p in pairs]


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield "".join(w)


def pool(alphabet, longest):
    return list(words(alphabet, 1, longest))


def subsets(items, sizes):
    for n in sizes:
        yield from itertools.combinations(items, n)
