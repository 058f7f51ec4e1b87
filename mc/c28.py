"""C28: number conversions against int() and float() themselves."""
import decimal
import fractions
import itertools
import math
from .core import Part, fail, expect, outcome
from big.builtin import try_int, try_float, get_int, get_float, get_int_or_float

ASSUMPTIONS = ["int() and float() are the conversions meant; values whose conversion raises something that isn't an Exception are excluded"]

LETTERS = {"quick": (6, "01+-.e_ n"), "thorough": (7, "019+-.e_ n")}
WORDS = ["inf", "nan", "infinity", "-inf", "+nan", "Infinity", "1e400", "-1e400", "1e308", "1e309", "1e-400", "9" * 400, "9" * 4300, "9" * 4301, "9" * 5000, "1" * 400 + ".0", "0x10", "0b1", "1_000", "1__0", "_1", "1_",
         "\u0661\u0662", "\u0661.\u0662", "\uff11", "\u00b2", "\xa01\xa0", "1\x00", "\n1\n", "1.0", "1e22", "1e23", "123456789012345678901.0", "True", "None", "1j", "1/2", "0.1", "-0", "-0.0", "+1", "--1", "1e5", "1E5", "1.5e1", "15e-1", "150e-1"]


def forms(s):
    yield s
    try:
        b = s.encode("ascii")
    except UnicodeEncodeError:
        return
    yield b
    yield bytearray(b)


class WeirdEq:
    "a default that can't be compared"
    def __eq__(self, other): raise ZeroDivisionError("==")
    def __ne__(self, other): raise ZeroDivisionError("!=")
    __hash__ = None
    def __repr__(self): return "WeirdEq()"


class EqAll:
    "a default equal to everything"
    def __eq__(self, other): return True
    def __ne__(self, other): return False
    __hash__ = None
    def __repr__(self): return "EqAll()"


class NoBool:
    "a default (like an array's) that compares to something without a truth value"
    class R:
        def __bool__(self): raise ValueError("ambiguous")
    def __eq__(self, other): return NoBool.R()
    def __ne__(self, other): return NoBool.R()
    __hash__ = None
    def __repr__(self): return "NoBool()"


DEFAULTS = [None, 0, 1, -1, "", "x", False, float("nan"), object(), [], (), {}, WeirdEq(), EqAll(), NoBool(), NotImplemented, ...]


def same(a, b):
    if a is b:
        return True
    return type(a) is type(b) and type(a) in (int, float) and (repr(a) == repr(b) if type(a) is float else a == b)


def try_convert(f, o):
    try:
        return True, f(o)
    except Exception:
        return False, None


def combined(o):
    "(True, number) or (False, None)"
    if isinstance(o, int):
        return True, o
    if isinstance(o, float):
        f = o
    else:
        ok, i = try_convert(int, o)
        if ok:
            return True, i
        ok, f = try_convert(float, o)
        if not ok:
            return False, None
    # the integer f is, if it is one
    if math.isinf(f) or math.isnan(f) or f != math.floor(f):
        return True, f
    return True, int(f)


def one(o, defaults, what=None):
    what = what or repr(o)[:60]
    n = 0
    for conv, tr, get in ((int, try_int, get_int), (float, try_float, get_float), (None, None, get_int_or_float)):
        ok, value = try_convert(conv, o) if conv else combined(o)
        if tr:
            got = outcome(tr, o)
            if got != ('ret', ok) or type(got[1]) is not bool:
                fail(f"{tr.__name__}({what}): got {got}, expected {ok}")
        got = outcome(get, o)
        want = value if ok else o
        if got[0] != 'ret' or not same(got[1], want):
            fail(f"{get.__name__}({what}): got {got}, expected {want!r}")
        for i, d in enumerate(defaults):
            got = outcome(get, o, d) if i % 2 else outcome(get, o, default=d)
            want = value if ok else d
            if got[0] != 'ret' or not same(got[1], want):
                fail(f"{get.__name__}({what}, {d!r}): got {got}, expected {want!r}")
        n += 2 + len(defaults)
    return n


def string_cases(tier):
    n, letters = LETTERS[tier]
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


def string_check(s, st):
    for v in forms(s):
        st.transitions += one(v, DEFAULTS[:3])


def word_check(case, st):
    w, pre, post = case
    for v in forms(pre + WORDS[w] + post):
        st.transitions += one(v, DEFAULTS)


def word_cases(tier):
    for i in range(len(WORDS)):
        for pre in ("", " ", "-", "x"):
            for post in ("", "\t", "0", ".0", "e1"):
                yield (i, pre, post)


# ---------------------------------------------------------------- numbers and objects

class IntSub(int): pass
class FloatSub(float): pass
class StrSub(str): pass


class FloatBad(float):
    "a float whose own conversion to int fails"
    def __int__(self): raise ValueError("no")
    def __trunc__(self): raise ValueError("no")


def raises(e):
    def method(self, *a):
        raise e
    return method


EXCEPTIONS = [TypeError("t"), ValueError("v"), OverflowError("o"), ZeroDivisionError("z"), AttributeError("a"), KeyError("k"), RuntimeError("r"), RecursionError("x"), AssertionError(), NotImplementedError(), UnicodeDecodeError("ascii", b"", 0, 1, "u"), decimal.InvalidOperation(), OSError("os"), StopIteration(), MemoryError("m"), Exception("e"), ArithmeticError()]


def make(name, **methods):
    return type(name, (), methods)


def objects():
    out = []
    for i in (0, 1, -1, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 1023, 2 ** 1024, -2 ** 1024, 10 ** 400, 10 ** 5000, True, False, IntSub(5), IntSub(10 ** 400)):
        out.append(("int", i))
    for f in (0.0, -0.0, 0.5, -0.5, 1.0, 1.5, -2.0, 1e22, 1e23, 1e308, 2.0 ** 1023, 5e-324, 1 - 2 ** -53, 2.0 ** 52 + 0.5, 2.0 ** 53, float("inf"), float("-inf"), float("nan"), FloatSub(1.0), FloatSub(1.5), FloatSub("inf"), FloatSub("nan")):
        out.append(("float", f))
    D, F = decimal.Decimal, fractions.Fraction
    for v in (D(1), D("1.5"), D("inf"), D("-inf"), D("nan"), D("snan"), D("1e400"), D("1e-400"), F(1), F(7, 2), F(10 ** 400), F(10 ** 400, 3), 1j, complex(1, 0)):
        out.append(("number", v))
    for v in (None, (), [], {}, set(), [1], (1,), {1: 1}, "", b"", bytearray(), memoryview(b"1"), memoryview(b"x"), object(), object, int, float, range(1), StrSub("1"), StrSub("1.0"), StrSub("x"), NotImplemented, ..., lambda: 1, Exception(), slice(1)):
        out.append(("object", v))
    for e in EXCEPTIONS:
        n = type(e).__name__
        out.append(("int fails", make("IntFails" + n, __int__=raises(e))()))
        out.append(("float fails", make("FloatFails" + n, __float__=raises(e))()))
        out.append(("int fails, float works", make("IntFailsFloat" + n, __int__=raises(e), __float__=lambda self: 2.0)()))
        out.append(("int fails, float works", make("IntFailsHalf" + n, __int__=raises(e), __float__=lambda self: 2.5)()))
        out.append(("int works, float fails", make("FloatFailsInt" + n, __int__=lambda self: 3, __float__=raises(e))()))
        out.append(("both fail", make("BothFail" + n, __int__=raises(e), __float__=raises(e))()))
        out.append(("index fails", make("IndexFails" + n, __index__=raises(e))()))
        out.append(("bool fails", make("BoolFails" + n, __bool__=raises(e), __eq__=raises(e), __hash__=None)()))
    for r in (None, "1", 1.0, True, IntSub(4)):
        out.append(("__int__ returns", make("IntReturns", __int__=lambda self, r=r: r)()))
        out.append(("__index__ returns", make("IndexReturns", __index__=lambda self, r=r: r)()))
    for r in (None, "1", 1, 1.0, float("inf"), float("nan"), FloatSub(2.0)):
        out.append(("__float__ returns", make("FloatReturns", __float__=lambda self, r=r: r)()))
    out.append(("weird", WeirdEq()))
    out.append(("weird", EqAll()))
    out.append(("weird", NoBool()))
    return out


OBJECTS = objects()


def object_check(case, st):
    i, lo = case
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind, o = OBJECTS[i]
        try:
            what = f"{kind}: {o!r}"[:80]
        except Exception:
            what = f"{kind} {type(o).__name__}"
        st.transitions += one(o, DEFAULTS[lo:lo + 1], what)


def float_cases(tier):
    "mantissa and exponent grids: whole or not, around every power of two"
    for e in range(-1075, 1024):
        yield e


def float_check(e, st):
    for m in (1.0, 1.5, 1 + 2.0 ** -52, 2 - 2.0 ** -52, 1.25):
        try:
            f = math.ldexp(m, e)
        except OverflowError:
            continue
        for v in (f, -f, FloatSub(f), repr(f)):
            st.transitions += one(v, ())


def bad_float_check(case, st):
    "a float that won't convert to int is no integer: never an exception"
    got = outcome(get_int_or_float, FloatBad(2.0))
    if got[0] != 'ret' or got[1] != 2.0:
        fail(f"get_int_or_float of a float whose __int__ fails: got {got}")


PARTS = [
    Part("strings", string_cases, string_check, bound="all strings up to length 6 over 9 characters [7 over 10], as str, bytes, bytearray, with three defaults and none"),
    Part("special strings", word_cases, word_check, bound="44 words (infinities, huge, underscores, non-ASCII digits, digit limit) with 4 prefixes and 5 suffixes, 17 defaults"),
    Part("objects", lambda tier: [(i, d) for i in range(len(OBJECTS)) for d in range(len(DEFAULTS))], object_check, bound="over 200 numbers, containers and objects (conversions failing with 17 exceptions or returning other types) x 17 defaults, some incomparable"),
    Part("floats", float_cases, float_check, bound="every binary exponent x 5 mantissas x sign, subclass, repr"),
    Part("bad floats", lambda tier: [0], bad_float_check),
]
