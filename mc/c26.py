"""C26: timestamps, in several local time zones, over a grid of moments and every representation of each."""
import calendar
import os
import time
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction
from .core import Part, fail, expect, outcome
import big.time
from big.time import timestamp_human, timestamp_3339Z, datetime_set_timezone, datetime_ensure_timezone

ASSUMPTIONS = ["the C library's localtime is right about the local zone (TZ is set to POSIX rules, no zone database is read)",
               "moments whose local or UTC year is outside 1..9999 are excluded"]

ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+0530>-5:30", "GMT0BST,M3.5.0/1,M10.5.0",
         "GMT0", "GMT5", "UTC5", "<+1345>-13:45", "<-12>12", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
DAY = 86400


def days_from_civil(y, m, d):
    "days since 1970-01-01 in the proleptic Gregorian calendar"
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, d


def utc_text(sec, usec=None):
    days, rest = divmod(sec, DAY)
    y, m, d = civil_from_days(days)
    s = f"{y:04d}-{m:02d}-{d:02d}T{rest // 3600:02d}:{rest // 60 % 60:02d}:{rest % 60:02d}"
    return s + (f".{usec:06d}Z" if usec is not None else "Z")


def local_text(sec, usec=None):
    t = time.localtime(sec)
    s = f"{t.tm_year:04d}/{t.tm_mon:02d}/{t.tm_mday:02d} {t.tm_hour:02d}:{t.tm_min:02d}:{t.tm_sec:02d}"
    return s + (f".{usec:06d}" if usec is not None else "")


def set_zone(zone):
    if os.environ.get("TZ") != zone:
        os.environ["TZ"] = zone
        time.tzset()


class Falsy(tzinfo):
    "an ordinary time zone whose instances happen to be false"
    def utcoffset(self, d): return timedelta(hours=2)
    def dst(self, d): return timedelta(0)
    def tzname(self, d): return "F"
    def __len__(self): return 0


class Unknown(tzinfo):
    "a time zone that doesn't know: by definition, date-times in it are naive"
    def utcoffset(self, d): return None
    def dst(self, d): return None
    def tzname(self, d): return None


OFFSETS = [timedelta(0), timedelta(hours=5, minutes=45), timedelta(hours=-9, minutes=-30), timedelta(hours=14), timedelta(hours=-12), timedelta(seconds=-1), timedelta(hours=23, minutes=59, seconds=59)]
UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


def moments(tier):
    "seconds since the epoch"
    out = {0, 1, -1, 59, 60, 3599, 3600, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 1621925195, 1653802824}
    ys = [2, 99, 100, 999, 1000, 1582, 1583, 1600, 1752, 1899, 1900, 1901, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2021, 2023, 2024, 2037, 2038, 2099, 2100, 2400, 9998]
    for y in ys:
        for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (7, 1), (12, 31)):
            if (m, d) == (2, 29) and not calendar.isleap(y):
                continue
            z = days_from_civil(y, m, d) * DAY
            for s in (0, 1, 43200, DAY - 1):
                out.add(z + s)
    for y in (2021, 2024):
        # around every change of daylight-saving time of some zone
        for m, lo in ((3, 8), (3, 25), (4, 1), (10, 1), (10, 25), (11, 1)):
            z = days_from_civil(y, m, lo)
            z += (3 - z) % 7            # the Sunday; 1970-01-04 was one
            for q in range(-6 * 4, 36 * 4, 2 if tier == "quick" else 1):
                out.add(z * DAY + q * 900)
    if tier != "quick":
        for y in (2022, 2024):
            z = days_from_civil(y, 1, 1) * DAY
            for h in range(0, 366 * 24):
                out.add(z + h * 3600 + h % 3600)
    return sorted(out, key=lambda s: (abs(s - 1600000000), s))


GROUP = 40


def grid(tier):
    m = moments(tier)
    for i in range(0, len(m), GROUP):
        for zone in ZONES:
            yield (zone, m[i:i + GROUP])


WANT = [None, False, True, 0, 1]


def same(what, zone, got, want):
    if got != want:
        fail(f"in TZ={zone!r}, {what}: got {got!r}, expected {want!r}")


def both(t, zone, sec, usec, has_usec, what, human_ok=True):
    for w in WANT:
        u = usec if (has_usec if w is None else w) else None
        got = outcome(timestamp_3339Z, t, w)
        want = ('ret', utc_text(sec, u))
        if got != want and w is None and isinstance(t, float):
            want = ('ret', utc_text(sec))       # the part "default for floats" reports this
        if got != want:
            fail(f"in TZ={zone!r}, timestamp_3339Z({what}, {w}): got {got}, expected {want}")
        if human_ok:
            got = outcome(timestamp_human, t, w)
            want = ('ret', local_text(sec, u))
            if got != want:
                fail(f"in TZ={zone!r}, timestamp_human({what}, {w}): got {got}, expected {want}")
    return 2 * len(WANT)


def round_half_even(f):
    return round(f)


def grid_check(case, st):
    zone, seconds = case
    set_zone(zone)
    n = 0
    for sec in seconds:
        year = time.gmtime(sec).tm_year
        human_ok = year >= 1001
        for usec in (0, 1, 500000, 999999):
            exact = EPOCH + timedelta(seconds=sec, microseconds=usec)
            # seconds
            if usec == 0:
                n += both(sec, zone, sec, 0, False, f"{sec}", human_ok)
            f = sec + usec / 1000000
            us = round_half_even(Fraction(f) * 1000000)
            if abs(us - (sec * 1000000 + usec)) > 64:
                fail("harness: float is too imprecise")
            # the nearest microsecond, give or take one where the conversion of the date-time module rounds differently
            d = datetime.fromtimestamp(f, UTC)
            us2 = (d - EPOCH) // timedelta(microseconds=1)
            if abs(us2 - us) <= 1:
                us = us2
            n += both(f, zone, us // 1000000, us % 1000000, True, repr(f), human_ok)
            # aware date-times
            for off in OFFSETS:
                t = exact.astimezone(timezone(off))
                n += both(t, zone, sec, usec, True, repr(t), human_ok)
            t = exact.astimezone(Falsy())
            n += both(t, zone, sec, usec, True, "date-time with a time zone that is false", human_ok)
            # naive local date-times
            lt = time.localtime(sec)
            t = datetime(lt.tm_year, lt.tm_mon, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec, usec)
            for fold in (0, 1):
                t2 = t.replace(fold=fold)
                if t2.replace(microsecond=0).timestamp() == sec:
                    break
            else:
                fail(f"harness: in TZ={zone}, no local time for {sec}")
            n += both(t2, zone, sec, usec, True, repr(t2), human_ok)
            t3 = t2.replace(tzinfo=Unknown())
            n += both(t3, zone, sec, usec, True, "date-time whose time zone doesn't know its offset", human_ok)
        # time tuples
        n += both(time.gmtime(sec), zone, sec, 0, False, f"time.gmtime({sec})", human_ok)
        n += both(time.localtime(sec), zone, sec, 0, False, f"time.localtime({sec})", human_ok)
        if year >= 1001:
            s = utc_text(sec)
            for name in ("UTC", "GMT"):
                if name in time.tzname and zone not in ("UTC0", "GMT0"):
                    continue            # then it's the name of a local time
                t = time.strptime(s[:-1] + name, "%Y-%m-%dT%H:%M:%S%Z")
                n += both(t, zone, sec, 0, False, f"time.strptime of {s[:-1] + ' ' + name}")
            for hours in (0, 3, -8):
                s = utc_text(sec + 3600 * hours)[:-1] + f"{hours:+03d}00"
                t = time.strptime(s, "%Y-%m-%dT%H:%M:%S%z")
                n += both(t, zone, sec, 0, False, f"time.strptime of {s}")
            # a bare tuple is local time
            lt = time.localtime(sec)
            n += both(time.struct_time(tuple(lt)), zone, sec, 0, False, f"time.struct_time(tuple(time.localtime({sec})))")
    st.transitions += n
    st.traces += len(seconds)


def float_default_check(case, st):
    for t in case:
        got = timestamp_3339Z(t)
        sec = int(t // 1)
        if got == utc_text(sec):
            fail(f"timestamp_3339Z({t!r}) has no microseconds although want_microseconds is None and the time is a float", "no-microseconds-for-floats")
        expect(got, utc_text(sec, int((t - sec) * 1000000)), f"timestamp_3339Z({t!r})")


# ---------------------------------------------------------------- parsing

def parse_check(case, st):
    zone, seconds = case
    set_zone(zone)
    parse = big.time.parse_timestamp_3339Z
    tz = timezone(timedelta(hours=-3))
    for sec in seconds:
        for usec in (0, 1, 120000, 999999):
            exact = EPOCH + timedelta(seconds=sec, microseconds=usec)
            for w in (True, False):
                s = timestamp_3339Z(exact, w)
                want = exact if w else exact.replace(microsecond=0)
                for kw in ({}, {"timezone": None}, {"timezone": tz}, {"timezone": Falsy()}):
                    d = parse(s, **kw)
                    if type(d) is not datetime or d.tzinfo is None or d.utcoffset() != timedelta(0) or d != want:
                        fail(f"in TZ={zone!r}, parse_timestamp_3339Z({s!r}, {kw}): got {d!r}, expected {want!r}")
                    if timestamp_3339Z(d, w) != s:
                        fail(f"in TZ={zone!r}, timestamp_3339Z(parse_timestamp_3339Z({s!r})): got {timestamp_3339Z(d, w)!r}")
                # other RFC 3339 forms denote the same moment
                for hours in (0, 5, -8):
                    s2 = timestamp_3339Z(exact + timedelta(hours=hours), w)[:-1] + f"{hours:+03d}:00"
                    d = parse(s2, timezone=tz)
                    if d.tzinfo is None or d != want:
                        fail(f"in TZ={zone!r}, parse_timestamp_3339Z({s2!r}): got {d!r}, expected {want!r}")
                # without a zone
                naive = s[:-1]
                for kw, z in (({}, None), ({"timezone": tz}, tz), ({"timezone": UTC}, UTC)):
                    d = parse(naive, **kw)
                    if d.tzinfo is not z or d.replace(tzinfo=UTC) != want:
                        fail(f"in TZ={zone!r}, parse_timestamp_3339Z({naive!r}, {kw}): got {d!r}")
                st.transitions += 10
    st.traces += len(seconds)


def parse_grid(tier):
    m = moments("quick")
    if tier == "quick":
        m = m[::6]
    for i in range(0, len(m), GROUP):
        for zone in ZONES[::5] if tier == "quick" else ZONES[::2]:
            yield (zone, m[i:i + GROUP])


# ---------------------------------------------------------------- zones

class SubDate(datetime):
    pass


def zone_cases(tier):
    vals = [(1, 1, 1, 0, 0, 0, 0), (9999, 12, 31, 23, 59, 59, 999999), (2024, 2, 29, 1, 2, 3, 4), (2021, 11, 7, 1, 30, 0, 500000)]
    for i in range(7):
        for v in ((1970, 1, 1, 0, 0, 0, 0),):
            v = list(v)
            v[i] += 1
            vals.append(tuple(v))
    n = 7
    for zone in ZONES:
        for v in vals:
            for cls in (0, 1):
                for fold in (0, 1):
                    for a in range(n):
                        for b in range(n):
                            yield (zone, v, cls, fold, a, b)


TZS = [None, UTC, timezone(timedelta(hours=5)), timezone(timedelta(hours=5)), Falsy(), Unknown(), timezone.min]


def zone_check(case, st):
    zone, v, cls, fold, a, b = case
    set_zone(zone)
    d = (datetime, SubDate)[cls](*v, tzinfo=TZS[a], fold=fold)
    tz = TZS[b]
    fields = v + (fold,)

    def look(r):
        return (r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.fold)
    r = datetime_set_timezone(d, tz)
    if not isinstance(r, datetime) or look(r) != fields or r.tzinfo is not tz:
        fail(f"datetime_set_timezone({d!r}, {tz!r}): got {r!r}")
    if d.tzinfo is not TZS[a] or look(d) != fields:
        fail("datetime_set_timezone changed its argument")
    if not isinstance(TZS[a], Unknown):
        r = datetime_ensure_timezone(d, tz)
        if TZS[a] is not None:
            if r is not d:
                fail(f"datetime_ensure_timezone({d!r}, {tz!r}): got {r!r}, expected the same object")
        elif not isinstance(r, datetime) or look(r) != fields or r.tzinfo is not tz:
            fail(f"datetime_ensure_timezone({d!r}, {tz!r}): got {r!r}")


# ---------------------------------------------------------------- now, and wrong types

def now_check(case, st):
    zone, n = case
    set_zone(zone)
    for w in WANT:
        for _ in range(n):
            a = time.time_ns() // 1000
            args = ((), (None,), (None, w))[_ % 3]
            s = timestamp_3339Z(*args)
            b = time.time_ns() // 1000
            ww = w if len(args) > 1 else None
            lo, hi = utc_text(a // 1000000, a % 1000000), utc_text(b // 1000000, b % 1000000)
            if ww is not None and not ww:
                lo, hi = lo[:-8] + "Z", hi[:-8] + "Z"
            if not (lo <= s <= hi and len(s) == len(lo)):
                fail(f"in TZ={zone!r}, timestamp_3339Z{args}: got {s!r}, it was between {lo!r} and {hi!r}")
            a = time.time_ns() // 1000
            s = timestamp_human(*args)
            b = time.time_ns() // 1000
            lo, hi = local_text(a // 1000000, a % 1000000), local_text(b // 1000000, b % 1000000)
            if ww is not None and not ww:
                lo, hi = lo[:-7], hi[:-7]
            if lo <= hi and not (lo <= s <= hi and len(s) == len(lo)):
                fail(f"in TZ={zone!r}, timestamp_human{args}: got {s!r}, it was between {lo!r} and {hi!r}")


BAD = ["", "0", "2021-01-01", b"0", (2021, 1, 1), tuple(time.gmtime(0)), [], {}, object(), 1j, datetime(2021, 1, 1).date(), datetime(2021, 1, 1).time(), timedelta(1), UTC, datetime, int]


def bad_check(case, st):
    zone, i = case
    set_zone(zone)
    for w in WANT:
        for f in (timestamp_3339Z, timestamp_human):
            got = outcome(f, BAD[i], w)
            if got != ('exc', 'TypeError'):
                fail(f"{f.__name__}({BAD[i]!r}, {w}): got {got}, expected TypeError")


PARTS = [
    Part("moments", grid, grid_check, bound="11 local zones x (30 years' ends, leap days, epoch limits; every half hour around the changes of daylight-saving time of 2021 and 2024 [thorough: every quarter hour there, and every hour of two years]) x 4 microsecond values x int, float, aware in 8 zones, naive local with fold, zone of unknown offset, gmtime, localtime, bare tuple, strptime with UTC/GMT/numeric zones x 5 values of want_microseconds, both timestamps"),
    Part("default for floats", lambda tier: [[0.0], [1621925195.5]], float_default_check, bound="two floats"),
    Part("parsing", parse_grid, parse_check, bound="a sixth of the moments in 3 zones [thorough: all of quick's in 6] x 4 microsecond values x Z, +hh:mm and no zone x default time zones"),
    Part("zones", zone_cases, zone_check, bound="11 date-times x subclass or not x fold x 7 x 7 time zones (None, UTC, equal ones, false one, unknown offset) x 11 local zones"),
    Part("now", lambda tier: [(z, 6) for z in ZONES], now_check, bound="every zone and option; the moment lies between the clock readings before and after", parallel=True),
    Part("wrong types", lambda tier: [(z, i) for i in range(len(BAD)) for z in ZONES[:2]], bad_check, bound="16 values of other types"),
]
