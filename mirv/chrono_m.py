"""Contracts of the chrono functions the crate calls (assumed, not verified).

A date is (year, month, day, ordinal), a time of day (seconds, nanoseconds,
where 10^9 and above denotes a leap second), a duration a number of nanoseconds.
What chrono computes from two date-times (elapsed time, sum) stays uninterpreted.
"""
from ex import *
from terms import *
from models import rule

MIN_YEAR, MAX_YEAR = -262143, 262142
I64 = (-(1 << 63), (1 << 63) - 1)


def date_var(tag):
    return Nat(
        "date",
        (
            ivar(tag + ".year", MIN_YEAR, MAX_YEAR),
            ivar(tag + ".month", 1, 12),
            ivar(tag + ".day", 1, 31),
            ivar(tag + ".ordinal", 1, 366),
        ),
    )


def dt_var(tag):
    return Nat("dt", (date_var(tag), Nat("time", (ivar(tag + ".secs", 0, 86399), ivar(tag + ".nanos", 0, 1999999999)))))


def leap(y):
    return And(ieq(irem(y, I(4)), I0), Or(Not(ieq(irem(y, I(100)), I0)), ieq(irem(y, I(400)), I0)))


def some(v, ok=TRUE):
    return En(b2i(ok), {0: (), 1: (v,)})


def val(c, i=0):
    v = c.args[i]
    while isinstance(v, Ptr):
        v = c.ex.read_whole(c.st, v)
    return c.ex.force(v)


def parts(v):
    """(date, time) of a date, a time or a date-time"""
    if isinstance(v, Nat):
        if v.kind == "dt":
            return v.f
        if v.kind == "date":
            return v, None
        if v.kind == "time":
            return None, v
    raise Unsupported("chrono value %r" % (v,))


DATE = {"year": 0, "month": 1, "day": 2, "ordinal": 3}


@rule(r"(?:<chrono::(?:NaiveDateTime|NaiveDate) as chrono::Datelike>|chrono::NaiveDate)::(year|month|day|ordinal|month0|day0|ordinal0)")
def _(c):
    n = c.f["n"].rsplit("::", 1)[1]
    d, _ = parts(val(c))
    if n.endswith("0"):
        return isub(d.f[DATE[n[:-1]]], I1)
    return d.f[DATE[n]]


@rule(r"<chrono::(?:NaiveDateTime|NaiveTime) as chrono::Timelike>::(hour|minute|second|nanosecond|num_seconds_from_midnight)|chrono::NaiveTime::(nanosecond|num_seconds_from_midnight)")
def _(c):
    n = c.f["n"].rsplit("::", 1)[1]
    _, t = parts(val(c))
    s, f = t.f
    if n == "hour":
        return idiv(s, I(3600))
    if n == "minute":
        return irem(idiv(s, I(60)), I(60))
    if n == "second":
        return irem(s, I(60))
    return f if n == "nanosecond" else s


@rule(r"chrono::NaiveDate::leap_year")
def _(c):
    return leap(parts(val(c))[0].f[0])


@rule(r"chrono::NaiveDateTime::(date|time)")
def _(c):
    d, t = parts(val(c))
    return d if c.f["n"].endswith("date") else t


@rule(r"chrono::NaiveDateTime::new|chrono::NaiveDate::and_time")
def _(c):
    return Nat("dt", (val(c, 0), val(c, 1)))


@rule(r"chrono::NaiveDate::from_yo_opt")
def _(c):
    y, o = c.args
    ok = And(in_range(y, MIN_YEAR, MAX_YEAR), in_range(o, 1, 366), Or(ile(o, I(365)), leap(y)))
    return some(Nat("date", (y, ifn("month_of", y, o), ifn("day_of", y, o), o)), ok)


def month_length(y, m):
    r = I(31)
    for k in (4, 6, 9, 11):
        r = ite(ieq(m, I(k)), I(30), r)
    return ite(ieq(m, I(2)), ite(leap(y), I(29), I(28)), r)


@rule(r"chrono::NaiveDate::from_ymd_opt")
def _(c):
    y, m, d = c.args
    ok = And(in_range(y, MIN_YEAR, MAX_YEAR), in_range(m, 1, 12), ile(I1, d), ile(d, month_length(y, m)))
    return some(Nat("date", (y, m, d, ifn("ordinal_of", y, m, d))), ok)


@rule(r"chrono::NaiveTime::from_num_seconds_from_midnight_opt")
def _(c):
    s, f = c.args
    # a leap second may follow the last second of any minute
    ok = And(in_range(s, 0, 86399), in_range(f, 0, 1999999999), Or(ilt(f, I(10**9)), ieq(irem(s, I(60)), I(59))))
    return some(Nat("time", (s, f)), ok)


@rule(r"chrono::NaiveTime::from_hms_nano_opt")
def _(c):
    h, m, s, f = c.args
    ok = And(in_range(h, 0, 23), in_range(m, 0, 59), in_range(s, 0, 59), in_range(f, 0, 1999999999), Or(ilt(f, I(10**9)), ieq(s, I(59))))
    return some(Nat("time", (iadd(imul(iadd(imul(h, I(60)), m), I(60)), s), f)), ok)


def flat(dt):
    d, t = dt.f
    return tuple(d.f) + tuple(t.f)


def elapsed(a, b):
    """nanoseconds from b to a, as chrono counts them"""
    return Nat("dur", (ifn("elapsed", *(flat(a) + flat(b))),))


def plus(a, ns):
    k = flat(a) + (ns,)
    d = Nat("date", tuple(ifn("sum_" + x, *k) for x in ("year", "month", "day", "ordinal")))
    return some(Nat("dt", (d, Nat("time", (ifn("sum_secs", *k), ifn("sum_nanos", *k))))), atom(mk("pred", ("sum_ok",) + k, "A")))


@rule(r"<chrono::NaiveDateTime as core::ops::Sub>::sub|chrono::NaiveDateTime::signed_duration_since|<chrono::NaiveDateTime as core::ops::Sub<.*>>::sub")
def _(c):
    a, b = val(c, 0), val(c, 1)
    if not (isinstance(b, Nat) and b.kind == "dt"):
        raise Unsupported("no contract for " + c.f["n"])
    return elapsed(a, b)


@rule(r"chrono::NaiveDateTime::(checked_add_signed|checked_sub_signed)")
def _(c):
    ns = val(c, 1).f[0]
    if c.f["n"].endswith("sub_signed"):
        ns = ineg(ns)
    return plus(val(c, 0), ns)


@rule(r"chrono::(?:TimeDelta|Duration)::num_(nanoseconds|microseconds)")
def _(c):
    ns = val(c).f[0]
    if c.f["n"].endswith("microseconds"):
        ns = idiv(ns, I(1000))
    return some(ns, in_range(ns, *I64))


UNIT = {"milliseconds": 10**6, "seconds": 10**9, "minutes": 60 * 10**9, "hours": 3600 * 10**9, "days": 86400 * 10**9}


@rule(r"chrono::(?:TimeDelta|Duration)::num_(milliseconds|seconds|minutes|hours|days)")
def _(c):
    return idiv(val(c).f[0], I(UNIT[c.f["n"].rsplit("num_", 1)[1]]))


@rule(r"chrono::(?:TimeDelta|Duration)::subsec_nanos")
def _(c):
    return irem(val(c).f[0], I(10**9))


@rule(r"chrono::(?:TimeDelta|Duration)::(nanoseconds|microseconds)")
def _(c):
    return Nat("dur", (imul(c.args[0], I(1 if c.f["n"].endswith("nanoseconds") else 1000)),))


@rule(r"chrono::(?:TimeDelta|Duration)::(try_)?(milliseconds|seconds|minutes|hours|days)")
def _(c):
    n = c.f["n"].rsplit("::", 1)[1]
    ns = imul(c.args[0], I(UNIT[n.replace("try_", "")]))
    ok = in_range(ns, -((1 << 63) - 1) * 10**6, ((1 << 63) - 1) * 10**6)
    if n.startswith("try_"):
        return some(Nat("dur", (ns,)), ok)
    if ok is not TRUE:
        c.panic("TimeDelta out of range", Not(ok))
    return Nat("dur", (ns,))
