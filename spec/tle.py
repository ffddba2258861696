"""The two-line element format: columns, acceptance rules and field values.

Symbolic form (terms over the bytes a0..a68 of line 1 and b0..b68 of line 2)
and concrete form (python bytes) of the same rules; the concrete form is the
oracle for inputs replayed against the real crate.
"""
import math
import re
from fractions import Fraction

from terms import *
from bytes_m import appn, isum, int_ok, int_val, float_ok, float_val

BLANKS = (9, 10, 12, 13, 32)
SEP1 = (1, 8, 17, 32, 43, 52, 61, 63)
SEP2 = (1, 7, 16, 25, 33, 42, 51)

# name, line, start, end, kind
FIELDS = [
    ("norad_id", 1, 2, 7, "u64"),
    ("epoch year", 1, 18, 20, "u8!"),
    ("epoch day", 1, 20, 32, "float"),
    ("mean_motion_dot", 1, 33, 43, "float"),
    ("second derivative mantissa", 1, 44, 50, "assumed"),
    ("second derivative exponent", 1, 50, 52, "i8!"),
    ("drag mantissa", 1, 53, 59, "assumed"),
    ("drag exponent", 1, 59, 61, "i8!"),
    ("ephemeris_type", 1, 62, 63, "u8"),
    ("element_set_number", 1, 64, 68, "u64"),
    ("inclination", 2, 8, 16, "float"),
    ("right_ascension", 2, 17, 25, "float"),
    ("eccentricity", 2, 26, 33, "assumed"),
    ("argument_of_perigee", 2, 34, 42, "float"),
    ("mean_anomaly", 2, 43, 51, "float"),
    ("mean_motion", 2, 52, 63, "float"),
    ("revolution_number", 2, 63, 68, "u64"),
]
# a trailing ! means that blanks before the number are not skipped


# ------------------------------------------------------------------ symbolic
def line(tag):
    return tuple(ivar("%s%d" % (tag, i), 0, 255) for i in range(69))


def blank(b):
    return Or(*[ieq(b, I(k)) for k in BLANKS])


def warm(bs):
    """create the atoms of these bytes next to each other (diagram order)"""
    for b in bs:
        for k in (45, 43) + BLANKS:
            ieq(b, I(k))
        ilt(b, I(48))
        ilt(b, I(58))


def skip(f, bs, empty):
    """f on the bytes after leading blanks"""
    if not bs:
        return empty
    return ite(blank(bs[0]), skip(f, bs[1:], empty), f(bs))


DOT = I(46)


def assumed(bs, f, minus, bad):
    """a number with an assumed leading decimal point, after an optional sign"""
    plain = f([DOT] + bs)
    signed = f([DOT] + bs[1:]) if len(bs) > 1 else bad
    b = bs[0]
    return ite(ieq(b, I(45)), minus(signed) if len(bs) > 1 else bad, ite(ieq(b, I(43)), signed, plain))


NOVAL = {"R": rvar("none"), "I": ivar("none")}


def field(kind, bs):
    """(valid, value) of a column range"""
    bs = list(bs)
    if kind.endswith("!"):
        ty = kind[:-1]
        return int_ok(ty, bs), int_val(ty, bs)
    if kind == "float":
        return skip(float_ok, bs, FALSE), skip(float_val, bs, NOVAL["R"])
    if kind == "assumed":
        ok = skip(lambda x: assumed(x, float_ok, lambda v: v, FALSE), bs, FALSE)
        val = skip(lambda x: assumed(x, float_val, neg, NOVAL["R"]), bs, NOVAL["R"])
        return ok, val
    return skip(lambda x: int_ok(kind, x), bs, FALSE), skip(lambda x: int_val(kind, x), bs, NOVAL["I"])


def checksum(bs):
    tb = tuple(1 if x == 45 else x - 48 if 48 <= x <= 57 else 0 for x in range(256))
    return isum(0, [(b, tb) for b in bs[:68]])


class Spec:
    def __init__(s):
        s.a, s.b = line("a"), line("b")
        s.lines = {1: s.a, 2: s.b}
        s.rules = []  # (broken, what, line, start, end), in the order of precedence
        put = lambda *x: s.rules.append(x)
        put(Not(ieq(s.a[0], I(49))), "BadFirstCharacter", "Line1", 0, 1)
        put(Not(ieq(s.b[0], I(50))), "BadFirstCharacter", "Line2", 0, 1)
        for i in SEP1:
            put(Not(ieq(s.a[i], I(32))), "ExpectedSpace", "Line1", i, i + 1)
        for i in SEP2:
            put(Not(ieq(s.b[i], I(32))), "ExpectedSpace", "Line2", i, i + 1)
        warm(s.a[2:7])
        ok1, v1 = field("u64", s.a[2:7])
        warm(s.b[2:7])
        ok2, v2 = field("u64", s.b[2:7])
        put(Not(ok1), "ExpectedInteger", "Line1", 2, 7)
        put(Not(ok2), "ExpectedInteger", "Line2", 2, 7)
        put(Not(ieq(v1, v2)), "NoradIdMismatch", "Both", 2, 7)
        for k, bs in ((1, s.a), (2, s.b)):
            put(Not(ieq(bs[68], iadd(irem(checksum(bs), I(10)), I(48)))), "BadChecksum", "Line%d" % k, 68, 69)
        put(And(*[Not(ieq(s.a[7], I(ord(x)))) for x in "UCS"]), "UnknownClassification", "Line1", 7, 8)
        s.intact = And(*[Not(r[0]) for r in s.rules])
        # fields after the structure
        warm(s.a[9:17])
        s.no_designator = And(*[blank(x) for x in s.a[9:17]])
        s.designator_year_ok = Or(s.no_designator, int_ok("u8", list(s.a[9:11])))
        s.designator_text_ok = Or(s.no_designator, pred("utf8", *s.a[11:17]))
        yr = int_val("u8", list(s.a[9:11]))
        s.designator_year = ite(ilt(yr, I(57)), iadd(yr, I(2000)), iadd(yr, I(1900)))
        s.fields = {}
        for name, ln, a, b, kind in FIELDS:
            bs = s.lines[ln][a:b]
            warm(bs)
            s.fields[name] = field(kind, bs)
        y = s.fields["epoch year"][1]
        s.year = ite(ilt(y, I(57)), iadd(y, I(2000)), iadd(y, I(1900)))


# ------------------------------------------------------------------ concrete
FLOAT = re.compile(rb"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)\Z", re.I)


def c_float(t):
    if not FLOAT.match(t):
        return None
    return float(t)


def c_int(ty, t):
    if not re.match(rb"[+-]?\d+\Z" if ty[0] == "i" else rb"\+?\d+\Z", t):
        return None
    v = int(t)
    bits = int(ty[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)
    return v if lo <= v <= hi else None


def c_field(kind, t):
    if kind.endswith("!"):
        return c_int(kind[:-1], t)
    t = t.lstrip(bytes(BLANKS))
    if kind == "float":
        return c_float(t)
    if kind == "assumed":
        if not t:
            return None
        if t[:1] in (b"-", b"+"):
            if len(t) < 2:
                return None
            v = c_float(b"." + t[1:])
            return v if v is None or t[:1] == b"+" else -v
        return c_float(b"." + t)
    return c_int(kind, t)


def c_structure(l1, l2):
    """the first broken rule (what, line, start, end), or None"""
    if len(l1) != 69:
        return "BadLength", "Line1", 0, len(l1)
    if len(l2) != 69:
        return "BadLength", "Line2", 0, len(l2)
    if l1[0] != 49:
        return "BadFirstCharacter", "Line1", 0, 1
    if l2[0] != 50:
        return "BadFirstCharacter", "Line2", 0, 1
    for k, bs, seps in ((1, l1, SEP1), (2, l2, SEP2)):
        for i in seps:
            if bs[i] != 32:
                return "ExpectedSpace", "Line%d" % k, i, i + 1
    n1, n2 = c_field("u64", l1[2:7]), c_field("u64", l2[2:7])
    if n1 is None:
        return "ExpectedInteger", "Line1", 2, 7
    if n2 is None:
        return "ExpectedInteger", "Line2", 2, 7
    if n1 != n2:
        return "NoradIdMismatch", "Both", 2, 7
    for k, bs in ((1, l1), (2, l2)):
        if bs[68] != 48 + c_sum(bs) % 10:
            return "BadChecksum", "Line%d" % k, 68, 69
    if l1[7:8] not in (b"U", b"C", b"S"):
        return "UnknownClassification", "Line1", 7, 8
    return None


def c_sum(bs):
    return sum(1 if x == 45 else x - 48 if 48 <= x <= 57 else 0 for x in bs[:68])


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def c_fields(l1, l2):
    """(values, invalid ranges) of a structurally intact pair"""
    lines = {1: l1, 2: l2}
    vals, bad = {}, []
    for name, ln, a, b, kind in FIELDS:
        vals[name] = c_field(kind, lines[ln][a:b])
        if vals[name] is None:
            bad.append(("Line%d" % ln, a, b))
    if all(x in BLANKS for x in l1[9:17]):
        vals["designator"] = None
    else:
        y = c_int("u8", l1[9:11])
        if y is None:
            bad.append(("Line1", 9, 11))
        try:
            t = l1[11:17].decode("utf-8")
        except UnicodeDecodeError:
            t = None
            bad.append(("Line1", 11, 17))
        if y is not None and t is not None:
            vals["designator"] = "%d-%s" % (y + (2000 if y < 57 else 1900), rust_trim(t))
    y, d = vals["epoch year"], vals["epoch day"]
    if y is not None and d is not None:
        yy = y + (2000 if y < 57 else 1900)
        if math.isnan(d) or d < 1 or d >= 366 + is_leap(yy):
            for r in ((18, 20), (20, 32), (18, 32)):
                bad.append(("Line1",) + r)
        else:
            f = Fraction(d)
            vals["date"] = (yy, int(f), (f - int(f)) * 86400 * 10**9)
    return vals, bad


WHITE = set([9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000] + list(range(0x2000, 0x200B)))


def rust_trim(t):
    a, b = 0, len(t)
    while a < b and ord(t[a]) in WHITE:
        a += 1
    while b > a and ord(t[b - 1]) in WHITE:
        b -= 1
    return t[a:b]
