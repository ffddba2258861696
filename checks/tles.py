"""Symbolic runs of TLE parsing and inputs for the real parser (C12 to C15)."""
import random
import re

from cases import *
from bytes_m import appn
from run import native
import tle
import tz3

LEN = (1 << 63) - 1


# ------------------------------------------------------------------ symbolic
class Parse:
    """the parser on two lines; a line is 69 arbitrary bytes or of any other length"""

    def __init__(s, p, which):
        s.p = p
        s.spec = tle.Spec() if which == "full" else None
        s.e = Exec(p, models)
        s.e.impossible = s.local = tz3.Local()
        st = St({}, TRUE)
        s.name = Nat("name", ())
        s.len = ivar("length", 0, LEN)

        def full(bs):
            return Ptr(s.e.alloc(st, tuple(bs)), (), (I0, I(69)))

        def other(tag):
            return Ptr(s.e.alloc(st, Nat("line", (tag,))), (), (I0, s.len))

        if which == "full":
            a, b = full(s.spec.a), full(s.spec.b)
        elif which == "line 1":
            a, b = other("a"), other("b")
        else:
            a, b = full(tle.line("a")), other("b")
        if which == "line 1":
            # the second line has a length of its own
            b = Ptr(b.base, (), (I0, ivar("other length", 0, LEN)))
        if which != "full":
            st.g = Not(ieq(s.len, I(69)))
        s.pre = st.g
        s.fid = p.root("from_tle")
        # without allocation there is no name to pass
        s.args = [s.name, a, b][3 - p.fns[s.fid]["body"]["arg_count"] :]
        s.st = st

    def run(s):
        r = s.e.run(s.fid, s.args, s.st)
        if r is None:
            raise Unsupported("the parser never returns")
        v, st = r
        s.ok = ieq(restrict(v.disc, s.pre), I0)
        s.value = v.vs[0][0] if 0 in v.vs else None
        rt = s.p.types[arg_tys(s.p, s.fid)[0]]
        s.ety = rt["variants"][1]["fields"][0]["ty"]
        s.oty = rt["variants"][0]["fields"][0]["ty"]
        s.err = v.vs[1][0] if 1 in v.vs else None
        return s

    def err_field(s, name):
        return s.err[fields(s.p, s.ety).index(name)]

    def err_variant(s, name, v):
        """the error's `name` is variant v"""
        f = s.p.types[s.ety]["variants"][0]["fields"]
        ty = [x["ty"] for x in f if x["name"] == name][0]
        d = s.err_field(name)
        return ieq(d.disc if isinstance(d, En) else d, I(variant(s.p, ty, v)))

    def err_is(s, what, line, start, end):
        r = And(s.err_variant("line", line), ieq(s.err_field("start"), I(start) if isinstance(start, int) else start), ieq(s.err_field("end"), I(end) if isinstance(end, int) else end))
        return r if what is None else And(r, s.err_variant("what", what))

    def get(s, name):
        return s.value[fields(s.p, s.oty).index(name)]


def alike(a, b):
    """equality of two diagrams"""
    if a.sort != b.sort:
        raise Unsupported("compared values differ in sort")

    def f(xs):
        x, y = xs
        if x is y:
            return TRUE
        if x.sort == "R":
            r = req(x, y)
            return Or(r, And(isnan(x), isnan(y))) if Mode.ieee else r
        return ieq(x, y) if x.sort == "I" else Iff(x, y)

    return appn("alike", f, (a, b))


def alike_any(a, b):
    if isinstance(a, Nat) and isinstance(b, Nat):
        if a.kind != b.kind or len(a.f) != len(b.f):
            raise Unsupported("result %s, expected %s" % (a.kind, b.kind))
        return And(*[alike_any(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, T) and isinstance(b, T):
        return alike(a, b)
    raise Unsupported("result %r" % (a,))


class Obs:
    """obligations of one job; a failure is looked for in the real code"""

    def __init__(s, name, search):
        s.name, s.search, s.res, s.failed = name, search, [], False

    def goal(s, label, b, guard=TRUE):
        t1 = time.time()
        c = And(guard, Not(b))
        how, by = ("proved", "decision diagram") if c is FALSE else (None, "z3")
        if how is None:
            # once something has failed the rest is only listed
            how, _ = tz3.prove(Not(c), (), 3000 if s.failed else 30000)
            s.failed |= how != "proved"
        s.res.append(rec("%s: %s" % (s.name, label), how == "proved", by, time.time() - t1, None, how))

    def reach(s, label, b):
        s.res.append({"name": label, "reach": b is not FALSE and tz3.prove(Not(b), (), 20000)[0] != "proved"})

    def done(s, e, local=None):
        for g, kind, f, span in e.panics:
            s.goal("no %s in %s at %s" % (kind, getattr(f, "name", f), span), Not(g))
        bad = [o for o in s.res if o.get("ok") is False]
        if bad:
            f = s.search()
            for o in bad:
                o["fail"] = f
            if not f and all(o["detail"] == "unknown" for o in bad):
                raise Unsupported(bad[0]["name"])
        if local is not None and local.refuted:
            s.res.append(rec("%s: %d checked operations cannot fail" % (s.name, local.refuted), True, "z3", local.secs))
        s.res.append({"used": (sorted(e.executed), sorted(e.modelled))})
        return s.res


# ------------------------------------------------------------------ inputs
def fix(l1, l2):
    return tuple(bytes(x[:68]) + bytes([48 + tle.c_sum(x) % 10]) if len(x) == 69 else bytes(x) for x in (l1, l2))


BASE = [
    (b"1 25544U 98067A   20194.88612269 -.00002218  00000-0 -31515-4 0  9992", b"2 25544  51.6461 221.2784 0001413  89.1723 280.4612 15.49507896236008"),
    (b"1 00005C 58002B   00179.78495062  .00000023  12345-3  28098+4 0  4753", b"2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667"),
    (b"1 99999S 99999ZZZ 56366.99999999 -.99999999 -99999-9 -99999-9 9 99999", b"2 99999 999.9999 999.9999 9999999 999.9999 999.9999 99.99999999999999"),
]


def sparse():
    """blanks wherever they are allowed"""
    a, b = bytearray(b" " * 69), bytearray(b" " * 69)
    a[0:1], b[0:1] = b"1", b"2"
    for x, at, t in ((a, 7, b"7"), (a, 8, b"U"), (a, 20, b"57"), (a, 32, b"1.5"), (a, 43, b".5"), (a, 50, b"1"), (a, 52, b"-2"), (a, 59, b"-12"), (a, 61, b"+1"), (a, 63, b"0"), (a, 68, b"5"), (b, 7, b"7"), (b, 16, b"1.5"), (b, 25, b"2.25"), (b, 33, b"5"), (b, 42, b"3.5"), (b, 51, b"4.5"), (b, 63, b"1.25"), (b, 68, b"1")):
        x[at - len(t) : at] = t
    return bytes(a), bytes(b)


BASE.append(sparse())
BASE = [fix(a[:69].ljust(69), b[:69].ljust(69)) for a, b in BASE]

FLOATS = [b"0", b"1.5", b"-2.25", b"+3.", b".5", b"-.5", b"1e2", b"1E-2", b"nan", b"inf", b"-inf", b"", b"-", b".", b"1 2", b"1.2.3", b"0x1", b"\xff", b"1_0", b"999", b"1e9"]
INTS = [b"0", b"1", b"+1", b"-1", b"99", b"9", b"", b"+", b"1.", b" ", b"a", b"\xe9", b"007", b"56", b"57", b"58", b"-9", b"00"]


def place(rng, w, t):
    """text t in w columns"""
    t = t[:w]
    r = rng.random()
    if r < 0.5:
        return t.rjust(w)
    if r < 0.7:
        return t.ljust(w)
    if r < 0.85 and t[:1].isdigit():
        return t.rjust(w, b"0")
    pad = w - len(t)
    return bytes(rng.choice(b" \t\r\n\x0c\x0b") for _ in range(pad)) + t


def digits(rng, n):
    return bytes(rng.choice(b"0123456789") for _ in range(n))


def number(rng, kind, w):
    r = rng.random()
    if kind in ("u64", "u8"):
        if r < 0.6:
            return place(rng, w, digits(rng, rng.randint(1, w)))
        return place(rng, w, rng.choice(INTS))
    if kind == "u8!":
        return digits(rng, w) if r < 0.8 else place(rng, w, rng.choice(INTS))
    if kind == "i8!":
        return rng.choice([b"-", b"+", b"0"]) + digits(rng, w - 1) if r < 0.8 else place(rng, w, rng.choice(INTS))
    if kind == "assumed":
        if r < 0.4:
            return digits(rng, w)
        if r < 0.7:
            return rng.choice(b"-+ ").to_bytes(1, "big") + digits(rng, w - 1)
        if r < 0.8:
            return place(rng, w, rng.choice([b"-", b"+", b""]) + digits(rng, rng.randint(1, w - 1)))
        return place(rng, w, rng.choice(FLOATS + [b"--1", b"+-1", b"-+1", b"-", b"+", b"1e1", b"-1e1"]))
    if r < 0.7:
        k = rng.randint(0, w - 1)
        t = digits(rng, w - 1)
        t = t[:k] + b"." + t[k:]
        if rng.random() < 0.3:
            t = rng.choice([b"-", b"+"]) + t[1:] if t[:1] != b"." else t
        return t if rng.random() < 0.6 else place(rng, w, t[: rng.randint(2, w)])
    return place(rng, w, rng.choice(FLOATS))


def epoch_day(rng):
    r = rng.random()
    d = rng.choice([1, 59, 60, 61, 365, 366, 367, 0, rng.randint(1, 366)])
    if r < 0.25:
        # whole seconds with an exact decimal fraction: the f64 may fall just below
        return place(rng, 12, b"%03d.%08d" % (d, rng.randrange(0, 3200) * 27 * 10**8 // 86400))
    if r < 0.7:
        f = rng.choice([b"00000000", b"99999999", b"50000000", b"00000001", digits(rng, 8), b"00001157", b"99998843"])
        t = b"%03d." % d + f
    elif r < 0.9:
        # few digits before the point leave more after it
        d = rng.choice([1, 2, 9, rng.randint(1, 99)])
        t = b"%d." % d
        t += rng.choice([b"9" * 12, digits(rng, 12), b"0" * 12])[: 12 - len(t)]
    else:
        t = rng.choice([b"nan", b"inf", b"-1", b"-0.5", b"0.99999999", b"366.9999", b"366", b"365", b"367", b"1e2", b"1e300", b"4294967297.5", b"65537", b"257.25"])
    return place(rng, 12, t)


def random_pair(rng):
    l1, l2 = [bytearray(x) for x in rng.choice(BASE)]
    lines = {1: l1, 2: l2}
    some = rng.random() < 0.5
    for name, ln, a, b, kind in tle.FIELDS:
        if some and rng.random() < 0.8:
            continue
        if name == "norad_id":
            t = number(rng, kind, 5)
            l1[2:7] = t
            l2[2:7] = t if rng.random() < 0.9 else number(rng, kind, 5)
        else:
            lines[ln][a:b] = epoch_day(rng) if name == "epoch day" else number(rng, kind, b - a)
    r = rng.random()
    if r < 0.3:
        l1[9:17] = digits(rng, 5) + rng.choice([b"A  ", b"AB ", b"ABC", b"  A", b"\xc3\xa9 ", b"\xff\xff\xff", b"   ", b"\xc2\xa0X", b"A B"])
    elif r < 0.4:
        l1[9:17] = rng.choice([b" " * 8, b"\t" * 8, b"     A  ", b"99      ", b"9       ", b"+9001A  ", b"56001A  ", b"57001A  ", b"99001\x85  "])
    l1[7] = rng.choice(b"UCS") if rng.random() < 0.95 else rng.randrange(256)
    # keep the separators, close with a checksum
    for l, seps in ((l1, tle.SEP1), (l2, tle.SEP2)):
        for i in seps:
            if rng.random() < 0.995:
                l[i] = 32
    l1[0], l2[0] = 49, 50
    a, b = fix(l1, l2)
    if rng.random() < 0.15:
        x = bytearray(rng.choice((a, b)))
        x[rng.randrange(69)] = rng.choice([rng.randrange(256), rng.choice(b"0123456789-+ .")])
        a, b = (bytes(x), b) if x[0] == 49 else (a, bytes(x))
        if rng.random() < 0.5:
            a, b = fix(a, b)
    return a, b


def sweep(rng):
    """every column with every byte, with and without a repaired checksum; odd lengths"""
    for k, (a, b) in enumerate(BASE):
        for ln in (1, 2):
            for i in range(69):
                for x in range(256) if k == 0 else b"\x00 -.0123456789+9AUCS\xff\x80\t":
                    l = bytearray(a if ln == 1 else b)
                    l[i] = x
                    p = (bytes(l), b) if ln == 1 else (a, bytes(l))
                    yield p
                    q = fix(*p)
                    if q != p:
                        yield q
    for a, b in BASE:
        for n in list(range(0, 75)) + [137, 138, 200, 325, 69 + 256, 69 + 65536]:
            for x in (b" ", b"1", b"\xff"):
                yield (a[:n].ljust(n, x), b)
                yield (a, b[:n].ljust(n, x))
                yield (a[:n].ljust(n, x), b[:n].ljust(n, x))
                yield (a[:n].ljust(n, x), b[: n + 1])
    # two rules broken at once
    cols = [(1, i) for i in (0, 7, 68, 3) + tle.SEP1] + [(2, i) for i in (0, 68, 3) + tle.SEP2]
    for a, b in BASE[:2]:
        for u in cols:
            for v in cols:
                ls = [bytearray(a), bytearray(b)]
                for ln, i in (u, v):
                    ls[ln - 1][i] = rng.choice(b"xQ/")
                yield tuple(bytes(x) for x in ls)


def hexs(b):
    return b.hex() if b else "-"


def cmd(name, a, b):
    return "tle %s %s %s" % ("none" if name is None else hexs(name), hexs(a), hexs(b))


def search(judge, seed, n=20000):
    rng = random.Random(seed * 5 + 2)
    cases = [(None, a, b) for a, b in sweep(rng)]
    for i in range(n):
        cases.append((rng.choice([None, b"ISS (ZARYA)", b"X"]),) + random_pair(rng))
    for i in range(0, len(cases), 20000):
        part = cases[i : i + 20000]
        lines = [cmd(*c) for c in part]
        for c, line, ans in zip(part, lines, native(lines)):
            want = judge(c, ans)
            if want is not None:
                return {"cmd": line, "line1": repr(c[1])[:300], "line2": repr(c[2])[:300], "real_code": ans, "specification": str(want)}


ERR = re.compile(r"err \w+ \{ what: (\w+)[^,]*, line: (\w+), start: (\d+), end: (\d+)")


def parse_err(ans):
    m = ERR.match(ans)
    return (m.group(1), m.group(2), int(m.group(3)), int(m.group(4))) if m else None


def words(ans):
    return dict(x.split("=", 1) for x in ans.split()[1:] if "=" in x)
