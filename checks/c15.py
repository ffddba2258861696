"""C15: the TLE epoch becomes the right date-time."""
from tles import *
from c12 import PARSERS
from c14 import EPOCH
from c11 import CUM
import chrono_m

DAY = 86400 * 10**9


def judge(c, ans):
    name, l1, l2 = c
    if tle.c_structure(l1, l2) is not None:
        return None
    vals, bad = tle.c_fields(l1, l2)
    if [x for x in bad if x not in EPOCH] or vals["epoch year"] is None or vals["epoch day"] is None:
        return None
    if "date" not in vals:
        return None if ans.startswith("err") else "an error: there is no such day"
    y, d, ns = vals["date"]
    if not ans.startswith("ok"):
        return "year %d, day %d" % (y, d)
    g = [int(x) for x in words(ans)["datetime"].split(",")]
    o = CUM[g[1] - 1] + g[2] + (1 if g[1] > 2 and tle.is_leap(g[0]) else 0)
    got = ((g[3] * 60 + g[4]) * 60 + g[5]) * 10**9 + g[6]
    if (g[0], o) != (y, d) or abs(got - ns) > Fraction(53, 100):
        return "year %d, day %d, %.2f ns after midnight" % (y, d, float(ns))


def native_search(ctx):
    return search(judge, ctx.seed)


def finite(roots):
    """sums and products of a day between 1 and 367 and of constants are numbers"""
    return [Not(isnan(s.args[0])) for s in subterms(roots) if s.op == "isnan"]


def job(p, seed):
    Mode.ieee = True
    r = Parse(p, "full")
    s = r.spec
    own = {b.id for b in s.a[20:32]}
    day = rvar("day")
    seen = []

    def hook(e, f, args, st):
        # the day number: any f64
        if not re.search(r"parse::<f64>\Z|FromStr for f64>::from_str\Z", f["n"]) or "core::" not in f["n"]:
            return NotImplemented
        m = models.lookup(f["n"])
        if m is None:
            return NotImplemented
        c = Call(e, f, args, st, None, None, None)
        v = m(c)
        v0 = v.vs[0][0]
        bs = {x.id for x in subterms([v0]) if x.op == "iv"}
        if not bs or not bs <= own:
            return v, st
        seen.append(v0)
        return En(v.disc, {0: (day,), 1: v.vs[1]}), st

    r.e.call_hook = hook
    r.run()
    if len(set(x.id for x in seen)) != 1:
        raise Unsupported("the epoch day is parsed %d times" % len(seen))
    o = Obs("epoch", lambda: search(judge, seed))
    numbers = s.intact
    for n in s.fields:
        numbers = And(numbers, s.fields[n][0])
    numbers = And(numbers, s.designator_year_ok, s.designator_text_ok)
    o.goal("the day number is the one in columns 20..32", alike(seen[0], s.fields["epoch day"][1]), And(s.intact, s.fields["epoch day"][0]))
    year = s.year
    last = ite(chrono_m.leap(year), R(367), R(366))
    within = And(Not(isnan(day)), le(R1, day), lt(day, last))
    # at most 12 characters hold the day: its fraction stays clear of a full day
    whole = r2i(day)
    part = sub(day, i2r(whole))
    short = le(part, R(1 - Fraction(1, 10**11)))
    g = And(numbers, Or(Not(within), short))
    o.goal("accepted exactly for days of that year", Iff(r.ok, within), g)
    dt = r.get("datetime")
    if not isinstance(dt, Nat) or dt.kind != "dt":
        raise Unsupported("date-time %r" % (dt,))
    d, t = dt.f
    g = And(g, r.ok, within)
    o.goal("year", alike(d.f[0], year), g)
    o.goal("day of the year", alike(d.f[3], whole), g)
    secs, nanos = t.f
    got = iadd(imul(secs, I(10**9)), nanos)
    exact = mul(part, R(DAY))
    diff = sub(i2r(got), exact)
    near = And(le(diff, R(Fraction(1, 2))), le(R(Fraction(-1, 2)), diff))
    # nothing but the day number matters here
    g = And(within, short, *finite([near, nanos]))
    o.goal("time of day: the fraction rounded to the nanosecond", near, g)
    o.goal("nanoseconds carry into the seconds", in_range(nanos, 0, 10**9 - 1), g)
    o.reach("accepted day", And(g, r.ok))
    o.reach("rejected day", And(numbers, Not(r.ok)))
    return o.done(r.e, r.local)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([("epoch", lambda: job(p, ctx.seed))])
    ctx.assume(*PARSERS)
    ctx.assume(
        "the day number is an arbitrary f64 (NaN and infinities included); arithmetic on it is read as real arithmetic, its rounding is outside the proof (replayed inputs allow 0.03 ns)",
        "a day number of at least 1 written in 12 characters has a fraction below 1 - 1e-11",
    )
