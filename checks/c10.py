"""C10: both epoch functions count days since J2000 and never panic."""
from cases import *
from chrono_m import *
import tz3

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
TOL = Fraction(1, 10**15)  # years; the equations are exact over the reals
NAMES = (("years", "years"), ("years_afspc", "years_afspc"), ("epoch", "epochs"), ("epoch_afspc", "epochs"))


def days_before_year(y):
    y1 = isub(y, I1)
    return iadd(isub(iadd(imul(y1, I(365)), idiv(y1, I(4))), idiv(y1, I(100))), idiv(y1, I(400)))


D2000 = 365 * 1999 + 1999 // 4 - 1999 // 100 + 1999 // 400


def spec(dt, m):
    """(days since 2000-01-01 12:00) / 365.25, proleptic Gregorian calendar, y >= 1"""
    y, _, d, _ = dt.f[0].f
    secs, nanos = dt.f[1].f
    day = iadd(iadd(days_before_year(y), iadd(d, I(CUM[m - 1] - 1 - D2000))), b2i(leap(y)) if m > 2 else I0)
    t = add(add(i2r(day), R(Fraction(-1, 2))), add(div(i2r(secs), R(86400)), div(i2r(nanos), R(86400 * 10**9))))
    return div(t, R(Fraction(36525, 100)))


def exact(y, m, d, h, mi, s, n):
    y1 = y - 1
    lp = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    day = 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400 + CUM[m - 1] + d - 1 + (1 if lp and m > 2 else 0) - D2000
    return (Fraction(day) - Fraction(1, 2) + Fraction(3600 * h + 60 * mi + s, 86400) + Fraction(n, 86400 * 10**9)) / Fraction(36525, 100)


def calendar(dt, m):
    """what chrono guarantees about a date in month m"""
    y, _, d, o = dt.f[0].f
    secs, nanos = dt.f[1].f
    return [
        ile(d, month_length(y, I(m))),
        ieq(o, iadd(iadd(d, I(CUM[m - 1])), b2i(leap(y)) if m > 2 else I0)),
        Or(ilt(nanos, I(10**9)), ieq(irem(secs, I(60)), I(59))),
    ]


def window(dt, m):
    y = dt.f[0].f[0]
    return in_range(y, 1900 if m > 2 else 1901, 2100 if m <= 2 else 2099)


def judge(name, words):
    """does the real function disagree with the calendar on this date-time?"""
    root, cmd = [x for x in NAMES if x[0] == name][0]
    line = "%s %s" % (cmd, " ".join(str(x) for x in words))
    ans = native([line])[0]
    if not ans.startswith("ok"):
        return {"cmd": line, "real_code": ans, "specification": "no panic"}
    y, m = words[:2]
    if not (1900, 3) <= (y, m) <= (2100, 2):
        return None
    w = ans.split()[1:]
    got = unbits(w[1] if name == "epoch_afspc" else w[0])
    want = exact(*words)
    # afspc mode adds a Julian date of 2.4e6 days before subtracting it
    tol = 4e-12 if "afspc" in name else 4e-14
    if got == got and abs(Fraction(got) - want) <= tol:
        return None
    return {"cmd": line, "real_code": got, "specification": float(want)}


def by_year(rm, dt, m, tol):
    """the same obligation, one year at a time"""
    y = dt.f[0].f[0]
    for k in range(1900 if m > 2 else 1901, (2100 if m <= 2 else 2099) + 1):
        z = tz3.Z()
        one = {y: I(k)}
        x = z.get(subst1(sub(rm, spec(dt, m)), one))
        how, mod = tz3.prove(tz3.z3.And(x <= tol, x >= -tol), [subst1(f, one) for f in calendar(dt, m)], 5000, z)
        if how != "proved":
            if mod is not None:
                mod["d.year"] = tz3.z3.IntVal(k)
            return how, mod
    return "proved", None


def words_of(mod, m=None):
    g = lambda k, dflt: tz3.value(mod[k]) if k in mod else dflt
    s = g("d.secs", 0)
    mm = g("d.month", 1) if m is None else m
    y = g("d.year", 2000)
    lp = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    n = g("d.nanos", 0)
    if n >= 10**9 and s % 60 != 59:
        n -= 10**9
    d = min(g("d.day", 1), 29 if mm == 2 and lp else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mm - 1])
    return [y, mm, d, s // 3600, s // 60 % 60, s % 60, n]


def random_words(rng, m=None, full=False):
    y = rng.choice([MIN_YEAR, MAX_YEAR, -4, 0, -1, 1600]) if full else rng.choice([1900, 1904, 1999, 2000, 2001, 2024, 2099, 2100, rng.randint(1900, 2100)])
    mm = m or rng.randint(1, 12)
    ln = [31, 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mm - 1]
    s = rng.choice([0, 86399, 43200, rng.randint(0, 86399)])
    n = rng.choice([0, 1, 999999999, rng.randint(0, 999999999)])
    if s % 60 == 59 and rng.random() < 0.5:
        n += 10**9
    return [y, mm, rng.choice([1, ln, rng.randint(1, ln)]), s // 3600, s // 60 % 60, s % 60, n]


def search(name, seed, m=None, full=False, n=400):
    rng = random.Random(seed * 13 + 1)
    for _ in range(n):
        f = judge(name, random_words(rng, m, full))
        if f:
            return f


def native_search(ctx):
    for name, _ in NAMES:
        f = search(name, ctx.seed) or search(name, ctx.seed, None, True, 60)
        if f:
            return f


def elements_with(p, dt):
    """an elements value whose epoch is dt and whose other fields are arbitrary"""
    ty = p.types[arg_tys(p, p.root("epoch"))[1]]["to"]
    v = []
    for f in p.types[ty]["variants"][0]["fields"]:
        t = p.types[f["ty"]]["str"]
        v.append(dt if f["name"] == "datetime" else rvar("el." + f["name"]) if t == "f64" else UNDEF)
    return tuple(v)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    dt = dt_var("d")
    jobs = []
    seen = []
    for name, _ in NAMES:
        e = Exec(p, models)
        st = St({}, TRUE)
        k = e.alloc(st, elements_with(p, dt) if name.startswith("epoch") else dt)
        r, _ = e.run(p.root(name), [Ptr(k)], st)
        ctx.used(e)
        panics = list(e.panics)
        same = [n for n, t in seen if t is r]
        seen.append((name, r))
        if same and not panics:
            ctx.ob("%s: same value as %s" % (name, same[0]), True, "mirv (identical terms)")
            continue

        def run(name=name, r=r, panics=panics):
            res = []
            mv = dt.f[0].f[1]
            for m in range(1, 13):
                t1 = time.time()
                rm = subst1(r, {mv: I(m)})
                d = sub(rm, spec(dt, m))
                z = tz3.Z()
                x = z.get(d)
                tol = tz3.z3.Q(TOL.numerator, TOL.denominator)
                facts = calendar(dt, m) + [window(dt, m)]
                goal = tz3.z3.And(x <= tol, x >= -tol)
                how, mod = tz3.prove(goal, facts, 30000, z)
                if how == "unknown":
                    how, mod = by_year(rm, dt, m, tol)
                o = rec("%s, month %d of 1900-03 to 2100-02: days since J2000 / 365.25" % (name, m), how == "proved", "z3", time.time() - t1, None, how)
                if how != "proved":
                    o["fail"] = (judge(name, words_of(mod, m)) if mod else None) or search(name, ctx.seed, m)
                    if how == "unknown" and not o["fail"]:
                        raise Unsupported("%s: %s" % (o["name"], how))
                res.append(o)
                c, _ = tz3.prove(FALSE, facts, 10000)
                res.append({"name": "%s month %d" % (name, m), "reach": c == "refuted"})
            for g, kind, fnn, span in panics:
                t1 = time.time()
                how, mod = tz3.prove(Not(g), [], 20000)
                o = rec("%s: no %s in %s" % (name, kind, fnn), how == "proved", "z3", time.time() - t1, None, str(mod)[:400])
                if how != "proved":
                    o["fail"] = (judge(name, words_of(mod)) if mod else None) or search(name, ctx.seed, None, True)
                    if how == "unknown" and not o["fail"]:
                        raise Unsupported("%s: %s" % (o["name"], how))
                res.append(o)
            res.append(rec("%s: every operation that can panic is accounted for" % name, True, "mirv ranges"))
            return res

        jobs.append((name, run))
    ctx.jobs(jobs)
    ctx.assume(*REALS10)


REALS10 = (
    "f64 arithmetic is read as real arithmetic (rounding is outside the proof)",
    "chrono contract: year -262143..262142, month 1..12, day within the month, ordinal = days of the earlier months + day, seconds 0..86399, nanoseconds below 10^9 or below 2 * 10^9 in the last second of a minute",
)
