"""C11: date-times and minutes since epoch convert both ways without loss."""
import re

from cases import *
from chrono_m import *
from c10 import elements_with, exact, CUM
from run import native
import tz3

LIM = 1 << 63


def day_number(y, m, d):
    y1 = y - 1
    lp = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400 + CUM[m - 1] + d + (1 if lp and m > 2 else 0)


def nanos_of(w):
    y, m, d, h, mi, s, n = w
    return (day_number(y, m, d) * 86400 + 3600 * h + 60 * mi + s) * 10**9 + n


FIRST, LAST = nanos_of([MIN_YEAR, 1, 1, 0, 0, 0, 0]), nanos_of([MAX_YEAR, 12, 31, 23, 59, 59, 999999999])


def random_words(rng):
    y = rng.choice([2000, 1957, 2024, 1900, rng.randint(1600, 2400), rng.randint(MIN_YEAR, MAX_YEAR), MIN_YEAR, MAX_YEAR, MAX_YEAR - rng.randint(0, 300), MIN_YEAR + rng.randint(0, 300)])
    s = rng.choice([0, 86399, rng.randint(0, 86399)])
    return [y, rng.randint(1, 12), rng.randint(1, 28), s // 3600, s // 60 % 60, s % 60, rng.choice([0, 1, 999999999, rng.randint(0, 999999999)])]


def txt(w):
    return " ".join(str(x) for x in w)


STAMP = r"([+-]?\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?"


def stamp(g):
    """words of a date-time printed by chrono (groups of STAMP)"""
    n = int(((g[6] or "") + "000000000")[:9])
    return [int(x) for x in g[:6]] + [n]


def search_minutes(seed, n=600):
    rng = random.Random(seed * 7 + 1)
    cases = []
    for i in range(n):
        a = random_words(rng)
        b = random_words(rng) if i % 3 else [a[0] + rng.choice([0, 0, 1, -1, 290, -290, 292, -292, 293]), *random_words(rng)[1:]]
        b[0] = min(max(b[0], MIN_YEAR), MAX_YEAR)
        cases.append((a, b))
    lines = ["to_minutes %s %s" % (txt(a), txt(b)) for a, b in cases]
    for (a, b), line, ans in zip(cases, lines, native(lines)):
        ns = nanos_of(b) - nanos_of(a)
        fits = -LIM <= ns < LIM
        bad = None
        if ans.startswith("ok"):
            got = unbits(ans.split()[1])
            want = float(ns) / 60e9
            if not fits or not abs(got - want) <= 4e-16 * abs(want):
                bad = want if fits else "an error"
        elif not ans.startswith("err") or fits:
            bad = float(ns) / 60e9 if fits else "an error"
        else:
            g = re.search("from: " + STAMP + ", to: " + STAMP, ans)
            if g and (stamp(g.groups()[:7]) != a or stamp(g.groups()[7:]) != b):
                bad = "an error with both date-times"
        if bad is not None:
            return {"cmd": line, "real_code": ans, "specification": bad}


def search_datetime(seed, n=1200):
    rng = random.Random(seed * 11 + 1)
    edge = LIM / 60e9
    cases = []
    for i in range(n):
        m = rng.choice(
            [0.0, -0.0, 1.0, 1e-12, 0.5 / 60e9, -0.5 / 60e9, 1.5 / 60e9, float("nan"), float("inf"), float("-inf"), 1e300, edge, -edge, edge * (1 - 1e-15), edge * (1 + 1e-15), -edge * (1 + 1e-15), rng.uniform(-1e4, 1e4), rng.uniform(-edge, edge), rng.uniform(-2, 2) * edge, rng.uniform(-1, 1), rng.choice([-1, 1]) * rng.randrange(1, 99999, 2) / 4096]
        )
        cases.append((random_words(rng), m))
    lines = ["to_datetime %s %s" % (txt(a), bits(m)) for a, m in cases]
    for (a, m), line, ans in zip(cases, lines, native(lines)):
        bad = None
        p = m * 60e9
        if p != p or not -float(LIM) <= p < float(LIM):
            if not ans.startswith("err MinutesToNanoseconds("):
                bad = "an error: nanoseconds do not fit"
            else:
                g = re.search(r"\((\S+)\)", ans)
                if g and m == m and float(g.group(1)) != m:
                    bad = "an error with the minutes"
        else:
            want = nanos_of(a) + int(math_round(p))
            # other roundings of the product may move it by an ulp; m / 4096 gives exact halves
            exact = m * 4096 == int(m * 4096) and abs(m) < 1e6
            slack = 0 if exact else int(abs(p) * 4e-16) + (1 if abs(abs(p - int(p)) - 0.5) <= 1e-3 + abs(p) * 4e-16 else 0)
            if ans.startswith("ok"):
                got = nanos_of([int(x) for x in ans.split()[1:8]])
                if abs(got - want) > slack:
                    bad = want
            elif not ans.startswith("err Add") or FIRST + slack <= want <= LAST - slack:
                bad = want if FIRST <= want <= LAST else "an error: not representable"
            else:
                g = re.search("datetime: " + STAMP, ans)
                if g and stamp(g.groups()) != a:
                    bad = "an error with the epoch"
                g = re.search(r"secs: (-?\d+), nanos: (-?\d+)", ans)
                if g and abs(int(g.group(1)) * 10**9 + int(g.group(2)) - want + nanos_of(a)) > slack:
                    bad = "an error with the duration"
        if bad is not None:
            return {"cmd": line, "minutes": m, "real_code": ans, "specification": str(bad)}


def math_round(x):
    import math

    return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)


def native_search(ctx):
    return search_minutes(ctx.seed) or search_datetime(ctx.seed)


def flat_any(v):
    if isinstance(v, Nat):
        return [x for y in v.f for x in flat_any(y)]
    if isinstance(v, tuple):
        return [x for y in v for x in flat_any(y)]
    if isinstance(v, T):
        return [v]
    raise Unsupported("result %r" % (v,))


class Goals:
    def __init__(s, name, search):
        s.name, s.res, s.search = name, [], search
        s.facts = []

    def goal(s, label, b, guard=TRUE):
        t1 = time.time()
        how, mod = ("proved", None) if Implies(guard, b) is TRUE else tz3.prove(Implies(guard, b), s.facts, 20000)
        o = rec("%s: %s" % (s.name, label), how == "proved", "z3", time.time() - t1, None, "%s %s" % (how, {k: str(v) for k, v in (mod or {}).items()}))
        s.res.append(o)

    def same(s, label, a, b, guard):
        a, b = flat_any(a), flat_any(b)
        if len(a) != len(b):
            raise Unsupported("%s: result shape" % s.name)
        eqs = [ieq(x, y) if x.sort == "I" else req(x, y) for x, y in zip(a, b)]
        if Mode.ieee:
            eqs = [Or(e, And(isnan(x), isnan(y))) if x.sort == "R" else e for e, x, y in zip(eqs, a, b)]
        s.goal(label, And(*eqs), guard)

    def done(s, e):
        for g, kind, f, span in e.panics:
            s.goal("no %s in %s" % (kind, f), Not(g))
        bad = [o for o in s.res if o.get("ok") is False]
        if bad:
            f = s.search()
            for o in bad:
                o["fail"] = f
            if not f and all(o["detail"].startswith("unknown") for o in bad):
                raise Unsupported(bad[0]["name"] + ": " + bad[0]["detail"])
        s.res.append({"used": (sorted(e.executed), sorted(e.modelled))})
        return s.res


def minutes_job(p, seed):
    e = Exec(p, models)
    st = St({}, TRUE)
    a, b = dt_var("epoch"), dt_var("d")
    r, _ = e.run(p.root("to_minutes"), [Ptr(e.alloc(st, elements_with(p, a))), Ptr(e.alloc(st, b))], st)
    g = Goals("date-time to minutes", lambda: search_minutes(seed))
    ns = elapsed(b, a).f[0]
    fits = in_range(ns, -LIM, LIM - 1)
    ok = ieq(r.disc, I0)
    g.goal("succeeds exactly when the nanoseconds fit 64 bits", Iff(ok, fits))
    g.same("elapsed nanoseconds / 60e9", r.vs[0], div(i2r(ns), R(60 * 10**9)), And(ok, fits))
    ety = p.types[p.types[arg_tys(p, p.root("to_minutes"))[0]]["variants"][1]["fields"][0]["ty"]]
    names = [f["name"] for f in ety["variants"][0]["fields"]]
    for n, v in (("from", a), ("to", b)):
        if n in names:
            g.same("the error carries the %s date-time" % n, r.vs[1][0][names.index(n)], v, Not(ok))
    for x in (fits, Not(fits)):
        how, _ = tz3.prove(Not(x), [])
        g.res.append({"name": "minutes %s" % ("fit" if x is fits else "overflow"), "reach": how == "refuted"})
    return g.done(e)


def datetime_job(p, seed, m, label):
    Mode.ieee = True
    e = Exec(p, models)
    st = St({}, TRUE)
    a = dt_var("epoch")
    root = p.root("to_datetime")
    r, _ = e.run(root, [Ptr(e.alloc(st, elements_with(p, a))), Ptr(e.alloc(st, (m,)))], st)
    g = Goals("minutes to date-time, " + label, lambda: search_datetime(seed))
    ns = mul(m, R(60 * 10**9))
    lo, hi = R(-LIM), R(LIM)
    fits = And(le(lo, ns), lt(ns, hi))
    if m.op == "rv":
        # the product is an f64: none lies strictly between these neighbours
        nan = isnan(ns)
        g.facts = [Or(nan, le(ns, R(LIM - 1024)), le(hi, ns)), Or(nan, le(ns, R(-LIM - 2048)), le(lo, ns))]
    n = r2i(rround(ns)) if m.op == "rv" else I0
    rs = plus(a, n)
    added = ieq(rs.disc, I1)
    ety = p.types[arg_tys(p, root)[0]]["variants"][1]["fields"][0]["ty"]
    ov, ad = variant(p, ety, "MinutesToNanoseconds"), variant(p, ety, "Add")
    ok = ieq(r.disc, I0)
    err = r.vs[1][0]
    g.goal("succeeds exactly when the nanoseconds fit and the sum is representable", Iff(ok, And(fits, added)))
    g.goal("which error", ieq(err.disc, ite(fits, I(ad), I(ov))), Not(ok))
    if ov in err.vs:
        g.same("the error carries the minutes", err.vs[ov], m, And(Not(ok), Not(fits)))
    if m.op == "rv":
        g.same("epoch plus the rounded nanoseconds", r.vs[0], rs.vs[1], And(ok, fits))
        names = [f["name"] for f in p.types[ety]["variants"][ad]["fields"]]
        if ad in err.vs:
            for nm, v in (("datetime", a), ("duration", Nat("dur", (n,)))):
                if nm in names:
                    g.same("the error carries the " + nm, err.vs[ad][names.index(nm)], v, And(Not(ok), fits))
        for nm, x in (("fit", And(fits, added)), ("overflow", And(Not(fits), Not(isnan(ns)))), ("not representable", And(fits, Not(added)))):
            how, _ = tz3.prove(Not(x), g.facts)
            g.res.append({"name": nm, "reach": how == "refuted"})
    return g.done(e)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    jobs = [("minutes", lambda: minutes_job(p, ctx.seed))]
    for label, m in (("any number", rvar("m")), ("NaN", NAN), ("+infinity", INF), ("-infinity", NINF)):
        jobs.append((label, lambda m=m, label=label: datetime_job(p, ctx.seed, m, label)))
    ctx.jobs(jobs)
    ctx.assume(
        "f64 multiplication and division are read as real operations (their rounding is outside the proof); comparisons are IEEE comparisons",
        "chrono contract: subtracting two date-times gives the elapsed nanoseconds, adding a duration gives the date-time that much later or nothing when it is not representable",
    )
