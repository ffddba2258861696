"""C20: every feature configuration against the default one.

The same entry points are executed symbolically in two configurations, on the
same symbols: the terms they produce must be equal.  The elementary functions of
the standard library and of libm are represented by the same symbols.  Texts
and OMM records go through loops over their entries; there both configurations
are verified against the same specification (that of C16 and C17)."""
import random

from cases import *
from chrono_m import *
from deep import *
from c01 import REALS
from c08 import Names, draw_env
from c10 import elements_with, random_words
from c11 import txt
from run import native
import c16
import c17
import tles
import tz3

OTHERS = ("std", "libm", "libm_alloc", "libm_serde")
WHAT = {
    "std": "the standard library without serde",
    "libm": "libm without allocation",
    "libm_alloc": "libm with allocation",
    "libm_serde": "libm with serde",
}
AF = bvar("afspc")
TAU = 6.283185307179586


# ------------------------------------------------------------------ real code
def both(lines, cfg):
    return native(lines), native(lines, cfg=cfg)


def found(cfg, line, a, b):
    return {"cmd": line, "configuration": cfg, "real_code": b, "default_configuration": a, "what": "the two configurations differ"}


def near(a, b, tol):
    """answers of the same shape whose numbers are close"""
    x, y = (re.split(r"[ =]+", s) for s in (a, b))
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if u == v:
            continue
        if not (len(u) == len(v) == 16):
            return False
        u, v = unbits(u), unbits(v)
        if u != u and v != v:
            continue
        if not abs(u - v) <= tol * max(1e-300, abs(u), abs(v)):
            return False
    return True


def search_orbits(cfg, seed, n=500):
    rng = random.Random(seed * 7 + 3)
    lines, moved = [], []
    for i in range(n):
        e = sample.draw(rng, rng.choice(sample.KINDS))
        e["theta"] = rng.uniform(-1, 7)
        if i % 3 == 0:
            e["o.inclination"] = rng.uniform(0.001, 0.19)
        e["o.right_ascension"] = rng.choice([e["o.right_ascension"], rng.uniform(-20, 20)])
        e["t"] = rng.choice([e["t"], -e["t"], 0.0])
        m = rng.choice([0, 1, 2, 3])
        lines.append("prop %s %s %d" % (consts_words(e), bits(e["t"]), m))
        for k in ("o.inclination", "o.right_ascension", "o.eccentricity", "o.argument_of_perigee", "o.mean_anomaly"):
            e[k] *= 1 + 4e-15
        moved.append("prop %s %s %d" % (consts_words(e), bits(e["t"]), m))
    a, b = both(lines, cfg)
    for line, x, y, z in zip(lines, a, b, native(moved)):
        if x == y or near(x, y, 1e-12):
            continue
        p, q, r = parse_pred(x), parse_pred(y), parse_pred(z)
        if (p is None) != (r is None) or x.split()[0] != z.split()[0]:
            continue  # on the edge: rounding decides
        if p is None:
            if x.split()[:2] != y.split()[:2] or not near(x, y, 1e-6):
                return found(cfg, line, x, y)
        elif q is None or any(v != v for v in q) != any(v != v for v in p) or rel_diff(p, q) > 1000 * rel_diff(p, r) + mpf(10) ** -9:
            return found(cfg, line, x, y)
    return None


def search_angles(cfg, seed, n=4000):
    rng = random.Random(seed * 7 + 4)
    xs = [rng.choice([rng.uniform(-400, 400), rng.uniform(-60, 60), rng.uniform(-1, 1), (rng.randint(-20000, 20000) + 0.5) / 365.25]) for _ in range(n)]
    lines = ["%s %s" % (rng.choice(["iau", "afspc"]), bits(x)) for x in xs]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if a == b:
            continue
        if a[:2] != "ok" or b[:2] != "ok":
            return found(cfg, line, a, b)
        x, y = unbits(a.split()[1]), unbits(b.split()[1])
        d = abs(x - y)
        if d > 1e-6 and not (abs(d - TAU) < 1e-6 and min(x, y) > -1e-6 and max(x, y) < TAU + 1e-6):
            return found(cfg, line, a, b)
    return None


def search_dates(cfg, seed, n=3000):
    rng = random.Random(seed * 7 + 5)
    lines = []
    for i in range(n):
        w, v = txt(random_words(rng)), txt(random_words(rng))
        m = rng.choice([rng.uniform(-1e6, 1e6), rng.uniform(-2e8, 2e8), 0.0, 1e300, float("nan"), float("inf"), rng.randrange(-99999, 99999, 2) / 4096])
        lines += ["years " + w, "years_afspc " + w, "epochs " + w, "to_minutes %s %s" % (w, v), "to_datetime %s %s" % (w, bits(m))]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if a != b and not near(a, b, 1e-14):
            return found(cfg, line, a, b)
    return None


def search_elements(cfg, seed, n=400):
    rng = random.Random(seed * 7 + 6)
    lines, moved = [], []
    for i in range(n):
        e = {k: float(v) for k, v in draw_env(rng).items() if k.startswith("el.")}
        if i % 7 == 0:
            e["el.mean_motion"] = rng.choice([0.0, -1.0, 1e-3])
        if i % 11 == 0:
            e["el.eccentricity"] = rng.choice([1.0, -0.1, 1.5])
        d, mode, t = txt(random_words(rng)), rng.choice([0, 1]), rng.uniform(-1000, 1000)
        for out, f in ((lines, 1), (moved, 1 + 4e-15)):
            out.append("elements %d %s %s %s" % (mode, d, " ".join(bits(e["el." + k] * f) for k in ("drag_term", "inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion", "mean_motion_dot", "mean_motion_ddot")), bits(t)))
    a, b = both(lines, cfg)
    for line, x, y, z in zip(lines, a, b, native(moved)):
        if x == y or near(x, y, 1e-12) or x.split()[0] != z.split()[0]:
            continue
        p, q, r = parse_pred(x), parse_pred(y), parse_pred(z)
        if p is None:
            if x.split()[:2] != y.split()[:2]:
                return found(cfg, line, x, y)
        elif q is None or any(v != v for v in q) != any(v != v for v in p) or rel_diff(p, q) > 1000 * rel_diff(p, r) + mpf(10) ** -9:
            return found(cfg, line, x, y)
    return None


def search_kozai(cfg, seed, n=1500):
    import c07

    rng = random.Random(seed * 7 + 7)
    lines = ["kozai " + " ".join(bits(e[k]) for k in GEO + c07.ARGS) for e in (c07.draw(rng) for _ in range(n))]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if not near(a, b, 1e-9):
            return found(cfg, line, a, b)
    return None


def search_tle(cfg, seed, n=12000):
    rng = random.Random(seed * 7 + 8)
    cases = [(None, a, b) for a, b in tles.sweep(rng)] + [(None,) + tles.random_pair(rng) for _ in range(n)]
    lines = [tles.cmd(*c) for c in cases]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if cfg == "libm":
            er = tles.parse_err(a)
            if er and er[1] == "Line1" and 9 <= er[2] and er[3] <= 17:
                continue  # about a field this configuration does not have
            a = re.sub(r"name=\S+ id=\S+ ", "", a)
        if a != b and not near(a, b, 1e-14):  # powers of ten are rounded differently
            return found(cfg, line, a, b)
    return None


def search_texts(cfg, seed, n=800):
    rng = random.Random(seed * 7 + 9)
    lines = ["%s %s" % (k, tles.hexs(t)) for k, per in (("two", 2), ("three", 3)) for t in c16.texts(rng, n, per)]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if a != b and not near(a, b, 1e-14):
            return found(cfg, line, a, b)
    return None


def search_omm(cfg, seed):
    docs = [c17.written(d) for d in c17.documents(random.Random(seed), 400)]
    lines = ["%s %s" % (k, t.encode().hex()) for k in ("omm", "omm_again") for t in docs]
    for line, a, b in zip(lines, *both(lines, cfg)):
        if a != b and not (a[:3] == b[:3] == "err"):
            return found(cfg, line, a, b)
    return None


def native_search(ctx):
    for c in OTHERS:
        f = search_orbits(c, ctx.seed) or search_angles(c, ctx.seed) or search_dates(c, ctx.seed) or search_kozai(c, ctx.seed) or search_elements(c, ctx.seed) or search_tle(c, ctx.seed)
        if f is None and c != "libm":
            f = search_texts(c, ctx.seed)
        if f is None and c == "libm_serde":
            f = search_omm(c, ctx.seed)
        if f:
            return f
    return None


# ------------------------------------------------------------------ numbers
class Same:
    """values of the default configuration against those of another"""

    def __init__(s, cfg, envs, search):
        s.cfg, s.envs, s.search, s.res, s.bad = cfg, envs, search, [], 0
        s.end = time.time() + 240

    def name(s, label):
        return "%s: %s" % (WHAT[s.cfg], label)

    def leaf(s, label, a, b, g):
        if a is b or g is FALSE:
            s.res.append(rec(s.name(label), True, "mirv"))
        elif s.bad < 3:
            left = min(60, s.end - time.time())
            r = prove_terms(WHAT[s.cfg], [label], [b], [a], g, s.envs, budget=max(5, left))
            s.bad += not r[0]["ok"]
            s.res += r
        else:
            s.res.append(rec(s.name(label), False, "mirv equality + z3", 0, None, "not attempted after other failures"))

    def value(s, label, a, b, g=TRUE):
        if g is FALSE or same(a, b):
            s.res.append(rec(s.name(label), True, "mirv"))
            return
        if isinstance(a, En) and isinstance(b, En):
            s.leaf(label + " (kind)", a.disc, b.disc, g)
            for k in sorted(set(a.vs) & set(b.vs)):
                s.value("%s/%d" % (label, k), a.vs[k], b.vs[k], And(g, ieq(a.disc, I(k)), ieq(b.disc, I(k))))
            return
        if isinstance(a, Nat) and isinstance(b, Nat) and a.kind == b.kind:
            a, b = a.f, b.f
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                s.value("%s.%d" % (label, i), x, y, g)
            return
        if isinstance(a, T) and isinstance(b, T):
            s.leaf(label, a, b, g)
            return
        if a is UNDEF or b is UNDEF:
            return
        raise Unsupported("%s: cannot compare %r and %r" % (label, a, b))

    def panics(s, label, a, b):
        a, b = (Or(FALSE, *[x[0] for x in l]) for l in (a, b))
        t1 = time.time()
        good = a is b or Prover(s.envs).valid(Iff(a, b)) or tz3.prove(Iff(a, b), (), 20000)[0] == "proved"
        s.res.append(rec(s.name(label + ": panics for the same inputs"), good, "mirv + z3", time.time() - t1))

    def done(s, *es):
        bad = [o for o in s.res if o.get("ok") is False]
        if bad:
            f = s.search()
            for o in bad:
                o["fail"] = f
        for e in es:
            s.res.append({"used": (sorted(e.executed), sorted(e.modelled))})
        return s.res


def orbit_job(p, q, cfg, seed):
    a, b = Side(p), Side(q)
    c = Same(cfg, sample.prover_envs(seed), lambda: search_orbits(cfg, seed))
    if [x for x in fields(p, arg_tys(p, p.root("new"))[1])] != [x for x in fields(q, arg_tys(q, q.root("new"))[1])]:
        raise Unsupported("the configurations' gravity models have different fields")
    c.leaf("acceptance of epoch elements", a.new.disc, b.new.disc, TRUE)
    c.value("rejected epoch elements", a.new.vs[1], b.new.vs[1], Not(a.new_ok))
    c.value("constants", a.consts, b.consts, a.new_ok)
    c.value("initial state", a.init, b.init, a.new_ok)
    c.panics("constants", a.new_panics, b.new_panics)
    c.panics("initial state", a.init_panics, b.init_panics)
    ok = sum(not o["ok"] for o in c.res) == 0
    if ok:
        # the constants agree: propagate one and the same value
        for has, label in ((FALSE, "prediction without a state"), (TRUE, "prediction from a state")):
            x, y = a.propagate(has, AF), b.propagate(has, AF)
            c.leaf(label + ": outcome", x.disc, y.disc, a.new_ok)
            c.value(label + ": error", x.err, y.err, And(a.new_ok, Not(x.ok)))
            for n, u, v in zip(LABELS, x.rv, y.rv):
                c.leaf("%s: %s" % (label, n), u, v, And(a.new_ok, x.ok))
            c.value(label + ": state afterwards", x.state, y.state, And(a.new_ok, x.ok))
            c.panics(label, x.panics, y.panics)
            c.res.append({"name": "%s (%s)" % (label, cfg), "reach": x.ok is not FALSE})
        for root in ("propagate", "propagate_afspc"):
            v = []
            for s in (a, b):
                s.e.panics = []
                r, _ = s.e.run(s.p.root(root), [Ptr(s.ck), rvar("t")], s.st0.copy(TRUE))
                v.append((r, list(s.e.panics)))
            c.value(root, v[0][0], v[1][0], a.new_ok)
            c.panics(root, v[0][1], v[1][1])
    return c.done(a.e, b.e)


def function_job(p, q, cfg, seed):
    """the small public functions, on arbitrary arguments"""
    rng = random.Random(seed)
    envs = [Names(sample.to_mp(draw_env(rng))) for _ in range(12)]
    out = []

    def run(root, args, search, ieee=False):
        Mode.ieee = ieee
        vs = []
        for x in (p, q):
            e = Exec(x, models)
            e.loop_hook = loops.summarise
            st = St({}, TRUE)
            r, _ = e.run(x.root(root), args(x, e, st), st)
            vs.append((r, e))
        c = Same(cfg, envs, lambda: search(cfg, seed))
        c.value(root, vs[0][0], vs[1][0])
        c.panics(root, vs[0][1].panics, vs[1][1].panics)
        out.extend(c.done(vs[0][1], vs[1][1]))
        Mode.ieee = False

    for root in ("iau", "afspc"):
        run(root, lambda x, e, st: [rvar("epoch")], search_angles)
    for root in ("years", "years_afspc"):
        run(root, lambda x, e, st: [Ptr(e.alloc(st, dt_var("d")))], search_dates)
    el = lambda x, e, st: Ptr(e.alloc(st, elements_with(x, dt_var("d"))))
    for root in ("epoch", "epoch_afspc"):
        run(root, lambda x, e, st: [el(x, e, st)], search_dates)
    for root in ("wgs84", "wgs72"):
        run(root, lambda x, e, st: [], search_elements)
    import c07

    run("kozai", lambda x, e, st: [Ptr(e.alloc(st, tuple(rvar("g." + n) for n in c07.geo_names(x))))] + [rvar(n) for n in c07.ARGS], search_kozai)
    for root in ("from_elements", "from_elements_afspc"):
        run(root, lambda x, e, st: [el(x, e, st)], search_elements)
    run("to_minutes", lambda x, e, st: [el(x, e, st), Ptr(e.alloc(st, dt_var("d2")))], search_dates)
    run("to_datetime", lambda x, e, st: [el(x, e, st), Ptr(e.alloc(st, (rvar("m"),)))], search_dates, True)
    return out


# ------------------------------------------------------------------ parsing
def tle_job(p, q, cfg, which, seed):
    Mode.ieee = True
    a, b = tles.Parse(p, which).run(), tles.Parse(q, which).run()
    o = tles.Obs("%s: %s" % (WHAT[cfg], {"full": "lines of 69 bytes", "line 1": "first line of another length", "line 2": "second line of another length"}[which]), lambda: search_tle(cfg, seed))
    na, nb = fields(p, a.oty), fields(q, b.oty)
    gone = [n for n in na if n not in nb]
    if cfg == "libm":
        o.res.append(rec(o.name + ": only the two text fields are missing", sorted(gone) == ["international_designator", "object_name"] and set(nb) <= set(na), "mirv"))
    else:
        o.res.append(rec(o.name + ": the same fields", set(na) == set(nb), "mirv"))
    excuse = FALSE
    if gone and a.err is not None:
        excuse = And(Not(a.ok), a.err_variant("line", "Line1"), ile(I(9), a.err_field("start")), ile(a.err_field("end"), I(17)))
    pre = And(a.pre, Not(excuse))
    o.goal("accepted alike", Iff(a.ok, b.ok), pre)
    o.goal("what the other rejects is rejected", Not(a.ok), And(a.pre, Not(b.ok)))
    g = And(pre, Not(a.ok))
    if g is not FALSE:
        for f in ("what", "line", "start", "end"):
            x, y = a.err_field(f), b.err_field(f)
            if same(x, y):
                o.goal("the same error: " + f, TRUE)
            elif isinstance(x, En) and isinstance(y, En):
                o.goal("the same error: " + f, tles.alike(x.disc, y.disc), g)
            else:
                o.goal("the same error: " + f, tles.alike_any(x, y), g)
    if which == "full":
        g = And(a.ok, b.ok)
        for n in na:
            if n in gone:
                continue
            x, y = a.get(n), b.get(n)
            if same(x, y):
                o.goal("the same " + n, TRUE)
            elif isinstance(x, En) and isinstance(y, En) and not any(x.vs.values()):
                o.goal("the same " + n, tles.alike(x.disc, y.disc), g)
            else:
                o.goal("the same " + n, tles.alike_any(x, y), g)
        o.reach("accepted lines (%s)" % cfg, g)
    o.reach("rejected lines (%s, %s)" % (cfg, which), And(a.pre, Not(a.ok)))
    pa, pb = (Or(FALSE, *[x[0] for x in s.e.panics]) for s in (a, b))
    o.goal("panics for the same inputs", Iff(pa, pb))
    a.e.panics = []
    o.res += [{"used": (sorted(b.e.executed), sorted(b.e.modelled))}]
    return o.done(a.e, b.local)


def attempt(job, x):
    try:
        return job(x), None
    except Unsupported as e:
        return None, str(e)


def spec_job(p, q, cfg, job, search, what):
    """both configurations satisfy one specification"""
    (d, no), (r, nor) = attempt(job, p), attempt(job, q)
    if d is None and r is not None or r is None and d is not None:
        raise Unsupported(no or nor)
    wrong = lambda l: [o for o in l if o.get("ok") is False]
    if d is None or wrong(d) and {o["name"] for o in wrong(d)} == {o["name"] for o in wrong(r)}:
        # neither is as specified (that is for C16 and C17 to say): compare them on inputs
        f = search()
        name = "%s: %s gives what the default configuration gives" % (WHAT[cfg], what)
        if f:
            return [rec(name, False, "replay of the real crate", 0, f, no or "specification not met")]
        return [{"bounded": name + " on the searched inputs only (%s)" % (no or "specification not met by either")}]
    bad = wrong(r) + wrong(d)
    if bad:
        f = search()
        for o in bad:
            o["fail"] = f
    r = r + wrong(d)
    for o in r:
        if "name" in o:
            o["name"] = "%s: %s" % (WHAT[cfg], o["name"])
    return r


def check(ctx):
    p = ctx.program()
    progs = {c: ctx.program(c) for c in OTHERS}
    jobs = []
    for c, q in progs.items():
        for w in ("full", "line 1", "line 2"):
            jobs.append(("TLE %s %s" % (w, c), lambda c=c, q=q, w=w: tle_job(p, q, c, w, ctx.seed)))
    for c, q in progs.items():
        jobs.append(("orbits " + c, lambda c=c, q=q: orbit_job(p, q, c, ctx.seed)))
        jobs.append(("functions " + c, lambda c=c, q=q: function_job(p, q, c, ctx.seed)))
        if c != "libm":
            for r in c16.KINDS:
                jobs.append((r + " " + c, lambda c=c, q=q, r=r: spec_job(p, q, c, lambda x: c16.job(x, r, ctx.seed), lambda: search_texts(c, ctx.seed), r)))
    c, q = "libm_serde", progs["libm_serde"]
    for n, j in (("reading", c17.read_job), ("writing", c17.write_job)):
        jobs.append(("OMM " + n, lambda j=j, n=n: spec_job(p, q, c, lambda x: j(x, ctx.seed), lambda: search_omm(c, ctx.seed), "OMM " + n)))
    ctx.jobs(jobs, budget=300)
    ctx.assume(*REALS)
    ctx.assume(
        "the elementary functions of the standard library and of libm (through num-traits) stand for the same real functions; their rounding may differ",
        "without allocation the two text fields do not exist and the designator columns (10 to 17 of the first line) are not read: an error about them alone is not reported",
        "core and chrono contracts as in C11 to C17",
    )
