"""C07: Kozai elements convert to the Brouwer mean motion."""
from cases import *
from c01 import REALS

GEOF = ("ae", "ke", "j2", "j3", "j4")
ARGS = ("i", "raan", "e", "argp", "m", "n")


def draw(rng):
    g = rng.choice([sample.WGS84, sample.WGS72])
    e = dict(zip(GEO, g))
    if rng.random() < 0.4:
        e["g.j2"] = rng.uniform(-2, 2)
    e.update(i=rng.uniform(-1, 4), raan=rng.uniform(0, 6), e=rng.uniform(0, 0.95), argp=rng.uniform(0, 6), m=rng.uniform(0, 6), n=rng.uniform(0.001, 0.08))
    if rng.random() < 0.15:
        e["n"] = rng.choice([0.0, -e["n"], -1e-300, -0.0])
    return e


def outcome(p, r, ety, names):
    """0 for Ok, 1 + position in names for an error variant"""
    d = r.vs[1][0].disc if 1 in r.vs else I0
    x = I(99)
    for k, nm in enumerate(names):
        x = ite(ieq(d, I(variant(p, ety, nm))), I(k + 1), x)
    return ite(ieq(r.disc, I0), I0, x)


def model(p):
    e = Exec(p, models)
    f = p.root("kozai")
    tys = arg_tys(p, f)
    st = St({}, TRUE)
    names = geo_names(p)
    gp = e.alloc(st, tuple(rvar("g." + x) for x in names))
    r, st = e.run(f, [Ptr(gp)] + [rvar(x) for x in ARGS], st)
    rty = p.types[tys[0]]
    ety = rty["variants"][1]["fields"][0]["ty"]
    oty = rty["variants"][0]["fields"][0]["ty"]
    fs = fields(p, oty)
    orb = r.vs[0][0]
    o = outcome(p, r, ety, ["NegativeKozaiMeanMotion", "NegativeBrouwerMeanMotion"])
    return e, o, [orb[fs.index(x)] for x in sample.ORB], r


def geo_names(p):
    return fields(p, arg_tys(p, p.root("new"))[1])


def parse(ans):
    w = ans.split()
    if w[0] == "ok":
        return [0] + [unbits(x) for x in w[1:]]
    if w[0] == "err":
        return [1 if "Kozai" in w[1] else 2] + [0.0] * 6
    return [9] + [0.0] * 6


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    e, o, orb, r = model(p)
    ctx.used(e)
    g = S.Grav(*[rvar("g." + x) for x in GEOF])
    a = [rvar(x) for x in ARGS]
    nb = S.brouwer_mean_motion(g, a[2], a[0], a[5])
    pos = lt(R(0), a[5])
    want = ite(Not(pos), I1, ite(lt(R(0), nb), I0, I(2)))
    spec = a[:5] + [nb]
    rng = random.Random(ctx.seed)
    envs = [sample.to_mp(draw(rng)) for _ in range(16)]
    envs = [x for x in envs if x["n"] > 0]
    ok = ieq(o, I0)

    def cmd(x):
        return "kozai " + " ".join(bits(x[k]) for k in GEO + ARGS)

    def search():
        return FnSearch([o] + [ite(ok, t, R0) for t in orb], [want] + [ite(ieq(want, I0), t, R0) for t in spec], draw, cmd, parse, ctx.seed).run()

    def run():
        res = prove_terms("from_kozai_elements", ["outcome (accepted, or which mean motion is not positive)"], [o], [want], TRUE, envs, search)
        res += prove_terms("from_kozai_elements", list(sample.ORB), orb, spec, And(ok, pos), envs, search)
        es = [draw(random.Random(k)) for k in range(200)]
        rows = evaluate([o], [sample.to_mp(x) for x in es])
        for k in (0, 1):
            res.append({"name": "outcome %d" % k, "reach": any(x[0] == k for x in rows)})
        for pk in e.panics:
            res.append(rec("no panic: %s" % (pk,), False, "mirv"))
        return res

    ctx.jobs([("kozai", run)])
    ctx.assume(*REALS)
    # the second error needs 1 + d0 <= 0, which no finite 0 <= e < 1 reaches; it is specified all the same
    ctx.assume("inputs are finite numbers, 0 <= eccentricity < 1")
