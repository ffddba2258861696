"""C09: sidereal time follows the published expressions."""
from cases import *
from c01 import REALS


def draw(rng):
    k = rng.random()
    if k < 0.5:
        x = rng.uniform(-60, 60)
    elif k < 0.8:
        x = rng.uniform(-400, 400)
    else:
        # close to midnight of some day
        x = (rng.randint(-20000, 20000) + 0.5 + rng.choice([0, 1e-9, -1e-9, 0.5e-8, -2e-8, 1e-3])) / 365.25
    return {"epoch": x}


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    x = rvar("epoch")
    jobs = []
    for name, spec in (("iau", S.iau_gmst(x)), ("afspc", S.afspc_gmst(x))):
        e = Exec(p, models)
        r, _ = e.run(p.root(name), [x], St({}, TRUE))
        ctx.used(e)
        rng = random.Random(ctx.seed)
        envs = [sample.to_mp(draw(rng)) for _ in range(16)]

        def run(name=name, r=r, spec=spec, e=e, envs=envs):
            def search():
                return FnSearch([r], [spec], draw, lambda v: "%s %s" % (name, bits(v["epoch"])), lambda a: [unbits(a.split()[1])] if a.startswith("ok") else [None], ctx.seed, tol=1e-7, norm=mpf(1)).run()

            res = prove_terms(name + "_epoch_to_sidereal_time", ["angle"], [r], [spec], TRUE, envs, search)
            for pk in e.panics:
                res.append(rec("no panic: %s" % (pk,), False, "mirv"))
            return res

        jobs.append((name, run))
    def lemma():
        t1 = time.time()
        return [rec("lemma: the specification's reduction lies in [0, 2 pi)", one_turn(Fraction(S.TWOPI)), "z3", time.time() - t1)]

    jobs.append(("lemma", lemma))
    ctx.jobs(jobs)
    ctx.assume(*REALS)


def one_turn(b):
    """0 <= a reduced by whole turns < b, for every real a (b > 0 a constant)"""
    import z3

    y, k = z3.Real("y"), z3.Int("k")  # a = b y, k = trunc(y)
    bb = z3.Q(b.numerator, b.denominator)
    r = bb * (y - z3.ToReal(k))
    m = z3.If(r < 0, r + bb, r)
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(z3.If(y >= 0, z3.And(k <= y, y < k + 1), z3.And(k - 1 < y, y <= k)))
    s.add(z3.Not(z3.And(m >= 0, m < bb)))
    return s.check() == z3.unsat
