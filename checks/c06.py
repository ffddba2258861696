"""C06: divergence is reported as the right error with the right values.

Over the reals, per regime: which of the four outcomes is returned, and the
values the error carries, equal the published limits applied to the published
mean eccentricity, perturbed eccentricity and semi-latus rectum.  In IEEE mode:
an eccentricity that is not a number is outside the limits.
"""
import math
import random

from deep import *
from c01 import REALS, KINDS as NEAR_K
from c02 import KINDS as DEEP_K
from c03 import DAY, HALF
from run import native

VARIANTS = ("OutOfRangeEccentricity", "OutOfRangePerturbedEccentricity", "NegativeSemiLatusRectum")
LAB = ["outcome", "eccentricity in the error", "time in the error"]


def code_outcome(s, out):
    """(outcome 0..3, eccentricity, time) of the code, 0 where an outcome has none"""
    p = s.p
    en = out.err[0]
    if not isinstance(en, En):
        raise Unsupported("error layout")
    outc, ecc, tim = I0, R0, R0
    err = Not(out.ok)
    for k, name in enumerate(VARIANTS):
        v = variant(p, out.ety, name)
        fs = [x["name"] for x in p.types[out.ety]["variants"][v]["fields"]]
        here = And(err, ieq(en.disc, I(v)))
        outc = ite(here, I(k + 1), outc)
        if v in en.vs:
            if "eccentricity" in fs:
                ecc = ite(here, en.vs[v][fs.index("eccentricity")], ecc)
            tim = ite(here, en.vs[v][fs.index("t")], tim)
    return [outc, ecc, tim]


def spec_outcome(q, em, pert, mean):
    """em: mean eccentricity before its floor; pert: after the periodics (deep space)"""
    _, f = q.final(mean)
    outc = ite(lt(f.pl, R0), I(3), I0)
    ecc = R0
    tim = ite(lt(f.pl, R0), q.t, R0)
    if pert is not None:
        c = S.ep_out(pert)
        outc, ecc, tim = ite(c, I(2), outc), ite(c, pert, ecc), ite(c, q.t, tim)
    c = S.em_out(em)
    return [ite(c, I1, outc), ite(c, em, ecc), ite(c, q.t, tim)]


def parse(ans):
    w = ans.split()
    if w[0] == "ok":
        return [0, 0.0, 0.0]
    if w[0] == "err" and w[1] in VARIANTS:
        k = VARIANTS.index(w[1]) + 1
        return [k, unbits(w[2]) if k < 3 else 0.0, unbits(w[-1])]
    return None


def draw_for(kinds, boxes):
    def draw(rng):
        for _ in range(400):
            e = sample.draw(rng, rng.choice([k for k in kinds if not k.startswith("wild")]))
            k = rng.randrange(6)
            if k == 0:
                e["t"] *= 10 ** rng.uniform(0, 4)
                e["drag"] *= 10 ** rng.uniform(0, 3)
            elif k == 1:
                e["g.j3"] *= 10 ** rng.uniform(2, 6)
            elif k == 2:
                e["drag"] *= 10 ** rng.uniform(1, 5)
            elif k == 3:
                e["t"] *= 10 ** rng.uniform(0, 2.5)
                if e["o.mean_motion"] < 0.0082:
                    e["o.eccentricity"] = rng.choice([rng.uniform(0, 0.01), rng.uniform(0.9, 0.9999)])
                else:
                    e["o.eccentricity"] = rng.choice([e["o.eccentricity"], rng.uniform(0.6, 0.95)])
            elif k == 4:
                e["o.eccentricity"] = rng.choice([0.0, 1e-7, 1e-5, 0.0008, 0.99])
                e["t"] *= rng.choice([1, 10])
            e.setdefault("theta", rng.uniform(0, 6.28))
            e["has_state"] = False
            if abs(e["t"]) > 250000:
                e["t"] = math.copysign(rng.uniform(1000, 250000), e["t"])
            if in_box(e, boxes):
                break
        return e

    return draw


def code_pred(e):
    return "prop %s %s %d" % (consts_words(e), bits(float(e["t"])), 3 if e["afspc"] else 2)


def special_search(seed):
    """inputs that make an eccentricity something other than a number"""
    rng = random.Random(seed)
    items = []
    for i in range(120):
        e = sample.draw(rng, sample.KINDS[i % len(sample.KINDS)])
        e["theta"] = 1.0
        k = rng.choice(["drag", "t", "g.j2", "g.j3", "o.inclination", "o.argument_of_perigee", "o.mean_anomaly", "epoch", "o.right_ascension"])
        e[k] = rng.choice([math.nan, math.inf, -math.inf])
        items.append((k, e))
    lines = [code_pred(e) for _, e in items]
    for (k, e), line, ans in zip(items, lines, native(lines)):
        g = parse(ans)
        if g is None:
            continue
        # the mean eccentricity is e0 - drag (...) t [+ lunisolar rate t]
        known_nan = k in ("drag", "t") or (k == "epoch" and e["o.mean_motion"] < N_NEAR * 0.999)
        if known_nan and g[0] not in (1,):
            return {"cmd": line, "answer": ans, "what": "%s = %r gives no mean eccentricity, yet the outcome is %d" % (k, e[k], g[0])}
        if g[0] == 1 and -0.001 <= g[1] < 1 or g[0] == 2 and 0 <= g[1] <= 1:
            return {"cmd": line, "answer": ans, "what": "error with an eccentricity inside the limits"}
        if g[0] and not (g[2] == e["t"] or e["t"] != e["t"] and g[2] != g[2]):
            return {"cmd": line, "answer": ans, "what": "error with another time"}
    return None


def ieee_job(p, has, seed):
    Mode.ieee = True
    s = Side(p)
    out = s.propagate(TRUE if has else FALSE, bvar("afspc"))
    en = out.err[0]
    outc, ecc, tim = code_outcome(s, out)
    res = []
    nm = "with a resonance state" if has else "without a state"
    panics = Or(*[g for g, *_ in out.panics]) if out.panics else FALSE
    envs = sample.prover_envs(1)

    def holds(lab, c):
        t0 = time.time()
        P = Prover(envs)
        P.deadline = time.time() + 100
        try:
            good, det = P.valid(c), ""
        except (TooBig, OutOfTime, RecursionError) as x:
            good, det = False, repr(x)
        res.append(rec(nm + ": " + lab, good, "mirv + z3", time.time() - t0, None, det or ("" if good else show(c, 8)[:800])))

    pay = lambda k: en.vs.get(variant(p, out.ety, VARIANTS[k - 1]))
    pre = And(s.new_ok, Not(panics))
    one = ieq(outc, I1)
    fs = lambda k: [x["name"] for x in p.types[out.ety]["variants"][variant(p, out.ety, VARIANTS[k - 1])]["fields"]]
    e1 = pay(1)[fs(1).index("eccentricity")]
    holds("mean eccentricity error exactly when it is not in [-0.001, 1)", Implies(pre, Iff(one, Not(And(le(R(-0.001), e1), lt(e1, R1))))))
    e2 = pay(2)[fs(2).index("eccentricity")]
    # near-earth orbits have no perturbed eccentricity
    deep = le(s.orb_s.no, R(N_NEAR))
    boxd = Box().add(s.orb_s.no, "<=", N_NEAR).add(s.orb_s.no, ">", 0).add(s.orb_s.ecco, ">=", 0).add(s.orb_s.ecco, "<", 1)
    c = Implies(And(pre, Not(one)), Iff(ieq(outc, I(2)), Not(And(le(R0, e2), le(e2, R1)))))
    holds("perturbed eccentricity error exactly when it is not in [0, 1]", boxd.apply([c])[0])
    holds("the error carries the requested time", Implies(And(pre, Not(ieq(outc, I0))), TRUE if all(x is rvar("t") for x in leaves_under(tim, And(pre, Not(ieq(outc, I0))))) else FALSE))
    bad = [r for r in res if not r["ok"]]
    if bad:
        f = special_search(seed)
        for r in bad:
            r["fail"] = f
    return res


def leaves_under(t, g):
    return leaves(restrict(t, g), 400)


def prove_outcomes(name, code, spec, box, lits, kinds, seed, guard, recs=None, boxes=None, group=None):
    """outcome, then the values under their outcomes"""
    t0 = time.time()
    draw = draw_for(kinds, boxes or [box])
    search_terms = box.apply(code), box.apply(spec)

    def search():
        ufs = {"lout": loop_uf(recs)} if recs else {}
        gd = box.apply([guard])[0]
        return FnSearch(search_terms[0], search_terms[1], draw, code_pred, parse, seed, gd, 1e-7, 240, ufs, None).run()

    return prove_case(name, LAB, code, spec, guard, box, lits, kinds, seed, search, boxes, group)


def check(ctx):
    p = ctx.program()
    jobs = [("ieee %s" % h, lambda h=h: ieee_job(p, h, ctx.seed)) for h in (False, True)]
    s = Side(p)
    q = Spec(s)
    o = q.o
    # near earth and plain deep space
    out = s.propagate(FALSE, bvar("afspc"))
    code = code_outcome(s, out)
    simp, ecc = q.k.simplified(), S.gt(o.ecco, 1e-4)
    _, em, mean = q.near()
    spec = spec_outcome(q, em, None, mean)
    nb = Box().add(o.no, ">", 2 * S.PI / 225).add(o.ecco, ">=", 0).add(o.ecco, "<", 1)
    for nm, lits in (
        ("near earth, perigee below 220 km", [(simp, True)]),
        ("near earth, perigee at least 220 km, e > 1e-4", [(simp, False), (ecc, True)]),
        ("near earth, perigee at least 220 km, e <= 1e-4", [(simp, False), (ecc, False)]),
    ):
        jobs.append((nm, lambda nm=nm, lits=lits: prove_outcomes(nm, code, spec, nb, lits, NEAR_K, ctx.seed, s.new_ok)))

    raw = q.deep_plain()
    pm = q.periodics(raw, bvar("afspc"))
    dspec = spec_outcome(q, raw.em, pm.em, pm)
    groups = {}
    for name, box in regimes(o, "plain"):
        for nm, b in with_inclination(o, name, box):
            groups.setdefault(tuple(x.id for x in b.apply(code + dspec)), []).append((nm, b))
    for key, cs in groups.items():
        name = "; ".join(x for x, _ in cs)
        b = cs[0][1]
        for v in (True, False):
            lab = name + (", Lyddane" if v else ", direct")
            jobs.append((lab, lambda lab=lab, b=b, v=v, cs=cs, name=name, lyd=S.lyddane(pm.incl): prove_outcomes(lab, code, dspec, b, [(lyd, v)], DEEP_K, ctx.seed, s.new_ok, None, [x for _, x in cs], name)))

    # resonant: from a fresh state
    rout = s.propagate(TRUE, bvar("afspc"))
    if len(rout.loops) != 1:
        raise Unsupported("%d loops over the resonance state" % len(rout.loops))
    L = rout.loops[0]
    lo = L["outs"]
    fresh = dict(zip(s.sv, s.ini))
    rcode = code_outcome(s, rout)
    for kind, kinds in (("day", DAY), ("half", HALF)):
        r = q.resonance(kind)
        raw = q.deep_resonant(r, lo[s.it], lo[s.il], lo[s.im])
        pm = q.periodics(raw, bvar("afspc"))
        rspec = spec_outcome(q, raw.em, pm.em, pm)
        for name, box in regimes(o, kind):
            for nm, b in with_inclination(o, name, box):
                for v in (True, False):
                    lab = nm + (", Lyddane" if v else ", direct")

                    def job(lab=lab, nm=nm, b=b, v=v, rspec=rspec, kinds=kinds, lyd=S.lyddane(pm.incl)):
                        crec = dict(L)
                        c = b.apply([L["cont"]] + L["next"])
                        crec["cont"], crec["next"] = c[0], c[1:]
                        return prove_outcomes(lab, subst(rcode, fresh), subst(rspec, fresh), b, [(subst([lyd], fresh)[0], v)], kinds, ctx.seed, s.new_ok, {L["id"]: crec}, None, nm)

                    jobs.append((lab, job))
    ctx.used(s.e)
    ctx.jobs(jobs)
    ctx.assume(*REALS)
    ctx.assume("resonant orbits: the state the integration stops at is the one of C03 (the eccentricity does not depend on it)")
