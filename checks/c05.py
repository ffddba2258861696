"""C05: epoch orbits are accepted and routed to the right theory.

Acceptance and the existence of an initial state are decided in IEEE mode
(comparisons with NaN spelled out).  Routing is decided by what the prediction
depends on, in every cell of the (mean motion, eccentricity) plane that the
code or the property distinguishes: near-earth predictions do not depend on the
epoch, plain deep-space ones do, only resonant ones depend on the sidereal
angle, and only half-day steps depend on the time of the state.
"""
import math
import random

from deep import *
from c01 import REALS
from run import native

NEAR_K = [k for k in sample.KINDS if k[:3] in ("leo", "low", "meo", "ret")]
PLAIN_K = [k for k in sample.KINDS if k.startswith("deep")]
DAY_K = [k for k in sample.KINDS if k.startswith("day")]
HALF_K = [k for k in sample.KINDS if k.startswith("half")]
DAY_LO, DAY_HI, HALF_LO, HALF_HI = 0.0034906585, 0.0052359877, 8.26e-3, 9.24e-3


def resonant(n, e):
    """as the property states it, on floats"""
    if DAY_LO < n < DAY_HI:
        return "day"
    if HALF_LO <= n <= HALF_HI and e >= 0.5:
        return "half"
    return None


# -------------------------------------------------------------- the real code
def native_search(ctx):
    rng = random.Random(ctx.seed * 17 + 3)
    up, dn = (lambda x: math.nextafter(x, math.inf)), (lambda x: math.nextafter(x, -math.inf))
    ns = [rng.uniform(0.0005, 0.07) for _ in range(60)]
    for c in (DAY_LO, DAY_HI, HALF_LO, HALF_HI):
        ns += [c, up(c), dn(c), c * (1 + 1e-9), c * (1 - 1e-9), c * 1.0001, c * 0.9999, c * 1.01, c * 0.99]
    ns += [N_NEAR * (1 + x) for x in (1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3)]
    ns += [rng.uniform(DAY_LO, DAY_HI) for _ in range(20)] + [rng.uniform(HALF_LO, HALF_HI) for _ in range(20)]
    es = [0.0, -0.0, 5e-324, -5e-324, -1e-9, -0.3, 0.5, up(0.5), dn(0.5), 0.499, 0.501, 1.0, dn(1.0), up(1.0), 1.5, 0.9999, 0.3, 0.7, math.nan, -math.nan, math.inf, -math.inf]
    items = []
    for n in ns:
        for e in rng.sample(es, 7) + [0.5, dn(0.5), 0.2, 0.6]:
            v = sample.draw(rng, "deep" if n < N_NEAR else "leo")
            v["theta"] = rng.uniform(0, 6.28)
            v["o.mean_motion"], v["o.eccentricity"] = n, e
            items.append(v)
    lines = ["new " + consts_words(v) for v in items]
    for v, line, ans in zip(items, lines, native(lines)):
        n, e = v["o.mean_motion"], v["o.eccentricity"]
        what = None
        w = ans.split()
        if not 0 <= e < 1:
            if w[0] != "err":
                what = "accepted"
            else:
                try:
                    got = float(ans[ans.index("(") + 1 : ans.rindex(")")])
                    if not (got == e or got != got and e != e):
                        what = "the error carries %r" % got
                except ValueError:
                    pass
        elif w[0] != "ok":
            what = "not accepted"
        elif (w[1] == "resonant") != (resonant(n, e) is not None):
            what = "initial state: " + w[1]
        elif w[1] == "resonant" and unbits(w[2]) != 0:
            what = "initial state at " + str(unbits(w[2]))
        if what:
            return {"cmd": line, "mean_motion": n, "eccentricity": e, "answer": ans, "what": what}
    # what predictions depend on
    tests = []
    for _ in range(160):
        n = rng.choice(ns)
        e = rng.choice([rng.uniform(0.001, 0.45), rng.uniform(0.5, 0.7), 0.0, 0.5])
        if n > N_NEAR:
            e = rng.uniform(0, 0.02)
        v = sample.draw(rng, "deep" if n <= N_NEAR else "leo")
        v["theta"], v["t"] = rng.uniform(0, 6), rng.choice([-1, 1]) * rng.uniform(100, 3000)
        v["o.mean_motion"], v["o.eccentricity"] = n, e
        tests.append(v)
    lines = []
    for v in tests:
        for k, d in ((None, 0), ("epoch", 0.37), ("theta", 0.3)):
            x = dict(v)
            if k:
                x[k] += d
            lines.append("prop %s %s 2" % (consts_words(x), bits(x["t"])))
    ans = native(lines)
    for i, v in enumerate(tests):
        a, b, c = [parse_pred(x) for x in ans[3 * i : 3 * i + 3]]
        if a is None or b is None or c is None or any(x != x for x in a):
            continue
        n, e = v["o.mean_motion"], v["o.eccentricity"]
        want = (n < N_NEAR, resonant(n, e) is not None)
        if abs(n / N_NEAR - 1) < 1e-14:
            continue
        got = (a != b, a != c)
        if want != got:
            return {"cmd": lines[3 * i], "with_other_epoch": lines[3 * i + 1], "with_other_sidereal_angle": lines[3 * i + 2], "values": v, "what": "prediction depends on (epoch, sidereal angle): %s, expected %s" % (got, want)}
    return None


# ------------------------------------------------------------------- the proof
def cells(terms, o, lo_n, hi_n, lo_e, hi_e):
    """points and open intervals between every constant that mean motion or
    eccentricity is compared with, inside the given ranges"""
    th = var_thresholds(terms)

    def axis(v, lo, hi, name):
        cs = sorted(Fraction(c) for c in th.get(name, ()))
        (a, sa), (b, sb) = lo, hi
        a = Fraction(a)
        tiny = lambda x, y: abs(x - y) <= abs(x) / 10**12
        inner = [c for c in cs if a < c and not tiny(a, c) and (b is None or c < Fraction(b) and not tiny(c, Fraction(b)))]
        out = []
        if not sa:
            out.append([(v, ">=", a), (v, "<=", a)])
        edges = [a] + inner + ([Fraction(b)] if b is not None else [])
        for i, x in enumerate(edges):
            last = i + 1 == len(edges)
            if last and b is not None:
                break
            out.append([(v, ">", x)] + ([] if last else [(v, "<", edges[i + 1])]))
            if not last and (i + 2 < len(edges) or b is None):
                out.append([(v, ">=", edges[i + 1]), (v, "<=", edges[i + 1])])
        if b is not None and not sb:
            out.append([(v, ">=", Fraction(b)), (v, "<=", Fraction(b))])
        return out

    for x in axis(o.no, lo_n, hi_n, "o.mean_motion"):
        for y in axis(o.ecco, lo_e, hi_e, "o.eccentricity"):
            b = Box()
            for c in x + y:
                b.add(*c)
            yield "n %s, e %s" % (desc(x), desc(y)), b


def desc(cs):
    if len(cs) == 2 and cs[0][1] == ">=" and cs[1][1] == "<=" and cs[0][2] == cs[1][2]:
        return "= %.10g" % float(cs[0][2])
    return " ".join("%s %.10g" % (c[1], float(c[2])) for c in cs)


def into(rng, e, box):
    for vid in set(box.lo) | set(box.hi):
        v = ALL[vid].args[0]
        lo = float(box.lo[vid][0]) if vid in box.lo else 0.0
        hi = float(box.hi[vid][0]) if vid in box.hi else lo * 2
        e[v] = lo if lo == hi else lo + (hi - lo) * rng.uniform(0.05, 0.95)
    return e


def ieee_job(p):
    Mode.ieee = True
    s = Side(p)
    o = s.orb_s
    e, n = o.ecco, o.no
    res = []

    def holds(lab, c):
        t0 = time.time()
        P = Prover(sample.prover_envs(1))
        P.deadline = time.time() + 60
        try:
            good, det = P.valid(c), ""
        except (TooBig, OutOfTime, RecursionError) as x:
            good, det = False, repr(x)
        res.append(rec(lab, good, "mirv + z3", time.time() - t0, None, det or ("" if good else show(c, 8)[:800])))

    accept = And(le(R0, e), lt(e, R1))
    holds("an epoch orbit is accepted exactly when 0 <= eccentricity < 1 (not for NaN)", Iff(s.new_ok, accept))
    pay = vterms(s.new.vs[1])
    pay = [x for x in pay if x.sort == "R"]
    if len(pay) == 1:
        holds("the error carries the eccentricity", Implies(Not(s.new_ok), TRUE if pay[0] is e else req(pay[0], e)))
    else:
        res.append(rec("the error carries the eccentricity", False, "mirv", detail="payload %s" % [show(x, 3) for x in pay]))
    has = ieq(s.init.disc, I1)
    day = And(lt(R(DAY_LO), n), lt(n, R(DAY_HI)))
    half = And(le(R(HALF_LO), n), le(n, R(HALF_HI)), le(R(0.5), e))
    pre = And(accept, lt(R0, n))
    holds("an initial state exists exactly for resonant orbits", Implies(pre, Iff(has, Or(day, half))))
    nan_n = And(accept, atom(mk("isnan", (n,), "A")))
    holds("no initial state when the mean motion is not a number", Implies(nan_n, Not(has)))
    z = s.ini[s.it]
    holds("the initial state is at time 0", Implies(And(pre, has), TRUE if z is R0 else req(z, R0)))
    res.append({"used": (sorted(s.e.executed), sorted(s.e.modelled))})
    return res


def routing_job(name, p, which, ranges, kinds, seed):
    s = Side(p)
    q = Spec(s)
    o = q.o
    resonance = which in ("day", "half")
    out = s.propagate(TRUE if resonance else FALSE, bvar("afspc"))
    vals = out.rv + [out.disc]
    L = None
    res = []
    if resonance:
        if len(out.loops) != 1:
            raise Unsupported("%d loops over the resonance state" % len(out.loops))
        L = out.loops[0]
    th, ep = fn("theta", rvar("epoch")), rvar("epoch")
    vth = rvar("theta0")
    step = L["next"] + [L["cont"]] if L else []
    # the sidereal angle as an input of its own
    ini = list(s.ini)
    all_ = subst(vals + step + ini, {th: vth})
    rng = random.Random(seed)
    at = rvar("S.%d" % s.it)

    def independent(lab, ts, v, box, guard):
        if not any(x is v for x in subterms(ts)):
            res.append(rec(lab, True, "mirv"))
            return
        v2 = rvar(v.args[0] + "'")
        es = [into(rng, sample.draw(rng, kinds[i % len(kinds)]), box) for i in range(8)]
        for x in es:
            x["theta0"] = rng.uniform(0, 6)
            x[v2.args[0]] = x[v.args[0]] + 0.37
        es = [sample.to_mp(x) for x in es]
        r = prove_terms("", [lab] * len(ts), ts, subst(ts, {v: v2}), guard, es)
        res.append(rec(lab, all(x["ok"] for x in r), "mirv equality + z3", sum(x["s"] for x in r), None, "; ".join(x["detail"] for x in r if not x["ok"])[:800]))

    def depends(lab, ts, v, box):
        """an existence claim: settled by two evaluations that differ"""
        t0 = time.time()
        for tries in range(6):
            es = []
            for i in range(6):
                x = into(rng, sample.draw(rng, kinds[i % len(kinds)]), box)
                x["theta0"] = rng.uniform(0, 6)
                es.append(sample.to_mp(x))
            es2 = [dict(x) for x in es]
            for x in es2:
                x[v.args[0]] = x[v.args[0]] + mpf("0.37")
            n1, n2 = Num(es, {"lout": lambda env, lid, i, *entry: uf_real("lout%s" % i, list(entry))}), Num(es2, {"lout": lambda env, lid, i, *entry: uf_real("lout%s" % i, list(entry))})
            for t in ts:
                for a, b in zip(n1.get(t), n2.get(t)):
                    if a is not None and b is not None and not isinstance(a, (bool, int)) and not close(a, b, mpf(10) ** -20):
                        res.append(rec(lab, True, "evaluation", time.time() - t0))
                        return
        res.append(rec(lab, False, "evaluation", time.time() - t0, None, "no sample of the cell shows a dependence"))

    k = 0
    for cname, box in cells(all_, o, *ranges):
        k += 1
        ts = box.apply(all_)
        nv = len(vals)
        r, st, ini_ = ts[:nv], ts[nv : nv + len(step)], ts[nv + len(step) :]
        guard = And(s.new_ok, *box_conds(box))
        nm = which + " (" + cname + ")"
        every = r + st + (ini_ if resonance else [])
        if which == "near":
            independent(nm + ": predictions do not depend on the epoch", r, ep, box, guard)
            independent(nm + ": predictions do not depend on the sidereal angle", r, vth, box, guard)
        else:
            depends(nm + ": predictions depend on the epoch", r, ep, box)
            if which == "plain":
                independent(nm + ": predictions do not depend on the sidereal angle", r, vth, box, guard)
            else:
                depends(nm + ": the integration depends on the sidereal angle", st + ini_, vth, box)
                rest = [x for i, x in enumerate(st[:3]) if i != s.it]
                if which == "day":
                    independent(nm + ": a step's change does not depend on the time of the state", rest, at, box, And(guard, L["cont"]))
                else:
                    depends(nm + ": a step's change depends on the time of the state", rest, at, box)
    res.append({"name": which + " cells", "reach": k > 0})
    return res


def check(ctx):
    p = ctx.program()
    jobs = [("ieee", lambda: ieee_job(p))]
    E = ((0, False), (1, True))
    for nm, which, rn, re, kinds in (
        ("near", "near", ((N_NEAR, True), (None, True)), E, NEAR_K),
        ("plain1", "plain", ((HALF_HI, True), (N_NEAR, False)), E, PLAIN_K),
        ("plain2", "plain", ((HALF_LO, False), (HALF_HI, False)), ((0, False), (0.5, True)), PLAIN_K),
        ("plain3", "plain", ((DAY_HI, False), (HALF_LO, True)), E, PLAIN_K),
        ("plain4", "plain", ((0, True), (DAY_LO, False)), E, PLAIN_K),
        ("day", "day", ((DAY_LO, True), (DAY_HI, True)), E, DAY_K),
        ("half", "half", ((HALF_LO, False), (HALF_HI, False)), ((0.5, False), (1, True)), HALF_K),
    ):
        rn = tuple((Fraction(R(c).args[0]) if c is not None else None, s) for c, s in rn)
        jobs.append((nm, lambda nm=nm, which=which, rn=rn, re=re, kinds=kinds: routing_job(nm, p, which, (rn[0], rn[1], re[0], re[1]), kinds, ctx.seed)))
    ctx.jobs(jobs)
    bad = [x for x in ctx.obs if not x["ok"]]
    if bad:
        f = native_search(ctx)
        for x in bad:
            x["fail"] = f
    ctx.assume(*REALS)
    ctx.assume("the limit of 225 minutes is compared up to rounding of 2 pi / 225; the other limits are compared exactly, including NaN")
