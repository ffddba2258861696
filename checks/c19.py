"""C19: propagation never panics or loops forever.

IEEE mode, so that every comparison also has its not-a-number outcome.  No
assertion, overflow check, index check or panic that the compiler put into the
executed code can be reached, for constants built from any accepted orbit and
any time; the times NaN and +-infinity are executed as such and take no step.
"""
import math
import random

from deep import *
from c01 import REALS
from loops import exists
from run import native

SPECIAL = (("NaN", NAN), ("+infinity", INF), ("-infinity", NINF))


def native_search(ctx, n=150):
    rng = random.Random(ctx.seed * 19 + 4)
    odd = [math.nan, math.inf, -math.inf, 0.0, -0.0, 1e-320, 719.9999999999999, 720.0, -720.0, 720.0000000000001, 1e7, -1e7]
    lines = []
    for i in range(n):
        e = sample.draw(rng, sample.KINDS[i % len(sample.KINDS)])
        e["theta"] = rng.uniform(0, 6.28)
        e["t"] = rng.choice(odd + [e["t"]] * 6)
        if i % 3 == 0:
            k = rng.choice(["o.inclination", "o.mean_motion", "o.eccentricity", "drag", "epoch", "g.j2", "theta", "o.mean_anomaly", "g.ae", "g.ke", "o.argument_of_perigee"])
            e[k] = rng.choice([0.0, math.nan, math.inf, -math.inf, -1.0, 1e300, 1e-300, 3.2, math.pi])
        lines.append("prop %s %s %d" % (consts_words(e), bits(e["t"]), rng.randrange(4)))
    # one after the other with a small limit each: a hang is an answer
    out = []
    for k in range(0, len(lines), 30):
        out += native(lines[k : k + 30], timeout=20)
        if any(a == "timeout" for a in out):
            break
    for line, a in zip(lines, out):
        if a.startswith(("panic", "timeout", "abort")):
            return {"cmd": line, "answer": a, "what": "propagation " + a}
    return None


def check(ctx):
    p = ctx.program()
    jobs = [(nm, lambda nm=nm, root=root, t=t: call_job(p, nm, root, t, ctx.seed)) for root in ("propagate", "propagate_afspc", "propagate_from_state") for nm, t in [(root + ", any time", rvar("t"))] + [(root + ", " + x, v) for x, v in SPECIAL]]
    jobs.append(("building", lambda: build_job(p)))
    for kind in ("day", "half"):
        jobs.append((kind, lambda kind=kind: loop_job(p, kind, ctx.seed)))
    ctx.jobs(jobs)
    bad = [x for x in ctx.obs if not x["ok"]]
    if bad:
        f = native_search(ctx)
        for x in bad:
            x["fail"] = f
    ctx.assume(REALS[3])
    ctx.assume(
        "loop progress is over the reals: adding 720 to a multiple of 720 is exact in f64 up to 2^57 minutes, and t - 720 is rounded monotonically",
        "comparisons are IEEE comparisons; which operands are NaN is left open, so every combination is covered",
        "the host has memory and stack for the call; floating-point operations do not trap",
    )


def build_job(p):
    Mode.ieee = True
    s = Side(p)
    res = []
    for what, ps, pre in (("building constants", s.new_panics, TRUE), ("the initial state", s.init_panics, s.new_ok)):
        res += no_panic(what, ps, pre, 1)
    res.append({"used": (sorted(s.e.executed), sorted(s.e.modelled))})
    return res


def no_panic(what, ps, pre, seed):
    res = []
    t0 = time.time()
    P = Prover(sample.prover_envs(seed))
    live = [x for x in ps if And(x[0], pre) is not FALSE]
    n = 0
    for g, *where in live:
        n += 1
        c = Not(And(g, pre))
        try:
            P.deadline = time.time() + 60
            good, det = P.valid(c), ""
        except (TooBig, OutOfTime, RecursionError) as x:
            good, det = False, repr(x)
        res.append(rec("%s: not reached: %s in %s (%s)" % (what, where[0], where[1], str(where[2]).split("/")[-1] if len(where) > 2 else ""), good, "mirv + z3", time.time() - t0, None, det or ("" if good else show(And(g, pre), 6)[:600])))
    res.append(rec("%s: %d panic points, none reachable" % (what, len(ps)), all(r["ok"] for r in res), "mirv", time.time() - t0))
    return res


def call_job(p, nm, root, t, seed):
    """propagation from epoch, executed in full"""
    Mode.ieee = True
    s = Side(p)
    e = s.e
    e.panics, e.loops = [], []
    st = s.st0.copy(TRUE)
    f = p.root(root)
    args = [Ptr(s.ck), t]
    if root == "propagate_from_state":
        k = e.alloc(st, s.init.vs[1][0])
        args += [En(s.init.disc, {0: (), 1: (Ptr(k),)}), bvar("afspc")]
    r, st = e.run(f, args, st)
    res = no_panic(nm, list(e.panics), s.new_ok, seed)
    if t.op != "rv":
        # no step may be taken
        good = True
        det = ""
        for L in e.loops:
            c = subst([L["cont"]], dict(zip(L["svars"], L["entry"])))[0]
            P = Prover(sample.prover_envs(seed))
            if not P.valid(Not(And(L["guard"], c, s.new_ok))):
                good, det = False, show(And(L["guard"], c), 6)[:600]
        res.append(rec(nm + ": the resonance loop ends at once", good, "mirv + z3", 0, None, det))
    res.append({"used": (sorted(e.executed), sorted(e.modelled))})
    return res


def loop_job(p, kind, seed):
    """over the reals: finite times"""
    s = Side(p)
    q = Spec(s)
    out = s.propagate(TRUE, bvar("afspc"))
    if len(out.loops) != 1:
        raise Unsupported("%d loops over the resonance state" % len(out.loops))
    L = out.loops[0]
    t = q.t
    kinds = [k for k in sample.KINDS if k.startswith(kind)]
    envs = sample.prover_envs(seed, kinds)
    own = {x.id for x in s.sv} | {t.id}
    entered = exists(L["guard"], lambda a: any(x.op in ("rv", "bv") and x.id not in own for x in subterms([a])))
    at = rvar("S.%d" % s.it)
    res = []
    for name, box in regimes(q.o, kind):
        ent, cont, nt = box.apply([entered, L["cont"], L["next"][s.it]])
        for tn, lit, sg in (("t > 0", (">", 0), 1), ("t < 0", ("<", 0), -1)):
            bt = Box().add(t, *lit)
            P = Prover(envs)
            e2 = P.trim(bt.apply([ent])[0])
            c, n = restrict_deep(bt.apply([cont, nt]), e2)
            inv = lambda x: And(le(R0, x), le(x, t)) if sg > 0 else And(le(t, x), le(x, R0))
            left = sub(t, at) if sg > 0 else sub(at, t)
            pre = And(e2, inv(at))

            def holds(lab, cond):
                t0 = time.time()
                P = Prover(envs)
                P.deadline = time.time() + 60
                try:
                    good, det = P.valid(cond), ""
                except (TooBig, OutOfTime, RecursionError) as x:
                    good, det = False, repr(x)
                res.append(rec("%s, %s: %s" % (name, tn, lab), good, "z3", time.time() - t0, None, det or ("" if good else show(cond, 6)[:600])))

            res.extend(prove_terms("%s, %s" % (name, tn), ["a step moves the state 720 minutes towards t"], [n], [add(at, R(720 * sg))], And(pre, c), envs))
            holds("a step is taken only if at least 720 minutes are left", Implies(And(pre, c), le(R(720), left)))
            holds("the loop stops within one step of t", Implies(And(pre, Not(c)), le(left, R(720))))
        z = subst(box.apply([cont]), {t: R0, at: R0, s.sv[s.it]: R0})[0]
        res.append(rec(name + ", t = 0: no step is taken", z is FALSE, "mirv", detail=show(z)))
    return res
