"""C04: reusing a resonance state never changes a prediction.

Obligations on the code (one set per resonant regime), from which the property
follows by induction over the steps and over the sequence of requests:
  - a request is refused exactly when it goes back past the state's time or
    over epoch;
  - the result and the state left behind depend on the state passed in only
    through the state the loop stops at;
  - a step depends on the requested time only through its sign, and moves the
    state's time by 720 minutes, away from epoch and not beyond the request;
  - where the loop goes on for a request it goes on for every later one.
"""
import random

from deep import *
from c01 import REALS
from loops import exists
from run import native

DAY = [k for k in sample.KINDS if k.startswith("day")]
HALF = [k for k in sample.KINDS if k.startswith("half")]


def splits(ans):
    """answers of the replay program for a sequence -> [(result, state time)] or None"""
    if ans.startswith("panic"):
        return None
    w = ans.split(" ; ")
    return [(w[i], unbits(w[i + 1].split()[1])) for i in range(0, len(w), 2)]


def sequences(rng):
    """times away from epoch, then one more that may be refused"""
    s = rng.choice([1, -1])
    pick = lambda: rng.choice([rng.uniform(0, 300), rng.uniform(0, 4000), 720.0 * rng.randint(0, 6), rng.uniform(0, 60000), 720.0 * rng.randint(1, 6) - rng.choice([1e-9, 1.0, 719.0])])
    ts = sorted(abs(pick()) for _ in range(rng.randint(1, 4)))
    ts = [s * x for x in ts]
    k = rng.randrange(4)
    if k == 0:
        ts.append(-s * pick())
    elif k == 1:
        ts.append(ts[-1] * rng.random())
    elif k == 2:
        ts.append(s * 720.0 * max(0, int(abs(ts[-1]) // 720)))
    return ts


def oracle(seq, ans, fresh):
    """what is wrong with the answers for a sequence of times, or None"""
    got = splits(ans)
    at = 0.0
    for k, t in enumerate(seq):
        back = (at > 0 and t < at) or (at < 0 and t > at)
        if back:
            return None if got is None else "time %r with the state at %r was not refused" % (t, at)
        if got is None:
            if k == len(seq) - 1:
                return "time %r with the state at %r was refused" % (t, at)
            # the panic may be a later request's: follow the fresh state
            at = 720.0 * int(t / 720.0)
            continue
        r, at2 = got[k]
        fr = splits(fresh[k])
        if fr is None:
            return None
        if r != fr[0][0]:
            return "time %r: result differs from a fresh state's" % t
        if at2 != fr[0][1]:
            return "time %r: state left at %r, a fresh one at %r" % (t, at2, fr[0][1])
        if at2 % 720.0 != 0 or not (min(0, t) <= at2 <= max(0, t)):
            return "time %r: state left at %r" % (t, at2)
        at = at2
    return None


def native_search(ctx, n=250):
    rng = random.Random(ctx.seed * 13 + 1)
    items = []
    for i in range(n):
        e = sample.draw(rng, rng.choice(DAY + HALF))
        e["theta"] = rng.uniform(0, 6.28)
        e["drag"] *= rng.choice([0, 1, 1])
        items.append((consts_words(e), sequences(rng), rng.randrange(2)))
    lines = []
    for c, seq, a in items:
        lines.append("steps %s %d %d %s" % (c, a, len(seq), " ".join(map(bits, seq))))
        lines += ["steps %s %d 1 %s" % (c, a, bits(t)) for t in seq]
    ans = native(lines)
    k = 0
    for c, seq, a in items:
        line, r, fresh = lines[k], ans[k], ans[k + 1 : k + 1 + len(seq)]
        k += 1 + len(seq)
        w = oracle(seq, r, fresh)
        if w:
            return {"cmd": line, "times": seq, "answer": r, "fresh": fresh, "what": w}
    return None


def check(ctx):
    p = ctx.program()
    s = Side(p)
    q = Spec(s)
    out = s.propagate(TRUE, bvar("afspc"))
    ctx.used(s.e)
    if len(out.loops) != 1:
        raise Unsupported("%d loops over the resonance state" % len(out.loops))
    L = out.loops[0]
    t, o = q.t, q.o
    sv = list(s.sv)
    own = {x.id for x in sv} | {t.id}
    entered = exists(L["guard"], lambda a: any(x.op in ("rv", "bv") and x.id not in own for x in subterms([a])))
    panics = Or(*[g for g, *_ in out.panics]) if out.panics else FALSE
    back = Or(And(lt(R0, sv[s.it]), lt(t, sv[s.it])), And(lt(sv[s.it], R0), lt(sv[s.it], t)))
    ctx.ob("the integration starts from the state passed in", all(x is y for x, y in zip(L["entry"], sv)), "mirv", fail=None)
    t1, t2 = rvar("t1"), rvar("t2")
    at = rvar("S.%d" % s.it)
    other = [rvar("z.%d" % i) for i in range(3)]
    lv = [rvar("L.%d" % i) for i in range(3)]

    def regime(name, box, kinds):
        envs = sample.prover_envs(ctx.seed, kinds)
        for e in envs:
            for i in range(3):
                e["z.%d" % i] = e["s.%d" % i] * mpf("0.5")
                e["L.%d" % i] = e["S.%d" % i]
            e["t1"], e["t2"] = e["t"] / 2, e["t"]
        res = []

        def eq(lab, a, b, g):
            res.extend(prove_terms(name, [lab], [a], [b], g, envs))

        def holds(lab, c):
            t0 = time.time()
            try:
                P = Prover(envs)
                P.deadline = time.time() + 60
                good, det = P.valid(c), ""
            except (TooBig, OutOfTime, RecursionError) as x:
                good, det = False, repr(x)
            res.append(rec(name + ": " + lab, good, "z3", time.time() - t0, None, det or ("" if good else show(c, 6)[:800])))

        P = Prover(envs)
        pan, ent, cont = box.apply([And(s.new_ok, panics), entered, L["cont"]])
        nxt = box.apply(L["next"])
        holds("a request is refused exactly when it goes back past the state's time or over epoch", Iff(pan, back))
        # results and states: through the loop's final state only
        vals = box.apply(list(out.rv) + [out.disc] + list(out.state) + [x for x in vterms(out.err) if x.sort in "RI"])
        vals = subst(vals, dict(zip(L["outs"], lv)))
        ren = dict(zip(sv, other))
        free = P.trim(box.apply([Not(back)])[0])
        both = And(free, subst([free], ren)[0])
        names = ["x", "y", "z", "vx", "vy", "vz", "outcome"] + ["state left: " + str(i) for i in range(3)]
        vals = restrict_deep(vals, free)
        moved = subst(vals, ren)
        for k, (a, b) in enumerate(zip(vals, moved)):
            nm = names[k] if k < len(names) else "error value %d" % (k - len(names))
            if a is b:
                res.append(rec("%s: %s depends on the state passed in only through the loop" % (name, nm), True, "mirv"))
            else:
                eq("%s depends on the state passed in only through the loop" % nm, a, b, both)
        for i, x in enumerate(vals[7:10]):
            eq("the state left is the one the loop stops at: " + str(i), x, lv[i], free)
        for tn, lit, sg in (("t > 0", (">", 0), 1), ("t < 0", ("<", 0), -1)):
            bt = Box().add(t, *lit)
            e2 = P.trim(bt.apply([ent])[0])
            inv = lambda x, y: And(le(R0, x), le(x, y)) if sg > 0 else And(le(y, x), le(x, R0))
            c, *n = bt.apply([cont] + nxt)
            c, *n = restrict_deep([c] + n, e2)
            nm0 = tn + ": "
            if any(x.id in {v.id for v in sv} for x in subterms([c] + n)):
                c2, *n2 = subst([c] + n, ren)
                g = And(e2, subst([e2], ren)[0], inv(at, t))
                holds(nm0 + "going on does not depend on the state passed in", Implies(g, Iff(c, c2)))
                for i in range(3):
                    eq(nm0 + "a step does not depend on the state passed in: %d" % i, n[i], n2[i], And(g, c))
            g12 = And(lt(R0, t1), le(t1, t2)) if sg > 0 else And(lt(t1, R0), le(t2, t1))
            ca, cb = subst([c], {t: t1})[0], subst([c], {t: t2})[0]
            w = lambda x: And(subst([e2], {t: x})[0], inv(at, x))
            holds(nm0 + "going on for a request means going on for a later one", Implies(And(g12, w(t1), w(t2), ca), cb))
            for i in range(3):
                a, b = subst([n[i]], {t: t1})[0], subst([n[i]], {t: t2})[0]
                if a is b:
                    res.append(rec(name + ": " + nm0 + "a step depends on the request through its sign only: %d" % i, True, "mirv"))
                else:
                    eq(nm0 + "a step depends on the request through its sign only: %d" % i, a, b, And(g12, w(t1), w(t2), ca))
            eq(nm0 + "a step is 720 minutes away from epoch", n[s.it], add(at, R(720 * sg)), And(c, e2, inv(at, t)))
            holds(nm0 + "the state does not pass the request", Implies(And(c, e2, inv(at, t)), inv(n[s.it], t)))
        z = subst(box.apply([cont]), {t: R0, at: R0, sv[s.it]: R0})[0]
        res.append(rec(name + ": t = 0: no step is taken", z is FALSE, "mirv", detail=show(z)))
        ini = box.apply(list(s.ini))
        res.append(rec(name + ": the initial state is at epoch", ini[s.it] is R0, "mirv", detail=show(ini[s.it])))
        bad = [r for r in res if not r["ok"]]
        if bad:
            f = native_search(ctx)
            for r in bad:
                r["fail"] = f
        rows = evaluate([out.ok, back], envs, None)
        res.append({"name": name, "reach": any(r[1] is False for r in rows)})
        return res

    jobs = []
    for kind, kinds in (("day", DAY), ("half", HALF)):
        for name, box in regimes(o, kind):
            jobs.append((name, lambda name=name, box=box, kinds=kinds: regime(name, box, kinds)))
    ctx.jobs(jobs)
    ctx.assume(*REALS)
    ctx.assume("equality of reused and fresh results is bit for bit wherever the two computations are the same expression; the comparison t - 720 against the state's time is read over the reals (its rounding is monotonic)")
