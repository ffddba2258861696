"""C18: the compatibility flag changes only Lyddane deep-space predictions.

Per regime, with the flag as an input of the same execution: near-earth and
direct deep-space results with the flag on equal those with it off; Lyddane
results with the flag on equal the published ones with the node reduced into
[0, 2 pi).  The two convenience calls are executed in full and compared with
propagating a fresh state with the flag off and on.
"""
import random

from deep import *
from c01 import REALS, KINDS as NEAR_K
from c02 import KINDS as DEEP_K
from c03 import DAY, HALF
from run import native

AF = bvar("afspc")


def outs_of(out):
    """everything observable: prediction, outcome, error values, state left"""
    return out.rv + [out.disc] + [x for x in vterms(out.err) if x.sort in "RI"]


def with_flag(ts, v):
    return subst(ts, {AF.args[0]: TRUE if v else FALSE})


def differs(line0, line1):
    a, b = native([line0, line1])
    return (a, b) if a != b else None


def flag_search(domain, kinds, seed, lyd_spec, recs, fresh, n=160):
    """a real orbit outside the Lyddane range on which the flag matters"""

    def run():
        rng = random.Random(seed * 3 + 1)
        es = []
        for i in range(n):
            e = sample.draw(rng, rng.choice([k for k in kinds if not k.startswith("wild")]))
            e["theta"] = rng.uniform(0, 6.28)
            e["t"] = rng.choice([e["t"], -e["t"], e["t"] * 10])
            e["o.right_ascension"] = rng.choice([e["o.right_ascension"], rng.uniform(-7, 7)])
            if i % 3 == 0:
                e["o.inclination"] = rng.choice([rng.uniform(0.15, 0.25), 0.2, rng.uniform(0, 3.14)])
            if domain(e):
                es.append(e)
        rows = evaluate([lyd_spec], [sample.to_mp(e) for e in es], recs) if lyd_spec is not None else [[False]] * len(es)
        es = [e for e, r in zip(es, rows) if r[0] is False]
        lines = []
        for e in es:
            w = consts_words(e)
            lines += ["prop %s %s %d" % (w, bits(e["t"]), m) for m in (2, 3)]
        ans = native(lines) if lines else []
        for i, e in enumerate(es):
            a, b = ans[2 * i : 2 * i + 2]
            if a != b and "panic" not in a:
                return {"cmd": lines[2 * i], "cmd_flag_on": lines[2 * i + 1], "flag_off": a, "flag_on": b, "values": {k: v for k, v in e.items() if k[0] not in "sS"}, "what": "the flag changes this prediction"}
        return None

    return run


def lyddane_case(name, out, sp, ok, b, lits, kinds, seed, boxes, search, group):
    """flag on = specification with the flag on; a failure counts only if the
    flag-off side holds (otherwise the common part is what is wrong: C02, C03)"""
    on = prove_case(name, [x + " with the flag on" for x in LABELS], with_flag(out.rv, True), with_flag(sp, True), with_flag([ok], True)[0], b, lits, kinds, seed, search, boxes, group)
    if all(r.get("ok", True) for r in on):
        return on
    off = prove_case(name, LABELS, with_flag(out.rv, False), with_flag(sp, False), with_flag([ok], False)[0], b, lits, kinds, seed, None, boxes, group)
    if all(r.get("ok", True) for r in off):
        return on
    # the common part deviates from the theory: compare the two sides with each other
    t0 = time.time()
    good = node_pairs(b.apply(out.rv))
    if good:
        return [rec(name + ": the flag only reduces the node", True, "mirv", time.time() - t0)] + [r for r in on if "reach" in r]
    raise Unsupported("the flag's effect cannot be separated from a deviation of the common part in: " + name)


def node_pairs(ts):
    """every choice made on the flag is  x + 2 pi if x < 0 else x  against  x"""
    P = Prover(sample.prover_envs(1))
    af = AF.args[0]
    for t in subterms(ts):
        if t.op == "ite" and t.args[0] is af and t.sort == "R":
            x, y = t.args[1], t.args[2]
            want = ite(lt(y, R0), add(y, R(S.TWOPI)), y)
            if x is not want:
                try:
                    P2 = Prover(sample.prover_envs(1))
                    P2.add_spec([want])
                    P2.deadline = time.time() + 20
                    if not P2.equal(x, want):
                        return False
                except (TooBig, OutOfTime, RecursionError):
                    return False
    return True


def wrapper_job(p, root, flag, seed):
    s = Side(p)
    e = s.e
    f = p.root(root)

    def run(fid, args):
        e.panics, e.loops = [], []
        st = s.st0.copy(TRUE)
        r, st = e.run(fid, [Ptr(s.ck)] + args(st), st)
        return r, list(e.panics), list(e.loops)

    res = []
    t0 = time.time()
    a, pa, la = run(f, lambda st: [rvar("t")])
    g = p.root("propagate_from_state")

    def args(st):
        k = e.alloc(st, s.init.vs[1][0])
        return [rvar("t"), En(s.init.disc, {0: (), 1: (Ptr(k),)}), TRUE if flag else FALSE]

    b, pb, lb = run(g, args)
    ta, tb = vterms(a), vterms(b)
    envs = sample.prover_envs(seed)
    nm = root
    if len(ta) != len(tb):
        raise Unsupported("result layout of " + root)
    same_ = all(x is y for x, y in zip(ta, tb))
    if same_:
        res.append(rec(nm + " returns what propagating a fresh state with the flag %s returns" % ("on" if flag else "off"), True, "mirv", time.time() - t0))
    else:
        bad = []
        for i, (x, y) in enumerate(zip(ta, tb)):
            if x is not y:
                bad += [r for r in prove_terms(nm, ["value %d equals that of a fresh state with the flag %s" % (i, "on" if flag else "off")], [x], [y], s.new_ok, envs, budget=30)]
        if any(not r["ok"] for r in bad):
            fnd = wrapper_search(seed, flag)
            for r in bad:
                r["fail"] = fnd
        res += bad
    ga, gb = Or(FALSE, *[x[0] for x in pa]), Or(FALSE, *[x[0] for x in pb])
    P = Prover(envs)
    good = ga is gb or P.valid(Implies(s.new_ok, Iff(ga, gb)))
    res.append(rec(nm + " panics exactly where propagating a fresh state does", good, "mirv + z3", time.time() - t0, None if good else wrapper_search(seed, flag)))
    res.append({"used": (sorted(e.executed), sorted(e.modelled))})
    return res


def wrapper_search(seed, flag):
    rng = random.Random(seed * 5 + 2)
    lines = []
    for i in range(500):
        e = sample.draw(rng, rng.choice(sample.KINDS))
        if i % 2:
            # where the flag makes a difference
            e["o.inclination"] = rng.uniform(0.001, 0.19)
            e["o.right_ascension"] = rng.uniform(-7, 7)
        e["theta"] = rng.uniform(0, 6.28)
        e["t"] = rng.choice([e["t"], 0.0, -e["t"], 1e-3, e["t"] * 30])
        w = consts_words(e)
        lines += ["prop %s %s %d" % (w, bits(e["t"]), m) for m in ((1, 3) if flag else (0, 2))]
    ans = native(lines)
    for i in range(0, len(lines), 2):
        if ans[i] != ans[i + 1]:
            return {"cmd": lines[i], "against": lines[i + 1], "answer": ans[i], "fresh_state": ans[i + 1], "what": "the convenience call differs from propagating a fresh state"}
    return None


def native_search(ctx):
    return (
        wrapper_search(ctx.seed, False)
        or wrapper_search(ctx.seed, True)
        or flag_search(lambda e: e["o.mean_motion"] > N_NEAR, NEAR_K, ctx.seed, None, None, None)()
        or flag_search(lambda e: e["o.inclination"] > 0.25, DEEP_K + DAY + HALF, ctx.seed, None, None, None)()
    )


def check(ctx):
    p = ctx.program()
    s = Side(p)
    q = Spec(s)
    o = q.o
    jobs = [("propagate", lambda: wrapper_job(p, "propagate", False, ctx.seed)), ("propagate_afspc", lambda: wrapper_job(p, "propagate_afspc", True, ctx.seed))]
    out = s.propagate(FALSE, AF)
    ok = And(s.new_ok, out.ok)
    names = LABELS + ["outcome"]
    obs = outs_of(out)
    names = names + ["error value %d" % i for i in range(len(obs) - len(names))]
    nb = Box().add(o.no, ">", N_NEAR).add(o.ecco, ">=", 0).add(o.ecco, "<", 1)

    def near_job():
        ts = nb.apply(obs)
        on, off = with_flag(ts, True), with_flag(ts, False)
        res = []
        for nm, a, b in zip(names, on, off):
            if a is b:
                res.append(rec("near earth: %s does not depend on the flag" % nm, True, "mirv"))
            else:
                res += prove_terms("near earth", [nm + " does not depend on the flag"], [a], [b], s.new_ok, sample.prover_envs(ctx.seed, NEAR_K))
        if any(not r["ok"] for r in res):
            f = flag_search(lambda e: e["o.mean_motion"] > N_NEAR, NEAR_K, ctx.seed, None, None, None)()
            for r in res:
                if not r["ok"]:
                    r["fail"] = f
        return res

    jobs.append(("near earth", near_job))

    def cases(tag, out, boxes, raw, kinds, domain, recs=None, fresh=None):
        obs = outs_of(out)
        mean = q.periodics(raw, AF)
        sp, _ = q.final(mean)
        lyd = S.lyddane(mean.incl)
        ok = And(s.new_ok, out.ok)
        groups = {}
        for nm, b in boxes:
            groups.setdefault(tuple(x.id for x in b.apply(obs + sp)), []).append((nm, b))
        for key, cs in groups.items():
            b = cs[0][1]
            name = "; ".join(x for x, _ in cs)
            lf = subst([lyd], fresh)[0] if fresh else lyd
            search = flag_search(lambda e, cs=cs: domain(e) and in_box(e, [x for _, x in cs]), kinds, ctx.seed, lf, recs, fresh)

            def direct(name=name, b=b, cs=cs, search=search):
                on, off = with_flag(obs, True), with_flag(obs, False)
                lab = [x + " does not depend on the flag" for x in names]
                # with the flag decided, only the Lyddane branch can tell the two apart
                ident = restrict_case(b, lyd, on + off, kinds, ctx.seed)
                if ident:
                    return [rec(name + ", direct: " + x, True, "mirv + z3") for x in lab] + [{"name": name, "reach": any(reach(x, [(lyd, False)], kinds, ctx.seed, ok) for _, x in cs)}]
                return prove_case(name + ", direct", lab, on, off, s.new_ok, b, [(lyd, False)], kinds, ctx.seed, search, [x for _, x in cs], name)

            jobs.append((name + ", direct", direct))
            jobs.append((name + ", Lyddane", lambda name=name, b=b, cs=cs: lyddane_case(name + ", Lyddane", out, sp, ok, b, [(lyd, True)], kinds, ctx.seed, [x for _, x in cs], lyd_search(name, b, cs), name)))

        def lyd_search(name, b, cs):
            def run():
                code = with_flag(b.apply(out.rv + [ok]), True)
                spec = with_flag(b.apply(sp), True)
                if fresh:
                    code, spec = subst(code, fresh), subst(spec, fresh)
                return Search(code[:6], spec, code[6], lambda e: domain(e) and in_box(e, [x for _, x in cs]), kinds, ctx.seed, 3, recs, recs, n=30).run()

            return run

    boxes = [x for name, box in regimes(o, "plain") for x in with_inclination(o, name, box)]
    cases("plain", out, boxes, q.deep_plain(), DEEP_K, plain_domain)
    rout = s.propagate(TRUE, AF)
    if len(rout.loops) != 1:
        raise Unsupported("%d loops over the resonance state" % len(rout.loops))
    L = rout.loops[0]
    fresh = dict(zip(s.sv, s.ini))
    loop_free = not any(x is AF.args[0] for x in subterms([L["cont"]] + L["next"]))
    ctx.ob("the integration does not depend on the flag", loop_free, "mirv", 0, None if loop_free else native_search(ctx))
    for kind, kinds, domain in (("day", DAY, day_domain), ("half", HALF, half_domain)):
        r = q.resonance(kind)
        lo = L["outs"]
        boxes = [x for name, box in regimes(o, kind) for x in with_inclination(o, name, box)]
        cases(kind, rout, boxes, q.deep_resonant(r, lo[s.it], lo[s.il], lo[s.im]), kinds, domain, {L["id"]: L}, fresh)
    ctx.used(s.e)
    ctx.jobs(jobs)
    ctx.assume(*REALS)


def restrict_case(b, lyd, ts, kinds, seed):
    """are the flag-on and flag-off terms the same once the Lyddane branch is excluded?"""
    P0 = Prover(sample.prover_envs(seed, kinds))
    c, *xs = b.apply([lyd] + ts)
    if c is TRUE or c is FALSE:
        return False
    P0.add_spec([c])
    P0.note_shared(xs)
    xs = specialise(P0, xs, [(c, False)])
    k = len(xs) // 2
    return all(x is y for x, y in zip(xs[:k], xs[k:]))
