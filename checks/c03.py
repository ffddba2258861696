"""C03: resonant predictions follow the 12 h and 24 h resonance theory."""
from deep import *
from c01 import REALS
from loops import exists

DAY = [k for k in sample.KINDS if k.startswith("day")] * 2 + ["wild:day"] * 4 + ["wild:day_lyd"]
HALF = [k for k in sample.KINDS if k.startswith("half")] + ["wild:half50", "wild:half66", "wild:half70", "wild:half72"]


def one_loop(out):
    if len(out.loops) != 1:
        raise Unsupported("%d loops over the resonance state" % len(out.loops))
    return out.loops[0]


def loop_spec(q, r, s):
    """the published step, in the layout of the crate's state"""
    S_ = [rvar("S.%d" % i) for i in range(3)]
    at, xl, xn = S_[s.it], S_[s.il], S_[s.im]
    cont = S.loop_continues(q.t, at)
    a2, l2, n2 = S.loop_step(r, q.t, at, xl, xn)
    nxt = [None] * 3
    nxt[s.it], nxt[s.il], nxt[s.im] = a2, l2, n2
    return cont, nxt


def prepare(ctx):
    p = ctx.program()
    s = Side(p)
    q = Spec(s)
    out = s.propagate(TRUE, bvar("afspc"))
    ctx.used(s.e)
    return s, q, out


def check(ctx):
    s, q, out = prepare(ctx)
    rec_ = one_loop(out)
    ok = And(s.new_ok, out.ok)
    o = q.o
    jobs = []
    lo = rec_["outs"]
    # the code's result for a fresh state: the arbitrary entry state becomes the initial one
    fresh = dict(zip(s.sv, s.ini))
    # what is known of the entry state and the time when the loop is reached
    own = {x.id for x in s.sv} | {q.t.id}
    entered = exists(rec_["guard"], lambda a: any(x.op in ("rv", "bv") and x.id not in own for x in subterms([a])))
    entry_ok = all(x is y for x, y in zip(rec_["entry"], s.sv))
    ctx.ob("the integration starts from the state passed in", entry_ok, "mirv", detail="entry %s" % [show(x, 3) for x in rec_["entry"]])

    for kind, kinds in (("day", DAY), ("half", HALF)):
        r = q.resonance(kind)
        mean = q.periodics(q.deep_resonant(r, lo[s.it], lo[s.il], lo[s.im]), bvar("afspc"))
        sp, _ = q.final(mean)
        lyd = S.lyddane(mean.incl)
        cont, nxt = loop_spec(q, r, s)
        want = [None] * 3
        want[s.it], want[s.il], want[s.im] = R0, r.xlamo, o.no
        domain = day_domain if kind == "day" else half_domain
        srec = dict(rec_)
        srec["cont"], srec["next"] = cont, nxt

        for name, box in regimes(o, kind):

            def search(box=box, sp=sp, srec=srec, kinds=kinds, want=want, domain=domain):
                code = box.apply(subst(out.rv + [ok], fresh))
                spec = box.apply(subst(sp, dict(zip(s.sv, want))))
                crec = dict(rec_)
                c = box.apply([rec_["cont"]] + rec_["next"])
                crec["cont"], crec["next"] = c[0], c[1:]
                q_ = dict(srec)
                c = box.apply([srec["cont"]] + srec["next"])
                q_["cont"], q_["next"] = c[0], c[1:]
                lid = rec_["id"]
                return Search(code[:6], spec, code[6], lambda e: domain(e) and in_box(e, [box]), kinds, ctx.seed, lambda e: 3 if e["afspc"] else 2, {lid: crec}, {lid: q_}, n=60).run()

            def loop_job(name=name, box=box, cont=cont, nxt=nxt, kinds=kinds, want=want, search=search):
                envs = sample.prover_envs(ctx.seed, kinds)
                code = box.apply([rec_["cont"]] + rec_["next"])
                spec = box.apply([cont] + nxt)
                lab = ["time", "mean motion", "longitude"]
                lab = [dict(zip((s.it, s.im, s.il), lab))[i] for i in range(3)]
                res = []
                at = rvar("S.%d" % s.it)
                for tn, lit, inv in (
                    ("t > 0", (">", 0), lambda x: And(le(R0, x), le(x, q.t))),
                    ("t < 0", ("<", 0), lambda x: And(le(q.t, x), le(x, R0))),
                ):
                    bt = Box().add(q.t, *lit)
                    c, d = bt.apply(code), bt.apply(spec)
                    pre = And(inv(at), Prover(envs).trim(bt.apply([entered])[0]))
                    nm = name + ", " + tn
                    res += prove_terms(nm, ["a step is taken exactly when it fits before the requested time"], c[:1], d[:1], pre, envs)
                    res += prove_terms(nm, ["one step: " + x for x in lab], c[1:], d[1:], And(c[0], pre), envs)
                    t1 = time.time()
                    P = Prover(envs)
                    good = P.valid(bt.apply([Implies(And(inv(at), d[0]), inv(d[1 + s.it]))])[0])
                    res.append(rec(nm + ": the state's time stays between epoch and t", good, "z3", time.time() - t1))
                    for g, x, y in rec_["inductive"]:
                        x, y, g = bt.apply(box.apply([x, y, g]))
                        res += prove_terms(nm, ["loop-carried value"], [x], [y], And(g, pre), envs)
                zero = {q.t: R0, at: R0}
                res.append(rec(name + ", t = 0: no step is taken", subst([code[0]], zero)[0] is FALSE, "mirv", detail=show(subst([code[0]], zero)[0])))
                res += prove_terms(name, ["initial state: " + x for x in lab], box.apply(list(s.ini)), box.apply(want), TRUE, envs)
                if any(not x["ok"] for x in res):
                    f = search()
                    for x in res:
                        if not x["ok"]:
                            x["fail"] = f
                return res

            jobs.append((name + " loop", loop_job))
            for nm, b in with_inclination(o, name, box):
                for v in (True, False):
                    lab = nm + (", Lyddane" if v else ", direct")

                    def job(nm=nm, lab=lab, b=b, v=v, sp=sp, lyd=lyd, kinds=kinds, search=search):
                        # a non-resonant satellite has no state: the panics are C04's
                        return prove_case(lab, LABELS, out.rv, sp, ok, b, [(lyd, v)], kinds, ctx.seed, search, None, nm)

                    jobs.append((lab, job))
    ctx.jobs(jobs)
    ctx.assume(*REALS)
