"""C02: non-resonant deep-space predictions equal the published SDP4 equations."""
from deep import *
from c01 import REALS

KINDS = [k for k in sample.KINDS if k.startswith("deep")] * 2 + ["wild:deep"] * 4 + ["wild:deep_lyd"]


def check(ctx):
    p = ctx.program()
    s = Side(p)
    q = Spec(s)
    mean = q.periodics(q.deep_plain(), bvar("afspc"))
    sp, _ = q.final(mean)
    out = s.propagate(FALSE, bvar("afspc"))
    ctx.used(s.e)
    ok = And(s.new_ok, out.ok)
    o = q.o
    lyd = S.lyddane(mean.incl)
    jobs = []
    groups = {}
    for name, box in regimes(o, "plain"):
        for nm, b in with_inclination(o, name, box):
            groups.setdefault(tuple(x.id for x in b.apply(out.rv + [ok] + sp)), []).append((nm, b))

    for key, cs in groups.items():
        # regimes in which code and specification are the same terms are one case
        nm, b = cs[0]
        name = "; ".join(x for x, _ in cs)
        code = b.apply(out.rv + [ok])

        def search(b=b, code=code, cs=cs):
            return Search(code[:6], b.apply(sp), code[6], lambda e: plain_domain(e) and in_box(e, [x for _, x in cs]), KINDS, ctx.seed, lambda e: 3 if e["afspc"] else 2).run()

        for v in (True, False):
            lab = name + (", Lyddane" if v else ", direct")
            jobs.append((lab, lambda lab=lab, b=b, v=v, search=search, cs=cs: prove_case(lab, LABELS, out.rv, sp, ok, b, [(lyd, v)], KINDS, ctx.seed, search, [x for _, x in cs])))
    ctx.jobs(jobs)
    ctx.assume(*REALS)
