"""C13: only intact TLE line pairs are accepted, and errors point at the fault."""
from tles import *
from c12 import PARSERS


def judge(c, ans):
    want = tle.c_structure(c[1], c[2])
    if want is not None and parse_err(ans) != want:
        return "%s in %s, columns %d to %d" % want


def native_search(ctx):
    return search(judge, ctx.seed)


def job(p, which, seed):
    r = Parse(p, which).run()
    find = lambda: search(judge, seed)
    o = Obs("rule", find)
    if which != "full":
        ln = "Line1" if which == "line 1" else "Line2"
        o.goal("%s has another length: rejected" % ln, Not(r.ok), r.pre)
        o.goal("%s has another length: reported with the length" % ln, r.err_is("BadLength", ln, 0, r.len), r.pre)
    else:
        rest = TRUE
        for broken, what, ln, a, b in r.spec.rules:
            g = And(rest, broken)
            o.goal("%s %d..%d %s: rejected" % (ln, a, b, what), Not(r.ok), g)
            o.goal("%s %d..%d %s: reported when it is the first broken rule" % (ln, a, b, what), r.err_is(what, ln, a, b), g)
            o.res.append({"name": "%s %d..%d broken first" % (ln, a, b), "reach": g is not FALSE})
            rest = And(rest, Not(broken))
        o.goal("accepted lines break no rule", r.spec.intact, r.ok)
        o.reach("accepted lines", r.ok)
    return o.done(r.e, r.local)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([(w, lambda w=w: job(p, w, ctx.seed)) for w in ("full", "line 1", "line 2")])
    ctx.assume(*PARSERS)
