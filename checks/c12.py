"""C12: parsing a TLE never panics, whatever the bytes."""
from tles import *


def judge(c, ans):
    if not (ans.startswith("ok") or ans.startswith("err")):
        return "a result without a panic"


def native_search(ctx):
    return search(judge, ctx.seed)


def job(p, which, seed):
    Mode.ieee = True
    r = Parse(p, which).run()
    o = Obs("any %s" % {"full": "69 + 69 bytes", "line 1": "lengths, first line not 69 bytes", "line 2": "length of the second line other than 69"}[which], lambda: search(judge, seed))
    o.goal("the parser returns", TRUE)
    if which == "full":
        o.reach("accepted lines", r.ok)
    o.reach("rejected lines (%s)" % which, And(r.pre, Not(r.ok)))
    return o.done(r.e, r.local)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([(w, lambda w=w: job(p, w, ctx.seed)) for w in ("full", "line 1", "line 2")])
    ctx.assume(*PARSERS)


PARSERS = (
    "core contract: str::parse for u8, i8, u64 and f64 is a function of exactly the bytes it is given and never panics, also on bytes that are not UTF-8 (the crate's documented use of from_utf8_unchecked)",
    "core contract: slice indexing, iteration and copy_from_slice as documented, including when they panic; str::from_utf8 and trim depend on the bytes only",
    "chrono contract: from_yo_opt and from_num_seconds_from_midnight_opt return none outside their documented ranges and never panic",
)
