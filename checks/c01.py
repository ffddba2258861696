"""C01: near-earth predictions equal the published SGP4 equations."""
from cases import *

LABELS = ["x", "y", "z", "vx", "vy", "vz"]
KINDS = [k for k in sample.KINDS if k[:3] in ("leo", "low", "meo", "ret")]
REALS = [
    "arithmetic on f64 is read as arithmetic on real numbers: rounding, overflow and underflow are not modelled",
    "literals are compared up to 1e-14 relative; literals within 4e-16 of a rational multiple of pi stand for it",
    "a division or root is taken where it is defined (real-valued reading; undefined points are excluded)",
    "the MIR of the nightly compiler at mir-opt-level 0 has the behaviour of the stable build",
]


def domain(e):
    return e["o.mean_motion"] > 2 * S.PI / 225 and 0 <= e["o.eccentricity"] < 1


def check(ctx):
    p = ctx.program()
    s = Side(p)
    q = Spec(s)
    _, _, mean = q.near()
    sp, _ = q.final(mean)
    out = s.propagate(FALSE, bvar("afspc"))
    ctx.used(s.e)
    o = q.o
    simp, ecc = q.k.simplified(), S.gt(o.ecco, 1e-4)
    ok = And(s.new_ok, out.ok)
    box = Box().add(o.no, ">", 2 * S.PI / 225).add(o.ecco, ">=", 0).add(o.ecco, "<", 1)
    code = box.apply(out.rv + [ok])

    def search():
        return Search(code[:6], box.apply(sp), code[6], domain, KINDS, ctx.seed, lambda e: 3 if e["afspc"] else 2).run()

    jobs = []
    for nm, lits in (
        ("perigee below 220 km", [(simp, True)]),
        ("perigee at least 220 km, e > 1e-4", [(simp, False), (ecc, True)]),
        ("perigee at least 220 km, e <= 1e-4", [(simp, False), (ecc, False)]),
    ):
        jobs.append((nm, lambda nm=nm, lits=lits: prove_case(nm, LABELS, out.rv, sp, ok, box, lits, KINDS, ctx.seed, search)))
    ctx.jobs(jobs)
    ctx.assume(*REALS)
