"""Case-by-case discharge of `code term = specification term`, and the search
for an input of the real crate when a case does not go through."""
import random
import struct
import time

from sgp import *
from run import native, rec

GEO = ("g.ae", "g.ke", "g.j2", "g.j3", "g.j4")


def bits(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def unbits(s):
    return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]


def consts_words(env):
    """the replay program's description of a set of constants"""
    return " ".join(bits(float(env[k])) for k in GEO + ("theta", "epoch", "drag") + tuple("o." + x for x in sample.ORB))


def theta_uf(env, x):
    return mpf(env["theta"]) if "theta" in env else uf_real("theta", [x])


# ------------------------------------------------------------------- numbers
def loop_uf(recs, limit=400):
    """numeric meaning of loop results: iterate the loop's own definition"""
    memo = {}

    def f(env, lid, i, *entry):
        key = (id(env), lid, tuple(map(str, entry)))
        if key not in memo:
            r = recs[lid]
            cur = list(entry)
            for _ in range(limit):
                e = dict(env)
                for s, v in zip(r["svars"], cur):
                    e[s.args[0]] = v
                n = Num([e], {"theta": theta_uf})
                c = n.get(r["cont"])[0]
                if c is None:
                    cur = [None] * len(cur)
                    break
                if not c:
                    break
                cur = [n.get(x)[0] for x in r["next"]]
                if any(x is None for x in cur):
                    cur = [None] * len(cur)
                    break
            else:
                cur = [None] * len(cur)
            memo[key] = cur
        v = memo[key][i]
        if v is None:
            raise ValueError
        return v

    return f


def evaluate(terms, envs, recs=None):
    """rows of values, one per environment"""
    ufs = {"theta": theta_uf}
    if recs:
        ufs["lout"] = loop_uf(recs)
    n = Num(envs, ufs)
    cols = [n.get(t) for t in terms]
    return [[c[k] for c in cols] for k in range(len(envs))]


def add_theta(envs, seed=7):
    rng = random.Random(seed)
    for e in envs:
        if "theta" not in e:
            e["theta"] = rng.uniform(0, 6.28)
    return envs


def var_thresholds(terms):
    th = {}
    for t in subterms(terms):
        if t.sort == "A" and t.op in ("lt", "eq"):
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                if x.op == "rv" and y.op == "rc":
                    th.setdefault(x.args[0], set()).add(float(y.args[0]))
    return th


def neighbours(c):
    import math

    return [c, math.nextafter(c, math.inf), math.nextafter(c, -math.inf), c * (1 + 1e-6), c * (1 - 1e-6), c * 1.003, c * 0.997]


def boundary_envs(terms, base, rng, limit=160):
    """inputs at and around the constants that inputs are compared with"""
    out = []
    for v, cs in sorted(var_thresholds(terms).items()):
        cs = sorted(cs)
        pts = []
        for c in cs:
            pts += neighbours(c)
        pts += [(a + b) / 2 for a, b in zip(cs, cs[1:])]
        for x in pts:
            for _ in range(2):
                e = dict(rng.choice(base))
                e[v] = x
                out.append(e)
    rng.shuffle(out)
    return out[:limit]


def crossing_envs(atoms, base, rng, seconds=25):
    """pairs of inputs on both sides of a comparison, found by bisection"""
    out = []
    t0 = time.time()
    rows = evaluate(atoms, [sample.to_mp(e) for e in base])
    for i, a in enumerate(atoms):
        if time.time() - t0 > seconds:
            break
        yes = [e for e, r in zip(base, rows) if r[i] is True]
        no = [e for e, r in zip(base, rows) if r[i] is False]
        if not yes or not no:
            continue
        for _ in range(3):
            p, q = dict(rng.choice(yes)), dict(rng.choice(no))
            q.update({k: v for k, v in p.items() if not isinstance(v, float)})
            if evaluate([a], [sample.to_mp(q)])[0][0] is not False:
                continue
            for step in range(46):
                if step in (8, 14, 22, 32):
                    out += [p, q]
                m = {k: (0.5 * (v + q[k]) if isinstance(v, float) else v) for k, v in p.items()}
                r = evaluate([a], [sample.to_mp(m)])[0][0]
                if r is None:
                    break
                if r:
                    p = m
                else:
                    q = m
            out += [p, q]
    return out


def amplify(e, rng):
    """gravity and drag far from the Earth's, so that small terms show"""
    e["drag"] *= 10 ** rng.uniform(0, 3.5)
    e["g.j3"] *= 10 ** rng.uniform(0, 4)
    e["g.j4"] *= 10 ** rng.uniform(0, 3)
    e["g.j2"] *= 10 ** rng.uniform(-0.5, 1)
    return e


def parse_pred(ans):
    w = ans.split()
    if w and w[0] == "ok" and len(w) == 7:
        return [unbits(x) for x in w[1:]]
    return None


def rel_diff(a, b):
    """largest relative difference of position or velocity"""
    d = mpf(0)
    for k in (0, 3):
        n = mp.sqrt(sum(mpf(x) ** 2 for x in b[k : k + 3]))
        x = mp.sqrt(sum((mpf(x) - mpf(y)) ** 2 for x, y in zip(a[k : k + 3], b[k : k + 3])))
        if x:
            d = max(d, x / n if n else mpf(1))
    return d


class Search:
    """looks for an input on which the real crate's prediction differs from the specification's"""

    def __init__(s, code, spec, ok, domain, kinds, seed, mode=2, code_recs=None, spec_recs=None, tamper=None, n=60, budget=150):
        s.code, s.spec, s.ok, s.domain = code, spec, ok, domain
        s.kinds, s.seed, s.mode = kinds, seed, mode
        s.code_recs, s.spec_recs, s.n, s.budget = code_recs, spec_recs, n, budget
        s.tamper = tamper
        s.log = []

    def run(s):
        t0 = time.time()
        rng = random.Random(s.seed * 77 + 5)
        ks = [k for k in s.kinds if not k.startswith("wild")]
        base = [sample.draw(rng, ks[i % len(ks)]) for i in range(s.n)]
        base = [amplify(e, rng) if i % 3 else e for i, e in enumerate(base)]
        add_theta(base, s.seed)
        f = s.batch(base)
        if f:
            return f
        th = add_theta(boundary_envs(s.code + s.spec, base, rng))
        for i in range(0, len(th), 40):
            f = s.batch(th[i : i + 40])
            if f or time.time() - t0 > s.budget:
                return f
        known = {t.id for t in subterms(s.spec)}
        atoms = [t for t in subterms(s.code) if t.sort == "A" and t.op in ("lt", "eq") and threshold(t) is None and t.id not in known]
        atoms += [t for t in subterms(s.spec) if t.sort == "A" and t.op in ("lt", "eq") and threshold(t) is None]
        cr = add_theta(crossing_envs(atoms[:60], base[:24], rng))
        f = s.batch(cr)
        if f or time.time() - t0 > s.budget:
            return f
        # unusual but legal inputs
        odd = []
        for i in range(80):
            e = sample.draw(rng, ks[i % len(ks)])
            if rng.random() < 0.6:
                amplify(e, rng)
            k = i % 8
            if k == 0:
                e["t"] = 0.0
            elif k == 1:
                e["t"] *= 20
            elif k == 2:
                e["drag"] *= 30
            elif k == 3:
                e["o.inclination"] = rng.choice([0.0, 1e-9, 3.141592653589793, 1.5707963267948966])
            elif k == 4:
                e["o.eccentricity"] = rng.choice([0.0, 1e-7, 1e-4, 0.99, 0.9])
            elif k == 5:
                e["o.right_ascension"] = rng.uniform(-20, 20)
            elif k == 6:
                e["o.argument_of_perigee"] = rng.uniform(-20, 20)
            else:
                e["epoch"] = rng.uniform(-200, 200)
            odd.append(e)
        return s.batch(add_theta(odd))

    def batch(s, envs):
        envs = [e for e in envs if s.domain(e)]
        if not envs:
            return None
        for e in envs:
            e.setdefault("has_state", False)
        mps = [sample.to_mp(e) for e in envs]
        code = evaluate(s.code + [s.ok], mps, s.code_recs)
        spec = evaluate(s.spec, mps, s.spec_recs)
        cand = []
        for e, c, q in zip(envs, code, spec):
            if any(x is None for x in q):
                continue
            if c[-1] is not True or any(x is None for x in c):
                continue
            d = rel_diff(c[:-1], q)
            if d > mpf(10) ** -10:
                cand.append((d, e, c[:-1], q))
        cand.sort(key=lambda x: -x[0])
        cand = cand[:12]
        lines = ["prop %s %s %d" % (consts_words(e), bits(e["t"]), s.mode_of(e)) for _, e, _, _ in cand]
        for (d, e, c, q), line, ans in zip(cand, lines, native(lines) if lines else []):
            got = parse_pred(ans)
            if got is None:
                continue
            dn, dc = rel_diff(got, q), rel_diff(got, c)
            if dn > mpf(10) ** -9 and dn > 10 * dc:
                return {
                    "cmd": line,
                    "values": {k: v for k, v in e.items() if k[0] not in "sS$"},
                    "real_code": got,
                    "specification": [float(x) for x in q],
                    "relative_difference": float(dn),
                }
        return None

    def mode_of(s, e):
        return s.mode(e) if callable(s.mode) else s.mode


# -------------------------------------------------------------------- proofs
FIRST_BUDGET = 40
PROOF_BUDGET = 200


def in_case(envs, box_terms, lits):
    """is some sample inside the case?  (vacuity guard)"""
    rows = evaluate([c for c, _ in lits] + box_terms, [sample.to_mp(e) for e in envs])
    k = len(lits)
    for r in rows:
        if all(x is v for x, (_, v) in zip(r[:k], lits)) and all(x is True for x in r[k:]):
            return True
    return False


def box_conds(box):
    out = []
    for vid, (c, strict) in box.lo.items():
        v = ALL[vid]
        out.append(lt(R(c), v) if strict else le(R(c), v))
    for vid, (c, strict) in box.hi.items():
        v = ALL[vid]
        out.append(lt(v, R(c)) if strict else le(v, R(c)))
    return out


def prove_case(name, labels, outs, spec, ok, box, lits, kinds, seed, search=None, boxes=None, reach_name=None):
    """one obligation per label: outs[i] = spec[i] wherever box, lits and ok hold"""
    t0 = time.time()
    res = []
    conds = box.apply([c for c, _ in lits])
    bl = []
    for c, (c0, v) in zip(conds, lits):
        if c is TRUE or c is FALSE:
            if (c is TRUE) != v:
                return [rec(name + ": case is empty", True, "mirv")]
        else:
            bl.append((c, v))
    n = len(outs)
    a = box.apply(list(outs) + [ok])
    b = box.apply(list(spec))
    envs = sample.prover_envs(seed, kinds)
    P0 = Prover(envs)
    P0.add_spec([c for c, _ in bl])
    P0.note_shared(a)
    a = specialise(P0, a, bl)
    b = specialise(P0, b, bl)
    a = prune(P0, a)
    b = prune(P0, b)
    P = Prover(envs)
    P.add_spec(b)
    P.note_shared(a)
    bad = []
    g = a[n]
    gv = P.num.get(g)
    found = None
    searched = False
    P.deadline = time.time() + FIRST_BUDGET
    for lab, x, y in zip(labels, a, b):
        t1 = time.time()
        xv, yv = P.num.get(x), P.num.get(y)
        differ = [i for i in P.real_ix if gv[i] is True and not close(xv[i], yv[i], mpf(10) ** -9)]
        det = ""
        good = False
        for again in (0, 1):
            if differ or bad or found:
                break
            try:
                good = P.equal(x, y, g)
            except (TooBig, OutOfTime, RecursionError) as ex_:
                det = "proof abandoned: %r; " % ex_
                if not searched and search is not None and isinstance(ex_, OutOfTime):
                    searched = True
                    found = search()
                    P.deadline = time.time() + PROOF_BUDGET
                    P.tried = {}
                    continue
            break
        if not good:
            det += "values differ on a sample of the case" if differ else "not proved equal"
            if not bad and not differ and not found and time.time() < P.deadline:
                un = P.unmatched([x], 3)
                det += "; lowest unproved terms: " + " | ".join("%s =? %s" % (show(u, 4), show(w, 4)) for u, w in un)
        r = rec("%s: %s" % (name, lab), good, "mirv equality + z3", time.time() - t1, None, det[:1500])
        res.append(r)
        if not good:
            bad.append(r)
    if bad and search is not None and not searched:
        found = search()
    if found:
        for r in bad:
            r["fail"] = found
    res.append({"name": reach_name or name, "reach": any(reach(x, lits, kinds, seed, ok) for x in (boxes or [box]))})
    return res


def reach(box, lits, kinds, seed, ok, tries=6):
    conds = box_conds(box)
    rng = random.Random(seed)
    for k in range(tries):
        es = [sample.draw(rng, x) for x in kinds if not x.startswith("wild")] * 2
        es = [dict(e) for e in es]
        for j, e in enumerate(es[len(es) // 2 :]):
            # nudge inputs into the box
            for vid in set(box.lo) | set(box.hi):
                v = ALL[vid].args[0]
                lo = float(box.lo[vid][0]) if vid in box.lo else None
                hi = float(box.hi[vid][0]) if vid in box.hi else None
                if lo is not None and hi is not None:
                    e[v] = rng.uniform(lo, hi)
                elif lo is not None and not e[v] > lo:
                    e[v] = lo + rng.uniform(0, 0.3) * (abs(lo) or 1)
                elif hi is not None and not e[v] < hi:
                    e[v] = hi - rng.uniform(0, 0.3) * (abs(hi) or 1)
        if in_case(add_theta(es), conds + [ok] if ok is not TRUE else conds, lits):
            return True
    return False


def in_box(e, boxes):
    for b in boxes:
        if all(e[ALL[v].args[0]] > float(c) if s else e[ALL[v].args[0]] >= float(c) for v, (c, s) in b.lo.items()) and all(
            e[ALL[v].args[0]] < float(c) if s else e[ALL[v].args[0]] <= float(c) for v, (c, s) in b.hi.items()
        ):
            return True
    return False


# ----------------------------------------------------------- plain functions
class FnSearch:
    """a real input on which a function differs from its specification

    draw(rng) -> env; cmd(env) -> replay command; parse(answer) -> list of
    values in the order of the terms, or None when not comparable"""

    def __init__(s, code, spec, draw, cmd, parse, seed, guard=TRUE, tol=1e-9, n=300, ufs=None, norm=None, extra=()):
        s.code, s.spec, s.draw, s.cmd, s.parse, s.seed = list(code), list(spec), draw, cmd, parse, seed
        s.guard, s.tol, s.n, s.ufs = guard, tol, n, dict(ufs or {})
        s.norm = norm
        s.extra = list(extra)

    def run(s):
        rng = random.Random(s.seed * 31 + 3)
        base = list(s.extra) + [s.draw(rng) for _ in range(s.n)]
        f = s.batch(base)
        if f:
            return f
        f = s.batch(boundary_envs(s.code + s.spec + [s.guard], base, rng))
        if f:
            return f
        atoms = [t for t in subterms(s.code + s.spec) if t.sort == "A" and t.op in ("lt", "eq") and threshold(t) is None]
        return s.batch(crossing_envs(atoms[:40], base[:30], rng))

    def eval(s, ts, envs):
        ufs = {"theta": theta_uf}
        ufs.update(s.ufs)
        n = Num(envs, ufs)
        cols = [n.get(t) for t in ts]
        return [[c[k] for c in cols] for k in range(len(envs))]

    def batch(s, envs):
        if not envs:
            return None
        mps = [sample.to_mp(e) for e in envs]
        rows = s.eval(s.code + s.spec + [s.guard], mps)
        k = len(s.code)
        cand = []
        for e, r in zip(envs, rows):
            if r[-1] is not True:
                continue
            a, b = r[:k], r[k : 2 * k]
            if any(x is None for x in b):
                continue
            d = max(s.dist(x, y, i) for i, (x, y) in enumerate(zip(a, b)))
            if d > s.tol / 10:
                cand.append((d, e, a, b))
        cand.sort(key=lambda x: -x[0])
        cand = cand[:20]
        lines = [s.cmd(e) for _, e, _, _ in cand]
        for (d, e, a, b), line, ans in zip(cand, lines, native(lines) if lines else []):
            got = s.parse(ans)
            if got is None:
                continue
            dn = max(s.dist(x, y, i) for i, (x, y) in enumerate(zip(got, b)))
            dc = max(s.dist(x, y, i) for i, (x, y) in enumerate(zip(got, a)))
            kinds = any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in zip(got, b))
            if kinds or dn > s.tol and dn > 10 * dc:
                return {"cmd": line, "values": e, "real_code": got, "answer": ans, "specification": [float(x) if isinstance(x, mpf) else x for x in b]}
        return None

    def dist(s, x, y, i):
        if x is None or y is None:
            return 0 if x is y else 1
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            return 0 if x == y else 1
        if x != x or y != y:
            return 0 if (x != x) == (y != y) else 1
        n = s.norm if s.norm is not None else max(abs(mpf(y)), mpf(10) ** -300)
        return float(abs(mpf(x) - mpf(y)) / n)


def prove_terms(name, labels, code, spec, guard, envs, search=None, facts=(), budget=60, ufs=None):
    """one obligation per label, without a case split"""
    res = []
    P = Prover(envs, ufs)
    b0 = list(spec)
    P.add_spec(b0)
    P.note_shared(list(code))
    P.deadline = time.time() + budget
    bad = []
    for lab, x, y in zip(labels, code, b0):
        t1 = time.time()
        try:
            good = P.equal(x, y, guard)
            det = "" if good else "not proved equal: %s =? %s" % (show(P.canon(x), 6), show(P.canon(y), 6))
        except (TooBig, OutOfTime, RecursionError) as e:
            good, det = False, "proof abandoned: %r" % e
        r = rec(name + ": " + lab, good, "mirv equality + z3", time.time() - t1, None, det[:1500])
        res.append(r)
        if not good:
            bad.append(r)
    if bad and search is not None:
        f = search()
        if f:
            for r in bad:
                r["fail"] = f
    return res
