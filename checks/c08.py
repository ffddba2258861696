"""C08: building constants from elements, against the explicit construction.

The two functions that do the work (Kozai conversion and construction of the
constants) are represented by their contracts: arbitrary results, arguments
checked against the elements' fields.  If the code does not call them, their
bodies are executed on both sides instead."""
from cases import *
from chrono_m import *
from c01 import REALS
from c10 import elements_with, random_words
from run import native

PI = Fraction(3.141592653589793)
ANGLES = ("inclination", "right_ascension", "argument_of_perigee", "mean_anomaly")
MODES = (
    ("default mode", "from_elements", "wgs84", "iau", "epoch", 0),
    ("compatibility mode", "from_elements_afspc", "wgs72", "afspc", "epoch_afspc", 1),
)
# World Geodetic System constants: radius (km), gravitational parameter (km^3/s^2), J2, J3, J4
PUBLISHED = {
    "wgs84": (6378.137, 398600.5, 0.00108262998905, -0.00000253215306, -0.00000161098761),
    "wgs72": (6378.135, 398600.8, 0.001082616, -0.00000253881, -0.00000165597),
}


def opaque(p, ty, tag):
    """an arbitrary value of a type"""
    t = p.types[ty]
    s = t["str"]
    if s == "f64":
        return rvar(tag)
    if s == "bool":
        return bvar(tag)
    if re.match(r"[iu](8|16|32|64|size)\Z", s):
        lo, hi = int_range(t)
        return ivar(tag, lo, hi)
    if t["k"] == "tuple":
        return tuple(opaque(p, x, "%s.%d" % (tag, i)) for i, x in enumerate(t["elems"]))
    if t["k"] == "array":
        return tuple(opaque(p, t["elem"], "%s[%d]" % (tag, i)) for i in range(t["len"]))
    if t["k"] == "adt":
        vs = [tuple(opaque(p, f["ty"], "%s.%s.%s" % (tag, v["name"], f["name"])) for f in v["fields"]) for v in t["variants"]]
        if t["kind"] == "Struct":
            return vs[0]
        return En(which(tag, len(vs)), dict(enumerate(vs)))
    raise Unsupported("value of type " + s)


def which(tag, n):
    """an arbitrary number below n"""
    r = I(n - 1)
    for i in range(n - 1):
        r = ite(bvar("%s.is%d" % (tag, i)), I(i), r)
    return r


class Cmp:
    """equality of two values, leaf by leaf"""

    def __init__(s, name, envs):
        s.name, s.envs, s.res, s.bad = name, envs, [], 0

    def leaf(s, label, a, b, g):
        if a is b or g is FALSE:
            s.res.append(rec("%s: %s" % (s.name, label), True, "mirv"))
        elif s.bad < 4:
            r = prove_terms(s.name, [label], [a], [b], g, s.envs, budget=20)
            s.bad += not r[0]["ok"]
            s.res += r

    def value(s, label, a, b, g=TRUE):
        if g is FALSE:
            return
        if isinstance(a, En) and isinstance(b, En):
            s.leaf(label + " (kind)", a.disc, b.disc, g)
            for k in sorted(set(a.vs) & set(b.vs)):
                s.value("%s/%d" % (label, k), a.vs[k], b.vs[k], And(g, ieq(a.disc, I(k)), ieq(b.disc, I(k))))
            return
        if isinstance(a, Nat) and isinstance(b, Nat) and a.kind == b.kind:
            a, b = a.f, b.f
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                s.value("%s.%d" % (label, i), x, y, g)
            return
        if isinstance(a, T) and isinstance(b, T):
            s.leaf(label, a, b, g)
            return
        if a is UNDEF and b is UNDEF:
            return
        raise Unsupported("%s: cannot compare %r and %r" % (label, a, b))


def draw_env(rng):
    e = {"el." + k: rng.uniform(0, 180) for k in ANGLES}
    e["el.eccentricity"] = rng.uniform(0, 0.9)
    e["el.mean_motion"] = rng.uniform(0.5, 16)
    e["el.drag_term"] = rng.uniform(-1e-3, 1e-3)
    e["el.mean_motion_dot"], e["el.mean_motion_ddot"] = rng.uniform(-1, 1), rng.uniform(-1, 1)
    w = random_words(rng)
    e.update({"d.year": w[0], "d.month": w[1], "d.day": w[2], "d.ordinal": rng.randint(1, 365), "d.secs": w[3] * 3600 + w[4] * 60 + w[5], "d.nanos": w[6]})
    return e


class Names(dict):
    """samples: numbers for whatever opaque result is asked for"""

    def __missing__(s, k):
        import hashlib

        h = int(hashlib.sha256((k + str(s.get("el.mean_motion"))).encode()).hexdigest()[:8], 16)
        v = h % 2 == 1 if re.search(r"\.is\d+\Z", k) else mpf(h % 10**6) / 10**5 + mpf(1) / 7
        s[k] = v
        return v


def expected_args(p, mode, e, st, el, names):
    """(geopotential, epoch, drag, Kozai arguments) as the property states them"""
    f = lambda k: el[names.index(k)]
    geo, _ = e.run(p.root(mode[2]), [], st)
    ep, _ = e.run(p.root(mode[4]), [Ptr(e.alloc(st, el))], st)
    rad = lambda k: mul(f(k), R(PI / 180))
    kz = [rad("inclination"), rad("right_ascension"), f("eccentricity"), rad("argument_of_perigee"), rad("mean_anomaly"), mul(f("mean_motion"), R(PI / 720))]
    return geo, ep, f("drag_term"), kz


def merged(p, root, kr, mk_new):
    """what the result must be, from the Kozai result and the construction's result"""
    rty = p.types[arg_tys(p, p.root(root))[0]]
    ety = rty["variants"][1]["fields"][0]["ty"]
    vk, vo = variant(p, ety, "KozaiElementsError"), variant(p, ety, "OutOfRangeEpochEccentricity")
    orb = kr.vs[0][0]
    nw = mk_new(orb)
    kok = ieq(kr.disc, I0)
    nok = ieq(nw.disc, I0)
    err = En(ite(kok, I(vo), I(vk)), {vk: kr.vs[1], vo: nw.vs[1]} if 1 in nw.vs else {vk: kr.vs[1]})
    return En(ite(And(kok, nok), I0, I1), {0: nw.vs[0], 1: (err,)})


def modular_job(p, mode, seed):
    label, root, wgs, sid, epf, _ = mode
    knew = base_name(crate_callee(p, "new"))
    kkoz = base_name(crate_callee(p, "kozai"))
    nty = p.types[arg_tys(p, p.root("new"))[0]]
    kty = p.types[arg_tys(p, p.root("kozai"))[0]]
    calls = {"new": [], "kozai": []}

    def result(ty, tag):
        vs = {i: tuple(opaque(p, f["ty"], "%s.%s" % (tag, v["name"])) for f in v["fields"]) for i, v in enumerate(ty["variants"])}
        return En(which(tag, 2), vs)

    kr, nr = result(kty, "kozai"), result(nty, "new")

    def hook(e, f, args, st):
        n = base_name(f["n"])
        if n == kkoz:
            calls["kozai"].append((st.g, [e.read_whole(st, args[0])] + list(args[1:]), st))
            return kr, st
        if n == knew:
            calls["new"].append((st.g, list(args), st, f))
            return nr, st
        return NotImplemented

    e = Exec(p, models)
    e.call_hook = hook
    st = St({}, TRUE)
    el = elements_with(p, dt_var("d"))
    names = fields(p, p.types[arg_tys(p, p.root("epoch"))[1]]["to"])
    k = e.alloc(st, el)
    r, st1 = e.run(p.root(root), [Ptr(k)], st)
    panics = list(e.panics)
    if len(calls["new"]) != 1 or len(calls["kozai"]) != 1:
        return None
    rng = random.Random(seed)
    envs = [Names(sample.to_mp(draw_env(rng))) for _ in range(12)]
    c = Cmp(label, envs)
    e.call_hook = None
    geo, ep, drag, kz = expected_args(p, mode, e, st1, el, names)
    g, ka, _ = calls["kozai"][0]
    c.value("the conversion uses " + wgs.upper(), ka[0], geo, g)
    for nm, x, y in zip(("inclination", "right ascension", "eccentricity", "argument of perigee", "mean anomaly", "mean motion"), ka[1:], kz):
        c.leaf("conversion argument: " + nm, x, y, g)
    g, na, st2, f = calls["new"][0]
    c.leaf("the conversion precedes the construction", g, ieq(kr.disc, I0), TRUE)
    c.value("the constants use " + wgs.upper(), na[0], geo, g)
    x = rvar("x")
    fty = p.fns[f["id"] if "id" in f else find_inst(p, f)]["body"]["locals"][2]["ty"]
    got, _ = e.call_closure(fty, na[1], [x], st2.copy(TRUE))
    want, _ = e.run(p.root(sid), [x], st2.copy(TRUE))
    for y in envs:
        y["x"] = mpf(y["el.mean_motion"])
    c.leaf("sidereal time is the %s expression" % sid.upper(), got, want, TRUE)
    c.leaf("epoch", na[2], ep, g)
    c.leaf("drag term", na[3], drag, g)
    c.value("orbit", na[4], kr.vs[0][0], g)
    c.value("result", r, merged(p, root, kr, lambda orb: nr))
    for pk in panics:
        c.res.append(rec("%s: no %s in %s" % ((label,) + tuple(pk[1:3])), False, "mirv"))
    c.res.append({"used": (sorted(e.executed), sorted(e.modelled))})
    return c.res


def inline_job(p, mode, seed):
    """both sides fully executed"""
    label, root, wgs, sid, epf, _ = mode
    e = Exec(p, models)
    e.loop_hook = loops.summarise
    st = St({}, TRUE)
    el = elements_with(p, dt_var("d"))
    names = fields(p, p.types[arg_tys(p, p.root("epoch"))[1]]["to"])
    k = e.alloc(st, el)
    r, st1 = e.run(p.root(root), [Ptr(k)], st)
    panics = list(e.panics)
    geo, ep, drag, kz = expected_args(p, mode, e, st1, el, names)
    gp = e.alloc(st1, geo)
    kr, st1 = e.run(p.root("kozai"), [Ptr(gp)] + kz, st1.copy(TRUE))

    def new(orb):
        def hook(ex_, f, args, s):
            if f["n"] == "roots::theta":
                return ex_.run(p.root(sid), list(args), s)
            return NotImplemented

        e.call_hook = hook
        v, _ = e.run(p.root("new"), [geo, ep, drag, orb], st1.copy(TRUE))
        return v

    rng = random.Random(seed)
    envs = [Names(sample.to_mp(draw_env(rng))) for _ in range(12)]
    c = Cmp(label, envs)
    c.value("result", r, merged(p, root, kr, new))
    for pk in panics:
        c.res.append(rec("%s: no %s in %s" % ((label,) + tuple(pk[1:3])), False, "mirv"))
    c.res.append({"used": (sorted(e.executed), sorted(e.modelled))})
    return c.res


def base_name(n):
    """a function's name without its own type arguments"""
    if not n.endswith(">"):
        return n
    d = 0
    for i in range(len(n) - 1, -1, -1):
        if n[i] == ">" and n[i - 1] != "-":
            d += 1
        elif n[i] == "<":
            d -= 1
            if d == 0:
                return n[:i].rstrip(":")
    return n


def find_inst(p, f):
    for k, v in enumerate(p.fns) if isinstance(p.fns, list) else p.fns.items():
        if v is f:
            return k
    raise Unsupported("instance of " + f["n"])


def crate_callee(p, root):
    seen = []

    def hook(e, f, args, st):
        if not f["n"].startswith("roots::"):
            seen.append(f["n"])
            return None
        return NotImplemented

    e = Exec(p, models)
    e.call_hook = hook
    st = St({}, TRUE)
    tys = arg_tys(p, p.root(root))[1:]
    args = [Ptr(e.alloc(st, opaque(p, p.types[t]["to"], "a"))) if p.types[t]["k"] in ("ref", "ptr") else opaque(p, t, "a%d" % i) for i, t in enumerate(tys)]
    e.run(p.root(root), args, st)
    return seen[0]


# --------------------------------------------------------------- native side
def search(seed, mode, n=200):
    label, root, wgs, sid, epf, flag = mode
    import math

    rng = random.Random(seed * 3 + flag)
    ae, mu, j2, j3, j4 = PUBLISHED[wgs]
    geo = [ae, 60 / math.sqrt(ae**3 / mu), j2, j3, j4]
    cs = []
    for i in range(n):
        e = draw_env(rng)
        if i % 9 == 0:
            e["el.eccentricity"] = rng.choice([1.0, -0.1, 1.5, 0.0])
        if i % 11 == 0:
            e["el.mean_motion"] = rng.choice([0.0, -1.0])
        if i % 4 == 0:
            e["el.mean_motion"] = rng.choice([1.0027, 2.0056]) + rng.uniform(-0.05, 0.05)
            e["el.eccentricity"] = rng.uniform(0.5, 0.75)
        for k in ANGLES[1:]:
            e["el." + k] = rng.uniform(-720, 720)
        e["t"] = rng.choice([0.0, rng.uniform(-1500, 1500), rng.uniform(-20000, 20000)])
        e["w"] = random_words(rng)
        cs.append(e)
    dt = lambda e: " ".join(str(x) for x in e["w"])
    el = ["elements %d %s %s" % (flag, dt(e), " ".join(bits(float(e["el." + k])) for k in ("drag_term", "inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion", "mean_motion_dot", "mean_motion_ddot")) + " " + bits(e["t"])) for e in cs]
    got = native(el)
    eps = [unbits(a.split()[1 + flag]) for a in native(["epochs " + dt(e) for e in cs])]
    ths = [unbits(a.split()[1]) for a in native(["%s %s" % (sid, bits(x)) for x in eps])]
    d = math.pi / 180
    ka = native(
        [
            "kozai " + " ".join(bits(float(x)) for x in geo + [e["el.inclination"] * d, e["el.right_ascension"] * d, e["el.eccentricity"], e["el.argument_of_perigee"] * d, e["el.mean_anomaly"] * d, e["el.mean_motion"] * math.pi / 720])
            for e in cs
        ]
    )
    ref = []
    for e, ep, th, a in zip(cs, eps, ths, ka):
        if a.startswith("ok"):
            ref.append("prop %s %s %s 0" % (" ".join(bits(float(x)) for x in geo + [th, ep, e["el.drag_term"]]), " ".join(a.split()[1:]), bits(e["t"])))
        else:
            ref.append("years 2000 1 1 0 0 0 0")
    # the same with the orbit moved by a few units in the last place: how much rounding can matter
    ref2 = []
    for line in ref:
        w = line.split()
        if w[0] == "prop":
            w[9:15] = [bits(unbits(x) * (1 + 7e-16)) for x in w[9:15]]
        ref2.append(" ".join(w))
    for e, line, a, k, r, rl, r2 in zip(cs, el, got, ka, native(ref), ref, native(ref2)):
        bad = None
        if k.startswith("err"):
            if not a.startswith("newerr") or k.split()[1] not in a:
                bad = "newerr " + k[4:]
        elif r.startswith("newerr"):
            v = re.findall(r"[-\d.e]+", r.split("(")[-1])
            if not a.startswith("newerr") or "Eccentricity" not in a or (v and v[0] not in a):
                bad = r
        else:
            x, y = parse_pred(a), parse_pred(r)
            if (x is None) != (y is None):
                if abs(e["t"]) < 1100:
                    bad = r
            elif x is not None and all(z == z and abs(z) < 1e6 for z in y):
                z = parse_pred(r2)
                if z is None or any(q != q for q in z):
                    continue
                if rel_diff(x, y) > 30 * rel_diff(z, y) + mpf(10) ** -13:
                    bad = r
        if bad is not None:
            return {"cmd": line, "real_code": a, "specification": bad, "explicit": rl}
    return None


def native_search(ctx):
    return search(ctx.seed, MODES[0]) or search(ctx.seed, MODES[1])


def check(ctx, cfg="default"):
    import math

    p = ctx.program(cfg)
    jobs = []
    for mode in MODES:

        def run(mode=mode):
            res = modular_job(p, mode, ctx.seed)
            if res is not None and all(o.get("ok") is not False for o in res):
                return res
            # the contracts do not fit: look for an input, then compare the bodies
            f = search(ctx.seed, mode, 600)
            first = res
            if f is None or first is None:
                try:
                    res = inline_job(p, mode, ctx.seed)
                    if first is not None and any(o.get("ok") is False for o in res):
                        res = first
                except Unsupported:
                    if first is None:
                        raise
                    res = first
            for o in res:
                if o.get("ok") is False:
                    o["fail"] = f
            return res

        jobs.append((mode[0], run))
    e = Exec(p, models)
    names = fields(p, arg_tys(p, p.root("new"))[1])
    for w, (ae, mu, j2, j3, j4) in PUBLISHED.items():
        g, _ = e.run(p.root(w), [], St({}, TRUE))
        want = dict(ae=ae, ke=60 / math.sqrt(ae**3 / mu), j2=j2, j3=j3, j4=j4)
        for k, v in want.items():
            x = float(cv(g[names.index(k)]))
            ok = abs(x - v) <= 1e-9 * abs(v)
            ctx.ob("%s: published value of %s" % (w.upper(), k), ok, "evaluation of the constant", 0, None if ok else {"constant": w + "." + k, "real_code": x, "specification": v})
    ctx.used(e)
    ctx.jobs(jobs)
    ctx.assume(*REALS)
    ctx.assume("the functions called by the construction are represented by arbitrary results: what they compute is the subject of C01 to C07, C09 and C10")
