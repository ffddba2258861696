"""Sample inputs for the numeric side (pair proposal and counterexample search)."""
import math
import random

from mpmath import mpf

ORB = ("inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion")
WGS84 = (6378.137, 0.07436685316871385, 0.00108262998905, -0.00000253215306, -0.00000161098761)
WGS72 = (6378.135, 0.07436691613317342, 0.001082616, -0.00000253881, -0.00000165597)


def mm_of_perigee(h, e, ke, ae):
    a = (1 + h / ae) / (1 - e)
    return ke / a**1.5


KINDS = (
    "leo", "leo_circ", "low220", "low156", "low98", "meo_ne", "retro",
    "deep", "deep_low", "deep_lyd", "deep_retro",
    "day", "day_lyd", "half50", "half66", "half70", "half72", "half_back", "day_back",
)


def draw(rng, kind):
    """a dictionary of f64 inputs for one regime"""
    g = rng.choice([WGS84, WGS72, WGS84, (6400.0, 0.075, 0.0011, -0.0000025, -0.0000016)])
    ae, ke = g[0], g[1]
    e = rng.uniform(0.001, 0.02)
    h = rng.uniform(300, 900)
    inc = rng.uniform(0.3, 2.5)
    t = rng.uniform(-1500, 1500)
    bstar = rng.uniform(-1e-4, 3e-4)
    no = None
    wild = kind.startswith("wild:")
    kind = kind.replace("wild:", "")
    if kind == "leo_circ":
        e = rng.uniform(0, 9e-5)
    elif kind == "low220":
        h = rng.uniform(157, 219)
        t = rng.uniform(-200, 200)
    elif kind == "low156":
        h = rng.uniform(99, 155)
        bstar = rng.uniform(-1e-6, 1e-6)
        t = rng.uniform(-60, 60)
    elif kind == "low98":
        h = rng.uniform(70, 97)
        bstar = rng.uniform(-1e-7, 1e-7)
        t = rng.uniform(-60, 60)
    elif kind == "meo_ne":
        e = rng.uniform(0.1, 0.2)
        h = rng.uniform(600, 1500)
    elif kind == "retro":
        inc = math.pi
    elif kind.startswith("deep"):
        no = rng.uniform(0.0094, 0.027) if rng.random() < 0.6 else rng.choice([rng.uniform(0.0054, 0.0081), rng.uniform(0.001, 0.0034)])
        e = rng.uniform(0.01, 0.4)
        t = rng.uniform(-4000, 4000)
        bstar = rng.uniform(-1e-4, 1e-4)
        if kind == "deep_low":
            inc = rng.uniform(0.01, 0.05)
        elif kind == "deep_lyd":
            inc = rng.uniform(0.06, 0.18)
        elif kind == "deep_retro":
            inc = rng.uniform(3.095, 3.14)
    elif kind.startswith("day"):
        no = rng.uniform(0.0036, 0.0051)
        e = rng.uniform(0.0, 0.3)
        t = rng.uniform(1500, 8000)
        bstar = rng.uniform(-1e-4, 1e-4)
        if kind == "day_lyd":
            inc = rng.uniform(0.0, 0.15)
        if kind == "day_back":
            t = -t
    elif kind.startswith("half"):
        no = rng.uniform(0.00827, 0.00923)
        e = {
            "half50": rng.uniform(0.5, 0.65),
            "half66": rng.uniform(0.651, 0.699),
            "half70": rng.uniform(0.7, 0.7149),
            "half72": rng.uniform(0.716, 0.75),
            "half_back": rng.uniform(0.5, 0.74),
        }[kind]
        t = rng.uniform(800, 6000)
        bstar = rng.uniform(-1e-4, 1e-4)
        if kind == "half_back":
            t = -t
    if wild:
        # no physical orbit: the Kepler iteration wanders, so its iterates differ
        g = (6400.0, 0.075, 0.0011, -rng.uniform(0.2, 0.4), -0.0000016)
        if e < 0.3:
            e = rng.uniform(0.3, 0.49)
    if no is None:
        no = mm_of_perigee(h, e, ke, ae)
    env = dict(zip(("g.ae", "g.ke", "g.j2", "g.j3", "g.j4"), g))
    env.update(
        {
            "epoch": rng.uniform(-40, 50),
            "drag": bstar,
            "t": t,
            "o.inclination": inc,
            "o.right_ascension": rng.uniform(0, 6.28),
            "o.eccentricity": e,
            "o.argument_of_perigee": rng.uniform(0, 6.28),
            "o.mean_anomaly": rng.uniform(0, 6.28),
            "o.mean_motion": no,
            "afspc": rng.random() < 0.5,
        }
    )
    # a resonance state somewhere on the way to t
    n = int(rng.random() * (abs(t) // 720 + 1))
    env["s.0"] = 720.0 * n * (1 if t > 0 else -1)
    env["s.1"] = no * (1 + rng.uniform(-0.01, 0.01))
    env["s.2"] = rng.uniform(-6, 6)
    env["S.0"] = 720.0 * rng.randint(-5, 5)
    env["S.1"] = no * (1 + rng.uniform(-0.01, 0.01))
    env["S.2"] = rng.uniform(-6, 6)
    env["has_state"] = rng.random() < 0.5
    return env


def to_mp(env):
    return {k: (v if isinstance(v, (bool, int, str)) else mpf(v)) for k, v in env.items()}


def envs(seed, kinds=KINDS, per=1):
    rng = random.Random(seed)
    out = []
    for _ in range(per):
        for k in kinds:
            e = draw(rng, k)
            e["$kind"] = k
            out.append(e)
    return out


def prover_envs(seed, kinds=KINDS, rand=10):
    """sample points for the prover: real ones, then ones with random decisions"""
    es = [to_mp(e) for e in envs(seed, kinds)]
    rng = random.Random(seed + 1)
    for i in range(rand):
        e = to_mp(draw(rng, kinds[i % len(kinds)]))
        e["$rand"] = i
        es.append(e)
    return es
