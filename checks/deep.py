"""Case analysis shared by the deep-space properties."""
from cases import *

LABELS = ["x", "y", "z", "vx", "vy", "vz"]
N_NEAR = 2 * S.PI / 225
LOW_I = 5.2359877e-2


def regimes(o, which):
    """boxes over the epoch orbit: mean motion and eccentricity, then inclination"""
    b = lambda: Box().add(o.ecco, ">=", 0).add(o.ecco, "<", 1).add(o.no, "<=", N_NEAR).add(o.no, ">", 0)
    if which == "plain":
        yield "period 225 to 679 min", b().add(o.no, ">", 9.24e-3)
        yield "period of 12 h, e < 0.5", b().add(o.no, ">=", 8.26e-3).add(o.no, "<=", 9.24e-3).add(o.ecco, "<", 0.5)
        yield "period 761 to 1200 min", b().add(o.no, "<", 8.26e-3).add(o.no, ">=", 0.0052359877)
        yield "period above 1800 min", b().add(o.no, "<=", 0.0034906585)
    elif which == "day":
        yield "one-day resonance", b().add(o.no, ">", 0.0034906585).add(o.no, "<", 0.0052359877)
    else:
        h = lambda: b().add(o.no, ">=", 8.26e-3).add(o.no, "<=", 9.24e-3)
        yield "half-day resonance, e in [0.5, 0.65]", h().add(o.ecco, ">=", 0.5).add(o.ecco, "<=", 0.65)
        yield "half-day resonance, e in (0.65, 0.7)", h().add(o.ecco, ">", 0.65).add(o.ecco, "<", 0.7)
        yield "half-day resonance, e in [0.7, 0.715)", h().add(o.ecco, ">=", 0.7).add(o.ecco, "<", 0.715)
        yield "half-day resonance, e >= 0.715", h().add(o.ecco, ">=", 0.715)


def with_inclination(o, name, box):
    import copy

    for nm, lo, hi in (("i < 3 deg", None, ("<", LOW_I)), ("3 deg <= i <= 177 deg", (">=", LOW_I), ("<=", S.PI - LOW_I)), ("i > 177 deg", (">", S.PI - LOW_I), None)):
        b = Box()
        b.lo, b.hi = dict(box.lo), dict(box.hi)
        if lo:
            b.add(o.inclo, *lo)
        if hi:
            b.add(o.inclo, *hi)
        yield name + ", " + nm, b


def plain_domain(e):
    n, x = e["o.mean_motion"], e["o.eccentricity"]
    if not (0 < n <= N_NEAR and 0 <= x < 1):
        return False
    if 0.0034906585 < n < 0.0052359877:
        return False
    return not (8.26e-3 <= n <= 9.24e-3 and x >= 0.5)


def day_domain(e):
    return 0.0034906585 < e["o.mean_motion"] < 0.0052359877 and 0 <= e["o.eccentricity"] < 1


def half_domain(e):
    return 8.26e-3 <= e["o.mean_motion"] <= 9.24e-3 and 0.5 <= e["o.eccentricity"] < 1
