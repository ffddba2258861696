"""Arithmetic notation for specification terms."""
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mirv"))
import terms as tm
from terms import T, R, TRUE, FALSE

PI = math.pi
TWOPI = 2 * math.pi


def c(x):
    return x if isinstance(x, T) else R(x)


T.__add__ = lambda a, b: tm.add(a, c(b))
T.__radd__ = lambda a, b: tm.add(c(b), a)
T.__sub__ = lambda a, b: tm.sub(a, c(b))
T.__rsub__ = lambda a, b: tm.sub(c(b), a)
T.__mul__ = lambda a, b: tm.mul(a, c(b))
T.__rmul__ = lambda a, b: tm.mul(c(b), a)
T.__truediv__ = lambda a, b: tm.div(a, c(b))
T.__rtruediv__ = lambda a, b: tm.div(c(b), a)
T.__neg__ = lambda a: tm.neg(a)
T.__pow__ = lambda a, n: tm.powi(a, n)
T.__mod__ = lambda a, b: tm.rem(a, c(b))


def sin(x):
    return tm.sin(x)


def cos(x):
    return tm.cos(x)


def sqrt(x):
    return tm.sqrt(x)


def atan2(y, x):
    return tm.atan2(y, x)


def pow23(x):
    return tm.powi(tm.root(x, 3), 2)


def pow32(x):
    return tm.powi(tm.root(x, 2), 3)


def lt(a, b):
    return tm.lt(c(a), c(b))


def le(a, b):
    return tm.le(c(a), c(b))


def gt(a, b):
    return tm.lt(c(b), c(a))


def ge(a, b):
    return tm.le(c(b), c(a))


def cond(b, x, y):
    return tm.ite(b, c(x), c(y))


def absv(x):
    return tm.rabs(x)


def fmax(a, b):
    return tm.ite(tm.lt(a, c(b)), c(b), a)


def modulo(a, b):
    """reduction into [0, b)"""
    return tm.rem_euclid(a, c(b))


def floor(a):
    return tm.floor(a)
