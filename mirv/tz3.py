"""Terms as z3 formulas: integers, reals, and uninterpreted functions for the rest."""
import time
from fractions import Fraction

import z3

from terms import *


class Z:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.side = []
        self.funcs = {}
        self.opaque = False  # sums as bounded unknowns

    def f(self, name, args, sort):
        key = (name, tuple(str(a.sort()) for a in args), str(sort))
        if key not in self.funcs:
            self.funcs[key] = z3.Function("%s/%d" % (name, len(self.funcs)), *([a.sort() for a in args] + [sort]))
        return self.funcs[key](*args)

    def const(self, x):
        if isinstance(x, T):
            return self.get(x)
        if isinstance(x, bool) or not isinstance(x, int):
            return z3.StringVal(str(x))
        return z3.IntVal(x)

    def get(self, t):
        r = self.memo.get(t.id)
        if r is None:
            for s in subterms([t]):
                if s.id not in self.memo:
                    self.memo[s.id] = self.one(s)
            r = self.memo[t.id]
        return r

    def one(self, t):
        op, a = t.op, t.args
        if op == "rc":
            c = Fraction(a[0])
            return z3.Q(c.numerator, c.denominator)
        if op == "ic":
            return z3.IntVal(a[0])
        if op == "rv":
            return self.vars.setdefault(a[0], z3.Real(a[0]))
        if op == "iv":
            v = self.vars.setdefault(a[0], z3.Int(a[0]))
            if a[1] is not None:
                self.side.append(v >= a[1])
            if a[2] is not None:
                self.side.append(v <= a[2])
            return v
        if op == "bv":
            return self.vars.setdefault(a[0], z3.Bool(a[0]))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "isum" and self.opaque:
            v = z3.Int("sum:%d" % t.id)
            lo, hi = rng(t)
            self.side += [v >= lo, v <= hi]
            return v
        if op == "isum":
            r = z3.IntVal(a[0])
            for v, tb in zip(a[1::2], a[2::2]):
                r = r + self.table(v, tb)
            return r
        xs = [self.const(x) for x in a]
        if op == "ite":
            return z3.If(xs[0], xs[1], xs[2])
        if op in ("add", "iadd"):
            return xs[0] + xs[1]
        if op in ("mul", "imul"):
            return xs[0] * xs[1]
        if op == "neg":
            return -xs[0]
        if op == "div":
            return xs[0] / xs[1]
        if op in ("lt", "ilt"):
            return xs[0] < xs[1]
        if op in ("eq", "ieq"):
            return xs[0] == xs[1]
        if op == "i2r":
            return z3.ToReal(xs[0])
        if op in ("idiv", "irem") and isc(a[1]) and cv(a[1]) > 0:
            # z3 rounds down, Rust towards zero
            c, x = cv(a[1]), xs[0]
            q = x / c if self.nonneg(a[0]) else z3.If(x >= 0, x / c, -((-x) / c))
            return q if op == "idiv" else x - c * q
        if op == "fn" and a[0] == "trunc":
            x = xs[1]
            return z3.ToReal(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if op == "ifn" and a[0] == "r2i":
            x = xs[1]
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        sort = {"R": z3.RealSort(), "I": z3.IntSort(), "A": z3.BoolSort(), "B": z3.BoolSort()}[t.sort]
        if op in ("fn", "ifn", "pred"):
            return self.f(op + ":" + str(a[0]), xs[1:], sort) if len(xs) > 1 else z3.Const("%s:%s" % (op, a[0]), sort)
        return self.f(op, xs, sort)

    def table(self, v, tb):
        """a function of one byte, by its affine pieces"""
        x = self.get(v)
        key = ("table", v.id, tb)
        if key not in self.memo:
            lo = v.args[1]
            pieces = []
            i = 0
            while i < len(tb):
                j = i + 1
                d = tb[j] - tb[i] if j < len(tb) else 0
                d = d if d in (0, 1) else 0
                while j < len(tb) and tb[j] == tb[i] + d * (j - i):
                    j += 1
                pieces.append((lo + i, lo + j, tb[i], d))
                i = j
            r = None
            for a, b, c, d in reversed(pieces):
                e = c + (x - a if d else 0)
                r = (z3.IntVal(e) if isinstance(e, int) else e) if r is None else z3.If(x < b, e, r)
            self.memo[key] = r
        return self.memo[key]

    def nonneg(self, t):
        lo = rng(t)[0]
        return lo is not None and lo >= 0


def prove(goal, facts=(), timeout=20000, z=None):
    """'proved' | 'refuted' with a model | 'unknown'; facts and goal are B terms or z3 formulas"""
    z = z or Z()
    g = [z.get(x) if isinstance(x, T) else x for x in list(facts) + [goal]]
    # the two arithmetic procedures of z3 get stuck on different formulas
    for solver, ms in ((None, min(timeout, 2000)), (2, timeout // 2), (None, timeout)):
        s = z3.Solver()
        s.set("timeout", ms)
        if solver:
            s.set("arith.solver", solver)
        s.add(*z.side)
        s.add(*g[:-1])
        s.add(z3.Not(g[-1]))
        r = s.check()
        if r != z3.unknown:
            break
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        m = s.model()
        return "refuted", {k: m.eval(v, True) for k, v in z.vars.items()}
    return "unknown", None


def value(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_true(x) or z3.is_false(x):
        return z3.is_true(x)
    return None


class Local:
    """does a condition contradict what the guard says about the same quantities?"""

    def __init__(self, timeout=2000):
        self.timeout = timeout
        self.queries = 0
        self.secs = 0.0
        self.refuted = 0
        self.basis_memo = {}
        self.memo = {}

    def basis(self, t):
        """opaque integer quantities a term is made of"""
        r = self.basis_memo.get(t.id)
        if r is None:
            if t.op in ("iv", "isum", "ifn", "rv", "fn", "bv", "pred", "i2r"):
                r = frozenset([t.id])
            else:
                r = frozenset()
                for a in t.args:
                    if isinstance(a, T):
                        r |= self.basis(a)
            self.basis_memo[t.id] = r
        return r

    def __call__(self, cond, g):
        t0 = time.time()
        key = (cond.id, g.id)
        if key in self.memo:
            return self.memo[key]
        vs = self.basis(cond)
        qm = {}

        def project(x):
            if x.op != "ite":
                return x
            r = qm.get(x.id)
            if r is None:
                hi, lo = project(x.args[1]), project(x.args[2])
                r = ite(atom(x.args[0]), hi, lo) if self.basis(x.args[0]) <= vs else Or(hi, lo)
                qm[x.id] = r
            return r

        f = And(project(g), cond)
        r = f is FALSE
        if not r and f is not TRUE:
            z = Z()
            z.opaque = True
            r = prove(Not(f), (), self.timeout, z)[0] == "proved"
            self.queries += 1
        self.refuted += r
        self.memo[key] = r
        self.secs += time.time() - t0
        return r
