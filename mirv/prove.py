"""The back end that discharges equalities between terms.

`Prover.canon` walks terms bottom-up and merges those it can prove equal into
one class.  Numeric evaluation on sample points only *proposes* pairs; a pair
is merged when its polynomial normal forms over the classes below it agree
(coefficients up to 1e-14 relative: the rounding of literals), possibly after
clearing denominators, r^q = x for roots, and sin^2 + cos^2 = 1, or by a case
split on the decisions inside.  Conditions left over go to z3.
"""
import hashlib
import time
from fractions import Fraction

import mpmath
from mpmath import mp, mpf

from terms import *

mp.dps = 40
RTOL = mpf(10) ** -14


class TooBig(Exception):
    pass


class OutOfTime(Exception):
    pass


class Stuck(Exception):
    """diagnosis: a term that looks equal to specification terms but is not proved so"""


# ------------------------------------------------------------------ numbers
def _h(name, *xs):
    d = hashlib.md5(repr((name,) + xs).encode()).digest()
    return int.from_bytes(d[:6], "big") / 2.0**48


def uf_real(name, xs):
    s = mpf(0)
    for j, x in enumerate(xs):
        if not isinstance(x, mpf):
            x = mpf(_h("arg", repr(x)))
        s += mp.sin(x * mpf(0.5 + _h(name, j)) + mpf(6 * _h(name, j, "b")))
    return 2 + s / 2 + mpf(_h(name))


def uf_int(name, xs):
    d = hashlib.md5(repr((name,) + tuple(xs)).encode()).digest()
    return int.from_bytes(d[:4], "big")


def _trunc(x):
    return mpf(int(x))


_cst = {}


def mp_const(c):
    """a literal as a number; roundings of simple multiples of pi stand for pi"""
    r = _cst.get(c)
    if r is None:
        r = mpf(c.numerator) / c.denominator
        if c and c.denominator > 1 << 20:
            f = Fraction(mp.nstr(r / mp.pi, 30)).limit_denominator(2000)
            x = mp.pi * f.numerator / f.denominator
            if f and abs(x - r) <= abs(r) * mpf(4) / 10**16:
                r = x
        _cst[c] = r
    return r


class Num:
    """evaluation of terms on a list of environments"""

    def __init__(self, envs, ufs=None):
        self.envs = envs
        self.v = {}
        self.ufs = ufs or {}

    def get(self, t):
        r = self.v.get(t.id)
        if r is None:
            for s in subterms([t]):
                if s.id not in self.v:
                    self.v[s.id] = [self.one(s, k) for k in range(len(self.envs))]
            r = self.v[t.id]
        return r

    def one(self, t, k):
        try:
            return self._one(t, k)
        except (ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.ComplexResult):
            return None

    def _one(self, t, k):
        op = t.op
        v = self.v
        a = t.args
        if op == "rc":
            return mp_const(a[0])
        if op == "ic":
            return a[0]
        if op in ("rv", "iv"):
            return self.envs[k][a[0]]
        if op == "bv":
            return bool(self.envs[k][a[0]])
        if op == "true":
            return True
        if op == "false":
            return False
        if op in ("rnan", "rinf", "rninf"):
            return None
        if op == "ite":
            c = v[a[0].id][k]
            if c is None:
                return None
            return v[a[1].id][k] if c else v[a[2].id][k]
        xs = [v[x.id][k] if isinstance(x, T) else x for x in a]
        if t.sort == "A" and op in ("lt", "eq", "isnan"):
            # sample points with arbitrary decisions: only identical decisions
            # look alike there
            rnd = self.envs[k].get("$rand")
            if rnd is not None:
                return _h("atom", rnd, t.id) < 0.5
        if op == "sgn":
            return _h("sgn", k, t.id) < 0.5
        if op == "isnan":
            nan = self.envs[k].get("$nan")
            return nan is not None and t.id in nan
        if any(x is None for x in xs):
            return None
        if op == "add" or op == "iadd":
            return xs[0] + xs[1]
        if op == "mul" or op == "imul":
            return xs[0] * xs[1]
        if op == "neg":
            return -xs[0]
        if op == "div":
            return xs[0] / xs[1] if xs[1] != 0 else None
        if op == "powi":
            return xs[0] ** xs[1]
        if op == "lt":
            return xs[0] < xs[1]
        if op == "eq":
            return xs[0] == xs[1]
        if op == "ilt":
            return xs[0] < xs[1]
        if op == "ieq":
            return xs[0] == xs[1]
        if op == "i2r":
            return mpf(xs[0])
        if op == "idiv":
            if xs[1] == 0:
                return None
            q = abs(xs[0]) // abs(xs[1])
            return q if (xs[0] >= 0) == (xs[1] >= 0) else -q
        if op == "irem":
            if xs[1] == 0:
                return None
            q = abs(xs[0]) % abs(xs[1])
            return q if xs[0] >= 0 else -q
        if op == "fn":
            return self.fn(xs[0], xs[1:], k)
        if op == "ifn":
            if xs[0] in self.ufs:
                return self.ufs[xs[0]](self.envs[k], *xs[1:])
            if xs[0] == "r2i":
                return int(xs[1])
            return uf_int(xs[0], xs[1:])
        if op == "pred":
            if xs[0] in self.ufs:
                return self.ufs[xs[0]](self.envs[k], *xs[1:])
            return bool(uf_int(xs[0], xs[1:]) & 1)
        raise Exception("eval " + op)

    def fn(self, name, xs, k):
        if name in self.ufs:
            return self.ufs[name](self.envs[k], *xs)
        if name == "sin":
            return mp.sin(xs[0])
        if name == "cos":
            return mp.cos(xs[0])
        if name == "tan":
            return mp.tan(xs[0])
        if name.startswith("root"):
            q = int(name[4:])
            if xs[0] < 0:
                return None
            return mp.root(xs[0], q)
        if name == "trunc":
            return _trunc(xs[0])
        if name == "atan2":
            return mp.atan2(xs[0], xs[1])
        if name == "powf":
            return mp.power(xs[0], xs[1]) if xs[0] > 0 else None
        if name == "exp":
            return mp.exp(xs[0])
        if name == "ln":
            return mp.log(xs[0]) if xs[0] > 0 else None
        if name == "lout":
            # some smooth stand-in that depends on every entry value
            i = xs[1]
            es = xs[2:]
            return es[i] + mpf(0.01 * (i + 1)) * mp.sin(sum((j + 1) * e for j, e in enumerate(es)) + len(xs[0]))
        return uf_real(name, xs)


def close(a, b, tol=mpf(10) ** -12):
    if a is None or b is None:
        return a is b
    if isinstance(a, mpf) and isinstance(b, mpf):
        d = abs(a - b)
        return d <= tol * (abs(a) + abs(b)) or d == 0
    return a == b


# -------------------------------------------------------------- polynomials
POLY = ("add", "mul", "neg", "powi", "div", "rc")


class Prover:
    def __init__(self, envs, ufs=None, maxpoly=6000):
        self.num = Num(envs, ufs)
        self.real_ix = [i for i, e in enumerate(envs) if e.get("$rand") is None]
        self.rep = {}
        self.buckets = ({}, {})
        self.abuckets = {}
        self.lbuckets = {}
        self.matched = set()
        self.spec_ids = set()
        self.invs = []  # (poly normalised)
        self.inv_index = {}
        self.maxpoly = maxpoly
        self.nf_memo = {}
        self.tried = {}
        self.lin_memo = {}
        self.doubles = {}
        self.stats = {"merged": 0, "nf": 0, "split": 0, "z3": 0, "z3_s": 0.0}
        self.split_depth = 0
        self.deadline = None

    # ---- polynomial arithmetic: {mono: (value, magnitude)}
    def padd(self, p, q, s=1):
        r = dict(p)
        for m, (v, g) in q.items():
            if m in r:
                a, b = r[m]
                nv, ng = a + s * v, b + g
                if nv == 0:
                    r.pop(m)
                else:
                    r[m] = (nv, ng)
            else:
                r[m] = (s * v, g)
        return r

    def clean(self, p):
        return {m: x for m, x in p.items() if abs(x[0]) > RTOL * x[1]}

    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            n = d.get(k, 0) + e
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if len(p) * len(q) > 20 * self.maxpoly:
            raise TooBig()
        self.tick()
        r = {}
        for m, (v, g) in p.items():
            for n, (w, h) in q.items():
                k = self.mmul(m, n)
                x = r.get(k)
                if x is None:
                    r[k] = (v * w, g * h)
                else:
                    r[k] = (x[0] + v * w, x[1] + g * h)
        r = self.clean(r)
        if len(r) > self.maxpoly:
            raise TooBig()
        return r

    def ppow(self, p, n):
        if len(p) == 1:
            ((m, (v, g)),) = p.items()
            return {tuple((k, e * n) for k, e in m): (v**n, g ** abs(n) if n > 0 else abs(v) ** n)}
        r = {(): (mpf(1), mpf(1))}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def const(self, c):
        v = mp_const(c)
        return {(): (v, abs(v))} if v != 0 else {}

    def pinv(self, p):
        p = self.clean(p)
        if not p:
            raise TooBig()
        if len(p) == 1:
            ((m, (v, g)),) = p.items()
            return {tuple((k, -e) for k, e in m): (1 / v, abs(1 / v))}
        # take out the common monomial
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {k: min(e, d[k]) if (e > 0) == (d[k] > 0) else 0 for k, e in common.items() if k in d}
        common = {k: e for k, e in (common or {}).items() if e}
        cm = tuple(sorted((k, -e) for k, e in common.items()))
        p = {self.mmul(m, cm): x for m, x in p.items()}
        lead = min(p)  # deterministic
        lv = p[lead][0]
        p = {m: (v / lv, g / abs(lv)) for m, (v, g) in p.items()}
        key = tuple(sorted(p))
        for i in self.inv_index.get(key, ()):
            q = self.invs[i]
            if all(abs(q[m][0] - p[m][0]) <= RTOL * (q[m][1] + p[m][1]) for m in p):
                break
        else:
            i = len(self.invs)
            self.invs.append(p)
            self.inv_index.setdefault(key, []).append(i)
        m = self.mmul(cm, ((-1 - i, 1),))
        return {m: (1 / lv, abs(1 / lv))}

    def atom_poly(self, t):
        return {((t.id, 1),): (mpf(1), mpf(1))}

    def nf(self, t, expand, memo):
        """polynomial of t; `expand(x)` tells whether to open a class below t"""
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op

        def sub_(x):
            if x.op in POLY and (x.op == "rc" or expand(x)):
                return self.nf(x, expand, memo)
            return self.atom_poly(x)

        if op == "rc":
            r = self.const(t.args[0])
        elif op == "add":
            r = self.clean(self.padd(sub_(t.args[0]), sub_(t.args[1])))
            if len(r) > self.maxpoly:
                raise TooBig()
        elif op == "neg":
            r = {m: (-v, g) for m, (v, g) in sub_(t.args[0]).items()}
        elif op == "mul":
            r = self.pmul(sub_(t.args[0]), sub_(t.args[1]))
        elif op == "powi":
            r = self.ppow(sub_(t.args[0]), t.args[1])
        elif op == "div":
            r = self.pmul(sub_(t.args[0]), self.pinv(sub_(t.args[1])))
        else:
            r = self.atom_poly(t)
        memo[t.id] = r
        return r

    def nf_cut(self, t, cut_matched=True):
        ex = (lambda x: x.id not in self.matched) if cut_matched else (lambda x: True)
        self.stats["nf"] += 1
        return self.nf(t, ex, {})

    def expand_atoms(self, p, ids):
        r = {}
        for m, x in p.items():
            base = tuple((k, e) for k, e in m if k not in ids)
            q = {base: x}
            for k, e in m:
                if k in ids:
                    s = ids[k]
                    if e > 0:
                        q = self.pmul(q, self.ppow(s, e))
                    else:
                        q = self.pmul(q, self.ppow(self.pinv(s), -e))
            r = self.padd(r, q)
            if len(r) > self.maxpoly:
                raise TooBig()
        return self.clean(r)

    def is_zero(self, p):
        """clear denominators, then reduce roots and trigonometric squares"""
        p = self.clean(p)
        for _ in range(40):
            if not p:
                return True
            invs = {}
            for m in p:
                for k, e in m:
                    if k < 0:
                        lo, hi = invs.get(k, (0, 0))
                        invs[k] = (min(lo, e), max(hi, e))
            if invs:
                k = min(invs)  # the latest created first
                lo, hi = invs[k]
                d = self.invs[-1 - k]
                r = {}
                pw = {}
                for m, x in p.items():
                    e = dict(m).get(k, 0)
                    base = tuple((a, b) for a, b in m if a != k)
                    n = hi - e
                    if n not in pw:
                        pw[n] = self.ppow(d, n)
                    r = self.padd(r, self.pmul({base: x}, pw[n]))
                    if len(r) > self.maxpoly:
                        raise TooBig()
                p = self.clean(r)
                continue
            # make every exponent non-negative (multiply by a monomial)
            mn = {}
            for m in p:
                for k, e in m:
                    if e < 0:
                        mn[k] = min(mn.get(k, 0), e)
            if mn:
                f = tuple(sorted((k, -e) for k, e in mn.items()))
                p = {self.mmul(m, f): x for m, x in p.items()}
            ch = False
            ids = {k for m in p for k, _ in m}
            for k in sorted(ids, reverse=True):
                t = ALL[k]
                if t.op != "fn":
                    continue
                nm = t.args[0]
                if nm.startswith("root"):
                    q = int(nm[4:])
                    if any(k == a and e >= q for m in p for a, e in m):
                        x = self.nf_cut(t.args[1])
                        p = self.power_reduce(p, k, q, x)
                        ch = True
                elif nm == "sin":
                    if any(k == a and e >= 2 for m in p for a, e in m):
                        c = cos(t.args[1])
                        c = self.rep.get(c.id, c)
                        x = {(): (mpf(1), mpf(1)), ((c.id, 2),): (mpf(-1), mpf(1))}
                        p = self.power_reduce(p, k, 2, x)
                        ch = True
            if not ch:
                p2 = self.double_angles(p, ids)
                if p2 is None:
                    return not p
                p = p2
        return False

    def double_angles(self, p, ids):
        """sin 2x = 2 sin x cos x and cos 2x = 2 cos^2 x - 1, when both x and 2x (up to whole turns) occur"""
        trig = [ALL[k] for k in ids if ALL[k].op == "fn" and ALL[k].args[0] in ("sin", "cos")]
        args = {t.args[1].id: t.args[1] for t in trig}
        if len(args) < 2:
            return None
        for t in trig:
            x = t.args[1]
            for y in args.values():
                if y is x or not self.is_double(x, y):
                    continue
                c, s = (self.rep.get(f.id, f) for f in (cos(y), sin(y)))
                if t.args[0] == "sin":
                    new = self.pmul({((c.id, 1),): (mpf(2), mpf(2))}, self.atom_poly(s))
                else:
                    new = {((c.id, 2),): (mpf(2), mpf(2)), (): (mpf(-1), mpf(1))}
                return self.power_reduce(p, t.id, 1, new)
        return None

    def is_double(self, x, y):
        r = self.doubles.get((x.id, y.id))
        if r is None:
            self.doubles[(x.id, y.id)] = r = False
            vals = [(u, v) for u, v in zip(self.num.get(x), self.num.get(y)) if u is not None and v is not None]
            turns = [(u - 2 * v) / self.TWO_PI for u, v in vals]
            if len(vals) > 3 and all(abs(n - mp.nint(n)) < mpf(10) ** -12 for n in turns):
                r = self.whole_turns(x, mul(R(2), y))
            self.doubles[(x.id, y.id)] = r
        return r

    def power_reduce(self, p, k, q, x):
        r = {}
        pw = {}
        for m, v in p.items():
            e = dict(m).get(k, 0)
            n, rem_ = divmod(e, q)
            if n == 0:
                r = self.padd(r, {m: v})
                continue
            base = self.mmul(tuple((a, b) for a, b in m if a != k), ((k, rem_),) if rem_ else ())
            if n not in pw:
                pw[n] = self.ppow(x, n) if len(x) != 1 else self.ppow(x, n)
            r = self.padd(r, self.pmul({base: v}, pw[n]))
            if len(r) > self.maxpoly:
                raise TooBig()
        return self.clean(r)

    # ---- equality of two real terms
    def alg_eq(self, a, b, rounds=300):
        try:
            p = self.padd(self.nf_cut(a), self.nf_cut(b), -1)
            p = self.clean(p)
            for rnd in range(rounds):
                if self.is_zero(p):
                    return True
                ids = {}
                for m in p:
                    for k, _ in m:
                        if k >= 0 and k not in ids and ALL[k].op in POLY:
                            ids[k] = None
                        elif k < 0:
                            for mm in self.invs[-1 - k]:
                                for kk, _ in mm:
                                    if kk >= 0 and ALL[kk].op in POLY and kk not in ids:
                                        ids[kk] = None
                if not ids:
                    return False
                # open the products first: they only rename monomials
                prod = {k: self.nf_cut(ALL[k]) for k in ids if ALL[k].op in ("mul", "powi", "neg")}
                prod = {k: q for k, q in prod.items() if len(q) == 1}
                if prod:
                    p = self.reopen(p, prod)
                    continue
                # open the topmost class, denominators included
                k = max(ids)
                p = self.reopen(p, {k: self.nf_cut(ALL[k])})
        except TooBig:
            return False
        return False

    def reopen(self, p, ids):
        # rewrite inverse atoms whose polynomial mentions an opened class
        inv_new = {}
        todo = {k for m in p for k, _ in m if k < 0}
        for k in todo:
            d = self.invs[-1 - k]
            if any(kk in ids for m in d for kk, _ in m):
                d2 = self.expand_atoms(d, ids)
                inv_new[k] = self.pinv(d2)
        r = {}
        for m, x in p.items():
            base = tuple((k, e) for k, e in m if k not in inv_new)
            q = {base: x}
            for k, e in m:
                if k in inv_new:
                    q = self.pmul(q, self.ppow(inv_new[k], e))
            r = self.padd(r, q)
            if len(r) > self.maxpoly:
                raise TooBig()
        return self.expand_atoms(r, ids)

    def fn_eq(self, a, b):
        if a.op != "fn" or b.op != "fn" or a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return False
        for x, y in zip(a.args[1:], b.args[1:]):
            if x is y:
                continue
            if isinstance(x, T) and isinstance(y, T) and x.sort == y.sort and self.canon(x) is self.canon(y):
                continue
            if a.args[0] in ("sin", "cos") and self.whole_turns(x, y):
                continue
            return False
        return True

    TWO_PI = 2 * mp.pi

    def whole_turns(self, x, y):
        """x - y is a multiple of 2 pi: a sum of 2 pi * trunc(..) and constants"""
        try:
            p = self.padd(self.nf_cut(x), self.nf_cut(y), -1)
            p = self.clean(p)
            for rnd in range(20):
                ok = True
                for m, (v, g) in p.items():
                    n = v / self.TWO_PI
                    if abs(n - mp.nint(n)) > mpf(10) ** -13:
                        ok = False
                        break
                    for k, e in m:
                        if k < 0 or e < 0 or not (ALL[k].op == "fn" and ALL[k].args[0] == "trunc"):
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    return True
                ids = {k for m in p for k, _ in m if k >= 0 and ALL[k].op in POLY}
                if not ids:
                    return False
                k = max(ids)
                p = self.reopen(p, {k: self.nf_cut(ALL[k])})
        except TooBig:
            pass
        return False

    def inner_atoms(self, ts, limit=200, through_fn=True):
        """decision atoms reachable through arithmetic only"""
        seen = set()
        out = []
        st = list(ts)
        while st and len(seen) < limit:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ite":
                if x.args[0] not in out:
                    out.append(x.args[0])
                st.extend([x.args[1], x.args[2]])
            elif x.op in POLY or (x.op == "fn" and through_fn):
                if x.id in self.matched and x not in ts:
                    continue
                for y in x.args:
                    if isinstance(y, T):
                        st.append(y)
        return out

    def split_eq(self, a, b, depth=5, quick=False):
        if self.split_depth >= depth:
            return False
        ats = self.inner_atoms([a, b], 60, not quick)
        if not ats or (quick and len(ats) > 3):
            return False
        at = min(ats, key=lambda x: x.id)
        self.split_depth += 1
        try:
            for val in (TRUE, FALSE):
                x, y = subst([a, b], {at: val})
                if x is a and y is b:
                    return False
                cx, cy = self.canon(x), self.canon(y)
                if cx is not cy:
                    return False
        finally:
            self.split_depth -= 1
        self.stats["split"] += 1
        return True

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()

    def prove_pair(self, a, b, quick=False):
        self.tick()
        key = (quick, a.id, b.id) if a.id < b.id else (quick, b.id, a.id)
        r = self.tried.get(key)
        if r is None:
            self.tried[key] = False
            t0 = time.time()
            r = self._prove_pair(a, b, quick)
            self.tried[key] = r
            if self.trace and time.time() - t0 > 0.5:
                print("slow %.1fs %s quick=%s" % (time.time() - t0, r, quick), show(a, 3), "|", show(b, 3), flush=True)
        return r

    trace = False

    def _prove_pair(self, a, b, quick):
        if a is b:
            return True
        if a.op == "fn" and b.op == "fn":
            if self.fn_eq(a, b):
                return True
        if a.sort == "R" and "ite" not in (a.op, b.op):
            saved = self.maxpoly
            if quick:
                self.maxpoly = min(saved, 600)
            try:
                if self.alg_eq(a, b, 30 if quick else 300):
                    return True
            finally:
                self.maxpoly = saved
        return self.split_eq(a, b, 2 if quick else 5, quick)

    # ---- classes
    def canon(self, t):
        r = self.rep.get(t.id)
        if r is not None:
            return r
        for s in subterms([t]):
            if s.id in self.rep:
                continue
            self.canon1(s)
        return self.rep[t.id]

    def canon1(self, s):
        ch = False
        na = []
        for a in s.args:
            if isinstance(a, T):
                b = self.rep[a.id]
                ch = ch or b is not a
                na.append(b)
            else:
                na.append(a)
        n = rebuild(s, tuple(na)) if ch else s
        if n is not s and n.id in self.rep:
            self.rep[s.id] = self.rep[n.id]
            if n.id in self.spec_ids and not self.no_proof:
                self.matched.add(n.id)
            return
        if n is not s:
            # the constructors may have made new nodes below n
            for x in subterms([n]):
                if x.id not in self.rep and x is not n:
                    self.canon1(x)
            if any(isinstance(a, T) and self.rep[a.id] is not a for a in n.args):
                self.rep[s.id] = None
                self.canon1(n)
                self.rep[s.id] = self.rep[n.id]
                return
        r = self.final(n)
        self.rep[n.id] = r
        self.rep[s.id] = r

    def final(self, n):
        if n.sort == "R" and n.op not in ("rv", "rc", "rnan", "rinf", "rninf"):
            vals = self.num.get(n)
            cands, weak = self.lookup(n, vals)
            for c in cands:
                if c is n:
                    return n
            for c in [] if self.no_proof else cands[:4]:
                if self.prove_pair(n, c, True):
                    self.stats["merged"] += 1
                    self.matched.add(c.id)
                    return c
            if not self.no_proof:
                same = self.same_leaves(n)
                for c in same[:3] + [c for c in cands[:3] + weak if "ite" in (n.op, c.op) and c not in same]:
                    if self.trace:
                        print("weak", show(n, 4), "|", show(c, 4), flush=True)
                    if self.walk_eq(n, c, TRUE, quick=True) is None:
                        self.stats["merged"] += 1
                        self.matched.add(c.id)
                        return c
            if self.stop_on_fail and cands and not self.no_proof and self.split_depth == 0:
                raise Stuck(n, cands)
            self.insert(n, vals)
            self.same_leaves(n).append(n)
            return n
        if n.sort == "A" and n.op in ("lt", "eq"):
            vs = self.num.get(n)
            vals = tuple(vs[i] for i in self.real_ix)
            for c in self.abuckets.get((n.op, vals), ()):
                if c is n or (not self.no_proof and self.same_ratio(n, c) and self.same_cmp(n, c)):
                    return c
            self.abuckets.setdefault((n.op, vals), []).append(n)
            return n
        return n

    def same_ratio(self, a, b):
        """may the differences of two lt/eq atoms be multiples of one another?"""
        va, vb = ([self.num.get(x) for x in t.args] for t in (a, b))
        f = None
        for w in zip(*va, *vb):
            if any(x is None for x in w):
                continue
            x, y = w[1] - w[0], w[3] - w[2]
            big = max(abs(v) for v in w)
            if abs(x) <= big * mpf(10) ** -12 or abs(y) <= big * mpf(10) ** -12:
                continue
            r = x / y
            if f is not None and abs(r - f) > mpf(10) ** -6 * abs(f):
                return False
            f = r
        return True

    def same_cmp(self, a, b):
        """lt/eq atoms whose difference is the same up to a positive factor"""
        saved = self.maxpoly
        self.maxpoly = min(saved, 600)
        try:
            return self._same_cmp(a, b)
        finally:
            self.maxpoly = saved

    def _same_cmp(self, a, b):
        try:
            p = self.clean(self.padd(self.nf_cut(a.args[1]), self.nf_cut(a.args[0]), -1))
            q = self.clean(self.padd(self.nf_cut(b.args[1]), self.nf_cut(b.args[0]), -1))
            for rnd in range(15):
                if p and set(p) == set(q):
                    m = min(p)
                    f = p[m][0] / q[m][0]
                    if (f > 0 or a.op == "eq") and all(
                        abs(p[x][0] - f * q[x][0]) <= RTOL * (p[x][1] + abs(f) * q[x][1]) for x in p
                    ):
                        return True
                ids = {k for z in (p, q) for m in z for k, _ in m if k >= 0 and ALL[k].op in POLY}
                if not ids:
                    return False
                k = max(ids)
                ids = {k: self.nf_cut(ALL[k])}
                p, q = self.reopen(p, ids), self.reopen(q, ids)
        except TooBig:
            pass
        return False

    def _keys(self, vals):
        fs = [vals[i] for i in self.real_ix]
        fs = [v for v in fs if v is not None and v != 0]
        if len(fs) < 3:
            return None
        return (mp.nstr(fs[0], 8), mp.nstr(fs[len(fs) // 2], 8))

    def lookup(self, n, vals):
        ks = self._keys(vals)
        if ks is None:
            return [], []
        seen = set()
        out = []
        weak = []
        for i in (0, 1):
            for c in self.buckets[i].get(ks[i], ()):
                if c.id in seen:
                    continue
                seen.add(c.id)
                w = self.num.get(c)
                if all(close(x, y) for x, y in zip(vals, w)):
                    out.append((max([abs(x - y) for x, y in zip(vals, w) if x is not None] or [0]), c))
                elif "ite" in (n.op, c.op) and len(weak) < 6:
                    if all(close(vals[i], w[i]) for i in self.real_ix):
                        weak.append(c)
        out.sort(key=lambda x: x[0])
        return [c for _, c in out], weak

    def same_leaves(self, n):
        """the diagrams seen so far with the values of this one at their ends"""
        ls = leaves(n, 8) if n.op == "ite" else None
        return self.lbuckets.setdefault(frozenset(x.id for x in ls), []) if ls else []

    def insert(self, n, vals):
        ks = self._keys(vals)
        for i in (0, 1) if ks is not None else ():
            self.buckets[i].setdefault(ks[i], []).append(n)

    no_proof = False
    stop_on_fail = False

    def add_spec(self, terms):
        self.no_proof = True
        for t in terms:
            self.canon(t)
        self.no_proof = False
        self.spec_ids |= {x.id for x in subterms([self.canon(t) for t in terms])}

    def note_shared(self, terms):
        """terms built identically by both sides are matched from the start"""
        ids = {x.id for x in subterms(terms)}
        self.matched |= {i for i in ids & self.spec_ids if ALL[i].sort == "R"}

    def unmatched(self, terms, n=10):
        """diagnosis: lowest classes numerically equal to a specification class"""
        out = []
        for t in subterms([self.canon(x) for x in terms]):
            if t.sort != "R" or t.id in self.spec_ids or t.op in ("rv", "rc"):
                continue
            vals = self.num.get(t)
            for i in self.spec_ids:
                c = ALL[i]
                if c.sort == "R" and c.op != "rc":
                    w = self.num.get(c)
                    if all(close(vals[j], w[j], mpf(10) ** -15) for j in self.real_ix):
                        out.append((t, c))
                        break
            if len(out) >= n:
                break
        return out

    # ---- conditions

    def outer(self, t):
        """a term that is too big to open: its outermost sums and signs only"""
        if t.op == "add":
            return self.padd(self.outer(t.args[0]), self.outer(t.args[1]))
        if t.op == "neg":
            return self.padd({}, self.outer(t.args[0]), -1)
        return self.nf_cut(t, False) if isc(t) else self.atom_poly(t)

    def lits_feasible(self, lits, differ=None):
        """may all literals hold (and the two terms of `differ` be unequal)?
        atoms over linear combinations of monomials"""
        import z3

        self.tick()
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 5000)
        mv = {}

        def lin(p):
            e = z3.RealVal(0)
            for m, (v, g) in p.items():
                fr = Fraction(mp.nstr(v, 35))
                c = z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))
                if m == ():
                    e = e + c
                else:
                    if m not in mv:
                        mv[m] = z3.Real("m%d" % len(mv))
                    e = e + c * mv[m]
            return e

        def enc(a):
            if a.op in ("lt", "eq"):
                pq = self.lin_memo.get(a.id)
                if pq is None:
                    saved, self.maxpoly = self.maxpoly, min(self.maxpoly, 150)
                    try:
                        pq = (self.nf_cut(a.args[0], False), self.nf_cut(a.args[1], False))
                    except TooBig:
                        pq = tuple(self.outer(x) for x in a.args)
                    self.maxpoly = saved
                    self.lin_memo[a.id] = pq
                if not pq:
                    return z3.Bool("b%d" % a.id)
                p, q = pq
                return lin(p) < lin(q) if a.op == "lt" else lin(p) == lin(q)
            return z3.Bool("b%d" % a.id)

        for a, v in lits:
            e = enc(a)
            s.add(e if v else z3.Not(e))
        if differ:
            saved, self.maxpoly = self.maxpoly, min(self.maxpoly, 150)
            try:
                s.add(lin(self.nf_cut(differ[0], False)) != lin(self.nf_cut(differ[1], False)))
            except TooBig:
                s.add(lin(self.outer(differ[0])) != lin(self.outer(differ[1])))
            self.maxpoly = saved
        # signs of monomials made of squares and roots
        for m, x in list(mv.items()):
            if len(m) == 1:
                k, ee = m[0]
                if k >= 0 and ALL[k].op == "fn":
                    nm = ALL[k].args[0]
                    if nm in ("sin", "cos") and ee == 1:
                        s.add(x >= -1, x <= 1)
                    elif nm.startswith("root") and ee >= 1:
                        s.add(x >= 0)
                if ee > 0 and ee % 2 == 0:
                    s.add(x >= 0)
        r = s.check()
        bases = {k for m in mv for k, _ in m}
        if r == z3.sat and len(bases) <= 4 and any(len(m) > 1 or m[0][1] != 1 for m in mv) and all(0 < ee <= 4 for m in mv for _, ee in m):
            # few variables: also take the products for what they are
            bv = {k: mv.get(((k, 1),)) for k in bases}
            for k in bases:
                if bv[k] is None:
                    bv[k] = z3.Real("v%d" % k)
            for m, x in mv.items():
                if len(m) > 1 or m[0][1] != 1:
                    e = z3.RealVal(1)
                    for k, ee in m:
                        for _ in range(ee):
                            e = e * bv[k]
                    s.add(x == e)
            s.set("timeout", 2000)
            r = s.check()
        self.stats["z3"] += 1
        self.stats["z3_s"] += time.time() - t0
        return r != z3.unsat

    def feasible_paths(self, d, limit=400):
        """literal paths of a boolean diagram that reach TRUE and may be real"""
        out = []
        cnt = [0]

        def go(x, lits):
            if x is FALSE or out:
                return
            if x is TRUE:
                cnt[0] += 1
                if cnt[0] > limit:
                    raise TooBig()
                if self.lits_feasible(lits):
                    out.append(list(lits))
                return
            a = x.args[0]
            go(x.args[1], lits + [(a, True)])
            go(x.args[2], lits + [(a, False)])

        try:
            go(d, [])
        except TooBig:
            return None
        return out

    def trim(self, d, limit=200):
        """the same condition without the paths that cannot be real"""
        cnt = [0]

        def go(x, lits):
            if x.op != "ite":
                return x
            cnt[0] += 1
            if cnt[0] > limit:
                raise TooBig()
            a = x.args[0]
            r = []
            for v in (1, 0):
                l2 = lits + [(a, bool(v))]
                r.append(go(x.args[2 - v], l2) if x.args[2 - v] is not FALSE and self.lits_feasible(l2) else FALSE)
            return ite(atom(a), r[0], r[1])

        try:
            return go(d, [])
        except TooBig:
            return d

    def valid(self, b):
        """is the boolean term true on every path that may be real?"""
        b = self.canon(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        ps = self.feasible_paths(Not(b))
        return ps is not None and not ps

    def equal(self, a, b, guard=TRUE):
        """a = b wherever guard holds"""
        a, b, g = self.canon(a), self.canon(b), self.canon(guard)
        if a is b:
            return True
        a, b = restrict_deep([a, b], g)
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return True
        if a.sort == "B":
            return self.valid(Implies(g, Iff(a, b)))
        bad = self.walk_eq(a, b, g)
        self.bad = [bad] if bad else []
        return not bad

    def walk_eq(self, a, b, g, quick=False):
        """compare two diagrams leaf by leaf; None, or the first leaf pair that
        differs on a path that may be real"""
        from terms import _cof

        memo = {}
        bad = []
        count = [0]

        def go(x, y, c, lits):
            # True when the pair is equal whatever the path taken to it; a pair
            # that is only excused by its path must be looked at again
            if c is FALSE or x is y or bad:
                return True
            key = (x.id, y.id, c.id)
            if key in memo:
                return True
            top = min(x.top, y.top, c.top)
            if top == LEAF:
                if x.sort == "R" and not quick and self.prove_pair(x, y):
                    memo[key] = 1
                    return True
                count[0] += 1
                if lits and count[0] < (40 if quick else 400) and not self.lits_feasible(lits, (x, y) if x.sort == "R" else None):
                    return False
                bad.append((x, y, lits))
                return False
            at = ALL[top]
            pure = True
            for v in (1, 0):
                if not go(_cof(x, top, v), _cof(y, top, v), _cof(c, top, v), lits + [(at, bool(v))]):
                    pure = False
            if pure:
                memo[key] = 1
            return pure

        go(a, b, g, [])
        return bad[0] if bad else None


# ---------------------------------------------------------------- case splits
def threshold(a):
    """(variable, constant, strict-less) view of an atom  v < c  /  c < v"""
    if a.op != "lt":
        return None
    x, y = a.args
    if x.op == "rv" and y.op == "rc":
        return (x, "<", y.args[0])
    if x.op == "rc" and y.op == "rv":
        return (y, ">", x.args[0])
    return None


class Box:
    """open/closed interval facts about variables, to decide threshold atoms"""

    def __init__(self):
        self.lo = {}
        self.hi = {}

    def add(self, var, op, cst):
        cst = Fraction(cst)
        if op in (">", ">="):
            cur = self.lo.get(var.id)
            new = (cst, op == ">")
            if cur is None or new > cur:
                self.lo[var.id] = new
        else:
            cur = self.hi.get(var.id)
            new = (cst, op == "<")
            if cur is None or (new[0] < cur[0]) or (new[0] == cur[0] and new[1]):
                self.hi[var.id] = new
        return self

    def decide(self, a):
        th = threshold(a)
        if th is None:
            return None
        v, op, cst = th
        lo, hi = self.lo.get(v.id), self.hi.get(v.id)
        for x in (lo, hi):
            # a threshold written with another rounding of the same literal
            if x is not None and abs(x[0] - cst) <= abs(cst) * Fraction(1, 10**12):
                cst = x[0]
        if op == "<":
            if hi is not None and (hi[0] < cst or (hi[0] == cst and hi[1])):
                return TRUE
            if lo is not None and lo[0] >= cst:
                return FALSE
        else:
            if lo is not None and (lo[0] > cst or (lo[0] == cst and lo[1])):
                return TRUE
            if hi is not None and hi[0] <= cst:
                return FALSE
        return None

    def apply(self, terms):
        m = {}
        for t in subterms(terms):
            if t.sort == "A":
                d = self.decide(t)
                if d is not None:
                    m[t] = d
        return subst(terms, m) if m else list(terms)


def poly_size(t):
    """nodes of the arithmetic at the top of a comparison"""
    seen = set()
    st = list(t.args)
    while st:
        x = st.pop()
        if x.id not in seen:
            seen.add(x.id)
            if x.op in POLY:
                st.extend(y for y in x.args if isinstance(y, T))
    return len(seen)


def prune(P, terms):
    """replace comparisons that can only go one way, such as 1 + cos x < 0"""
    m = {}
    saved, P.maxpoly = P.maxpoly, 40
    for t in subterms(terms):
        if t.op in ("lt", "eq") and t.sort == "A" and poly_size(t) < 40:
            vals = {P.num.get(t)[i] for i in P.real_ix} - {None}
            if len(vals) == 1:
                v = vals.pop()
                if not P.lits_feasible([(t, not v)]):
                    m[t] = TRUE if v else FALSE
    P.maxpoly = saved
    return subst(terms, m) if m else list(terms)


def specialise(P, terms, lits):
    """fix the truth of conditions: lits = [(single-atom boolean, value)]"""
    terms = list(terms)
    for cond, val in lits:
        if cond.op != "ite" or cond.args[1].op not in ("true", "false") or cond.args[2].op not in ("true", "false"):
            raise Exception("case condition is not one atom")
        at = cond.args[0]
        pos = cond.args[1] is TRUE
        ca = P.canon(at)
        if ca.op == "ite":
            pos = pos == (ca.args[1] is TRUE)
            ca = ca.args[0]
        want = [P.num.get(ca)[i] for i in P.real_ix]
        m = {}
        v = TRUE if (val == pos) else FALSE
        for t in subterms(terms):
            if t.sort == "A" and t.op == ca.op:
                if t is at or t is ca:
                    m[t] = v
                    continue
                vals = P.num.get(t)
                if [vals[i] for i in P.real_ix] == want:
                    ct = P.canon(t)
                    if ct is ca or ct is atom(ca):
                        m[t] = v
                    elif ct is Not(atom(ca)):
                        m[t] = Not(v)
        terms = subst(terms, m)
    return terms
