"""Hash-consed terms.

Sorts: 'R' (a float read as a real), 'I' (mathematical integer), 'B' (boolean,
kept as a reduced ordered decision diagram over atoms), 'A' (atom: the variable
of a decision diagram).  A conditional R or I value is the same diagram with
R or I leaves, so two programs that take the same decisions in a different
order build the same term.
"""
import sys
import threading
from fractions import Fraction

sys.setrecursionlimit(1000000)

LEAF = 1 << 60


class T:
    __slots__ = ("id", "op", "args", "sort", "top", "cl")

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
ALL = []


def mk(op, args, sort):
    key = (op, sort) + tuple(a if not isinstance(a, T) else ("#", a.id) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.id = len(ALL)
        t.op = op
        t.args = args
        t.sort = sort
        # `top` is the id of the deciding atom of a diagram node
        t.top = args[0].id if op == "ite" else LEAF
        t.cl = None
        ALL.append(t)
        _tab[key] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


# ---------------------------------------------------------------- diagrams
_ite_memo = {}


def _cof(t, top, v):
    if t.top == top:
        return t.args[1] if v else t.args[2]
    return t


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("ite", (atom, hi, lo), hi.sort)


def ite(f, g, h):
    """if f then g else h; f boolean, g and h of one sort"""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    top = min(f.top, g.top, h.top)
    hi = ite(_cof(f, top, 1), _cof(g, top, 1), _cof(h, top, 1))
    lo = ite(_cof(f, top, 0), _cof(g, top, 0), _cof(h, top, 0))
    r = node(ALL[top], hi, lo)
    _ite_memo[key] = r
    return r


def atom(a):
    return node(a, TRUE, FALSE)


def Not(a):
    return ite(a, FALSE, TRUE)


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE:
            return r
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
        if r is TRUE:
            return r
    return r


def Iff(a, b):
    return ite(a, b, Not(b))


def Xor(a, b):
    return ite(a, Not(b), b)


def Implies(a, b):
    return ite(a, b, TRUE)


_res_memo = {}


def restrict(f, c):
    """a smaller diagram that agrees with f wherever c holds"""
    if c is TRUE or f.top == LEAF:
        return f
    if c is FALSE:
        return f
    key = (f.id, c.id)
    r = _res_memo.get(key)
    if r is not None:
        return r
    if c.top < f.top:
        r = restrict(f, Or(c.args[1], c.args[2]))
    else:
        top = f.top
        c1, c0 = _cof(c, top, 1), _cof(c, top, 0)
        f1, f0 = f.args[1], f.args[2]
        if c1 is FALSE:
            r = restrict(f0, c0)
        elif c0 is FALSE:
            r = restrict(f1, c1)
        else:
            r = node(ALL[top], restrict(f1, c1), restrict(f0, c0))
    _res_memo[key] = r
    return r


def restrict_deep(roots, c):
    """restrict every diagram inside the terms, at any depth"""
    if c is TRUE or c is FALSE:
        return list(roots)
    memo = {}
    for t in subterms(roots):
        na = tuple(memo[a.id] if isinstance(a, T) else a for a in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        if r.op == "ite":
            r = restrict(r, c)
        memo[t.id] = r
    return [memo[r.id] for r in roots]


def leaves(t, limit=64):
    """distinct leaves of a diagram, or None when more than limit"""
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            out.append(x)
            if len(out) > limit:
                return None
    return out


def const_leaves(t, limit=80):
    if t.op in ("rc", "ic"):
        return True
    if t.op != "ite":
        return False
    ls = leaves(t, limit)
    return ls is not None and all(x.op in ("rc", "ic") for x in ls)


_app_memo = {}


def app1(name, f, a):
    """apply a leaf function through a diagram"""
    if a.op != "ite":
        return f(a)
    key = (name, a.id)
    r = _app_memo.get(key)
    if r is None:
        hi = app1(name, f, a.args[1])
        lo = app1(name, f, a.args[2])
        r = ite(atom(a.args[0]), hi, lo)
        _app_memo[key] = r
    return r


def app2(name, f, a, b):
    if a.op != "ite" and b.op != "ite":
        return f(a, b)
    key = (name, a.id, b.id)
    r = _app_memo.get(key)
    if r is None:
        top = min(a.top, b.top)
        hi = app2(name, f, _cof(a, top, 1), _cof(b, top, 1))
        lo = app2(name, f, _cof(a, top, 0), _cof(b, top, 0))
        r = ite(atom(ALL[top]), hi, lo)
        _app_memo[key] = r
    return r


# In IEEE mode every comparison also depends on an "operands are unordered"
# atom; in real mode the atom is absent.
class Mode:
    ieee = False


# ---------------------------------------------------------------- reals
NAN = mk("rnan", (), "R")
INF = mk("rinf", (), "R")
NINF = mk("rninf", (), "R")


def R(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return NINF
    return mk("rc", (Fraction(x),), "R")


R0 = R(0)
R1 = R(1)


def rvar(name):
    return mk("rv", (name,), "R")


def isc(t):
    return t.op == "rc" or t.op == "ic"


def cv(t):
    return t.args[0]


def _special(t):
    return t.op in ("rnan", "rinf", "rninf")


def _lift1(name, f, a):
    if a.op == "ite" and const_leaves(a, 8):
        return app1(name, f, a)
    return f(a)


def _lift2(name, f, a, b):
    la = a.op == "ite" and const_leaves(a, 8)
    lb = b.op == "ite" and const_leaves(b, 8)
    if la and lb:
        return app2(name, f, a, b)
    if la:
        return app1((name, "l", b.id), lambda x: f(x, b), a)
    if lb:
        return app1((name, "r", a.id), lambda x: f(a, x), b)
    return f(a, b)


def _add(a, b):
    if isc(a) and isc(b):
        return R(cv(a) + cv(b))
    if a is R0:
        return b
    if b is R0:
        return a
    if a is NAN or b is NAN:
        return NAN
    if _special(a) and not _special(b) and (isc(b) or not Mode.ieee):
        return a
    if _special(b) and not _special(a) and (isc(a) or not Mode.ieee):
        return b
    if _special(a) and _special(b):
        return a if a is b else NAN
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), "R")


def add(a, b):
    return _lift2("add", _add, a, b)


def _neg(a):
    if isc(a):
        return R(-cv(a))
    if a.op == "neg":
        return a.args[0]
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a is NAN:
        return a
    return mk("neg", (a,), "R")


def neg(a):
    return _lift1("neg", _neg, a)


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    if isc(a) and isc(b):
        return R(cv(a) * cv(b))
    if a is R1:
        return b
    if b is R1:
        return a
    if (a is R0 or b is R0) and not Mode.ieee:
        return R0
    if a is NAN or b is NAN:
        return NAN
    for x, y in ((a, b), (b, a)):
        if (x is INF or x is NINF) and (isc(y) or _special(y)):
            if y is R0:
                return NAN
            pos = y is INF if _special(y) else cv(y) > 0
            return x if pos else neg(x)
    if isc(a) and cv(a) == -1:
        return neg(b)
    if isc(b) and cv(b) == -1:
        return neg(a)
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), "R")


def mul(a, b):
    return _lift2("mul", _mul, a, b)


def _div(a, b):
    if isc(b) and cv(b) != 0:
        return mul(a, R(Fraction(1) / cv(b)))
    if (b is INF or b is NINF) and not Mode.ieee:
        return R0
    if a is R0 and not Mode.ieee:
        return R0
    return mk("div", (a, b), "R")


def div(a, b):
    return _lift2("div", _div, a, b)


def powi(a, n):
    if n == 0:
        return R1
    if n == 1:
        return a
    if n < 0:
        return div(R1, powi(a, -n))
    if isc(a):
        return R(cv(a) ** n)
    if a.op == "neg":
        r = powi(a.args[0], n)
        return r if n % 2 == 0 else neg(r)
    return mk("powi", (a, n), "R")


def nice_rational(x, maxden=12):
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - float(x)) < 1e-12:
        return f
    return None


def root(a, q):
    if a is R0 or a is R1:
        return a
    return mk("fn", ("root%d" % q, a), "R")


def powf(a, b):
    if b.op == "ite" and const_leaves(b, 8):
        return app1(("powf", a.id), lambda x: powf(a, x), b)
    if isc(b):
        f = nice_rational(cv(b))
        if f is not None:
            if f.denominator == 1:
                return powi(a, f.numerator)
            return powi(root(a, f.denominator), f.numerator)
    return mk("fn", ("powf", a, b), "R")


def sqrt(a):
    return root(a, 2)


def fn(name, *args):
    if name == "sin" and args[0].op == "neg":
        return neg(fn("sin", args[0].args[0]))
    if name == "cos" and args[0].op == "neg":
        return fn("cos", args[0].args[0])
    if args and args[0] is R0 and name in ("sin", "tan", "trunc", "asin", "atan"):
        return R0
    if args and args[0] is R0 and name in ("cos", "exp"):
        return R1
    if name == "trunc" and isc(args[0]):
        v = cv(args[0])
        return R(int(v) if v >= 0 else -int(-v))
    return mk("fn", (name,) + args, "R")


def sin(a):
    return fn("sin", a)


def cos(a):
    return fn("cos", a)


def atan2(a, b):
    return fn("atan2", a, b)


def rabs(a):
    return ite(lt(a, R0), neg(a), a)


def trunc(a):
    return fn("trunc", a)


def floor(a):
    t = trunc(a)
    return ite(lt(a, t), sub(t, R1), t)


def ceil(a):
    t = trunc(a)
    return ite(lt(t, a), add(t, R1), t)


def rround(a):
    """ties away from zero"""
    h = R(Fraction(1, 2))
    return ite(lt(a, R0), neg(floor(add(neg(a), h))), floor(add(a, h)))


def rem(a, b):
    return sub(a, mul(b, trunc(div(a, b))))


def rem_euclid(a, b):
    r = rem(a, b)
    return ite(lt(r, R0), add(r, rabs(b)), r)


def _isnan_leaf(x):
    if x is NAN:
        return TRUE
    if isc(x) or x is INF or x is NINF:
        return FALSE
    if x.op == "neg":
        return isnan(x.args[0])
    # finite constants (nonzero ones in products) leave it to the other operand
    if x.op in ("mul", "add") and isc(x.args[0]) and (x.op == "add" or cv(x.args[0]) != 0):
        return isnan(x.args[1])
    if x.op in ("mul", "add", "div") and isc(x.args[1]) and (x.op == "add" or cv(x.args[1]) != 0):
        return isnan(x.args[0])
    if x.op == "fn" and x.args[0] == "trunc":
        return isnan(x.args[1])
    if x.op == "i2r":
        return FALSE
    return atom(mk("isnan", (x,), "A"))


def isnan(x):
    if x.op == "ite" and leaves(x, 8):
        return app1("isnan", _isnan_leaf, x)
    return _isnan_leaf(x)


def signbit(x):
    """sign of a value that is zero or not a number: any"""
    if x.op == "neg":
        return Not(signbit(x.args[0]))
    return atom(mk("sgn", (x,), "A"))


def unord(a, b):
    if not Mode.ieee:
        return FALSE
    return Or(isnan(a), isnan(b))


def _lt_leaf(a, b):
    if isc(a) and isc(b):
        return TRUE if cv(a) < cv(b) else FALSE
    if a is b:
        return FALSE
    if a is NAN or b is NAN:
        return FALSE
    if a is INF or b is NINF:
        return FALSE
    if a is NINF and b is INF:
        return TRUE
    if (a is NINF and isc(b)) or (b is INF and isc(a)):
        return TRUE
    if (a is NINF or b is INF) and not Mode.ieee:
        return TRUE
    return atom(mk("lt", (a, b), "A"))


def _cmp_push(name, f, a, b):
    la = leaves(a, 8) if a.op == "ite" else None
    lb = leaves(b, 8) if b.op == "ite" else None
    if la and lb and len(la) * len(lb) <= 16:
        return app2(name, f, a, b)
    if la:
        return app1((name, "l", b.id), lambda x: f(x, b), a)
    if lb:
        return app1((name, "r", a.id), lambda x: f(a, x), b)
    return f(a, b)


def lt(a, b):
    """order on the reals (false on unordered operands in IEEE mode)"""
    r = _cmp_push("lt", _lt_leaf, a, b)
    if Mode.ieee:
        return And(r, Not(unord(a, b)))
    return r


def le(a, b):
    r = Not(_cmp_push("lt", _lt_leaf, b, a))
    if Mode.ieee:
        return And(r, Not(unord(a, b)))
    return r


def _req_leaf(a, b):
    if isc(a) and isc(b):
        return TRUE if cv(a) == cv(b) else FALSE
    if a is b:
        return TRUE
    if _special(a) or _special(b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", (a, b), "A"))


def req(a, b):
    r = _cmp_push("eq", _req_leaf, a, b)
    if Mode.ieee:
        return And(r, Not(unord(a, b)))
    return r


# ---------------------------------------------------------------- integers
def I(n):
    return mk("ic", (int(n),), "I")


I0 = I(0)
I1 = I(1)


def ivar(name, lo=None, hi=None):
    return mk("iv", (name, lo, hi), "I")


def _ilift2(name, f, a, b):
    if a.op == "ite" or b.op == "ite":
        la = leaves(a, 80)
        lb = leaves(b, 80)
        if la and lb and len(la) * len(lb) <= 200:
            return app2(name, f, a, b)
    return f(a, b)


def _iadd(a, b):
    if isc(a) and isc(b):
        return I(cv(a) + cv(b))
    if a is I0:
        return b
    if b is I0:
        return a
    # keep x + c in one shape
    if isc(a):
        a, b = b, a
    if isc(b) and a.op == "iadd" and isc(a.args[1]):
        return _iadd(a.args[0], I(cv(a.args[1]) + cv(b)))
    if not isc(b):
        if a.op == "iadd" and isc(a.args[1]):
            return _iadd(_iadd(a.args[0], b), a.args[1])
        if b.op == "iadd" and isc(b.args[1]):
            return _iadd(_iadd(a, b.args[0]), b.args[1])
        if a.id > b.id:
            a, b = b, a
    return mk("iadd", (a, b), "I")


def iadd(a, b):
    return _ilift2("iadd", _iadd, a, b)


def _imul(a, b):
    if isc(a) and isc(b):
        return I(cv(a) * cv(b))
    if a is I0 or b is I0:
        return I0
    if a is I1:
        return b
    if b is I1:
        return a
    if isc(a):
        a, b = b, a
    if isc(b) and a.op == "imul" and isc(a.args[1]):
        return _imul(a.args[0], I(cv(a.args[1]) * cv(b)))
    if isc(b) and a.op == "iadd" and isc(a.args[1]):
        return _iadd(_imul(a.args[0], b), I(cv(a.args[1]) * cv(b)))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("imul", (a, b), "I")


def imul(a, b):
    return _ilift2("imul", _imul, a, b)


def ineg(a):
    return imul(a, I(-1))


def isub(a, b):
    if a is b:
        return I0
    return iadd(a, ineg(b))


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def _split(a, m):
    """a sum of non-negative terms a = m*q + r, with every multiple of m in q"""
    if a.op == "iadd":
        l, r = _split(a.args[0], m), _split(a.args[1], m)
        if l is None or r is None:
            return None
        return iadd(l[0], r[0]), iadd(l[1], r[1])
    lo = rng(a)[0]
    if lo is None or lo < 0:
        return None
    if isc(a):
        return I(cv(a) // m), I(cv(a) % m)
    if a.op == "imul":
        for c, x in (a.args, a.args[::-1]):
            if isc(c) and cv(c) > 0 and cv(c) % m == 0:
                return imul(I(cv(c) // m), x), I0
    return I0, a


def _idiv(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(_tdiv(cv(a), cv(b)))
    if b is I1:
        return a
    if isc(b) and cv(b) > 1:
        s = _split(a, cv(b))
        if s is not None and s[0] is not I0 and isc(s[1]) and cv(s[1]) < cv(b):
            return s[0]
    return mk("idiv", (a, b), "I")


def idiv(a, b):
    return _ilift2("idiv", _idiv, a, b)


def _irem(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(cv(a) - cv(b) * _tdiv(cv(a), cv(b)))
    if b is I1:
        return I0
    if isc(b) and cv(b) > 1:
        s = _split(a, cv(b))
        if s is not None and isc(s[1]):
            return I(cv(s[1]) % cv(b))
    return mk("irem", (a, b), "I")


def irem(a, b):
    return _ilift2("irem", _irem, a, b)


def ifn(name, *args):
    return mk("ifn", (name,) + args, "I")


def rng(t):
    """a conservative integer interval"""
    if t.op == "ic":
        return (cv(t), cv(t))
    if t.op == "iv":
        return (t.args[1], t.args[2])
    if t.op == "ite":
        ls = leaves(t, 100)
        if ls is None:
            return (None, None)
        rs = [rng(x) for x in ls]
        los = [r[0] for r in rs]
        his = [r[1] for r in rs]
        return (None if None in los else min(los), None if None in his else max(his))
    if t.op == "iadd":
        (a, b), (c, d) = rng(t.args[0]), rng(t.args[1])
        return (
            None if a is None or c is None else a + c,
            None if b is None or d is None else b + d,
        )
    if t.op == "imul":
        (a, b), (c, d) = rng(t.args[0]), rng(t.args[1])
        if None in (a, b, c, d):
            if a == 0 == 0 and a is not None and c is not None and a >= 0 and c >= 0:
                return (a * c, None)
            return (None, None)
        ps = [a * c, a * d, b * c, b * d]
        return (min(ps), max(ps))
    if t.op == "irem" and isc(t.args[1]) and cv(t.args[1]) > 0:
        (a, b) = rng(t.args[0])
        m = cv(t.args[1]) - 1
        return (0 if a is not None and a >= 0 else -m, 0 if b is not None and b <= 0 else m)
    if t.op == "idiv" and isc(t.args[1]) and cv(t.args[1]) > 0:
        (a, b) = rng(t.args[0])
        c = cv(t.args[1])
        return (None if a is None else _tdiv(a, c), None if b is None else _tdiv(b, c))
    if t.op == "isum":
        a = t.args
        return (a[0] + sum(min(x) for x in a[2::2]), a[0] + sum(max(x) for x in a[2::2]))
    if t.op == "ifn":
        r = IFN_RANGE.get(t.args[0])
        if r is not None:
            return r
    return (None, None)


IFN_RANGE = {}


def _ilt_leaf(a, b):
    if a is b:
        return FALSE
    # move constants to the right
    ka = kb = 0
    if isc(a):
        ka, a = cv(a), None
    elif a.op == "iadd" and isc(a.args[1]):
        ka, a = cv(a.args[1]), a.args[0]
    if isc(b):
        kb, b = cv(b), None
    elif b.op == "iadd" and isc(b.args[1]):
        kb, b = cv(b.args[1]), b.args[0]
    k = kb - ka
    # a < b + k
    if a is b:
        return TRUE if 0 < k else FALSE
    if b is None:
        lo, hi = rng(a)
        if hi is not None and hi < k:
            return TRUE
        if lo is not None and lo >= k:
            return FALSE
        return atom(mk("ilt", (a, k), "A"))  # a < k
    if a is None:
        # 0 < b + k  <=>  not (b < 1 - k)
        lo, hi = rng(b)
        if lo is not None and 0 < lo + k:
            return TRUE
        if hi is not None and not (0 < hi + k):
            return FALSE
        return Not(atom(mk("ilt", (b, 1 - k), "A")))
    d = isub(a, b)
    lo, hi = rng(d)
    if hi is not None and hi < k:
        return TRUE
    if lo is not None and lo >= k:
        return FALSE
    if a.id > b.id:
        # a - b < k  <=>  not (b - a < 1 - k)
        return Not(atom(mk("ilt", (isub(b, a), 1 - k), "A")))
    return atom(mk("ilt", (d, k), "A"))


def ilt(a, b):
    return _cmp_push2("ilt", _ilt_leaf, a, b)


def _cmp_push2(name, f, a, b):
    la = leaves(a, 80) if a.op == "ite" else None
    lb = leaves(b, 80) if b.op == "ite" else None
    if la and lb and len(la) * len(lb) <= 400:
        return app2(name, f, a, b)
    if la:
        return app1((name, "l", b.id), lambda x: f(x, b), a)
    if lb:
        return app1((name, "r", a.id), lambda x: f(a, x), b)
    return f(a, b)


def ile(a, b):
    return Not(ilt(b, a))


def _ieq_leaf(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return FALSE
    if isc(a):
        a, b = b, a
    k = None
    if isc(b):
        k = cv(b)
        if a.op == "iadd" and isc(a.args[1]):
            k -= cv(a.args[1])
            a = a.args[0]
        lo, hi = rng(a)
        if (hi is not None and hi < k) or (lo is not None and lo > k):
            return FALSE
        if lo is not None and lo == hi == k:
            return TRUE
        return atom(mk("ieq", (a, k), "A"))
    d = isub(a, b) if a.id < b.id else isub(b, a)
    if isc(d):
        return TRUE if cv(d) == 0 else FALSE
    return _ieq_leaf(d, I0)


def ieq(a, b):
    return _cmp_push2("ieq", _ieq_leaf, a, b)


def i2r(a):
    def f(x):
        if isc(x):
            return R(cv(x))
        return mk("i2r", (x,), "R")

    return app1("i2r", f, a) if (a.op == "ite" and leaves(a, 40)) else f(a)


def r2i(a):
    """the integer equal to trunc(a), unbounded"""
    if isc(a):
        v = cv(a)
        return I(int(v) if v >= 0 else -int(-v))
    if a.op == "i2r":
        return a.args[0]
    return mk("ifn", ("r2i", a), "I")


def bvar(name):
    return atom(mk("bv", (name,), "A"))


def pred(name, *args):
    return atom(mk("pred", (name,) + args, "A"))


def b2i(b):
    return ite(b, I1, I0)


# ---------------------------------------------------------------- traversal
def subterms(roots):
    """reachable terms in id order (children before parents)"""
    seen = set()
    st = [r for r in roots]
    out = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    out.sort(key=lambda x: x.id)
    return out


def rebuild(t, args):
    """the same operation on other arguments, through the constructors"""
    op = t.op
    if op == "ite":
        c = args[0]
        if c.sort == "A":
            c = atom(c)
        return ite(c, args[1], args[2])
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "neg":
        return neg(*args)
    if op == "div":
        return div(*args)
    if op == "powi":
        return powi(*args)
    if op == "fn":
        if args[0] == "powf":
            return powf(args[1], args[2])
        return fn(*args)
    if op == "lt":
        return _cmp_push("lt", _lt_leaf, *args)
    if op == "eq":
        return _cmp_push("eq", _req_leaf, *args)
    if op == "isnan":
        return isnan(args[0])
    if op == "sgn":
        return signbit(args[0])
    if op == "ilt":
        return ilt(args[0], I(args[1]))
    if op == "ieq":
        return ieq(args[0], I(args[1]))
    if op == "iadd":
        return iadd(*args)
    if op == "imul":
        return imul(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "irem":
        return irem(*args)
    if op == "i2r":
        return i2r(*args)
    if op == "ifn" and args[0] == "r2i":
        return r2i(args[1])
    return mk(op, args, t.sort)


def subst(roots, m, memo=None):
    """replace terms (keys of m; atoms may map to booleans) and rebuild"""
    memo = {} if memo is None else memo
    for k, v in m.items():
        memo[k.id] = v
    for t in subterms(roots):
        if t.id in memo:
            continue
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = memo[a.id]
                if b is not a:
                    ch = True
                na.append(b)
            else:
                na.append(a)
        if not ch:
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, tuple(na))
    return [memo[r.id] for r in roots]


def subst1(t, m):
    return subst([t], m)[0]


def show(t, d=8):
    if not isinstance(t, T):
        return str(t)
    if t.op == "rc":
        return "%.10g" % float(t.args[0])
    if t.op in ("ic", "rv", "bv", "iv"):
        return str(t.args[0])
    if d == 0:
        return "#%d" % t.id
    if t.op == "fn" or t.op == "ifn" or t.op == "pred":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d - 1) for a in t.args[1:]))
    if not t.args:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(show(a, d - 1) for a in t.args))


def run_big_stack(f):
    """run f in a thread with a large stack (deep diagrams recurse)"""
    res = {}

    def go():
        try:
            res["v"] = f()
        except BaseException as e:  # noqa
            res["e"] = e

    threading.stack_size(1024 * 1024 * 1024 - 4096)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    if "e" in res:
        raise res["e"]
    return res.get("v")
