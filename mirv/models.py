"""Contracts of library functions that are not executed from their MIR.

Everything here is an assumption about the standard library, num-traits, libm,
chrono or serde; `trusted()` lists the entries that a run actually used.
"""
import re

from terms import *
from ex import *

RULES = []
_cache = {}


def rule(pat):
    def d(f):
        RULES.append((re.compile("(?:" + pat + r")\Z"), f))
        return f

    return d


def lookup(name):
    for rx, f in reversed(RULES):
        if rx.match(name):
            return f
    return None


# ------------------------------------------------------------------ floats
def _f1(g):
    return lambda c: g(c.ex.force(c.args[0]))


def fround(x):
    return rround(x)


F1 = {
    "sin": sin,
    "cos": cos,
    "tan": lambda x: div(sin(x), cos(x)),
    "asin": lambda x: fn("asin", x),
    "acos": lambda x: fn("acos", x),
    "atan": lambda x: fn("atan", x),
    "sinh": lambda x: fn("sinh", x),
    "cosh": lambda x: fn("cosh", x),
    "exp": lambda x: fn("exp", x),
    "exp2": lambda x: fn("exp2", x),
    "ln": lambda x: fn("ln", x),
    "log": lambda x: fn("ln", x),
    "log10": lambda x: fn("log10", x),
    "log2": lambda x: fn("log2", x),
    "sqrt": sqrt,
    "cbrt": lambda x: root(x, 3),
    "fabs": rabs,
    "abs": rabs,
    "floor": floor,
    "ceil": ceil,
    "trunc": trunc,
    "round": fround,
}


def _max(a, b):
    r = ite(lt(a, b), b, a)
    if Mode.ieee:
        r = ite(unord(a, a), b, ite(unord(b, b), a, r))
    return r


def _min(a, b):
    r = ite(lt(b, a), b, a)
    if Mode.ieee:
        r = ite(unord(a, a), b, ite(unord(b, b), a, r))
    return r


F2 = {
    "atan2": atan2,
    "pow": powf,
    "powf": powf,
    "fmod": rem,
    "fmax": _max,
    "fmin": _min,
    "hypot": lambda a, b: sqrt(add(powi(a, 2), powi(b, 2))),
    "copysign": lambda a, b: ite(lt(b, R0), neg(rabs(a)), rabs(a)),
}


def _powi(a, n):
    if isc(n):
        return powi(a, cv(n))
    if const_leaves(n):
        return app1(("powi", a.id), lambda k: powi(a, cv(k)), n)
    return mk("fn", ("powi", a, n), "R")


@rule(r"core::intrinsics::(\w+?)(::<f64>)?")
def _(c):
    raise Unsupported("intrinsic")


RULES.pop()


def _intrinsic(name):
    m = re.match(r"core::intrinsics::(\w+?)(f64)?(?:::<(.*)>)?\Z", name)
    if not m:
        return None
    n = m.group(1).rstrip("_")
    if n in F1:
        return _f1(F1[n])
    if n in ("powi",):
        return lambda c: _powi(c.args[0], c.args[1])
    if n in ("powf", "pow"):
        return lambda c: powf(c.args[0], c.args[1])
    if n in ("fma", "fmuladd"):
        return lambda c: add(mul(c.args[0], c.args[1]), c.args[2])
    if n in ("maxnum", "maximum", "maximum_number_nsz"):
        return lambda c: _max(c.args[0], c.args[1])
    if n in ("minnum", "minimum", "minimum_number_nsz"):
        return lambda c: _min(c.args[0], c.args[1])
    if n == "copysign":
        return lambda c: F2["copysign"](c.args[0], c.args[1])
    if n in ("fadd_algebraic", "fadd_fast"):
        return lambda c: add(c.args[0], c.args[1])
    if n in ("cold_path", "assert_inhabited", "assert_zero_valid", "assume"):
        return lambda c: ()
    if n in ("likely", "unlikely", "black_box"):
        return lambda c: c.args[0]
    if n in ("abort",):
        return lambda c: c.panic("abort")
    if n == "discriminant_value":
        return lambda c: c.ex.discr(c.ex.read_ptr(c.st, c.args[0]), c.ex.ty(c.targ(0)) and c.targ(0))
    if n in ("unchecked_sub", "unchecked_add", "unchecked_mul", "wrapping_add", "wrapping_sub", "wrapping_mul"):
        op = {"sub": isub, "add": iadd, "mul": imul}[n.split("_")[1]]
        return lambda c: wrap(op(c.args[0], c.args[1]), *int_range(c.ex.ty(c.targ(0))))
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        op = {"sub": isub, "add": iadd, "mul": imul}[n.split("_")[0]]

        def f(c):
            lo, hi = int_range(c.ex.ty(c.targ(0)))
            v = op(c.args[0], c.args[1])
            return (wrap(v, lo, hi), Not(in_range(v, lo, hi)))

        return f
    if n in ("saturating_add", "saturating_sub"):
        op = {"sub": isub, "add": iadd}[n.split("_")[1]]

        def f(c):
            lo, hi = int_range(c.ex.ty(c.targ(0)))
            v = op(c.args[0], c.args[1])
            return ite(ilt(v, I(lo)), I(lo), ite(ilt(I(hi), v), I(hi), v))

        return f
    if n in ("size_of", "size_of_val"):
        return lambda c: I(c.ex.ty(c.targ(0))["size"])
    if n in ("needs_drop",):
        return lambda c: FALSE
    if n in ("integer_min", "integer_max"):
        lo = n == "integer_min"
        return lambda c: ite(ilt(c.args[1], c.args[0]), c.args[lo], c.args[1 - lo])
    if n == "three_way_compare":
        return lambda c: c.ex.binop("Cmp", c.args[0], c.args[1], None)
    if n == "ub_checks":
        return lambda c: FALSE
    return None


_lookup0 = lookup


def lookup(name):  # noqa
    r = _intrinsic(name)
    if r is not None:
        return r
    m = re.match(r"(?:std::sys::cmath|libm|libm::\w+|core::f64::math)::(?:<.*>::)?(\w+)\Z", name)
    if not m:
        m = re.match(r"libm(?:::\w+)*::(\w+)\Z", name)
    if m:
        n = m.group(1)
        if n in F1:
            return _f1(F1[n])
        if n in F2:
            return lambda c: F2[n](c.args[0], c.args[1])
        if n == "rint" or n == "roundeven":
            return None
    return _lookup0(name)


@rule(r".*precondition_check.*")
def _(c):
    return ()


@rule(r"core::f64::<impl f64>::(is_sign_negative|is_sign_positive)|<f64 as num_traits::\w+>::(is_sign_negative|is_sign_positive)")
def _(c):
    x = c.args[0]
    n = lt(x, R0)
    if Mode.ieee:
        # the sign of a zero or of a NaN is left open
        n = Or(n, And(Not(lt(R0, x)), signbit(x)))
    return n if c.f["n"].endswith("negative") else Not(n)


@rule(r"(?:std|core)::f64::<impl f64>::powi|<f64 as num_traits::(?:Float|real::Real|float::FloatCore)>::powi|<f64 as num_traits::\w+::\w+>::powi")
def _(c):
    return _powi(c.args[0], c.args[1])


@rule(r"<f64 as num_traits::(?:\w+::)*\w+>::(sin|cos|tan|sqrt|abs|floor|ceil|round|trunc|powf|atan2|max|min|exp|ln|cbrt|asin|acos|atan)|(?:std|core)::f64::<impl f64>::(tan|cbrt|exp|ln|asin|acos|atan)")
def _(c):
    n = c.f["n"].rsplit("::", 1)[1]
    if n in F1:
        return F1[n](c.args[0])
    return {"powf": powf, "atan2": atan2, "max": _max, "min": _min}[n](c.args[0], c.args[1])


@rule(r"(?:std|core)::f64::<impl f64>::sin_cos|<f64 as num_traits::(?:\w+::)*\w+>::sin_cos")
def _(c):
    return (sin(c.args[0]), cos(c.args[0]))


@rule(r"(?:std|core)::f64::<impl f64>::mul_add|<f64 as num_traits::(?:\w+::)*\w+>::mul_add")
def _(c):
    return add(mul(c.args[0], c.args[1]), c.args[2])


@rule(r"core::f64::<impl f64>::is_nan|<f64 as num_traits::(?:\w+::)*\w+>::is_nan")
def _(c):
    return unord(c.args[0], c.args[0])


@rule(r"core::f64::<impl f64>::(is_finite|is_infinite)|<f64 as num_traits::(?:\w+::)*\w+>::(is_finite|is_infinite)")
def _(c):
    x = c.args[0]
    if not Mode.ieee:
        r = FALSE if x in (INF, NINF, NAN) else TRUE
    else:
        r = And(Not(unord(x, x)), lt(x, INF), lt(NINF, x))
    if c.f["n"].endswith("is_finite"):
        return r
    return And(Not(r), Not(unord(x, x)))


@rule(r"core::f64::<impl f64>::signum")
def _(c):
    return ite(lt(c.args[0], R0), R(-1), R1)


@rule(r"core::f64::<impl f64>::(to_radians|to_degrees)|<f64 as num_traits::(?:\w+::)*\w+>::(to_radians|to_degrees)")
def _(c):
    import math

    k = R(math.pi) if c.f["n"].endswith("radians") else R(180)
    d = R(180) if c.f["n"].endswith("radians") else R(math.pi)
    return mul(c.args[0], div(k, d))


# ------------------------------------------------------------------ panics
@rule(r"(core|std)::panicking::.*|core::option::(unwrap_failed|expect_failed)|core::result::unwrap_failed|core::slice::index::slice_\w+_fail|core::slice::copy_from_slice_impl::len_mismatch_fail|core::str::slice_error_fail.*|alloc::alloc::handle_alloc_error|core::cell::panic_\w+|std::rt::panic\w*|std::rt::begin_panic.*|core::slice::index::slice_index_fail")
def _(c):
    kind = c.f["n"].rsplit("::", 1)[-1]
    c.panic("panic " + kind)
    return None


@rule(r"core::fmt::(?:rt::)?Arguments.*|core::fmt::Arguments::<'_>::.*")
def _(c):
    return Nat("fmtargs", (c.f["n"],) + tuple(c.args))


@rule(r"core::fmt::rt::Argument::<'_>::new_(\w+)::<.*>")
def _(c):
    m = re.search(r"new_(\w+)::<(.*)>\Z", c.f["n"])
    v = c.args[0]
    try:
        v = c.ex.read_ptr(c.st, v)
    except Unsupported:
        pass
    return Nat("fmtarg", (m.group(1), m.group(2), v))


def decode_adt(ex, st, t, bs, prov, off):
    raise Unsupported("constant of type " + t["str"])


def nat_field(ex, v, e):
    if v.kind == "line":
        # a text of unknown length: byte e of it
        e = I(e) if isinstance(e, int) else e
        if isc(e) and cv(e) >= 0:
            return ivar("%s%d" % (v.f[0], cv(e)), 0, 255)
    if v.kind == "all_lines":
        return lines_m.line_at(I(e) if isinstance(e, int) else e)
    raise Unsupported("field of " + v.kind)


def nat_update(ex, v, e, rest, new):
    raise Unsupported("field of " + v.kind)


def nat_discr(ex, v):
    raise Unsupported("discriminant of " + v.kind)


import bytes_m  # noqa: E402  (both register their rules)
import lines_m  # noqa: E402
import text_m  # noqa: E402
import chrono_m  # noqa: E402


def accumulators(prev, st):
    """integers that grew during an iteration, in the canonical form of sums"""
    for k, v in st.mem.items():
        w = prev.get(k)
        if w is not v and isinstance(v, T) and isinstance(w, T) and v.sort == "I":
            st.mem[k] = bytes_m.accumulate(w, v)
