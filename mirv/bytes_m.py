"""Contracts for byte slices, their iterators, text parsing and formatting.

Slices are pointers with (offset, length); both may be diagrams over constants,
so one execution covers every way leading blanks can be trimmed.  The number
parsers of core are uninterpreted functions of exactly the bytes they are given.
"""
import re

from terms import *
from ex import *
from models import rule

# ------------------------------------------------------------- diagrams
_n_memo = {}


def appn(name, f, xs, sort="I"):
    """apply a leaf function to several diagrams at once"""
    xs = tuple(xs)
    if all(x.op != "ite" for x in xs):
        return f(xs)
    key = (name,) + tuple(x.id for x in xs)
    r = _n_memo.get(key)
    if r is None:
        top = min(x.top for x in xs)
        hi = appn(name, f, [_cof(x, top, 1) for x in xs])
        lo = appn(name, f, [_cof(x, top, 0) for x in xs])
        r = merge(atom(ALL[top]), hi, lo)
        _n_memo[key] = r
    return r


def _cof(t, top, v):
    if t.top == top:
        return t.args[1] if v else t.args[2]
    return t


# ------------------------------------------------------------- sums over bytes
def eval1(t, var, x):
    """value of an integer term over a single variable, None when not computable"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        r = step(t)
        memo[t.id] = r
        return r

    def step(t):
        op, a = t.op, t.args
        if op == "ic":
            return a[0]
        if t is var:
            return x
        if t is TRUE or t is FALSE:
            return t is TRUE
        if op == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        if op == "ilt":
            return go(a[0]) < a[1]
        if op == "ieq":
            return go(a[0]) == a[1]
        if op == "iadd":
            return go(a[0]) + go(a[1])
        if op == "imul":
            return go(a[0]) * go(a[1])
        if op in ("irem", "idiv") and go(a[1]) > 0:
            q, y = abs(go(a[0])) // go(a[1]), go(a[0])
            q = q if y >= 0 else -q
            return q if op == "idiv" else y - q * go(a[1])
        if op == "ifn" and a[0] == "wrap":
            m = a[3] - a[2] + 1
            return (go(a[1]) - a[2]) % m + a[2]
        if op == "ifn" and a[0] in ("BitAnd", "BitOr", "BitXor"):
            y, z = go(a[1]), go(a[2])
            return y & z if a[0] == "BitAnd" else y | z if a[0] == "BitOr" else y ^ z
        raise KeyError(op)

    return go(t)


_tables = {}


def table(t):
    """(variable, its values, lowest) of a term over one byte, or None"""
    if t.id not in _tables:
        vs = [s for s in subterms([t]) if s.op in ("iv", "rv", "bv", "pred", "fn", "isum", "iname")]
        r = None
        if len(vs) == 1 and vs[0].op == "iv" and vs[0].args[1] is not None and vs[0].args[2] is not None and vs[0].args[2] - vs[0].args[1] < 300:
            try:
                v = vs[0]
                r = (v, tuple(eval1(t, v, x) for x in range(v.args[1], v.args[2] + 1)))
            except KeyError:
                r = None
        _tables[t.id] = r
    return _tables[t.id]


def isum(k, parts):
    """k plus one table per variable: the canonical form of a sum over bytes"""
    by = {}
    for v, tb in parts:
        old = by.get(v)
        by[v] = tb if old is None else tuple(x + y for x, y in zip(old, tb))
    args = []
    for v in sorted(by, key=lambda v: v.id):
        tb = by[v]
        if len(set(tb)) == 1:
            k += tb[0]
        else:
            args += [v, tb]
    if not args:
        return I(k)
    return mk("isum", (k,) + tuple(args), "I")


def isum_parts(t):
    a = t.args
    return a[0], [(a[i], a[i + 1]) for i in range(1, len(a), 2)]


def addends(t):
    if t.op == "iadd":
        return addends(t.args[0]) + addends(t.args[1])
    return [t]


def without(x, old):
    """x - old"""
    if old.op == "ic":
        return isub(x, old)
    xs, k = addends(x), 0
    for y in addends(old):
        if y in xs:
            xs.remove(y)
        elif isc(y):
            k -= cv(y)
        else:
            return isub(x, old)
    r = I(k)
    for y in xs:
        r = iadd(r, y)
    return r


def accumulate(old, new):
    """new value of an accumulator; additions of byte tables are kept in canonical form"""
    if not (isinstance(old, T) and isinstance(new, T)) or old.sort != "I" or new.sort != "I" or old is new:
        return new
    if new.op != "ite" and new.op != "iadd" or const_leaves(new, 80) and new.op == "ite" and old.op == "ic":
        return new
    ls = leaves(new, 60)
    if ls is None:
        return new
    if old.op == "ic":
        k, parts = cv(old), []
    elif old.op == "isum":
        k, parts = isum_parts(old)
    elif old.op == "iadd" and old.args[0].op == "isum" and isc(old.args[1]):
        k, parts = isum_parts(old.args[0])
        k += cv(old.args[1])
    else:
        return new
    d = app1(("minus", old.id), lambda x: without(x, old), new)
    tb = table(d)
    if tb is None:
        return new
    return isum(k, parts + [tb])


def accumulate_value(old, new):
    if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new):
        return tuple(accumulate_value(x, y) for x, y in zip(old, new))
    return accumulate(old, new)


# ------------------------------------------------------------- slices
def each(p, f):
    """f on every alternative of a pointer"""
    if isinstance(p, Cond):
        return merge_all([(g, f(q)) for g, q in p.alts])
    return f(p)


def elem(q, i=0):
    """pointer to an element of a slice"""
    j = iadd(q.meta[0], I(i) if isinstance(i, int) else i)
    return Ptr(q.base, tuple(q.path) + (cv(j) if isc(j) else j,))


def narrow(q, a, b):
    return Ptr(q.base, q.path, (iadd(q.meta[0], a), isub(b, a)))


def bounds(kind, r, n):
    if kind == "RangeFull":
        return I0, n
    if kind == "Range":
        return r[0], r[1]
    if kind == "RangeTo":
        return I0, r[0]
    if kind == "RangeFrom":
        return r[0], n
    if kind == "RangeInclusive":
        return r[0], iadd(r[1], I1)
    if kind == "RangeToInclusive":
        return I0, iadd(r[0], I1)
    raise Unsupported("slice index " + kind)


def as_slice(q, c):
    if q.meta is None:
        t = c.ex.ty(c.targ(1)) if len([x for x in c.f["args"] if x and "ty" in x]) > 1 else None
        raise Unsupported("slice pointer without a length")
    return q


@rule(r"<core::(?:ops|range)::(\w+)(?:<usize>)? as core::slice::SliceIndex<\[.*\]>>::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)")
def _(c):
    m = re.match(r"<core::(?:ops|range)::(\w+)", c.f["n"])
    kind, how = m.group(1), c.f["n"].rsplit("::", 1)[1]
    r, p = c.args
    if isinstance(p, Cond):
        raise Unsupported("slice of a conditional pointer")
    a, b = bounds(kind, r, p.meta[1])
    bad = Or(ilt(b, a), ilt(p.meta[1], b))
    if how in ("get", "get_mut"):
        return some(narrow(p, a, b), Not(bad))
    if how in ("index", "index_mut") and bad is not FALSE:
        if not c.panic("slice index out of range", bad) or bad is TRUE:
            return None
    return narrow(p, a, b)


@rule(r"<usize as core::slice::SliceIndex<\[.*\]>>::(get|get_mut|index|index_mut|get_unchecked|get_unchecked_mut)")
def _(c):
    how = c.f["n"].rsplit("::", 1)[1]
    i, p = c.args

    def f(q):
        return elem(q, i)

    n = c.ex.ptr_len(p)
    ok = ilt(i, n)
    if how in ("get", "get_mut"):
        return some(each(p, f), ok)
    if how in ("index", "index_mut") and ok is not TRUE:
        if not c.panic("index out of range", Not(ok)):
            return None
    return each(p, f)


def some(v, ok=TRUE):
    return En(ite(ok, I1, I0), {0: (), 1: (v,)})


@rule(r"core::slice::<impl \[.*\]>::(first|last|first_mut|last_mut)")
def _(c):
    p = c.args[0]
    n = c.ex.ptr_len(p)
    if c.f["n"].rsplit("::", 1)[1].startswith("first"):
        v = each(p, lambda q: elem(q))
    else:
        v = each(p, lambda q: elem(q, isub(n, I1)))
    return some(v, ilt(I0, n))


@rule(r"core::slice::<impl \[.*\]>::(len|is_empty)")
def _(c):
    n = c.ex.ptr_len(c.args[0])
    return n if c.f["n"].endswith("len") else ieq(n, I0)


@rule(r"core::str::<impl str>::(len|is_empty)")
def _(c):
    n = c.ex.ptr_len(c.args[0])
    return n if c.f["n"].endswith("len") else ieq(n, I0)


@rule(r"core::slice::copy_from_slice_impl::<.*>|core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)")
def _(c):
    d, s = c.args
    if isinstance(d, Cond) or isinstance(s, Cond):
        raise Unsupported("copy between conditional slices")
    differ = Not(ieq(d.meta[1], s.meta[1]))
    if differ is not FALSE and not c.panic("copy_from_slice lengths differ", differ):
        return None
    n = restrict(s.meta[1], c.st.g)
    hi = max_const(n)
    vals = [c.ex.read_ptr(c.st, s, (I(j),)) for j in range(hi)]
    for j in range(hi):
        g = ilt(I(j), n)
        old = c.ex.read_ptr(c.st, d, (I(j),))
        c.ex.write_ptr(c.st, d, (I(j),), merge(g, vals[j], old))
    return ()


def max_const(n):
    if not const_leaves(n, 300):
        raise Unsupported("slice of unbounded length")
    return max(cv(x) for x in leaves(n, 300))


@rule(r"core::slice::<impl \[.*\]>::(as_ptr|as_mut_ptr)")
def _(c):
    raise Unsupported("raw slice pointer")


# ------------------------------------------------------------- slice iterators
@rule(r"core::slice::<impl \[.*\]>::(iter|iter_mut)|core::slice::Iter(?:Mut)?::<'_, .*>::new|<&'?\w* ?(?:mut )?\[.*\] as core::iter::IntoIterator>::into_iter|core::slice::iter::<impl core::iter::IntoIterator for &'?\w* ?(?:mut )?\[.*\]>::into_iter")
def _(c):
    p = c.args[0]

    def f(q):
        if q.meta is None:
            t = c.ex.ty(c.ex.ty(arg_ty(c, 0))["to"])
            if t["k"] != "array":
                raise Unsupported("iterator over " + t["str"])
            q = Ptr(q.base, q.path, (I0, I(t["len"])))
        return Nat("siter", (q,))

    return each(p, f)


def arg_ty(c, i):
    f = c.f
    if "body" in f:
        return f["body"]["locals"][i + 1]["ty"]
    raise Unsupported("argument type of " + f["n"])


SI = r"<core::slice::Iter(?:Mut)?<'_, .*> as core::iter::(?:\w+::)*\w+>::"


def place_of(c, p):
    """(value, setter) behind &mut iterator"""
    v = c.ex.read_ptr(c.st, p)
    if not isinstance(v, Nat):
        raise Unsupported("iterator state %s" % type(v).__name__)
    return v, lambda n: c.ex.write_ptr(c.st, p, (), n)


def advance(c, back=False):
    p = c.args[0]
    v, put = place_of(c, p)
    q = v.f[0]
    n = q.meta[1]
    has = ilt(I0, n)
    dec = ite(has, isub(n, I1), n)
    if back:
        item = elem(q, isub(n, I1))
        put(Nat("siter", (Ptr(q.base, q.path, (q.meta[0], dec)),)))
    else:
        item = elem(q)
        put(Nat("siter", (Ptr(q.base, q.path, (ite(has, iadd(q.meta[0], I1), q.meta[0]), dec)),)))
    return some(item, has)


@rule(SI + "next")
def _(c):
    return advance(c)


@rule(SI + "next_back")
def _(c):
    return advance(c, True)


@rule(SI + "__iterator_get_unchecked")
def _(c):
    v, _ = place_of(c, c.args[0])
    return elem(v.f[0], c.args[1])


@rule(SI + "(size_hint|len|count|is_empty)")
def _(c):
    v = c.args[0]
    v = c.ex.read_ptr(c.st, v) if isinstance(v, Ptr) else v
    n = v.f[0].meta[1]
    how = c.f["n"].rsplit("::", 1)[1]
    if how == "size_hint":
        return (n, some(n))
    return ieq(n, I0) if how == "is_empty" else n


@rule(SI + r"(fold|for_each|all|any|position|find)(?:::<.*>)?|<core::slice::Iter(?:Mut)?<'_, .*> as core::iter::DoubleEndedIterator>::rfold(?:::<.*>)?|<core::array::IntoIter<.*> as core::iter::Iterator>::(?:fold|for_each|all|any|position|find)(?:::<.*>)?")
def _(c):
    """left to right over the elements, by repeated calls of the closure"""
    how = re.search(r">::(\w+)(?:::<.*>)?\Z", c.f["n"]).group(1)
    body = c.f["body"]["locals"]
    ex, st = c.ex, c.st
    if how in ("fold", "rfold"):
        it, acc, clo = c.args
        cty = body[3]["ty"]
    else:
        it, clo = c.args
        acc = ()
        cty = body[2]["ty"]
    byref = how in ("all", "any", "position", "find")
    if byref:
        v, put = place_of(c, it)
    else:
        v = it
    if v.kind == "aiter":
        arr, first, last = v.f
        n = restrict(isub(last, first), st.g)
        item_at = lambda i: ex.walk(arr, (iadd(first, i),))
        rest = lambda i: Nat("aiter", (arr, iadd(first, i), last))
    else:
        q = v.f[0]
        n = restrict(q.meta[1], st.g)
        item_at = lambda i: elem(q, i)
        rest = lambda i: Nat("siter", (narrow(q, i, n),))
    kind = v.kind
    hi = max_const(n)
    ck = ex.alloc(st, clo, "clo")
    t = ex.ty(cty)

    def call(st, args):
        if t["k"] == "closure":
            if t["ckind"] == "FnOnce":
                return ex.run(t["inst"], [clo] + args, st)
            return ex.run(t["inst"], [Ptr(ck)] + args, st)
        return ex.call_closure(cty, clo, args, st)

    done = None  # states that left the loop early
    out = []
    for j in range(hi):
        more = And(st.g, ilt(I(j), n))
        stop = And(st.g, Not(ilt(I(j), n)))
        if stop is not FALSE:
            out.append((St(st.mem, stop), acc, j, FALSE))
        if more is FALSE:
            st = None
            break
        st = St(dict(st.mem), more)
        i = I(j) if how != "rfold" else isub(n, I(j + 1))
        item = item_at(i)
        if how == "find":
            item = Ptr(ex.alloc(st, item, "it"))
        args = [acc, item] if how in ("fold", "rfold") else [item]
        r = call(st, args)
        if r is None:
            st = None
            break
        v, st = r
        if how in ("fold", "rfold"):
            acc = accumulate_value(acc, v)
        elif byref:
            hit = Not(v) if how == "all" else v
            g = And(st.g, hit)
            if g is not FALSE:
                out.append((St(st.mem, g), None, j, TRUE))
            g = And(st.g, Not(hit))
            if g is FALSE:
                st = None
                break
            st = St(st.mem, g)
    if st is not None:
        out.append((st, acc, hi, FALSE))
    if not out:
        return None
    fin = None
    val = None
    for s, a, j, hit in reversed(out):
        if how in ("fold", "rfold"):
            w = a
        elif how == "for_each":
            w = ()
        elif how == "all":
            w = Not(hit)
        elif how == "any":
            w = hit
        elif how == "position":
            w = some(I(j), hit)
        else:
            w = some(item_at(I(j)), hit) if hit is not FALSE else some(UNDEF, FALSE)
        s = s.copy()
        s.mem[("ret", "fold")] = w
        fin = s if fin is None else merge_states(s, fin)
    w = fin.mem.pop(("ret", "fold"))
    if byref:
        # the iterator is left after the element that decided
        s2 = fin
        used = out[-1][2] if len(out) == 1 else None
        c.st = s2
        put = lambda nv: ex.write_ptr(s2, it, (), nv)
        put(Nat(kind, (UNDEF,)) if used is None else rest(I(used)))
    return w, fin


# ------------------------------------------------------------- arrays by value
@rule(r"core::array::iter::<impl core::iter::IntoIterator for \[.*\]>::into_iter|<\[.*; \d+\] as core::iter::IntoIterator>::into_iter")
def _(c):
    v = c.args[0]
    return Nat("aiter", (v, I0, I(len(v))))


@rule(r"core::array::<impl \[.*; \d+\]>::map::<.*>")
def _(c):
    """the closure on each element, in order"""
    arr, clo = c.args
    ex, st = c.ex, c.st
    cty = c.f["body"]["locals"][2]["ty"]
    t = ex.ty(cty)
    ck = ex.alloc(st, clo, "clo")
    out = []
    for i in range(len(arr)):
        x = ex.walk(arr, (I(i),))
        if t["k"] == "closure" and t["ckind"] != "FnOnce":
            r = ex.run(t["inst"], [Ptr(ck), x], st)
        else:
            r = ex.call_closure(cty, clo, [x], st)
        if r is None:
            return None
        v, st = r
        out.append(v)
    return tuple(out), st


@rule(r"<core::array::IntoIter<.*> as core::iter::Iterator>::next")
def _(c):
    v, put = place_of(c, c.args[0])
    arr, i, n = v.f
    has = ilt(i, n)
    item = c.ex.walk(arr, (i,)) if has is not FALSE else UNDEF
    put(Nat("aiter", (arr, ite(has, iadd(i, I1), i), n)))
    return some(item, has)


@rule(r"<core::array::IntoIter<.*> as core::iter::DoubleEndedIterator>::next_back")
def _(c):
    v, put = place_of(c, c.args[0])
    arr, i, n = v.f
    has = ilt(i, n)
    item = c.ex.walk(arr, (isub(n, I1),)) if has is not FALSE else UNDEF
    put(Nat("aiter", (arr, i, ite(has, isub(n, I1), n))))
    return some(item, has)


# ------------------------------------------------------------- text
def text_cases(c, p, f, name):
    """f(list of byte terms) for every length and content the text can have"""
    if isinstance(p, Cond):
        raise Unsupported("text behind a conditional pointer")
    if p.meta is None:
        v = c.ex.read_ptr(c.st, p)
        raise Unsupported("parsing " + repr(v)[:60])
    g = c.st.g
    off, n = restrict(p.meta[0], g), restrict(p.meta[1], g)
    max_const(n)
    whole = c.ex.walk(c.st.mem[p.base], p.path)

    def at(xs):
        o, k = cv(xs[0]), cv(xs[1])
        if isinstance(whole, Nat):
            bs = [c.ex.walk(whole, (j,)) for j in range(o, o + k)]
        else:
            if o < 0 or o + k > len(whole):
                return f([])
            bs = list(whole[o : o + k])
        if any(b is UNDEF for b in bs):
            raise Unsupported("text with undefined bytes")
        bs = [restrict(b, g) for b in bs]
        return appn((name, "bytes"), lambda ys: f(list(ys)), bs)

    return appn((name, id(whole), p.base, p.path), at, (off, n))


INT = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-(2**31), 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-(2**63), 2**63 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1)}


def known(bs):
    return bytes(cv(b) for b in bs) if all(isc(b) for b in bs) else None


def int_ok(ty, bs):
    if not bs:
        return FALSE
    return pred("is_%s" % ty, *bs)


def int_val(ty, bs):
    lo, hi = INT[ty]
    n = "parse_%s_%d" % (ty, len(bs))
    IFN_RANGE[n] = (max(lo, -(10 ** (len(bs) - 1)) + 1) if bs else 0, min(hi, 10 ** len(bs) - 1))
    return ifn(n, *bs)


def float_ok(bs):
    if bs and isc(bs[0]) and cv(bs[0]) in (43, 45) and len(bs) > 1 and isc(bs[1]) and cv(bs[1]) == 46:
        return float_ok(bs[1:])
    k = known(bs)
    if k is not None and k in (b"", b".", b"+", b"-"):
        return FALSE
    return pred("is_float", *bs)


def float_val(bs):
    if bs and isc(bs[0]) and cv(bs[0]) in (43, 45) and len(bs) > 1 and isc(bs[1]) and cv(bs[1]) == 46:
        r = float_val(bs[1:])
        return neg(r) if cv(bs[0]) == 45 else r
    return fn("parse_float", *bs)


@rule(r"core::str::<impl str>::parse::<(\w+)>|<(\w+) as core::str::FromStr>::from_str|core::num::<impl (\w+)>::from_ascii|core::num::<impl core::str::FromStr for (\w+)>::from_str|core::num::imp::dec2flt::<impl core::str::FromStr for (\w+)>::from_str|core::num::dec2flt::<impl core::str::FromStr for (\w+)>::from_str")
def _(c):
    n = c.f["n"]
    m = re.search(r"parse::<(\w+)>\Z|\A<(\w+) as|<impl (\w+)>::from_ascii\Z|FromStr for (\w+)>", n)
    ty = next(x for x in m.groups() if x)
    p = c.args[0]
    if ty == "f64":
        ok = text_cases(c, p, float_ok, "fok")
        val = text_cases(c, p, float_val, "fval")
    elif ty in INT:
        ok = text_cases(c, p, lambda bs: int_ok(ty, bs), ty + "ok")
        val = text_cases(c, p, lambda bs: int_val(ty, bs), ty + "val")
    else:
        raise Unsupported("parse of " + ty)
    return En(ite(ok, I0, I1), {0: (val,), 1: (Nat("parse_error", (ty,)),)})


@rule(r"core::str::from_utf8_unchecked|core::str::<impl str>::as_bytes|<alloc::string::String as core::ops::Deref>::deref|alloc::string::String::as_str|<str as core::convert::AsRef<\[u8\]>>::as_ref|core::str::<impl str>::as_ref|<str as core::convert::AsRef<str>>::as_ref|core::str::converts::from_utf8_unchecked")
def _(c):
    return c.args[0]


@rule(r"core::str::(?:converts::)?from_utf8|core::str::<impl str>::from_utf8")
def _(c):
    ok = text_cases(c, c.args[0], lambda bs: pred("utf8", *bs) if bs else TRUE, "utf8")
    return En(ite(ok, I0, I1), {0: (c.args[0],), 1: (Nat("utf8_error", ()),)})


def text_of(c, p):
    """content of a text as a value"""
    if isinstance(p, Ptr) and p.meta is not None:
        return Nat("text", tuple(c.ex.slice_value(c.st, p)))
    if isinstance(p, Ptr):
        v = c.ex.read_ptr(c.st, p)
        if isinstance(v, Ptr):
            return text_of(c, v)
        if isinstance(v, Nat):
            return v
    if isinstance(p, Nat):
        return p
    raise Unsupported("text %r" % (p,))


@rule(r"core::str::<impl str>::(trim|trim_end|trim_start)")
def _(c):
    k = c.f["n"].rsplit("::", 1)[1]
    return Ptr(c.ex.alloc(c.st, Nat(k, text_of(c, c.args[0]).f), "trim"))


# ------------------------------------------------------------- formatting
@rule(r"core::fmt::Arguments::<'_>::new::<\d+, \d+>")
def _(c):
    tpl = c.ex.read_ptr(c.st, c.args[0])
    args = c.ex.read_ptr(c.st, c.args[1])
    out = []
    i = 0
    k = 0
    tpl = [cv(b) for b in tpl]
    while tpl[i] != 0:
        n = tpl[i]
        i += 1
        if n < 0x80:
            out.append(Nat("text", tuple(I(b) for b in tpl[i : i + n])))
            i += n
        elif n == 0xC0:
            out.append(args[k])
            k += 1
        else:
            return Nat("fmtargs", (c.f["n"],) + tuple(c.args))
    return Nat("format", out)


@rule(r"core::fmt::rt::Argument::<'_>::new_display::<(.*)>")
def _(c):
    ty = re.search(r"new_display::<(.*)>\Z", c.f["n"]).group(1)
    v = c.ex.read_ptr(c.st, c.args[0])
    if ty.lstrip("&").endswith("str"):
        return text_of(c, v)
    if isinstance(v, T) and v.sort == "I":
        return Nat("decimal", (v,))
    return Nat("fmtarg", ("display", ty, v))


@rule(r"alloc::fmt::format|alloc::fmt::format::format_inner")
def _(c):
    return Nat("string", c.args[0].f) if c.args[0].kind == "format" else Nat("string", (c.args[0],))


@rule(r"<(?:str|alloc::string::String) as alloc::borrow::ToOwned>::to_owned|<str as alloc::string::ToString>::to_string|<alloc::string::String as core::convert::From<&str>>::from|<alloc::string::String as core::clone::Clone>::clone|alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned|<alloc::string::String as alloc::string::ToString>::to_string")
def _(c):
    v = text_of(c, c.args[0])
    return v if v.kind == "string" else Nat("string", (v,))
