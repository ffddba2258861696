"""Contracts for the lines of a text and for vectors that collect records.

The text has N lines of arbitrary content.  A line is a pointer whose base names
its number; a vector under construction is Nat("vec", (n, ...)): the first n
records, then anything that is not the next record.
"""
import re

from terms import *
from ex import *
from models import rule
import bytes_m

N = ivar("lines", 0, (1 << 62))
LINES = {}
NEXT_RECORD = []  # set by the check: record number -> the value expected at that place


def line_at(pos):
    LINES[pos.id] = pos
    return Ptr(("line", pos.id), (), (I0, mk("ifn", ("line_length", pos), "I")))


def line_number(p):
    """the number of the line that a text pointer is all of, or None"""
    if isinstance(p, Ptr) and p.base[0] == "line" and p.path == () and p.meta is not None:
        pos = LINES[p.base[1]]
        if p.meta[0] is I0 and p.meta[1].op == "ifn" and p.meta[1].args == ("line_length", pos):
            return pos
    return None


_text_of = bytes_m.text_of


def text_of(c, p):
    k = line_number(p)
    if k is not None:
        return Nat("content", (k,))
    if isinstance(p, Ptr) and p.base[0] == "forgotten":
        return Nat("forgotten", (ifn("text of " + p.base[1]),))
    return _text_of(c, p)


bytes_m.text_of = text_of


@rule(r"core::str::<impl str>::lines")
def _(c):
    return Nat("lines", (I0,))


@rule(r"<core::str::Lines<'_> as core::iter::IntoIterator>::into_iter|<core::str::Lines<'_> as core::iter::Iterator>::by_ref|<core::str::Lines<'_> as core::clone::Clone>::clone")
def _(c):
    if c.f["n"].endswith("clone"):
        return c.ex.read_ptr(c.st, c.args[0])
    return c.args[0]


@rule(r"<core::str::Lines<'_> as core::iter::Iterator>::next")
def _(c):
    v, put = bytes_m.place_of(c, c.args[0])
    pos = restrict(v.f[0], c.st.g)
    has = ilt(pos, N)
    put(Nat("lines", (ite(has, iadd(pos, I1), pos),)))
    pos = restrict(pos, And(c.st.g, has))
    if pos.op == "ite":
        raise Unsupported("iterator at one of several lines")
    return bytes_m.some(line_at(pos), has)


@rule(r"<core::str::Lines<'_> as core::iter::Iterator>::count")
def _(c):
    return isub(N, c.args[0].f[0])


@rule(r"<core::str::Lines<'_> as core::iter::Iterator>::collect::<alloc::vec::Vec<&str>>")
def _(c):
    if c.args[0].f[0] is not I0:
        raise Unsupported("collecting a part of the lines")
    return Nat("linevec", (N,))


# ------------------------------------------------------------- vectors
@rule(r"alloc::vec::Vec::<.*>::(new|with_capacity)|<alloc::vec::Vec<.*> as core::default::Default>::default")
def _(c):
    return Nat("vec", (I0,))


@rule(r"alloc::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit)")
def _(c):
    return ()


@rule(r"alloc::vec::Vec::<.*>::push")
def _(c):
    v, put = bytes_m.place_of(c, c.args[0])
    if v.kind != "vec":
        raise Unsupported("push on " + v.kind)
    n, x = v.f[0], c.args[1]
    if len(v.f) == 1 and NEXT_RECORD and same(x, NEXT_RECORD[0](n)):
        put(Nat("vec", (iadd(n, I1),)))
    else:
        put(Nat("vec", v.f + (x,)))
    return ()


@rule(r"alloc::vec::Vec::<.*>::(len|is_empty)")
def _(c):
    v = c.ex.read_ptr(c.st, c.args[0])
    n = iadd(v.f[0], I(len(v.f) - 1))
    return n if c.f["n"].endswith("len") else ieq(n, I0)


def line_slice(c, p):
    v = c.ex.read_ptr(c.st, p)
    if not isinstance(v, Nat) or v.kind != "linevec":
        raise Unsupported("slice of a vector")
    return Ptr(c.ex.alloc(c.st, Nat("all_lines", ())), (), (I0, N))


@rule(r"<alloc::vec::Vec<&str> as core::ops::Deref>::deref|alloc::vec::Vec::<&str>::as_slice")
def _(c):
    return line_slice(c, c.args[0])


@rule(r"<alloc::vec::Vec<&str> as core::ops::Index<usize>>::index")
def _(c):
    p = line_slice(c, c.args[0])
    i = c.args[1]
    ok = ilt(i, N)
    if ok is not TRUE and not c.panic("index out of range", Not(ok)):
        return None
    return bytes_m.elem(p, i)


@rule(r"core::slice::<impl \[&str\]>::(chunks_exact|chunks)")
def _(c):
    p, n = c.args
    if not isc(n) or cv(n) <= 0:
        raise Unsupported("chunk length")
    return Nat("chunks", (p, n, I1 if c.f["n"].endswith("exact") else I0))


@rule(r"<core::slice::Chunks(?:Exact)?<'_, &str> as core::iter::Iterator>::next")
def _(c):
    v, put = bytes_m.place_of(c, c.args[0])
    p, n, exact = v.f
    off, ln = p.meta
    has = ilt(I0, ln) if exact is I0 else ile(n, ln)
    take = n if exact is not I0 else ite(ilt(ln, n), ln, n)
    item = bytes_m.narrow(p, I0, take)
    rest = Ptr(p.base, p.path, (ite(has, iadd(off, take), off), ite(has, isub(ln, take), ln)))
    put(Nat("chunks", (rest, n, exact)))
    return bytes_m.some(item, has)


@rule(r"<core::slice::Chunks(?:Exact)?<'_, &str> as core::iter::IntoIterator>::into_iter")
def _(c):
    return c.args[0]


@rule(r"<core::slice::Chunks(?:Exact)?<'_, &str> as core::iter::(?:\w+::)*\w+>::(size_hint|len|count)")
def _(c):
    v = c.args[0]
    v = c.ex.read_ptr(c.st, v) if isinstance(v, Ptr) else v
    p, n, exact = v.f
    ln = p.meta[1]
    k = idiv(ln if exact is not I0 else iadd(ln, isub(n, I1)), n)
    return (k, bytes_m.some(k)) if c.f["n"].endswith("size_hint") else k
