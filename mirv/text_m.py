"""Contracts for texts of unknown content: comparison with literals and number parsing.

A text of a document is a pointer to Nat("words", (name,)).  Whether it equals a
literal, whether it is a number and which one are arbitrary, the same for every
use of the same text; the unsigned parsers of core share one syntax and value
and differ only in their range.
"""
import re

from terms import *
from ex import *
from models import rule, lookup
import bytes_m


def words(c, p):
    """the name of the unknown text behind a &str, &String or String, or None"""
    v = p
    for _ in range(4):
        if isinstance(v, Nat):
            if v.kind == "words":
                return v.f[0]
            if v.kind == "string" and len(v.f) == 1:
                v = v.f[0]
                continue
            return None
        if isinstance(v, Ptr) and v.base[0] in ("line", "forgotten", "dangling", "opaque"):
            return None
        if isinstance(v, Ptr) and v.path == () and v.base in c.st.mem and isinstance(c.st.mem[v.base], (Nat, Ptr)):
            v = c.st.mem[v.base]
        elif isinstance(v, Ptr) and v.meta is None:
            v = c.ex.read_ptr(c.st, v)
        else:
            return None
    return None


def literal(c, p):
    if isinstance(p, Ptr) and p.meta is None:
        v = c.ex.read_ptr(c.st, p)
        return literal(c, v) if isinstance(v, Ptr) else None
    if isinstance(p, Ptr) and p.meta is not None:
        try:
            bs = c.ex.slice_value(c.st, p)
        except (Unsupported, KeyError):
            return None
        if all(isc(b) for b in bs):
            return bytes(cv(b) for b in bs)
    return None


def is_text(name, lit):
    return bvar("%s is %r" % (name, lit.decode("utf8", "replace")))


_old_text_of = bytes_m.text_of


def text_of(c, p):
    w = words(c, p)
    return Nat("words", (w,)) if w is not None else _old_text_of(c, p)


bytes_m.text_of = text_of


@rule(r"<(?:str|alloc::string::String|&str) as core::cmp::PartialEq(?:<.*>)?>::(?:eq|ne)|core::str::traits::<impl core::cmp::PartialEq for str>::(?:eq|ne)|core::cmp::impls::<impl core::cmp::PartialEq<&str> for &str>::(?:eq|ne)")
def _(c):
    a, b = c.args[0], c.args[1]
    la, lb = literal(c, a), literal(c, b)
    wa, wb = words(c, a), words(c, b)
    if la is not None and lb is not None:
        r = TRUE if la == lb else FALSE
    elif la is not None and wb is not None:
        r = is_text(wb, la)
    elif lb is not None and wa is not None:
        r = is_text(wa, lb)
    elif wa is not None and wa == wb:
        r = TRUE
    else:
        raise Unsupported("comparison of texts")
    return Not(r) if c.f["n"].endswith("::ne") else r


PARSE = r"core::str::<impl str>::parse::<(\w+)>|<(\w+) as core::str::FromStr>::from_str|core::num::<impl core::str::FromStr for (\w+)>::from_str|core::num::imp::dec2flt::<impl core::str::FromStr for (\w+)>::from_str"
_parse = lookup("core::str::<impl str>::parse::<u64>")


def number(w, ty):
    """(accepted, value) of an unknown text read as ty"""
    if ty == "f64":
        return bvar(w + " is a float"), rvar("float in " + w)
    if ty not in bytes_m.INT:
        raise Unsupported("parse of " + ty)
    lo, hi = bytes_m.INT[ty]
    kind = "unsigned" if lo == 0 else "signed"
    v = ivar("%s integer in %s" % (kind, w), 0 if lo == 0 else None, None)
    return And(bvar("%s is %s" % (w, kind)), ile(v, I(hi)), ile(I(lo), v)), v


@rule(PARSE)
def _(c):
    w = words(c, c.args[0])
    if w is None:
        return _parse(c)
    m = re.search(r"parse::<(\w+)>\Z|\A<(\w+) as|FromStr for (\w+)>", c.f["n"])
    ty = next(x for x in m.groups() if x)
    ok, v = number(w, ty)
    return En(ite(ok, I0, I1), {0: (v,), 1: (Nat("parse_error", (ty,)),)})
