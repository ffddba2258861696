"""Verification-condition generation: symbolic execution of dumped MIR.

Every function call is executed once; states are merged at joins, so the result
of a function is one term per output and one guard per panic, over all inputs.
"""
import json
import re
import struct
from fractions import Fraction

from terms import *

CLOSURE = re.compile(r"\{closure#\d+\}(?:::<.*>)?\Z")


class Unsupported(Exception):
    """the construct is outside the supported fragment: no verdict"""


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class En:
    """enum value: term for the variant index, and the fields of each variant"""

    __slots__ = ("disc", "vs")

    def __init__(self, disc, vs):
        self.disc = disc
        self.vs = vs

    def __repr__(self):
        return "En(%r, %r)" % (self.disc, self.vs)


class Ptr:
    __slots__ = ("base", "path", "meta")

    def __init__(self, base, path=(), meta=None):
        self.base = base
        self.path = path
        self.meta = meta

    def __repr__(self):
        return "Ptr(%r%r%r)" % (self.base, self.path, self.meta)


class Cond:
    """guarded alternatives of values that cannot be merged"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Cond(%r)" % (self.alts,)


class Nat:
    """value of a modelled library type"""

    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = tuple(f)

    def __repr__(self):
        return "%s%r" % (self.kind, self.f)


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (T, _Undef)):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, En):
        return a.disc is b.disc and a.vs.keys() == b.vs.keys() and all(same(a.vs[k], b.vs[k]) for k in a.vs)
    if isinstance(a, Ptr):
        return a.base == b.base and same(a.path, b.path) and same(a.meta, b.meta)
    if isinstance(a, Nat):
        return a.kind == b.kind and same(a.f, b.f)
    if isinstance(a, FnV):
        return a.inst == b.inst
    if isinstance(a, Cond):
        return len(a.alts) == len(b.alts) and all(x[0] is y[0] and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    return a == b


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if a is UNDEF or a is None and b is not None:
        return b
    if b is UNDEF or b is None:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            raise Unsupported("merge of sorts %s %s" % (a.sort, b.sort))
        return ite(c, a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, En) and isinstance(b, En):
        vs = {}
        for k in set(a.vs) | set(b.vs):
            if k not in a.vs:
                vs[k] = b.vs[k]
            elif k not in b.vs:
                vs[k] = a.vs[k]
            else:
                vs[k] = merge(c, a.vs[k], b.vs[k])
        return En(ite(c, a.disc, b.disc), vs)
    if same(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and len(a.path) == len(b.path):
        ok = True
        np = []
        for x, y in zip(a.path, b.path):
            if same(x, y):
                np.append(x)
            elif isinstance(x, (int, T)) and isinstance(y, (int, T)):
                np.append(ite(c, I(x) if isinstance(x, int) else x, I(y) if isinstance(y, int) else y))
            else:
                ok = False
        if ok and (a.meta is None) == (b.meta is None):
            return Ptr(a.base, tuple(np), None if a.meta is None else merge(c, a.meta, b.meta))
    if isinstance(a, Nat) and isinstance(b, Nat) and a.kind == b.kind and len(a.f) == len(b.f):
        return Nat(a.kind, tuple(merge(c, x, y) for x, y in zip(a.f, b.f)))
    alts = []

    def put(g, v):
        if g is FALSE:
            return
        for i, (g2, v2) in enumerate(alts):
            if same(v, v2):
                alts[i] = (Or(g, g2), v2)
                return
        alts.append((g, v))

    nc = Not(c)
    for g, v in a.alts if isinstance(a, Cond) else [(TRUE, a)]:
        put(And(c, g), v)
    for g, v in b.alts if isinstance(b, Cond) else [(TRUE, b)]:
        put(And(nc, g), v)
    if len(alts) == 1:
        return alts[0][1]
    return Cond(alts)


def merge_all(alts):
    """guarded values -> one value (the last alternative is the default)"""
    r = alts[-1][1]
    for g, v in reversed(alts[:-1]):
        r = merge(g, v, r)
    return r


def vmap(f, v):
    """apply f to every term inside a value"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, tuple):
        return tuple(vmap(f, x) for x in v)
    if isinstance(v, En):
        return En(f(v.disc), {k: vmap(f, x) for k, x in v.vs.items()})
    if isinstance(v, Ptr):
        return Ptr(v.base, vmap(f, v.path), vmap(f, v.meta))
    if isinstance(v, Nat):
        return Nat(v.kind, vmap(f, v.f))
    if isinstance(v, Cond):
        return Cond([(f(g), vmap(f, x)) for g, x in v.alts])
    return v


def vterms(v, out=None):
    out = [] if out is None else out
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            vterms(x, out)
    elif isinstance(v, En):
        out.append(v.disc)
        for x in v.vs.values():
            vterms(x, out)
    elif isinstance(v, Ptr):
        vterms(v.path, out)
        vterms(v.meta, out)
    elif isinstance(v, Nat):
        vterms(v.f, out)
    elif isinstance(v, Cond):
        for g, x in v.alts:
            out.append(g)
            vterms(x, out)
    return out


class St:
    __slots__ = ("mem", "g")

    def __init__(self, mem, g):
        self.mem = mem
        self.g = g

    def copy(self, g=None):
        return St(dict(self.mem), self.g if g is None else g)


def merge_states(a, b):
    if a is None or a.g is FALSE:
        return b
    if b is None or b.g is FALSE:
        return a
    g = Or(a.g, b.g)
    c = restrict(a.g, g)
    mem = {}
    bm = b.mem
    for k, v in a.mem.items():
        w = bm.get(k, UNDEF)
        mem[k] = v if w is v else merge(c, v, w)
    for k, w in bm.items():
        if k not in mem:
            mem[k] = w
    return St(mem, g)


def norm_name(n):
    n = n.replace("sgp4::chrono::", "chrono::").replace("roots::alloc::", "alloc::")
    n = n.replace("std::boxed::", "alloc::boxed::")
    return n


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {int(k): v for k, v in d["fns"].items()}
        self.types = {int(k): v for k, v in d["types"].items()}
        self.allocs = d["allocs"]
        self.roots = d["roots"]
        for f in self.fns.values():
            f["n"] = norm_name(f["name"])
        self.prep = {}

    def root(self, name):
        return self.roots["roots::" + name]

    def body(self, fid):
        p = self.prep.get(fid)
        if p is None:
            p = self.prep[fid] = Body(self.fns[fid])
        return p

    def ty_by_str(self, s):
        for i, t in self.types.items():
            if norm_name(t["str"]) == s:
                return i
        return None


def succs(term):
    if isinstance(term, str):
        return []
    k = next(iter(term))
    v = term[k]
    if k == "Goto":
        return [v["target"]]
    if k == "SwitchInt":
        t = v["targets"]
        return [b for _, b in t["branches"]] + [t["otherwise"]]
    if k in ("Drop", "Assert"):
        return [v["target"]]
    if k == "Call":
        return [v["target"]] if v["target"] is not None else []
    return []


class Body:
    def __init__(self, f):
        b = f["body"]
        self.name = f["n"]
        self.blocks = b["blocks"]
        self.locals = [l["ty"] for l in b["locals"]]
        self.argc = b["arg_count"]
        self.spread = b.get("spread_arg")
        self.spans = b["spans"]
        succ = [succs(x["terminator"]["kind"]) for x in self.blocks]
        self.wto = wto(succ)
        self.live = liveness(self.blocks, succ, self.argc)


def places(x, out):
    """every place in a piece of MIR"""
    if isinstance(x, dict):
        if "local" in x and "projection" in x:
            out.append(x)
        for y in x.values():
            places(y, out)
    elif isinstance(x, list):
        for y in x:
            places(y, out)
    return out


def liveness(blocks, succ, argc):
    """locals whose value may still be read on entry of each block; a local
    whose address is taken anywhere is always live"""
    always = set(range(argc + 1))
    use, dfn = [], []

    def reads(x, u, d):
        for pl in places(x, []):
            if pl["local"] not in d:
                u.add(pl["local"])
            for e in pl["projection"]:
                if isinstance(e, dict) and "Index" in e:
                    i = e["Index"]
                    if i not in d:
                        u.add(i)

    def writes(pl, u, d):
        if pl["projection"]:
            reads(pl, u, d)
        else:
            d.add(pl["local"])

    for b in blocks:
        u, d = set(), set()
        for s in b["statements"]:
            k = s["kind"]
            if isinstance(k, str):
                continue
            if "Assign" in k:
                pl, rv = k["Assign"]
                kind = next(iter(rv)) if isinstance(rv, dict) else None
                if kind in ("Ref", "AddressOf"):
                    for q in places(rv, []):
                        if "Deref" not in q["projection"]:
                            always.add(q["local"])
                reads(rv, u, d)
                writes(pl, u, d)
            elif not ("StorageDead" in k or "StorageLive" in k):
                reads(k, u, d)
        t = b["terminator"]["kind"]
        if isinstance(t, dict) and "Call" in t:
            c = t["Call"]
            reads([v for n, v in c.items() if n != "destination"], u, d)
            writes(c["destination"], u, d)
        else:
            reads(t, u, d)
        use.append(u)
        dfn.append(d)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in reversed(range(len(blocks))):
            n = use[i] | (set().union(*[live[j] for j in succ[i]]) - dfn[i]) if succ[i] else use[i]
            if n != live[i]:
                live[i] = n
                ch = True
    return [x | always for x in live]


def wto(succ):
    """weak topological order (Bourdoncle): vertices and nested loop components"""
    n = len(succ)
    dfn = [0] * n
    num = [0]
    stack = []
    INFTY = 1 << 30

    def component(v):
        part = []
        for s in succ[v]:
            if dfn[s] == 0:
                visit(s, part)
        return ("loop", v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in succ[v]:
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INFTY
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    part = []
    visit(0, part)
    return part


def wto_vertices(part, out=None):
    out = set() if out is None else out
    for e in part:
        if isinstance(e, int):
            out.add(e)
        else:
            out.add(e[1])
            wto_vertices(e[2], out)
    return out


def int_range(t):
    if t["k"] == "char":
        return 0, 0x10FFFF
    b = t["bits"]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)


def in_range(x, lo, hi):
    return And(Not(ilt(x, I(lo))), Not(ilt(I(hi), x)))


def wrap(x, lo, hi):
    a, b = rng(x)
    if a is not None and b is not None and a >= lo and b <= hi:
        return x
    if isc(x):
        m = hi - lo + 1
        return I((cv(x) - lo) % m + lo)
    if x.op == "ite" and const_leaves(x, 200):
        return app1(("wrap", lo, hi), lambda y: wrap(y, lo, hi), x)
    ok = in_range(x, lo, hi)
    if ok is TRUE:
        return x
    m = hi - lo + 1
    if a is not None and b is not None and a >= lo - m and b <= hi + m:
        # at most one wrap in either direction
        return ite(ok, x, ite(ilt(x, I(lo)), iadd(x, I(m)), isub(x, I(m))))
    return ite(ok, x, mk("ifn", ("wrap", x, lo, hi), "I"))


class Exec:
    MAX_UNROLL = 400

    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.frame = 0
        self.panics = []  # (guard, kind, function, span)
        self.pre = TRUE
        self.executed = {}  # function name -> number of executions
        self.modelled = {}
        self.nalloc = 0
        self.loops = []
        self.loop_hook = None
        self.call_hook = None
        self.depth = 0
        self.feasible = None  # optional pruning oracle: guard -> bool
        self.impossible = None  # optional oracle: (condition, guard) -> the condition contradicts the guard
        self.mcache = {}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.p.types[i]

    def place_ty(self, body, pl):
        t = body.locals[pl["local"]]
        for e in pl["projection"]:
            if e == "Deref":
                tt = self.ty(t)
                if "to" in tt:
                    t = tt["to"]
                elif tt.get("box"):
                    t = tt["args"][0]["ty"]
                else:
                    raise Unsupported("deref of " + tt["str"])
            elif "Field" in e:
                t = e["Field"][1]
            elif "Index" in e or "ConstantIndex" in e:
                t = self.ty(t)["elem"]
            elif "Downcast" in e or "Subslice" in e:
                pass
            elif "OpaqueCast" in e or "Subtype" in e:
                t = list(e.values())[0]
            else:
                raise Unsupported("projection %s" % e)
        return t

    def op_ty(self, body, o):
        if "Copy" in o:
            return self.place_ty(body, o["Copy"])
        if "Move" in o:
            return self.place_ty(body, o["Move"])
        if "Constant" in o:
            return o["Constant"]["const_"]["ty"]
        raise Unsupported("operand type %s" % list(o))

    # ------------------------------------------------------------ constants
    def decode(self, st, ty, bs, prov, off):
        t = self.ty(ty)
        k = t["k"]
        size = t.get("size")
        raw = bs[off : off + size] if size is not None else None

        def num():
            if any(x is None for x in raw):
                return None
            return int.from_bytes(bytes(raw), "little")

        if k == "float":
            v = num()
            if v is None:
                return UNDEF
            if size == 8:
                return R(struct.unpack("<d", bytes(raw))[0])
            return R(struct.unpack("<f", bytes(raw))[0])
        if k == "int":
            v = num()
            if v is None:
                return UNDEF
            if t["signed"] and v >> (t["bits"] - 1):
                v -= 1 << t["bits"]
            return I(v)
        if k == "char":
            return I(num())
        if k == "bool":
            return TRUE if num() else FALSE
        if k == "pat":
            return self.decode(st, t["inner"], bs, prov, off)
        if k in ("tuple", "closure"):
            fields = t["fields"] if k == "tuple" else t["upvars"]
            offs = t["layout_fields"]["Arbitrary"]["offsets"] if fields else []
            return tuple(self.decode(st, f, bs, prov, off + o["num_bits"] // 8) for f, o in zip(fields, offs))
        if k == "array":
            es = self.ty(t["elem"])["size"]
            return tuple(self.decode(st, t["elem"], bs, prov, off + i * es) for i in range(t["len"]))
        if k == "fndef":
            return ()
        if k in ("ref", "ptr", "fnptr"):
            pid = prov.get(off)
            if pid is None:
                if k == "fnptr":
                    raise Unsupported("fn pointer constant")
                v = int.from_bytes(bytes(x or 0 for x in raw[:8]), "little")
                return Ptr(("dangling", v), (), None)
            a = self.p.allocs[str(pid)]
            if "fn" in a:
                return FnV(a["fn"])
            inner = int.from_bytes(bytes(bs[off : off + 8]), "little")
            to = t["to"]
            tt = self.ty(to)
            if "static" in a:
                key = ("static", pid)
                if key not in st.mem:
                    init = a["init"]
                    st.mem[key] = self.decode(st, a["ty"], init["bytes"], dict(init["provenance"]["ptrs"]), 0)
                return Ptr(key)
            if "memory" not in a:
                raise Unsupported("constant pointer to %s" % list(a))
            m = a["memory"]
            mb, mp = m["bytes"], dict(m["provenance"]["ptrs"])
            if tt["k"] in ("slice", "str"):
                ln = int.from_bytes(bytes(bs[off + 8 : off + 16]), "little")
                et = tt.get("elem")
                es = self.ty(et)["size"] if et is not None else 1
                key = ("a", pid, et)
                if key not in st.mem:
                    n = len(mb) // es if es else ln
                    if et is None:
                        st.mem[key] = tuple(I(x) for x in mb)
                    else:
                        st.mem[key] = tuple(self.decode(st, et, mb, mp, i * es) for i in range(n))
                return Ptr(key, (), (I(inner // es if es else 0), I(ln)))
            if tt["k"] == "dyn":
                return Ptr(("opaque", pid))
            key = ("a", pid, to, inner)
            if key not in st.mem:
                st.mem[key] = self.decode(st, to, mb, mp, inner)
            return Ptr(key)
        if k == "adt":
            if t["kind"] == "Struct":
                if norm_name(t["name"]).startswith("chrono::"):
                    return self.models.decode_adt(self, st, t, bs, prov, off)
                v = t["variants"][0]
                if not v["fields"]:
                    return ()
                offs = t["layout_fields"]["Arbitrary"]["offsets"]
                return tuple(
                    self.decode(st, f["ty"], bs, prov, off + o["num_bits"] // 8) for f, o in zip(v["fields"], offs)
                )
            if t["kind"] == "Enum":
                lv = t["layout_variants"]
                if "Single" in lv:
                    idx = lv["Single"]["index"]
                    offs = t["layout_fields"]["Arbitrary"]["offsets"]
                elif "Multiple" in lv:
                    mm = lv["Multiple"]
                    tagoff = t["layout_fields"]["Arbitrary"]["offsets"][mm["tag_field"]]["num_bits"] // 8
                    prim = list(mm["tag"].values())[0]["value"]
                    if "Int" in prim:
                        bits = int(prim["Int"]["length"][1:])
                    else:
                        bits = 64
                    if tagoff + off in prov:
                        tag = 1 << 63
                    else:
                        tb = bs[off + tagoff : off + tagoff + bits // 8]
                        tag = int.from_bytes(bytes(x or 0 for x in tb), "little")
                    enc = mm["tag_encoding"]
                    if enc == "Direct":
                        idx = None
                        for i, v in enumerate(t["variants"]):
                            if int(v["discr"]) % (1 << bits) == tag:
                                idx = i
                    else:
                        ni = enc["Niche"]
                        a, b = ni["niche_variants"]["start"], ni["niche_variants"]["end"]
                        rel = (tag - ni["niche_start"]) % (1 << bits)
                        idx = a + rel if rel <= b - a and tag != 1 << 63 else ni["untagged_variant"]
                    offs = mm["variants"][idx]["offsets"]
                else:
                    raise Unsupported("empty enum constant")
                fs = t["variants"][idx]["fields"]
                vals = tuple(
                    self.decode(st, f["ty"], bs, prov, off + o["num_bits"] // 8) for f, o in zip(fs, offs)
                )
                return En(I(idx), {idx: vals})
        raise Unsupported("constant of type %s" % t["str"])

    def const(self, st, c):
        ty = c["ty"]
        k = c["kind"]
        t = self.ty(ty)
        if k == "ZeroSized":
            return self.zst(ty)
        if isinstance(k, dict) and "Allocated" in k:
            a = k["Allocated"]
            return self.decode(st, ty, a["bytes"], dict(a["provenance"]["ptrs"]), 0)
        raise Unsupported("constant kind %s of %s" % (list(k) if isinstance(k, dict) else k, t["str"]))

    def zst(self, ty):
        t = self.ty(ty)
        k = t["k"]
        if k == "adt":
            if t["kind"] == "Enum":
                for i, v in enumerate(t["variants"]):
                    try:
                        return En(I(i), {i: tuple(self.zst(f["ty"]) for f in v["fields"])})
                    except Unsupported:
                        pass
                raise Unsupported("zero sized enum")
            return tuple(self.zst(f["ty"]) for f in t["variants"][0]["fields"])
        if k == "tuple":
            return tuple(self.zst(f) for f in t["fields"])
        if k == "closure":
            return tuple(self.zst(f) for f in t["upvars"])
        if k == "fndef":
            return ()
        if k == "array":
            return ()
        raise Unsupported("zero sized " + t["str"])

    # ------------------------------------------------------------ memory
    def alloc(self, st, value, tag="h"):
        self.nalloc += 1
        key = (tag, self.nalloc)
        st.mem[key] = value
        return key

    def walk(self, v, path):
        for e in path:
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Cond):
                return merge_all([(g, self.walk(x, path)) for g, x in v.alts])
            if isinstance(e, tuple):  # ('d', variant)
                if not isinstance(v, En):
                    raise Unsupported("downcast of %s" % type(v).__name__)
                v = v.vs.get(e[1], UNDEF)
                continue
            if isinstance(v, Nat):
                v = self.models.nat_field(self, v, e)
                continue
            if not isinstance(v, tuple):
                raise Unsupported("field %s of %r" % (e, type(v).__name__))
            if isinstance(e, int):
                if e >= len(v):
                    return UNDEF
                v = v[e]
            elif isc(e):
                if not (0 <= cv(e) < len(v)):
                    return UNDEF
                v = v[cv(e)]
            else:
                v = self.select(v, e)
        return v

    def select(self, arr, idx):
        ls = leaves(idx, 200) if const_leaves(idx, 200) else None
        if ls is not None:
            ks = sorted(set(cv(x) for x in ls))
            ks = [k for k in ks if 0 <= k < len(arr)]
        else:
            lo, hi = rng(idx)
            lo = 0 if lo is None else max(lo, 0)
            hi = len(arr) - 1 if hi is None else min(hi, len(arr) - 1)
            ks = list(range(lo, hi + 1))
        if not ks:
            return UNDEF
        r = arr[ks[-1]]
        for k in reversed(ks[:-1]):
            r = merge(ieq(idx, I(k)), arr[k], r)
        return r

    def update(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if isinstance(v, Cond):
            return merge_all([(g, self.update(x, path, new)) for g, x in v.alts])
        if isinstance(e, tuple):
            if v is UNDEF:
                v = En(I(e[1]), {})
            vs = dict(v.vs)
            vs[e[1]] = self.update(vs.get(e[1], UNDEF), path[1:], new)
            return En(v.disc, vs)
        if isinstance(v, Nat):
            return self.models.nat_update(self, v, e, path[1:], new)
        if v is UNDEF:
            if isinstance(e, int):
                v = (UNDEF,) * (e + 1)
            else:
                raise Unsupported("indexed write to undefined memory")
        if isinstance(e, T) and isc(e):
            e = cv(e)
        if isinstance(e, int):
            lst = list(v)
            while len(lst) <= e:
                lst.append(UNDEF)
            lst[e] = self.update(lst[e], path[1:], new)
            return tuple(lst)
        out = []
        for k, x in enumerate(v):
            c = ieq(e, I(k))
            out.append(x if c is FALSE else merge(c, self.update(x, path[1:], new), x))
        return tuple(out)

    def read_ptr(self, st, p, path=()):
        if isinstance(p, Cond):
            alts = []
            for g, q in p.alts:
                if And(g, st.g) is FALSE:
                    continue
                alts.append((g, self.read_ptr(st, q, path)))
            if not alts:
                return UNDEF
            return merge_all(alts)
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %s" % type(p).__name__)
        if p.meta is not None and not path:
            # whole slice value
            return self.slice_value(st, p)
        if p.meta is not None:
            i = path[0]
            i = I(i) if isinstance(i, int) else i
            path = (iadd(p.meta[0], i),) + tuple(path[1:])
        if p.base not in st.mem:
            if p.base[0] == "dangling":
                return UNDEF
            raise Unsupported("read of dead memory %r" % (p.base,))
        return self.walk(st.mem[p.base], tuple(p.path) + tuple(path))

    def slice_value(self, st, p):
        off, ln = p.meta
        v = self.walk(st.mem[p.base], p.path)
        if isc(off) and isc(ln):
            return v[cv(off) : cv(off) + cv(ln)]
        raise Unsupported("copy of a slice of symbolic length")

    def write_ptr(self, st, p, path, new):
        if isinstance(p, Cond):
            for g, q in p.alts:
                if And(g, st.g) is FALSE:
                    continue
                old = self.read_ptr(st, q, path)
                self.write_ptr(st, q, path, merge(g, new, old))
            return
        if not isinstance(p, Ptr):
            raise Unsupported("write through %s" % type(p).__name__)
        if p.meta is not None:
            i = path[0]
            i = I(i) if isinstance(i, int) else i
            path = (iadd(p.meta[0], i),) + tuple(path[1:])
        st.mem[p.base] = self.update(st.mem.get(p.base, UNDEF), tuple(p.path) + tuple(path), new)

    def place(self, st, body, fr, pl):
        """-> (pointer, remaining path)"""
        ptr = Ptr((fr, pl["local"]))
        path = []
        t = body.locals[pl["local"]]
        for e in pl["projection"]:
            if e == "Deref":
                tt = self.ty(t)
                ptr = self.read_ptr(st, ptr, tuple(path)) if path else self.read_whole(st, ptr)
                path = []
                if "to" in tt:
                    t = tt["to"]
                elif tt.get("box"):
                    t = tt["args"][0]["ty"]
                    if isinstance(ptr, Nat) and ptr.kind == "box":
                        ptr = ptr.f[0]
                else:
                    raise Unsupported("deref of " + tt["str"])
            elif "Field" in e:
                path.append(e["Field"][0])
                t = e["Field"][1]
            elif "Downcast" in e:
                path.append(("d", e["Downcast"]))
            elif "Index" in e:
                i = st.mem[(fr, e["Index"])]
                path.append(i)
                t = self.ty(t)["elem"]
            elif "ConstantIndex" in e:
                ci = e["ConstantIndex"]
                tt = self.ty(t)
                i = I(ci["offset"])
                if ci["from_end"]:
                    ln = I(tt["len"]) if tt["k"] == "array" else self.slice_len(st, ptr, path)
                    i = isub(ln, i)
                path.append(i)
                t = tt["elem"]
            elif "Subslice" in e:
                ss = e["Subslice"]
                tt = self.ty(t)
                if tt["k"] == "array":
                    ln = I(tt["len"])
                    q = self.at(ptr, path)
                    off = I0
                else:
                    q = self.at(ptr, path)
                    if isinstance(q, Cond):
                        raise Unsupported("subslice of union")
                    off, ln = q.meta
                to = isub(ln, I(ss["to"])) if ss["from_end"] else I(ss["to"])
                ptr = Ptr(q.base, q.path, (iadd(off, I(ss["from"])), isub(to, I(ss["from"]))))
                path = []
            elif "OpaqueCast" in e or "Subtype" in e:
                t = list(e.values())[0]
            else:
                raise Unsupported("projection %s" % e)
        return ptr, tuple(path)

    def read_whole(self, st, ptr):
        if isinstance(ptr, Ptr) and ptr.meta is None:
            return self.walk(st.mem.get(ptr.base, UNDEF), ptr.path)
        return self.read_ptr(st, ptr)

    def slice_len(self, st, ptr, path):
        q = self.at(ptr, path)
        if isinstance(q, Cond):
            return merge_all([(g, x.meta[1]) for g, x in q.alts])
        return q.meta[1]

    def at(self, ptr, path):
        """pointer to ptr.path"""
        if not path:
            return ptr
        if isinstance(ptr, Cond):
            return Cond([(g, self.at(q, path)) for g, q in ptr.alts])
        if ptr.meta is not None:
            i = path[0]
            i = I(i) if isinstance(i, int) else i
            j = iadd(ptr.meta[0], i)
            path = (cv(j) if isc(j) else j,) + tuple(path[1:])
        return Ptr(ptr.base, tuple(ptr.path) + tuple(path))

    def get(self, st, body, fr, pl):
        if not pl["projection"]:
            return st.mem.get((fr, pl["local"]), UNDEF)
        ptr, path = self.place(st, body, fr, pl)
        return self.read_ptr(st, ptr, path)

    def put(self, st, body, fr, pl, v):
        if not pl["projection"]:
            st.mem[(fr, pl["local"])] = v
            return
        ptr, path = self.place(st, body, fr, pl)
        self.write_ptr(st, ptr, path, v)

    def operand(self, st, body, fr, o):
        if "Copy" in o:
            return self.get(st, body, fr, o["Copy"])
        if "Move" in o:
            return self.get(st, body, fr, o["Move"])
        if "Constant" in o:
            return self.const(st, o["Constant"]["const_"])
        if "RuntimeChecks" in o:
            return FALSE
        raise Unsupported("operand %s" % list(o))

    # ------------------------------------------------------------ rvalues
    def force(self, v):
        if isinstance(v, Cond):
            return merge_all(v.alts)
        return v

    def binop(self, op, a, b, t):
        if isinstance(a, Ptr) or isinstance(a, Cond):
            if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base != b.base:
                    r = FALSE
                elif same(a.path, b.path):
                    r = TRUE
                else:
                    raise Unsupported("pointer comparison")
                return r if op == "Eq" else Not(r)
            raise Unsupported("pointer arithmetic")
        if op in ("Eq", "Ne") and (a is UNDEF or b is UNDEF):
            return UNDEF
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported("%s on %s %s" % (op, type(a).__name__, type(b).__name__))
        if a.sort == "R":
            if op in ("Add", "Sub", "Mul", "Div", "Rem") and t["str"] == "f32":
                return fn("f32", {"Add": add, "Sub": sub, "Mul": mul, "Div": div, "Rem": rem}[op](a, b))
            if op == "Add":
                return add(a, b)
            if op == "Sub":
                return sub(a, b)
            if op == "Mul":
                return mul(a, b)
            if op == "Div":
                return div(a, b)
            if op == "Rem":
                return rem(a, b)
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            if op == "Ge":
                return le(b, a)
            if op == "Eq":
                return req(a, b)
            if op == "Ne":
                return Not(req(a, b))
        elif a.sort == "B":
            if op in ("Eq", "Ne"):
                return Iff(a, b) if op == "Eq" else Xor(a, b)
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op == "BitXor":
                return Xor(a, b)
            if op == "Lt":
                return And(Not(a), b)
            if op == "Gt":
                return And(a, Not(b))
            if op == "Le":
                return Or(Not(a), b)
            if op == "Ge":
                return Or(a, Not(b))
        elif a.sort == "I":
            if op == "Lt":
                return ilt(a, b)
            if op == "Le":
                return ile(a, b)
            if op == "Gt":
                return ilt(b, a)
            if op == "Ge":
                return ile(b, a)
            if op == "Eq":
                return ieq(a, b)
            if op == "Ne":
                return Not(ieq(a, b))
            if op == "Cmp":
                return En(ite(ilt(a, b), I0, ite(ieq(a, b), I1, I(2))), {0: (), 1: (), 2: ()})
            lo, hi = int_range(t)
            if op in ("Add", "AddUnchecked"):
                return wrap(iadd(a, b), lo, hi)
            if op in ("Sub", "SubUnchecked"):
                return wrap(isub(a, b), lo, hi)
            if op in ("Mul", "MulUnchecked"):
                return wrap(imul(a, b), lo, hi)
            if op == "Div":
                return wrap(idiv(a, b), lo, hi)
            if op == "Rem":
                return irem(a, b)
            return self.bitop(op, a, b, lo, hi)
        raise Unsupported("binary %s on sort %s" % (op, a.sort))

    def bitop(self, op, a, b, lo, hi):
        if isc(a) and isc(b):
            x, y = cv(a), cv(b)
            if op == "BitAnd":
                return I(x & y)
            if op == "BitOr":
                return I(x | y)
            if op == "BitXor":
                return I(x ^ y)
            if op in ("Shl", "ShlUnchecked"):
                return wrap(I(x << y), lo, hi)
            if op in ("Shr", "ShrUnchecked"):
                return I(x >> y)
        if op == "BitAnd":
            if isc(a):
                a, b = b, a
            if isc(b):
                y = cv(b)
                la, _ = rng(a)
                if y >= 0 and (y & (y + 1)) == 0 and la is not None and la >= 0:
                    return irem(a, I(y + 1))
        if op in ("Shl", "ShlUnchecked") and isc(b):
            return wrap(imul(a, I(1 << cv(b))), lo, hi)
        if op in ("Shr", "ShrUnchecked") and isc(b):
            la, _ = rng(a)
            if la is not None and la >= 0:
                return idiv(a, I(1 << cv(b)))
        return mk("ifn", (op, a, b), "I")

    def cast(self, st, kind, v, sty, dty):
        s, d = self.ty(sty), self.ty(dty)
        kk = kind if isinstance(kind, str) else next(iter(kind))
        if kk == "IntToFloat":
            v = b2i(v) if v.sort == "B" else v
            if d["str"] == "f32":
                lo, hi = rng(v)
                if lo is None or hi is None or max(-lo, hi) > 1 << 24:
                    return fn("f32", i2r(v))
            if isc(v):
                return R(Fraction(float(cv(v))))
            return i2r(v)
        if kk == "FloatToInt":
            lo, hi = int_range(d)
            n = r2i(v)
            r = ite(lt(v, R(lo)), I(lo), ite(lt(R(hi), v), I(hi), n))
            if Mode.ieee:
                r = ite(unord(v, v), I0, r)
            if isc(v) or const_leaves(v):
                return r
            self.note_range(n)
            return r
        if kk == "FloatToFloat":
            if s["str"] == d["str"] or d["str"] == "f64":
                return v
            return fn("f32", v)
        if kk == "IntToInt":
            if v is UNDEF:
                return v
            if isinstance(v, En):
                v = self.discr(v, sty)
            if v.sort == "B":
                v = b2i(v)
            lo, hi = int_range(d)
            return wrap(v, lo, hi)
        if kk == "PointerCoercion":
            pc = kind["PointerCoercion"]
            if pc == "Unsize":
                a = self.ty(s["to"]) if "to" in s else None
                if a is not None and a["k"] == "array":
                    def uns(q):
                        if isinstance(q, Cond):
                            return Cond([(g, uns(x)) for g, x in q.alts])
                        return Ptr(q.base, q.path, (I0, I(a["len"])))
                    return uns(v)
                return v
            if isinstance(pc, dict) and "ReifyFnPointer" in pc:
                return FnV(s["inst"])
            if isinstance(pc, dict) and "ClosureFnPointer" in pc:
                return FnV(s["inst"])
            return v
        if kk == "PtrToPtr":
            return v
        if kk == "Transmute":
            if s["k"] == d["k"] and s["k"] in ("ptr", "ref"):
                return v
            if s["k"] in ("ptr", "ref") and d["k"] in ("ptr", "ref"):
                return v
            if s["k"] in ("int", "char") and d["k"] in ("int", "char"):
                lo, hi = int_range(d)
                return wrap(v, lo, hi)
            if s["k"] == "float" and d["k"] == "int":
                return mk("ifn", ("bits", v), "I")
            if s["k"] == "int" and d["k"] == "float":
                if v.op == "ifn" and v.args[0] == "bits":
                    return v.args[1]
                if isc(v):
                    return R(struct.unpack("<d", struct.pack("<Q", cv(v)))[0])
            if s["str"] == d["str"]:
                return v
            # newtypes around the same value
            u = self.unwrap_newtype(v, s, d)
            if u is not None:
                return u
        raise Unsupported("cast %s from %s to %s" % (kind, s["str"], d["str"]))

    def unwrap_newtype(self, v, s, d):
        def chain(t):
            out = [t]
            while t["k"] in ("adt", "pat"):
                if t["k"] == "pat":
                    t = self.ty(t["inner"])
                elif t["kind"] == "Struct" and len(t["variants"][0]["fields"]) == 1:
                    t = self.ty(t["variants"][0]["fields"][0]["ty"])
                else:
                    break
                out.append(t)
            return out

        cs, cd = chain(s), chain(d)
        if cs[-1]["str"] != cd[-1]["str"]:
            return None
        for t in cs[:-1]:
            if t["k"] == "adt":
                if not isinstance(v, tuple):
                    return None
                v = v[0]
        for t in reversed(cd[:-1]):
            if t["k"] == "adt":
                v = (v,)
        return v

    def note_range(self, n):
        pass

    def discr(self, v, ty):
        v = self.force(v)
        t = self.ty(ty)
        if isinstance(v, Nat):
            return self.models.nat_discr(self, v)
        if v is UNDEF:
            return UNDEF
        if not isinstance(v, En):
            raise Unsupported("discriminant of %s" % type(v).__name__)
        vals = [int(x["discr"]) for x in t["variants"]]
        if all(x == i for i, x in enumerate(vals)):
            return v.disc
        return app1(("discr", ty), lambda x: I(vals[cv(x)]), v.disc)

    def rvalue(self, st, body, fr, r, dty):
        if isinstance(r, str):
            raise Unsupported("rvalue " + r)
        k = next(iter(r))
        a = r[k]
        if k == "Use":
            return self.operand(st, body, fr, a[0])
        if k == "Ref":
            ptr, path = self.place(st, body, fr, a[2])
            return self.at(ptr, path)
        if k == "AddressOf":
            ptr, path = self.place(st, body, fr, a[1])
            return self.at(ptr, path)
        if k == "BinaryOp":
            x = self.force(self.operand(st, body, fr, a[1]))
            y = self.force(self.operand(st, body, fr, a[2]))
            return self.binop(a[0], x, y, self.ty(self.op_ty(body, a[1])))
        if k == "CheckedBinaryOp":
            x = self.force(self.operand(st, body, fr, a[1]))
            y = self.force(self.operand(st, body, fr, a[2]))
            lo, hi = int_range(self.ty(self.op_ty(body, a[1])))
            v = {"Add": iadd, "Sub": isub, "Mul": imul}.get(a[0])
            if v is None:
                raise Unsupported("checked " + a[0])
            v = v(x, y)
            return (v, Not(in_range(v, lo, hi)))
        if k == "UnaryOp":
            x = self.operand(st, body, fr, a[1])
            if a[0] == "Neg":
                if x.sort == "R":
                    return neg(x)
                lo, hi = int_range(self.ty(self.op_ty(body, a[1])))
                return wrap(ineg(x), lo, hi)
            if a[0] == "Not":
                if x.sort == "B":
                    return Not(x)
                t = self.ty(self.op_ty(body, a[1]))
                if t["signed"]:
                    return isub(I(-1), x)
                return isub(I(int_range(t)[1]), x)
            if a[0] == "PtrMetadata":
                return self.ptr_len(x)
            raise Unsupported("unary " + a[0])
        if k == "Len":
            ptr, path = self.place(st, body, fr, a)
            return self.slice_len(st, ptr, path)
        if k == "Discriminant":
            return self.discr(self.get(st, body, fr, a), self.place_ty(body, a))
        if k == "Aggregate":
            vals = tuple(self.operand(st, body, fr, o) for o in a[1])
            ak = a[0]
            if isinstance(ak, dict) and "Adt" in ak:
                t = self.ty(dty)
                if t["k"] == "adt" and t["kind"] == "Enum":
                    return En(I(ak["Adt"][1]), {ak["Adt"][1]: vals})
                if t["k"] == "adt" and t["kind"] == "Union":
                    raise Unsupported("union")
                return vals
            if isinstance(ak, dict) and "RawPtr" in ak:
                p, m = vals
                if isinstance(m, T):
                    return Ptr(p.base, p.path, (I0 if p.meta is None else p.meta[0], m))
                return p
            return vals
        if k == "Cast":
            v = self.operand(st, body, fr, a[1])
            return self.cast(st, a[0], v, self.op_ty(body, a[1]), a[2])
        if k == "Repeat":
            v = self.operand(st, body, fr, a[0])
            n = self.ty(dty)["len"]
            return (v,) * n
        if k == "CopyForDeref":
            return self.get(st, body, fr, a)
        raise Unsupported("rvalue " + k)

    def ptr_len(self, x):
        if isinstance(x, Cond):
            return merge_all([(g, self.ptr_len(v)) for g, v in x.alts])
        if isinstance(x, Ptr):
            return x.meta[1] if x.meta is not None else ()
        raise Unsupported("metadata of %s" % type(x).__name__)

    # ------------------------------------------------------------ control
    def panic(self, st, kind, body, span):
        g = And(self.pre, st.g)
        if g is not FALSE:
            self.panics.append((g, kind, body, span))

    def run(self, fid, args, st):
        """execute a function on argument values -> (value, state) or None"""
        f = self.p.fns[fid]
        if "body" not in f:
            raise Unsupported("no body: " + f["n"])
        body = self.p.body(fid)
        self.executed[body.name] = self.executed.get(body.name, 0) + 1
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in " + body.name)
        self.frame += 1
        fr = self.frame
        st = st.copy()
        if body.spread is not None:
            # closure-call convention: the last argument is passed as a tuple
            k = body.spread
            for i in range(1, k):
                st.mem[(fr, i)] = args[i - 1]
            if len(args) == k and isinstance(args[k - 1], tuple):
                st.mem[(fr, k)] = args[k - 1]
            else:
                st.mem[(fr, k)] = tuple(args[k - 1 :])
        else:
            if len(args) != body.argc:
                if len(args) == 2 and isinstance(args[1], tuple) and 1 + len(args[1]) == body.argc:
                    args = [args[0]] + list(args[1])
                else:
                    raise Unsupported("argument count of " + body.name)
            for i, a in enumerate(args):
                st.mem[(fr, i + 1)] = a
        ctx = RunCtx(body, fr)
        ctx.pend[0] = st
        self.process(body, fr, body.wto, ctx)
        self.depth -= 1
        r = ctx.ret
        if r is None:
            return None
        v = r.mem.get((fr, 0), UNDEF)
        if v is UNDEF and self.ty(body.locals[0])["k"] == "tuple" and not self.ty(body.locals[0])["fields"]:
            v = ()
        for k in [k for k in r.mem if k[0] == fr]:
            del r.mem[k]
        return v, r

    def process(self, body, fr, part, ctx):
        for e in part:
            if isinstance(e, int):
                st = ctx.pend.pop(e, None)
                if st is not None and st.g is not FALSE:
                    self.step(body, fr, e, st, ctx)
            else:
                self.run_loop(body, fr, e, ctx)

    def run_loop(self, body, fr, e, ctx):
        _, head, part = e
        n = 0
        entry = ctx.pend.get(head)
        if entry is None:
            return
        entry = entry.copy()
        verts = wto_vertices(part) | {head}
        ctx_save = None
        while True:
            st = ctx.pend.pop(head, None)
            if st is None or st.g is FALSE:
                return
            n += 1
            if n > 1 and self.feasible is not None and n % 8 == 0 and not self.feasible(st.g):
                return
            if n == 2 and self.loop_hook is not None and not self.progress(entry, st):
                # no concrete progress: summarise by an invariant instead of unrolling
                ctx.pend = ctx_save[0]
                ctx.ret = ctx_save[1]
                del self.panics[ctx_save[2] :]
                return self.loop_hook(self, body, fr, e, verts, entry, st, ctx)
            if n > self.MAX_UNROLL:
                raise Unsupported("loop in %s does not finish" % body.name)
            if n == 1:
                ctx_save = (dict(ctx.pend), ctx.ret, len(self.panics))
            else:
                self.models.accumulators(prev, st)
            prev = dict(st.mem)
            self.step(body, fr, head, st, ctx)
            self.process(body, fr, part, ctx)

    def progress(self, a, b):
        """does some integer of the state change between constants (a concrete counter)?"""
        for k, v in b.mem.items():
            w = a.mem.get(k)
            if w is None or w is v:
                continue
            ta, tb = vterms(w), vterms(v)
            if len(ta) != len(tb):
                return True
            for x, y in zip(ta, tb):
                if x is not y and x.sort == "I" and (const_leaves(x) and const_leaves(y)):
                    if w is not UNDEF and isinstance(v, (Nat, tuple, Ptr, T)):
                        return True
        return False

    def goto(self, ctx, target, st):
        if st.g is FALSE:
            return
        o = ctx.pend.get(target)
        if o is not None:
            # values nobody reads any more are not worth merging
            live = ctx.body.live[target]
            for x in (o, st):
                for k in [k for k in x.mem if k[0] == ctx.fr and k[1] not in live]:
                    del x.mem[k]
            st = merge_states(o, st)
        ctx.pend[target] = st

    def step(self, body, fr, bi, st, ctx):
        blk = body.blocks[bi]
        for s in blk["statements"]:
            k = s["kind"]
            if isinstance(k, str):
                continue
            kk = next(iter(k))
            if kk == "Assign":
                pl, rv = k["Assign"]
                try:
                    v = self.rvalue(st, body, fr, rv, self.place_ty(body, pl))
                except Unsupported as e:
                    if not getattr(e, "where", None):
                        e.where = (body.name, body.spans[bi])
                        e.args = (str(e) + " in %s at %s" % e.where,)
                    raise
                self.put(st, body, fr, pl, v)
            elif kk == "StorageDead":
                st.mem.pop((fr, k[kk]), None)
            elif kk == "SetDiscriminant":
                d = k[kk]
                pl = d["place"]
                old = self.get(st, body, fr, pl)
                vs = dict(old.vs) if isinstance(old, En) else {}
                vs.setdefault(d["variant_index"], ())
                self.put(st, body, fr, pl, En(I(d["variant_index"]), vs))
            elif kk == "Intrinsic":
                if "Assume" in k[kk]:
                    continue
                raise Unsupported("statement %s in %s" % (list(k[kk]), body.name))
            else:
                continue
        t = blk["terminator"]["kind"]
        if t == "Return":
            ctx.ret = st if ctx.ret is None else merge_states(ctx.ret, st)
            return
        if t == "Unreachable":
            self.panic(st, "unreachable", body.name, body.spans[bi])
            return
        if isinstance(t, str):
            raise Unsupported("terminator " + t)
        k = next(iter(t))
        a = t[k]
        if k == "Goto":
            self.goto(ctx, a["target"], st)
        elif k == "SwitchInt":
            v = self.force(self.operand(st, body, fr, a["discr"]))
            if v is UNDEF:
                raise Unsupported("branch on undefined value in %s at %s" % (body.name, body.spans[bi]))
            ty = self.ty(self.op_ty(body, a["discr"]))
            rest = TRUE
            for val, tgt in a["targets"]["branches"]:
                if v.sort == "B":
                    c = v if val else Not(v)
                else:
                    if ty["k"] == "int" and ty["signed"] and val >> (ty["bits"] - 1):
                        val = (val & ((1 << ty["bits"]) - 1)) - (1 << ty["bits"])
                    c = ieq(v, I(val))
                g = And(st.g, rest, c)
                if g is not FALSE:
                    self.goto(ctx, tgt, st.copy(g))
                rest = And(rest, Not(c))
            g = And(st.g, rest)
            if g is not FALSE:
                self.goto(ctx, a["targets"]["otherwise"], st.copy(g))
        elif k == "Drop":
            self.goto(ctx, a["target"], st)
        elif k == "Assert":
            c = self.operand(st, body, fr, a["cond"])
            c = c if a["expected"] else Not(c)
            bad = And(st.g, Not(c))
            if bad is not FALSE and self.impossible is not None and self.impossible(Not(c), st.g):
                bad, c = FALSE, TRUE
            if bad is not FALSE:
                m = a["msg"]
                self.panic(St(st.mem, bad), "assert " + (m if isinstance(m, str) else next(iter(m)) + " " + str(m[next(iter(m))][0] if isinstance(m[next(iter(m))], list) else "")), body.name, body.spans[bi])
            g = And(st.g, c)
            if g is not FALSE:
                self.goto(ctx, a["target"], st.copy(g))
        elif k == "Call":
            self.do_call(body, fr, bi, a, st, ctx)
        else:
            raise Unsupported("terminator " + k)

    def do_call(self, body, fr, bi, a, st, ctx):
        fo = a["func"]
        args = [self.operand(st, body, fr, o) for o in a["args"]]
        fty = self.ty(self.op_ty(body, fo))
        if fty["k"] == "fndef":
            inst = fty["inst"]
        else:
            fv = self.operand(st, body, fr, fo)
            if isinstance(fv, Cond):
                raise Unsupported("call through a conditional function pointer")
            inst = fv.inst
        if inst is None:
            raise Unsupported("unresolved callee %s" % fty["str"])
        dty = self.place_ty(body, a["destination"])
        try:
            r = self.call(inst, args, st, body.name, body.spans[bi], dty)
        except Unsupported as e:
            if not getattr(e, "where", None):
                e.where = (body.name, body.spans[bi])
                e.args = (str(e) + " in %s at %s" % e.where,)
            raise
        if r is None or a["target"] is None:
            return
        v, st2 = r
        self.put(st2, body, fr, a["destination"], v)
        self.goto(ctx, a["target"], st2)

    def call(self, inst, args, st, caller="", span="", dty=None):
        f = self.p.fns[inst]
        if len(args) == 2 and isinstance(args[1], tuple) and CLOSURE.search(f["n"]):
            args = [args[0]] + list(args[1])
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, st)
            if r is not NotImplemented:
                return r
        m = self.mcache.get(inst)
        if m is None:
            m = self.mcache[inst] = self.models.lookup(f["n"]) or False
        if m:
            self.modelled[f["n"]] = self.modelled.get(f["n"], 0) + 1
            c = Call(self, f, args, st, caller, span, dty)
            r = m(c)
            if r is None:
                return None
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], St):
                return r
            return r, st
        if "body" in f:
            return self.run(inst, args, st)
        t = self.ty(dty) if dty is not None else {}
        if t.get("k") == "adt" and t["kind"] in ("Enum", "Struct"):
            # a tuple constructor used as a function
            last = f["n"].rsplit("::", 1)[-1]
            for i, v in enumerate(t["variants"]):
                if v["name"] == last and len(v["fields"]) == len(args):
                    return (En(I(i), {i: tuple(args)}) if t["kind"] == "Enum" else tuple(args)), st
        raise Unsupported("no contract for " + f["n"])

    def call_closure(self, cty, cval, args, st):
        """call a closure (or fn item / fn pointer) value of type cty"""
        t = self.ty(cty)
        if t["k"] in ("ref", "ptr"):
            inner = self.read_ptr(st, cval) if not isinstance(cval, Cond) else cval
            t2 = self.ty(t["to"])
            if t2["k"] == "closure":
                return self.run(t2["inst"], self._clo_args(t2, cval, args), st)
            return self.call_closure(t["to"], inner, args, st)
        if t["k"] == "closure":
            if t["ckind"] != "FnOnce":
                key = self.alloc(st, cval, "clo")
                return self.run(t["inst"], [Ptr(key)] + list(args), st)
            return self.run(t["inst"], [cval] + list(args), st)
        if t["k"] == "fndef":
            return self.call(t["inst"], list(args), st)
        if t["k"] == "fnptr":
            return self.call(cval.inst, list(args), st)
        raise Unsupported("call of " + t["str"])

    def _clo_args(self, t, cval, args):
        return [cval] + list(args)


class RunCtx:
    def __init__(self, body, fr):
        self.body, self.fr = body, fr
        self.pend = {}
        self.ret = None


class Call:
    """arguments of a modelled call"""

    __slots__ = ("ex", "f", "args", "st", "caller", "span", "dty")

    def __init__(self, ex, f, args, st, caller, span, dty):
        self.ex, self.f, self.args, self.st = ex, f, args, st
        self.caller, self.span, self.dty = caller, span, dty

    def targ(self, i):
        """i-th type argument of the callee"""
        ts = [x["ty"] for x in self.f["args"] if x and "ty" in x]
        return ts[i]

    def panic(self, kind, cond=TRUE):
        g = And(self.st.g, cond)
        if g is not FALSE and cond is not TRUE and self.ex.impossible is not None and self.ex.impossible(cond, self.st.g):
            return True
        if g is not FALSE:
            self.ex.panic(St(self.st.mem, g), kind, self.caller, self.span)
        if cond is TRUE:
            return None
        self.st.g = And(self.st.g, Not(cond))
        return self.st.g is not FALSE
