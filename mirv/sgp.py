"""The propagation functions of the crate run symbolically, next to the
specification, and the case analysis shared by the propagation properties."""
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "spec"))

import ex
import loops
import models
import sample
import sgp4 as S
from ex import *
from prove import *
from terms import *


def theta_hook(e, f, args, st):
    if f["n"] == "roots::theta":
        return fn("theta", args[0]), st
    return NotImplemented


def fields(p, ty):
    return [x["name"] for x in p.types[ty]["variants"][0]["fields"]]


def arg_tys(p, fid):
    b = p.fns[fid]["body"]
    return [x["ty"] for x in b["locals"][: b["arg_count"] + 1]]


def variant(p, ty, name):
    for i, v in enumerate(p.types[ty]["variants"]):
        if v["name"] == name:
            return i
    raise Unsupported("no variant " + name)


class Side:
    """symbolic execution of new, initial_state and propagate_from_state"""

    def __init__(s, p):
        s.p = p
        s.e = e = Exec(p, models)
        e.call_hook = theta_hook
        e.loop_hook = loops.summarise
        nf = p.root("new")
        tys = arg_tys(p, nf)
        s.geo = tuple(rvar("g." + x) for x in fields(p, tys[1]))
        s.orb = tuple(rvar("o." + x) for x in fields(p, tys[4]))
        st = St({}, TRUE)
        s.new, st = e.run(nf, [s.geo, rvar("epoch"), rvar("drag"), s.orb], st)
        s.new_panics = list(e.panics)
        s.new_ok = ieq(s.new.disc, I0)
        s.consts = s.new.vs[0][0]
        s.ck = e.alloc(st, s.consts)
        st = st.copy(TRUE)
        s.st0 = st
        e.panics = []
        s.init, st1 = e.run(p.root("initial_state"), [Ptr(s.ck)], st)
        s.init_panics = list(e.panics)
        # roles of the state's numbers
        sv = tuple(rvar("s.%d" % i) for i in range(3))
        ini = s.init.vs[1][0]
        if not (isinstance(ini, tuple) and len(ini) == 3):
            raise Unsupported("resonance state layout")
        k = e.alloc(st, sv)
        tv, _ = e.run(p.root("state_t"), [Ptr(k)], st)
        it = [i for i in range(3) if sv[i] is tv]
        no = rvar("o.mean_motion")
        im = [i for i in range(3) if i not in it and (ini[i] is no or no in leaves(ini[i], 20))]
        if len(it) != 1 or len(im) != 1:
            raise Unsupported("resonance state layout")
        s.it, s.im = it[0], im[0]
        s.il = 3 - s.it - s.im
        s.ini = ini
        s.sv = sv
        s.geo_s = S.Grav(*[rvar("g." + x) for x in ("ae", "ke", "j2", "j3", "j4")])
        s.orb_s = S.Orb(*[rvar("o." + x) for x in sample.ORB])

    def propagate(s, has, afspc):
        """propagate_from_state with an arbitrary state (has=TRUE), none (FALSE) or either"""
        e = s.e
        e.panics = []
        e.loops = []
        st = s.st0.copy(TRUE)
        sk = e.alloc(st, s.sv)
        opt = En(ite(has, I1, I0), {0: (), 1: (Ptr(sk),)})
        f = s.p.root("propagate_from_state")
        r, st = e.run(f, [Ptr(s.ck), rvar("t"), opt, afspc], st)
        o = Out()
        o.disc = r.disc
        o.err = r.vs.get(1)
        o.panics = list(e.panics)
        o.loops = list(e.loops)
        o.ok = ieq(r.disc, I0)
        o.state = st.mem[sk]
        o.returns = st.g
        rty = s.p.types[arg_tys(s.p, f)[0]]
        pt = rty["variants"][0]["fields"][0]["ty"]
        fs = fields(s.p, pt)
        pr = r.vs[0][0]
        o.rv = list(pr[fs.index("position")]) + list(pr[fs.index("velocity")])
        o.ety = rty["variants"][1]["fields"][0]["ty"]
        return o


class Out:
    pass


class Spec:
    """the published theory on the same symbols"""

    def __init__(q, side):
        q.t = rvar("t")
        q.g, q.o = side.geo_s, side.orb_s
        q.k = S.Init(q.g, rvar("drag"), q.o)
        q.theta0 = fn("theta", rvar("epoch"))

    def near(q):
        raw = S.near_earth_raw(q.k, q.t)
        mean = S.Mean(S.floor_em(raw.em), raw.incl, raw.node, raw.argp, raw.m, raw.a)
        return S.em_out(raw.em), raw.em, mean

    def deep(q):
        if not hasattr(q, "_d"):
            q._d = S.Deep(q.k, rvar("epoch"))
        return q._d

    def deep_plain(q):
        d = q.deep()
        return S.deep_raw(d, q.t, q.k.ao, d.anomaly(q.t))

    def resonance(q, kind):
        return (S.OneDay if kind == "day" else S.HalfDay)(q.deep(), q.theta0)

    def deep_resonant(q, r, atime, xli, xni):
        d = q.deep()
        nm, xl = S.extrapolate(r, q.t, atime, xli, xni)
        theta = S.tm.rem(S.tm.add(q.theta0, S.tm.mul(q.t, R(S.RPTIM))), R(S.TWOPI))
        m = r.anomaly(xl, d.node(q.t), d.argp(q.t), theta)
        return S.deep_raw(d, q.t, S.pow23(q.g.ke / nm), m)

    def periodics(q, raw, afspc):
        return S.apply_periodics(q.deep(), raw, q.t, afspc)

    def final(q, mean):
        f = S.Final(q.g, mean)
        return f.r + f.v, f
