"""The published SGP4/SDP4 equations, as terms.

Written from the theory ("Revisiting Spacetrack Report #3": initl, sgp4init,
dscom, dsinit, dspace, dpper, sgp4), keeping that document's variable names and
organisation, which are not those of the crate.  Two published conventions are
taken from the crate's documentation where the document leaves a choice: the
eccentricity 0.715 exactly belongs to the upper g520 polynomial, and a Kepler
correction below 1e-12 is not applied.
"""
from ops import *

# constants of the lunisolar and resonance theory
ZES, ZEL = 0.01675, 0.05490
ZNS, ZNL = 1.19459e-5, 1.5835218e-4
C1SS, C1L = 2.9864797e-6, 4.7968065e-7
ZSINIS, ZCOSIS = 0.39785416, 0.91744867
ZCOSGS, ZSINGS = 0.1945905, -0.98088458
RPTIM = 4.37526908801129966e-3
Q22, Q31, Q33 = 1.7891679e-6, 2.1460748e-6, 2.2123015e-7
ROOT22, ROOT32, ROOT44 = 1.7891679e-6, 3.7393792e-7, 7.3636953e-9
ROOT52, ROOT54 = 1.1428639e-7, 2.1765803e-9
FASX2, FASX4, FASX6 = 0.13130908, 2.8843198, 0.37448087
G22, G32, G44, G52, G54 = 5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898
STEPP, STEP2 = 720.0, 259200.0


class Grav:
    def __init__(self, ae, ke, j2, j3, j4):
        self.ae, self.ke, self.j2, self.j3, self.j4 = ae, ke, j2, j3, j4


class Orb:
    def __init__(self, inclo, nodeo, ecco, argpo, mo, no):
        self.inclo, self.nodeo, self.ecco = inclo, nodeo, ecco
        self.argpo, self.mo, self.no = argpo, mo, no


def brouwer_mean_motion(g, ecco, inclo, no_kozai):
    """un-Kozai (initl)"""
    eccsq = ecco**2
    omeosq = 1 - eccsq
    rteosq = sqrt(omeosq)
    cosio = cos(inclo)
    ak = pow23(g.ke / no_kozai)
    d1 = 0.75 * g.j2 * (3 * cosio * cosio - 1) / (rteosq * omeosq)
    dl = d1 / (ak * ak)
    adel = ak * (1 - dl * dl - dl * (tm.R(tm.Fraction(1, 3)) + 134 * dl * dl / 81))
    dl = d1 / (adel * adel)
    return no_kozai / (1 + dl)


class Init:
    """epoch quantities shared by both theories (initl, first part of sgp4init)"""

    def __init__(s, g, bstar, o):
        s.g, s.bstar, s.o = g, bstar, o
        ecco, no = o.ecco, o.no
        s.cosio = cosio = cos(o.inclo)
        s.sinio = sinio = sin(o.inclo)
        s.cosio2 = cosio2 = cosio * cosio
        s.cosio4 = cosio4 = cosio2 * cosio2
        s.eccsq = eccsq = ecco * ecco
        s.omeosq = omeosq = 1 - eccsq
        s.rteosq = rteosq = sqrt(omeosq)
        s.ao = ao = pow23(g.ke / no)
        po = ao * omeosq
        s.con42 = con42 = 1 - 5 * cosio2
        s.con41 = con41 = -con42 - cosio2 - cosio2
        posq = po * po
        s.rp = rp = ao * (1 - ecco)

        # drag: s4 and qzms24 depend on the perigee height (km)
        perige = (rp - 1) * g.ae
        height = cond(lt(perige, 98.0), 20.0, cond(lt(perige, 156.0), perige - 78.0, 78.0))
        s.sfour = sfour = height / g.ae + 1
        s.qzms24 = qzms24 = ((120 - height) / g.ae) ** 4

        pinvsq = 1 / posq
        s.tsi = tsi = 1 / (ao - sfour)
        s.eta = eta = ao * ecco * tsi
        etasq = eta * eta
        eeta = ecco * eta
        s.psisq = psisq = absv(1 - etasq)
        s.coef = coef = qzms24 * tsi**4
        s.coef1 = coef1 = coef / (sqrt(psisq) ** 7)
        cc2 = coef1 * no * (
            ao * (1 + 1.5 * etasq + eeta * (4 + etasq))
            + 0.375 * g.j2 * tsi / psisq * con41 * (8 + 3 * etasq * (8 + etasq))
        )
        s.cc1 = cc1 = bstar * cc2
        s.x1mth2 = x1mth2 = 1 - cosio2
        s.cc4 = 2 * no * coef1 * ao * omeosq * (
            eta * (2 + 0.5 * etasq)
            + ecco * (0.5 + 2 * etasq)
            - g.j2 * tsi / (ao * psisq) * (
                -3 * con41 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta))
                + 0.75 * x1mth2 * (2 * etasq - eeta * (1 + etasq)) * cos(2 * o.argpo)
            )
        )
        s.cc5 = 2 * coef1 * ao * omeosq * (1 + 2.75 * (etasq + eeta) + eeta * etasq)

        # secular gravity
        temp1 = 1.5 * g.j2 * pinvsq * no
        temp2 = 0.5 * temp1 * g.j2 * pinvsq
        temp3 = -0.46875 * g.j4 * pinvsq * pinvsq * no
        s.mdot = no + 0.5 * temp1 * rteosq * con41 + 0.0625 * temp2 * rteosq * (13 - 78 * cosio2 + 137 * cosio4)
        s.argpdot = (
            -0.5 * temp1 * con42
            + 0.0625 * temp2 * (7 - 114 * cosio2 + 395 * cosio4)
            + temp3 * (3 - 36 * cosio2 + 49 * cosio4)
        )
        xhdot1 = -temp1 * cosio
        s.nodedot = xhdot1 + (0.5 * temp2 * (4 - 19 * cosio2) + 2 * temp3 * (3 - 7 * cosio2)) * cosio
        s.nodecf = 3.5 * omeosq * xhdot1 * cc1
        s.t2cof = 1.5 * cc1

    def simplified(s):
        """perigee below 220 km: truncated drag"""
        return lt(s.rp, 220.0 / s.g.ae + 1)


class Mean:
    """mean elements at t, before the long-period and short-period terms"""

    def __init__(s, em, incl, node, argp, m, a):
        s.em, s.incl, s.node, s.argp, s.m, s.a = em, incl, node, argp, m, a


def near_earth_raw(k, t):
    """secular gravity and drag (sgp4); em before the limits"""
    o, g = k.o, k.g
    xmdf = o.mo + k.mdot * t
    argpdf = o.argpo + k.argpdot * t
    nodedf = o.nodeo + k.nodedot * t
    t2 = t * t
    nodem = nodedf + k.nodecf * t2
    simp = k.simplified()

    # full drag terms
    cc1sq = k.cc1 * k.cc1
    d2 = 4 * k.ao * k.tsi * cc1sq
    temp = d2 * k.tsi * k.cc1 / 3
    d3 = (17 * k.ao + k.sfour) * temp
    d4 = 0.5 * temp * k.ao * k.tsi * (221 * k.ao + 31 * k.sfour) * k.cc1
    t3cof = d2 + 2 * cc1sq
    t4cof = 0.25 * (3 * d3 + k.cc1 * (12 * d2 + 10 * cc1sq))
    t5cof = 0.2 * (3 * d4 + 12 * k.cc1 * d3 + 6 * d2 * d2 + 15 * cc1sq * (2 * d2 + cc1sq))
    eccentric = gt(o.ecco, 1.0e-4)
    cc3 = -2 * k.coef * k.tsi * (g.j3 / g.j2) * o.no * k.sinio / o.ecco
    omgcof = k.bstar * cc3 * cos(o.argpo)
    xmcof = -tm.R(tm.Fraction(2, 3)) * k.coef * k.bstar / (o.ecco * k.eta)
    delmo = (1 + k.eta * cos(o.mo)) ** 3
    delm = xmcof * ((1 + k.eta * cos(xmdf)) ** 3 - delmo)
    shift = cond(eccentric, omgcof * t + delm, 0)
    mm_full = xmdf + shift
    argpm_full = argpdf - shift
    tempa_full = 1 - k.cc1 * t - d2 * t2 - d3 * t2 * t - d4 * t2 * t2
    tempe_full = k.bstar * k.cc4 * t + k.bstar * k.cc5 * (sin(mm_full) - sin(o.mo))
    templ_full = k.t2cof * t2 + t3cof * t2 * t + t2 * t2 * (t4cof + t * t5cof)

    mm = cond(simp, xmdf, mm_full)
    argpm = cond(simp, argpdf, argpm_full)
    tempa = cond(simp, 1 - k.cc1 * t, tempa_full)
    tempe = cond(simp, k.bstar * k.cc4 * t, tempe_full)
    templ = cond(simp, k.t2cof * t2, templ_full)

    am = k.ao * tempa * tempa
    em = o.ecco - tempe
    return Mean(em, o.inclo, nodem, argpm, mm + o.no * templ, am)


class ThirdBody:
    """dscom for one perturbing body, with the secular rates of dsinit"""

    def __init__(b, k, zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc, zn, ze):
        o = k.o
        em, emsq, betasq, rtemsq = o.ecco, k.eccsq, k.omeosq, k.rteosq
        snodm, cnodm = None, None
        sinim, cosim = k.sinio, k.cosio
        sinomm, cosomm = sin(o.argpo), cos(o.argpo)
        a1 = zcosg * zcosh + zsing * zcosi * zsinh
        a3 = -zsing * zcosh + zcosg * zcosi * zsinh
        a7 = -zcosg * zsinh + zsing * zcosi * zcosh
        a8 = zsing * zsini
        a9 = zsing * zsinh + zcosg * zcosi * zcosh
        a10 = zcosg * zsini
        a2 = cosim * a7 + sinim * a8
        a4 = cosim * a9 + sinim * a10
        a5 = -sinim * a7 + cosim * a8
        a6 = -sinim * a9 + cosim * a10
        x1 = a1 * cosomm + a2 * sinomm
        x2 = a3 * cosomm + a4 * sinomm
        x3 = -a1 * sinomm + a2 * cosomm
        x4 = -a3 * sinomm + a4 * cosomm
        x5 = a5 * sinomm
        x6 = a6 * sinomm
        x7 = a5 * cosomm
        x8 = a6 * cosomm
        z31 = 12 * x1 * x1 - 3 * x3 * x3
        z32 = 24 * x1 * x2 - 6 * x3 * x4
        z33 = 12 * x2 * x2 - 3 * x4 * x4
        z1 = 3 * (a1 * a1 + a2 * a2) + z31 * emsq
        z2 = 6 * (a1 * a3 + a2 * a4) + z32 * emsq
        z3 = 3 * (a3 * a3 + a4 * a4) + z33 * emsq
        z11 = -6 * a1 * a5 + emsq * (-24 * x1 * x7 - 6 * x3 * x5)
        z12 = -6 * (a1 * a6 + a3 * a5) + emsq * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5))
        z13 = -6 * a3 * a6 + emsq * (-24 * x2 * x8 - 6 * x4 * x6)
        z21 = 6 * a2 * a5 + emsq * (24 * x1 * x5 - 6 * x3 * x7)
        z22 = 6 * (a4 * a5 + a2 * a6) + emsq * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8))
        z23 = 6 * a4 * a6 + emsq * (24 * x2 * x6 - 6 * x4 * x8)
        z1 = z1 + z1 + betasq * z31
        z2 = z2 + z2 + betasq * z32
        z3 = z3 + z3 + betasq * z33
        s3 = cc * (1 / o.no)
        s2 = -0.5 * s3 / rtemsq
        s4 = s3 * rtemsq
        s1 = -15 * em * s4
        s5 = x1 * x3 + x2 * x4
        s6 = x2 * x3 + x1 * x4
        s7 = x2 * x4 - x1 * x3
        # long-period coefficients
        b.e2, b.e3 = 2 * s1 * s6, 2 * s1 * s7
        b.i2, b.i3 = 2 * s2 * z12, 2 * s2 * (z13 - z11)
        b.l2, b.l3 = -2 * s3 * z2, -2 * s3 * (z3 - z1)
        b.l4 = -2 * s3 * (-21 - 9 * emsq) * ze
        b.gh2, b.gh3, b.gh4 = 2 * s4 * z32, 2 * s4 * (z33 - z31), -18 * s4 * ze
        b.h2, b.h3 = -2 * s2 * z22, -2 * s2 * (z23 - z21)
        # secular rates
        b.dedt = s1 * zn * s5
        b.didt = s2 * zn * (z11 + z13)
        b.dmdt = -zn * s3 * (z1 + z3 - 14 - 6 * emsq)
        sgs = s4 * zn * (z31 + z33 - 6)
        shs = -zn * s2 * (z21 + z23)
        low = tm.Or(lt(o.inclo, 5.2359877e-2), gt(o.inclo, PI - 5.2359877e-2))
        b.dnodt = cond(low, 0, shs / sinim)
        b.domdt = sgs - cosim * b.dnodt

    def periodics(b, z0, zn, ze, t):
        zm = z0 + zn * t
        zf = zm + 2 * ze * sin(zm)
        sinzf = sin(zf)
        f2 = 0.5 * sinzf * sinzf - 0.25
        f3 = -0.5 * sinzf * cos(zf)
        return (
            b.e2 * f2 + b.e3 * f3,
            b.i2 * f2 + b.i3 * f3,
            b.l2 * f2 + b.l3 * f3 + b.l4 * sinzf,
            b.gh2 * f2 + b.gh3 * f3 + b.gh4 * sinzf,
            b.h2 * f2 + b.h3 * f3,
        )


class Deep:
    """dscom and dsinit"""

    def __init__(d, k, epoch):
        d.k = k
        o = k.o
        day = epoch * 365.25 + 36525
        snodm, cnodm = sin(o.nodeo), cos(o.nodeo)
        d.sun = ThirdBody(k, ZCOSGS, ZSINGS, ZCOSIS, ZSINIS, cnodm, snodm, C1SS, ZNS, ZES)
        d.zmos = 6.2565837 + 0.017201977 * day
        xnodce = (4.5236020 - 9.2422029e-4 * day) % TWOPI
        stem, ctem = sin(xnodce), cos(xnodce)
        zcosil = 0.91375164 - 0.03568096 * ctem
        zsinil = sqrt(1 - zcosil * zcosil)
        zsinhl = 0.089683511 * stem / zsinil
        zcoshl = sqrt(1 - zsinhl * zsinhl)
        gam = 5.8351514 + 0.0019443680 * day
        zx = 0.39785416 * stem / zsinil
        zy = zcoshl * ctem + 0.91744867 * zsinhl * stem
        zx = gam + atan2(zx, zy) - xnodce
        zcosgl, zsingl = cos(zx), sin(zx)
        zcosh = zcoshl * cnodm + zsinhl * snodm
        zsinh = snodm * zcoshl - cnodm * zsinhl
        d.moon = ThirdBody(k, zcosgl, zsingl, zcosil, zsinil, zcosh, zsinh, C1L, ZNL, ZEL)
        d.zmol = -1.1151842 + 0.228027132 * day
        d.dedt = d.sun.dedt + d.moon.dedt
        d.didt = d.sun.didt + d.moon.didt
        d.dmdt = d.sun.dmdt + d.moon.dmdt
        d.dnodt = d.sun.dnodt + d.moon.dnodt
        d.domdt = d.sun.domdt + d.moon.domdt

    # secular angles: gravity and lunisolar rates, drag on the node
    def node(d, t):
        k = d.k
        return k.o.nodeo + (k.nodedot + d.dnodt) * t + k.nodecf * t * t

    def argp(d, t):
        k = d.k
        return k.o.argpo + (k.argpdot + d.domdt) * t

    def anomaly(d, t):
        k = d.k
        return k.o.mo + (k.mdot + d.dmdt) * t


def is_one_day(o):
    return tm.And(gt(o.no, 0.0034906585), lt(o.no, 0.0052359877))


def is_half_day(o):
    return tm.And(ge(o.no, 8.26e-3), le(o.no, 9.24e-3), ge(o.ecco, 0.5))


def is_near_earth(o):
    return gt(o.no, 2 * PI / 225.0)


class OneDay:
    """24 h resonance (dsinit, irez = 1)"""

    def __init__(r, d, theta0):
        k = d.k
        o = k.o
        r.d = d
        r.theta0 = theta0
        aonv = 1 / k.ao
        cosim, sinim, emsq, nm = k.cosio, k.sinio, k.eccsq, o.no
        g200 = 1 + emsq * (-2.5 + 0.8125 * emsq)
        g310 = 1 + 2 * emsq
        g300 = 1 + emsq * (-6 + 6.60937 * emsq)
        f220 = 0.75 * (1 + cosim) * (1 + cosim)
        f311 = 0.9375 * sinim * sinim * (1 + 3 * cosim) - 0.75 * (1 + cosim)
        f330 = 1 + cosim
        f330 = 1.875 * f330 * f330 * f330
        del1 = 3 * nm * nm * aonv * aonv
        r.del2 = 2 * del1 * f220 * g200 * Q22
        r.del3 = 3 * del1 * f330 * g300 * Q33 * aonv
        r.del1 = del1 * f311 * g310 * Q31 * aonv
        r.xlamo = (o.mo + o.nodeo + o.argpo - theta0) % TWOPI
        xpidot = k.argpdot + k.nodedot
        r.xfact = k.mdot + xpidot - RPTIM + d.dmdt + d.domdt + d.dnodt - o.no

    def rates(r, atime, xli, xni):
        xndt = r.del1 * sin(xli - FASX2) + r.del2 * sin(2 * (xli - FASX4)) + r.del3 * sin(3 * (xli - FASX6))
        xldot = xni + r.xfact
        xnddt = (
            r.del1 * cos(xli - FASX2) + 2 * r.del2 * cos(2 * (xli - FASX4)) + 3 * r.del3 * cos(3 * (xli - FASX6))
        ) * xldot
        return xldot, xndt, xnddt

    def anomaly(r, xl, node, argp, theta):
        return xl - node - argp + theta


class HalfDay:
    """12 h resonance (dsinit, irez = 2)"""

    def __init__(r, d, theta0):
        k = d.k
        o = k.o
        r.d = d
        r.theta0 = theta0
        aonv = 1 / k.ao
        cosim, sinim, emsq, em, nm = k.cosio, k.sinio, k.eccsq, o.ecco, o.no
        cosisq = cosim * cosim
        sini2 = sinim * sinim
        eoc = em * emsq

        def poly(a, b, c_, d_=0.0):
            return a + b * em + c_ * emsq + d_ * eoc

        g201 = -0.306 - (em - 0.64) * 0.440
        low = le(em, 0.65)
        g211 = cond(low, poly(3.616, -13.2470, 16.2900), poly(-72.099, 331.819, -508.738, 266.724))
        g310 = cond(low, poly(-19.302, 117.3900, -228.4190, 156.5910), poly(-346.844, 1582.851, -2415.925, 1246.113))
        g322 = cond(low, poly(-18.9068, 109.7927, -214.6334, 146.5816), poly(-342.585, 1554.908, -2366.899, 1215.972))
        g410 = cond(low, poly(-41.122, 242.6940, -471.0940, 313.9530), poly(-1052.797, 4758.686, -7193.992, 3651.957))
        g422 = cond(low, poly(-146.407, 841.8800, -1629.014, 1083.4350), poly(-3581.690, 16178.110, -24462.770, 12422.520))
        g520 = cond(
            low,
            poly(-532.114, 3017.977, -5740.032, 3708.2760),
            cond(lt(em, 0.715), poly(1464.74, -4664.75, 3763.64), poly(-5149.66, 29936.92, -54087.36, 31324.56)),
        )
        mid = lt(em, 0.7)
        g533 = cond(mid, poly(-919.22770, 4988.6100, -9064.7700, 5542.21), poly(-37995.780, 161616.52, -229838.20, 109377.94))
        g521 = cond(mid, poly(-822.71072, 4568.6173, -8491.4146, 5337.524), poly(-51752.104, 218913.95, -309468.16, 146349.42))
        g532 = cond(mid, poly(-853.66600, 4690.2500, -8624.7700, 5341.4), poly(-40023.880, 170470.89, -242699.48, 115605.82))

        f220 = 0.75 * (1 + 2 * cosim + cosisq)
        f221 = 1.5 * sini2
        f321 = 1.875 * sinim * (1 - 2 * cosim - 3 * cosisq)
        f322 = -1.875 * sinim * (1 + 2 * cosim - 3 * cosisq)
        f441 = 35 * sini2 * f220
        f442 = 39.3750 * sini2 * sini2
        f522 = 9.84375 * sinim * (
            sini2 * (1 - 2 * cosim - 5 * cosisq) + 0.33333333 * (-2 + 4 * cosim + 6 * cosisq)
        )
        f523 = sinim * (
            4.92187512 * sini2 * (-2 - 4 * cosim + 10 * cosisq) + 6.56250012 * (1 + 2 * cosim - 3 * cosisq)
        )
        f542 = 29.53125 * sinim * (2 - 8 * cosim + cosisq * (-12 + 8 * cosim + 10 * cosisq))
        f543 = 29.53125 * sinim * (-2 - 8 * cosim + cosisq * (12 + 8 * cosim - 10 * cosisq))

        temp1 = 3 * nm * nm * aonv * aonv
        temp = temp1 * ROOT22
        r.d2201 = temp * f220 * g201
        r.d2211 = temp * f221 * g211
        temp1 = temp1 * aonv
        temp = temp1 * ROOT32
        r.d3210 = temp * f321 * g310
        r.d3222 = temp * f322 * g322
        temp1 = temp1 * aonv
        temp = 2 * temp1 * ROOT44
        r.d4410 = temp * f441 * g410
        r.d4422 = temp * f442 * g422
        temp1 = temp1 * aonv
        temp = temp1 * ROOT52
        r.d5220 = temp * f522 * g520
        r.d5232 = temp * f523 * g532
        temp = 2 * temp1 * ROOT54
        r.d5421 = temp * f542 * g521
        r.d5433 = temp * f543 * g533
        r.xlamo = (o.mo + o.nodeo + o.nodeo - theta0 - theta0) % TWOPI
        r.xfact = k.mdot + d.dmdt + 2 * (k.nodedot + d.dnodt - RPTIM) - o.no

    def rates(r, atime, xli, xni):
        k = r.d.k
        xomi = k.o.argpo + k.argpdot * atime
        x2omi = xomi + xomi
        x2li = xli + xli
        terms = [
            (r.d2201, x2omi + xli - G22, 1),
            (r.d2211, xli - G22, 1),
            (r.d3210, xomi + xli - G32, 1),
            (r.d3222, -xomi + xli - G32, 1),
            (r.d4410, x2omi + x2li - G44, 2),
            (r.d4422, x2li - G44, 2),
            (r.d5220, xomi + xli - G52, 1),
            (r.d5232, -xomi + xli - G52, 1),
            (r.d5421, xomi + x2li - G54, 2),
            (r.d5433, -xomi + x2li - G54, 2),
        ]
        xndt = c(0)
        xnddt = c(0)
        for co, ang, m in terms:
            xndt = xndt + co * sin(ang)
            xnddt = xnddt + m * co * cos(ang)
        xldot = xni + r.xfact
        return xldot, xndt, xnddt * xldot

    def anomaly(r, xl, node, argp, theta):
        return xl - 2 * node + 2 * theta


def loop_continues(t, atime):
    """a whole step still fits between the state's time and t"""
    return cond(gt(t, 0), ge(t - atime, STEPP), le(t - atime, -STEPP))


def loop_step(r, t, atime, xli, xni):
    """one 720 min Euler-Maclaurin step towards t"""
    delt = cond(gt(t, 0), STEPP, -STEPP)
    xldot, xndt, xnddt = r.rates(atime, xli, xni)
    return atime + delt, xli + xldot * delt + xndt * STEP2, xni + xndt * delt + xnddt * STEP2


def extrapolate(r, t, atime, xli, xni):
    ft = t - atime
    xldot, xndt, xnddt = r.rates(atime, xli, xni)
    nm = xni + xndt * ft + xnddt * ft * ft * 0.5
    xl = xli + xldot * ft + xndt * ft * ft * 0.5
    return nm, xl


def deep_raw(d, t, a, m):
    """secular elements before the periodics; a, m: before drag"""
    k = d.k
    o = k.o
    em = o.ecco + d.dedt * t - k.bstar * k.cc4 * t
    tempa = 1 - k.cc1 * t
    return Mean(em, o.inclo + d.didt * t, d.node(t), d.argp(t), m + o.no * k.t2cof * t * t, a * tempa * tempa)


def floor_em(em):
    return fmax(em, 1.0e-6)


class Perturbed:
    """lunisolar long-period periodics (dpper)"""

    def __init__(p, d, t):
        ss = d.sun.periodics(d.zmos, ZNS, ZES, t)
        ll = d.moon.periodics(d.zmol, ZNL, ZEL, t)
        p.pe, p.pinc, p.pl, p.pgh, p.ph = [a + b for a, b in zip(ss, ll)]


def lyddane(incl):
    return lt(incl, 0.2)


def apply_periodics(d, mean, t, afspc):
    p = Perturbed(d, t)
    inclp = mean.incl + p.pinc
    sinip, cosip = sin(inclp), cos(inclp)
    # direct application
    ph = p.ph / sinip
    argp1 = mean.argp + p.pgh - cosip * ph
    node1 = mean.node + ph
    # Lyddane modification
    sinop, cosop = sin(mean.node), cos(mean.node)
    alfdp = sinip * sinop + (p.ph * cosop + p.pinc * cosip * sinop)
    betdp = sinip * cosop + (-p.ph * sinop + p.pinc * cosip * cosop)
    xnoh = mean.node % TWOPI
    nodep = atan2(alfdp, betdp)
    node2 = cond(lt(nodep, xnoh - PI), nodep + TWOPI, cond(gt(nodep, xnoh + PI), nodep - TWOPI, nodep))
    reduced = tm.ite(afspc, modulo(mean.node, TWOPI), xnoh)
    argp2 = mean.argp + p.pgh + cosip * (xnoh - node2) - p.pinc * reduced * sinip
    low = lyddane(inclp)
    return Mean(
        floor_em(mean.em) + p.pe,
        inclp,
        cond(low, node2, node1),
        cond(low, argp2, argp1),
        mean.m + p.pl,
        mean.a,
    )


class Final:
    """long-period terms, Kepler, short-period terms, position and velocity"""

    def __init__(f, g, mean):
        e, incl, node, argp, m, a = mean.em, mean.incl, mean.node, mean.argp, mean.m, mean.a
        sinip, cosip = sin(incl), cos(incl)
        aycof = -0.5 * (g.j3 / g.j2) * sinip
        den = cond(gt(absv(cosip + 1), 1.5e-12), 1 + cosip, 1.5e-12)
        xlcof = -0.25 * (g.j3 / g.j2) * sinip * (3 + 5 * cosip) / den
        cosisq = cosip * cosip
        con41 = 3 * cosisq - 1
        x1mth2 = 1 - cosisq
        x7thm1 = 7 * cosisq - 1
        nm = g.ke / pow32(a)
        axnl = e * cos(argp)
        temp = 1 / (a * (1 - e * e))
        aynl = e * sin(argp) + temp * aycof
        u = (m + argp + temp * xlcof * axnl) % TWOPI
        # Newton iterates; the solution is the first one whose correction is
        # below 1e-12, or the one after ten corrections
        its = [u]
        small = []
        for _ in range(10):
            x = its[-1]
            sineo1, coseo1 = sin(x), cos(x)
            tem5 = (u - aynl * coseo1 + axnl * sineo1 - x) / (1 - coseo1 * axnl - sineo1 * aynl)
            small.append(lt(absv(tem5), 1.0e-12))
            its.append(x + cond(lt(tem5, -0.95), -0.95, cond(gt(tem5, 0.95), 0.95, tem5)))
        eo1 = its[-1]
        for s_, x in zip(reversed(small), reversed(its[:-1])):
            eo1 = tm.ite(s_, x, eo1)
        sineo1, coseo1 = sin(eo1), cos(eo1)
        ecose = axnl * coseo1 + aynl * sineo1
        esine = axnl * sineo1 - aynl * coseo1
        el2 = axnl * axnl + aynl * aynl
        f.pl = pl = a * (1 - el2)
        rl = a * (1 - ecose)
        rdotl = sqrt(a) * esine / rl
        rvdotl = sqrt(pl) / rl
        betal = sqrt(1 - el2)
        temp = esine / (1 + betal)
        sinu = a / rl * (sineo1 - aynl - axnl * temp)
        cosu = a / rl * (coseo1 - axnl + aynl * temp)
        su = atan2(sinu, cosu)
        sin2u = (cosu + cosu) * sinu
        cos2u = 1 - 2 * sinu * sinu
        temp = 1 / pl
        temp1 = 0.5 * g.j2 * temp
        temp2 = temp1 * temp
        mrt = rl * (1 - 1.5 * temp2 * betal * con41) + 0.5 * temp1 * x1mth2 * cos2u
        su = su - 0.25 * temp2 * x7thm1 * sin2u
        xnode = node + 1.5 * temp2 * cosip * sin2u
        xinc = incl + 1.5 * temp2 * cosip * sinip * cos2u
        mvt = rdotl - nm * temp1 * x1mth2 * sin2u / g.ke
        rvdot = rvdotl + nm * temp1 * (x1mth2 * cos2u + 1.5 * con41) / g.ke
        sinsu, cossu = sin(su), cos(su)
        snod, cnod = sin(xnode), cos(xnode)
        sini, cosi = sin(xinc), cos(xinc)
        xmx = -snod * cosi
        xmy = cnod * cosi
        ux = xmx * sinsu + cnod * cossu
        uy = xmy * sinsu + snod * cossu
        uz = sini * sinsu
        vx = xmx * cossu - cnod * sinsu
        vy = xmy * cossu - snod * sinsu
        vz = sini * cossu
        vkmpersec = g.ae * g.ke / 60
        f.r = [mrt * x * g.ae for x in (ux, uy, uz)]
        f.v = [(mvt * x + rvdot * y) * vkmpersec for x, y in ((ux, vx), (uy, vy), (uz, vz))]


def em_out(em):
    """mean eccentricity limits"""
    return tm.Not(tm.And(ge(em, -0.001), lt(em, 1.0)))


def ep_out(em):
    """perturbed eccentricity limits"""
    return tm.Not(tm.And(ge(em, 0.0), le(em, 1.0)))


def iau_gmst(epoch):
    """Greenwich mean sidereal time (IAU-82), epoch in Julian years of J2000"""
    tut1 = epoch / 100
    sec = -6.2e-6 * tut1**3 + 0.093104 * tut1**2 + (876600.0 * 3600 + 8640184.812866) * tut1 + 67310.54841
    return modulo(sec * (PI / 180.0) / 240.0, TWOPI)


def afspc_gmst(epoch):
    """AFSPC sidereal time from days since 31 December 1969 0h"""
    ts70 = epoch * 365.25 + 10958.5
    ds70 = floor(ts70 + 1.0e-8)
    tfrac = ts70 - ds70
    c1 = 1.72027916940703639e-2
    return modulo(1.7321343856509374 + c1 * ds70 + (c1 + TWOPI) * tfrac + ts70 * ts70 * 5.07551419432269442e-15, TWOPI)
