"""C14: every TLE field is decoded from its own columns."""
from tles import *
from c12 import PARSERS

EPOCH = [("Line1", 18, 20), ("Line1", 20, 32), ("Line1", 18, 32)]
DIRECT = ["norad_id", "mean_motion_dot", "ephemeris_type", "element_set_number", "inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion", "revolution_number"]
KEYS = {"mean_motion_dot": "ndot", "inclination": "inc", "right_ascension": "raan", "eccentricity": "e", "argument_of_perigee": "argp", "mean_anomaly": "m", "mean_motion": "n"}


def same_float(got, want, slack=0.0):
    if want != want:
        return got != got
    return got == want or abs(got - want) <= slack * abs(want)


def judge(c, ans):
    name, l1, l2 = c
    if tle.c_structure(l1, l2) is not None:
        return None
    vals, bad = tle.c_fields(l1, l2)
    epoch = [x for x in bad if x in EPOCH]
    if not ans.startswith("ok"):
        e = parse_err(ans)
        if e is None:
            return "a result"
        if e[1:] in EPOCH:
            y, d = vals["epoch year"], vals["epoch day"]
            if y is None and d is not None and e[1:] == EPOCH[1] or d is None and y is not None and e[1:] == EPOCH[0]:
                return "an error at %s" % bad[0][0]
            return None if bad else None
        if e[1:] not in bad:
            return "an error at one of %s" % bad if bad else "acceptance"
        return None
    if [x for x in bad if x not in EPOCH] or vals["epoch year"] is None or vals["epoch day"] is None:
        return "an error at one of %s" % bad
    w = words(ans)
    t = lambda s: "none" if s is None else "some:" + s.encode().hex()
    if w["name"] != ("none" if name is None else "some:" + name.hex()):
        return "the given object name"
    if w["id"] != t(vals["designator"]):
        return "designator %r" % vals["designator"]
    if w["class"] != {85: "Unclassified", 67: "Classified", 83: "Secret"}[l1[7]]:
        return "classification %s" % chr(l1[7])
    for k, f in (("norad", "norad_id"), ("set", "element_set_number"), ("rev", "revolution_number"), ("eph", "ephemeris_type")):
        if int(w[k]) != vals[f]:
            return "%s %d" % (f, vals[f])
    for f, k in KEYS.items():
        if not same_float(unbits(w[k]), vals[f], 4e-16):
            return "%s %r" % (f, vals[f])
    for k, m, x in (("nddot", "second derivative mantissa", "second derivative exponent"), ("drag", "drag mantissa", "drag exponent")):
        want = vals[m] * 10.0 ** vals[x] if vals[m] == vals[m] else vals[m]
        if not same_float(unbits(w[k]), want, 4e-15):
            return "%s %r" % (m, want)
    return None


def native_search(ctx):
    return search(judge, ctx.seed)


def job(p, seed):
    r = Parse(p, "full").run()
    s = r.spec
    o = Obs("fields", lambda: search(judge, seed))
    valid = dict(("%s (line %d, %d..%d)" % (n, ln, a, b), (s.fields[n][0], ("Line%d" % ln, a, b))) for n, ln, a, b, _ in tle.FIELDS)
    valid["designator year (line 1, 9..11)"] = (s.designator_year_ok, ("Line1", 9, 11))
    valid["designator text (line 1, 11..17)"] = (s.designator_text_ok, ("Line1", 11, 17))
    for n, (ok, _) in valid.items():  # (an intact pair has a valid catalogue number)
        o.goal("accepted only when %s is valid" % n, ok, r.ok)
        o.res.append({"name": n, "reach": And(r.ok, ok) is not FALSE and (n[0] == "n" or And(s.intact, Not(ok)) is not FALSE)})
    rejected = And(s.intact, Not(r.ok))
    known = FALSE
    for n, (ok, where) in valid.items():
        if where in EPOCH:
            continue
        at = And(rejected, r.err_is(None, *where))
        o.goal("an error at the columns of %s means that it is invalid" % n, Not(ok), at)
        known = Or(known, r.err_is(None, *where))
    year, day = s.fields["epoch year"][0], s.fields["epoch day"][0]
    o.goal("an error at the epoch year does not hide a valid year", Or(Not(year), day), And(rejected, r.err_is(None, *EPOCH[0])))
    o.goal("an error at the epoch day does not hide a valid day", Or(Not(day), year), And(rejected, r.err_is(None, *EPOCH[1])))
    for where in EPOCH:
        known = Or(known, r.err_is(None, *where))
    o.goal("every other error points at one of the fields", known, rejected)
    want = {n: s.fields[n][1] for n in DIRECT}
    for n, m, x in (("mean_motion_ddot", "second derivative mantissa", "second derivative exponent"), ("drag_term", "drag mantissa", "drag exponent")):
        want[n] = mul(s.fields[m][1], fn("powi", R(10), s.fields[x][1]))
    for n, v in want.items():
        o.goal("%s is the value of its columns" % n, alike(r.get(n), v), r.ok)
    o.goal("the object name is the given one", TRUE if r.get("object_name") is r.name else FALSE)
    fs = p.types[r.oty]["variants"][0]["fields"]
    cty = [f["ty"] for f in fs if f["name"] == "classification"][0]
    cls = r.get("classification")
    cls = cls.disc if isinstance(cls, En) else cls
    for ch, n in (("U", "Unclassified"), ("C", "Classified"), ("S", "Secret")):
        o.goal("classification %s" % ch, ieq(cls, I(variant(p, cty, n))), And(r.ok, ieq(s.a[7], I(ord(ch)))))
    d = r.get("international_designator")
    o.goal("a designator exactly when its columns are not blank", Iff(ieq(d.disc, I0), s.no_designator), r.ok)
    text = Nat("string", (Nat("decimal", (s.designator_year,)), Nat("text", (I(45),)), Nat("trim", s.a[11:17])))
    o.goal("the designator is year-launch-piece", alike_any(d.vs[1][0], text), And(r.ok, Not(s.no_designator)))
    o.reach("accepted lines", r.ok)
    return o.done(r.e, r.local)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([("fields", lambda: job(p, ctx.seed))])
    ctx.assume(*PARSERS)
    ctx.assume(
        "what a column text means as a number is what core's str::parse makes of it; the proof fixes which columns reach which parser and what is done with the result",
        "a minus sign in front of a number that starts with a decimal point negates it",
    )
