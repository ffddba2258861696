"""C17: OMM documents, read and written by the crate's serde implementations.

Reading is proved by induction over the entries of the document: whatever has
been read before, an entry with any key and any value changes exactly the
element its key names, and the end of the document builds the elements from
what was read.  The bodies executed are the derived code, the crate's number
readers and serde_json's own Value and Number."""
import json
import math
import random
import re
import struct

from cases import *
from c11 import Goals
from run import native
from text_m import is_text, number
import tz3

# OMM key, element, kind of its value
TABLE = (
    ("OBJECT_NAME", "object_name", "optional text"),
    ("OBJECT_ID", "international_designator", "optional text"),
    ("EPOCH", "datetime", "date-time"),
    ("MEAN_MOTION", "mean_motion", "f64"),
    ("ECCENTRICITY", "eccentricity", "f64"),
    ("INCLINATION", "inclination", "f64"),
    ("RA_OF_ASC_NODE", "right_ascension", "f64"),
    ("ARG_OF_PERICENTER", "argument_of_perigee", "f64"),
    ("MEAN_ANOMALY", "mean_anomaly", "f64"),
    ("EPHEMERIS_TYPE", "ephemeris_type", "u8"),
    ("CLASSIFICATION_TYPE", "classification", "class"),
    ("NORAD_CAT_ID", "norad_id", "u64"),
    ("ELEMENT_SET_NO", "element_set_number", "u64"),
    ("REV_AT_EPOCH", "revolution_number", "u64"),
    ("BSTAR", "drag_term", "f64"),
    ("MEAN_MOTION_DOT", "mean_motion_dot", "f64"),
    ("MEAN_MOTION_DDOT", "mean_motion_ddot", "f64"),
)
CLASSES = (("U", "Unclassified"), ("C", "Classified"), ("S", "Secret"))
TOP = {"u8": 255, "u64": 2**64 - 1}
PRINTED = {
    "object_name": "name", "international_designator": "id", "datetime": "datetime", "mean_motion": "n", "eccentricity": "e",
    "inclination": "inc", "right_ascension": "raan", "argument_of_perigee": "argp", "mean_anomaly": "m", "ephemeris_type": "eph",
    "classification": "class", "norad_id": "norad", "element_set_number": "set", "revolution_number": "rev", "drag_term": "drag",
    "mean_motion_dot": "ndot", "mean_motion_ddot": "nddot",
}  # fmt: skip


# ------------------------------------------------------------------ real code
def bits(x):
    return struct.pack(">d", x).hex()


def expect(kind, lit):
    """what a JSON value gives: a printed value, a list of allowed ones, or None for an error"""
    v = json.loads(lit)
    if kind == "optional text":
        return "none" if v is None else "some:" + (v.encode().hex() or "") if isinstance(v, str) else None
    if kind == "date-time":
        return {"2020-07-12T01:19:07.402656": "2020,7,12,1,19,7,402656000", "1999-12-31T23:59:59": "1999,12,31,23,59,59,0"}.get(v) if isinstance(v, str) else None
    if kind == "class":
        return dict(CLASSES).get(v) if isinstance(v, str) else None
    if kind == "f64":
        if isinstance(v, bool):
            return None
        if isinstance(v, str):
            try:
                return bits(float(v))
            except ValueError:
                return None
        if isinstance(v, (int, float)):
            x = float(v)
            return [bits(y) for y in (x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf))]
        return None
    if isinstance(v, bool):
        return None
    if isinstance(v, str):
        v = int(v) if re.fullmatch(r"[0-9]+", v) else None
    if isinstance(v, int) and 0 <= v <= TOP[kind] and not lit.startswith("-0"):
        return str(v)
    return None


INTS = ["0", "7", "255", "256", "300", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "-5", "-256", "1.5", "2.0", "1e3"]
FLOATS = ["0", "1", "-1", "15.49560532", "0.0001771", "-1.5e-5", "359.9999", "1e10", "9007199254740993", "18446744073709551615", "-7", "0.1", "123456789.125"]
ODD = ["null", "true", "false", "[]", "[1]", "{}", '{"a":1}', '""', '"abc"', '"1.2.3"', '"0x10"', '"five"']
VALUES = {
    "optional text": ['"ISS (ZARYA)"', '""', "null", "5", "true", "[]", '" A "', '"\\u00e9"'],
    "date-time": ['"2020-07-12T01:19:07.402656"', '"1999-12-31T23:59:59"', '"x"', "null", "5"],
    "class": ['"U"', '"C"', '"S"', '"X"', '"u"', "null", "1", '""', '"Unclassified"', '"Classified"', '"Secret"'],
    "u8": INTS + ['"%s"' % x for x in INTS] + ODD,
    "u64": INTS + ['"%s"' % x for x in INTS] + ODD,
    "f64": FLOATS + ['"%s"' % x for x in FLOATS] + ODD,
}
GOOD = {"optional text": ['"ISS (ZARYA)"', '"A"', "null"], "date-time": VALUES["date-time"][:2], "class": VALUES["class"][:3], "u8": ["0", "7", '"3"', "255"], "u64": ["25544", '"999"', "0"], "f64": ["15.25", '"0.125"', "0", "-3.5", '"7"']}


def documents(rng, n):
    def doc():
        return [[k, rng.choice(GOOD[kind])] for k, _, kind in TABLE]

    for i, (k, _, kind) in enumerate(TABLE):
        for v in VALUES[kind]:
            d = doc()
            d[i][1] = v
            yield d
        d = doc()
        del d[i]
        yield d
        d = doc()
        d.append(list(d[i]))
        yield d
        d = doc()
        d[i][0] = k.lower()
        yield d
    for _ in range(n):
        d = doc()
        rng.shuffle(d)
        for _ in range(rng.choice([0, 0, 1, 2])):
            d.insert(rng.randint(0, len(d)), [rng.choice(["CCSDS_OMM_VERS", "OBJECT", "", "BSTAR ", "bstar", "__field0", "EPHEMERIS"]), rng.choice(ODD[:8] + ["1"])])
        yield d


def oracle(d):
    keys = [k for k, _ in d]
    out = {}
    for k, name, kind in TABLE:
        if keys.count(k) > 1:
            return None
        if k not in keys:
            if kind != "optional text":
                return None
            out[PRINTED[name]] = "none"
            continue
        x = expect(kind, d[keys.index(k)][1])
        if x is None:
            return None
        out[PRINTED[name]] = x
    return out


def printed(ans):
    return dict(w.split("=", 1) for w in ans.split()[1:] if "=" in w)


def agrees(ans, want):
    if want is None:
        return ans.startswith("err")
    if not ans.startswith("ok"):
        return False
    got = printed(ans.split(" | ")[0])
    return all(got.get(k) in (v if isinstance(v, list) else [v]) for k, v in want.items())


def written(d):
    return "{%s}" % ",".join("%s:%s" % (json.dumps(k), v) for k, v in d)


def search(seed, n=400):
    rng = random.Random(seed)
    docs = list(documents(rng, n))
    texts = [written(d) for d in docs]
    for cmd in ("omm", "omm_again"):
        lines = ["%s %s" % (cmd, t.encode().hex()) for t in texts]
        for t, d, line, ans in zip(texts, docs, lines, native(lines)):
            want = oracle(d)
            if not agrees(ans, want):
                return {"cmd": line, "document": t, "real_code": ans, "specification": want or "an error"}


def native_search(ctx):
    return search(ctx.seed)


# ------------------------------------------------------------------ symbolic
FAILURE = ()
FOREIGN = re.compile(r".*<impl serde::Deserialize<'_> for (core::option::Option<.*>|(?:sgp4::)?chrono::.*|alloc::string::String)>::deserialize::<roots::omm::Json<'_>>\Z")


class Source:
    """the document: the driver picks the next key, the value is arbitrary"""

    def __init__(s, p, e):
        s.p, s.e = p, e
        s.key = None
        s.keyfail = False
        e.call_hook = s.hook
        fid = next((i for i, f in p.fns.items() if f["n"] == "roots::omm::value"), None)
        if fid is None:
            raise Unsupported("the document is not read entry by entry")
        s.jty = arg_tys(p, fid)[0]
        s.kind = ivar("json kind", 0, 7)
        s.u = ivar("json unsigned", 0, 2**64 - 1)
        s.i = ivar("json signed", -(2**63), -1)
        s.f = rvar("json float")
        s.names = [v["name"] for v in p.types[s.jty]["variants"]]

    def is_(s, name):
        return ieq(s.kind, I(s.names.index(name)))

    def text(s, st, name):
        return Ptr(s.e.alloc(st, Nat("words", (name,)), "doc"), (), (I0, ivar("length of " + name, 0, 1 << 62)))

    def literal(s, st, t):
        b = t.encode()
        return Ptr(s.e.alloc(st, tuple(I(x) for x in b), "doc"), (), (I0, I(len(b))))

    def hook(s, e, f, args, st):
        n = f["n"]
        if n == "roots::omm::next_key":
            if s.keyfail:
                return En(I1, {1: (FAILURE,)}), st
            if s.key is None:
                return En(I0, {0: (En(I0, {0: ()}),)}), st
            k = s.literal(st, s.key) if s.key != "any other" else s.text(st, "other key")
            return En(I0, {0: (En(I1, {1: (k,)}),)}), st
        if n == "roots::omm::value":
            vs = {s.names.index("Null"): (), s.names.index("Bool"): (bvar("json bool"),), s.names.index("Unsigned"): (s.u,), s.names.index("Signed"): (s.i,), s.names.index("Float"): (s.f,), s.names.index("Text"): (s.text(st, "value"),), s.names.index("Sequence"): (), s.names.index("Object"): ()}
            return En(s.kind, vs), st
        m = re.match(r"roots::omm::(sequence|object)::<(.*)>\Z", n)
        if m:
            ok = bvar("accepted " + m.group(1))
            if "ValueVisitor" in n:
                vty = next(t for t in s.p.types.values() if t.get("str", "").endswith("serde_json::value::Value") or t.get("str", "") == "serde_json::Value") if isinstance(s.p.types, dict) else next(t for t in s.p.types if t.get("str", "").endswith("serde_json::value::Value") or t.get("str", "") == "serde_json::Value")
                i = [v["name"] for v in vty["variants"]].index("Array" if m.group(1) == "sequence" else "Object")
                return En(ite(ok, I0, I1), {0: (En(I(i), {i: (Nat("nested", ()),)}),), 1: (FAILURE,)}), st
            if "Classification" in n:
                return En(ite(ok, I0, I1), {0: (En(ivar("nested class", 0, 2), {0: (), 1: (), 2: ()}),), 1: (FAILURE,)}), st
            raise Unsupported(n)
        m = FOREIGN.match(n)
        if m:
            e.modelled[n] = 1
            return En(ite(bvar("accepted " + m.group(1)), I0, I1), {0: (Nat("decoded", (m.group(1),)),), 1: (FAILURE,)}), st
        return NotImplemented

    def spec(s, kind):
        """(accepted, value) for an arbitrary value under a key of this kind; accepted None: not specified"""
        if kind in ("u8", "u64"):
            ok, v = number("value", kind)
            return Or(And(s.is_("Unsigned"), ile(s.u, I(TOP[kind]))), And(s.is_("Text"), ok)), ite(s.is_("Text"), v, s.u)
        if kind == "f64":
            ok, v = number("value", "f64")
            return (
                Or(s.is_("Unsigned"), s.is_("Signed"), s.is_("Float"), And(s.is_("Text"), ok)),
                ite(s.is_("Text"), v, ite(s.is_("Unsigned"), i2r(s.u), ite(s.is_("Signed"), i2r(s.i), s.f))),
            )
        if kind == "class":
            ts = [is_text("value", k.encode()) for k, _ in CLASSES]
            return And(s.is_("Text"), Or(*ts)), ts
        return None, None


class Entries:
    """the loop over the entries of the document"""

    def __init__(s, p, src, g):
        s.p, s.src, s.g = p, src, g
        s.used = 0

    def round(s, ex, body, fr, e, st, key, fail=False):
        from ex import RunCtx

        _, head, part = e
        s.src.key, s.src.keyfail = key, fail
        c = RunCtx(body, fr)
        x = st.copy()
        ex.step(body, fr, head, x, c)
        ex.process(body, fr, part, c)
        back = c.pend.pop(head, None)
        if key is not None or fail:
            # what leaves the loop returns
            ex.process(body, fr, body.wto, c)
            c.out = None if c.ret is None else (c.ret.g, c.ret.mem[(fr, 0)])
        return back, c

    def __call__(s, ex, body, fr, e, verts, entry, second, ctx):
        s.used += 1
        if s.used > 1 or entry.g is not TRUE:
            raise Unsupported("the document is read by more than one loop")
        _, head, part = e
        changed = {}
        for k, _, _ in TABLE:
            back, _c = s.round(ex, body, fr, e, entry, k)
            if back is None:
                continue
            changed[k] = [c for c in entry.mem if c in back.mem and not same(entry.mem[c], vmap(lambda t: restrict(t, back.g), back.mem[c]))]
        s.slots, flags = {}, set()
        for k, cs in changed.items():
            for c in cs:
                if isinstance(entry.mem[c], En):
                    s.slots.setdefault(c, []).append(k)
                else:
                    flags.add(c)
        g = s.g
        empty = [c for c in s.slots if not (entry.mem[c].disc is I0)]
        g.goal("nothing has been read at the start", FALSE if empty else TRUE)
        # an arbitrary moment of the reading
        st = entry.copy()
        s.seen, s.held, s.cell = {}, {}, {}
        for c in flags:
            if not (isinstance(entry.mem[c], T) and entry.mem[c].sort == "B"):
                raise Unsupported("state of the reader")
            st.mem[c] = bvar("flag %r" % (c,))
        for c, ks in s.slots.items():
            k = ks[0]
            kind = next(x[2] for x in TABLE if x[0] == k)
            seen = bvar("seen " + k)
            held = {"u8": ivar("held " + k, 0, 255), "u64": ivar("held " + k, 0, 2**64 - 1), "f64": rvar("held " + k)}.get(kind) or Nat("held", (k,))
            if kind == "class":
                held = En(ivar("held " + k, 0, 2), {0: (), 1: (), 2: ()})
            st.mem[c] = En(ite(seen, I1, I0), {0: (), 1: (held,)})
            for x in ks:
                s.seen[x], s.held[x], s.cell[x] = seen, held, c
        for k, name, kind in TABLE:
            if k not in s.cell:
                g.goal("%s is read" % k, FALSE)
                continue
            back, c = s.round(ex, body, fr, e, st, k)
            ok, val = s.src.spec(kind)
            seen = s.seen[k]
            bg = back.g if back is not None else FALSE
            if ok is None:
                got = [h for h in [back.mem[s.cell[k]].vs[1][0]] if isinstance(h, Nat) and h.kind == "decoded"] if back is not None else []
                want = "core::option::Option<alloc::string::String>" if kind == "optional text" else "chrono::NaiveDateTime"
                acc = bvar("accepted " + got[0].f[0]) if got else FALSE
                g.goal("%s: its value is read as the %s it holds" % (k, kind), TRUE if got and got[0].f[0].replace("sgp4::", "") == want else FALSE)
                ok = acc
            new = vmap(lambda t: restrict(t, bg), back.mem[s.cell[k]]) if back is not None else None
            every = TRUE if kind != "class" else Not(s.src.is_("Object"))
            g.goal("%s: a value is accepted exactly when it is of the right kind and in range, and the key is new" % k, Iff(bg, And(Not(seen), ok)), every)
            if new is not None:
                g.goal("%s: the element is read" % k, ieq(new.disc, I1), And(bg, every))
                h = new.vs[1][0]
                if kind in ("u8", "u64"):
                    g.goal("%s: the value is the number, or the number in the text" % k, ieq(h, val), bg)
                elif kind == "f64":
                    g.goal("%s: the value is the number, or the number in the text" % k, TRUE if restrict(h, bg) is restrict(val, bg) else req(h, val), bg)
                elif kind == "class":
                    g.goal("%s: U, C and S are the three classes" % k, And(*[Implies(And(t, *[Not(o) for o in val if o is not t]), ieq(h.disc, I(classes(s.p).index(n)))) for t, (_, n) in zip(val, CLASSES)]), And(bg, every))
                others = [c2 for c2 in s.slots if c2 != s.cell[k] and not same(st.mem[c2], vmap(lambda t: restrict(t, bg), back.mem[c2]))]
                g.goal("%s: no other element is touched" % k, FALSE if others else TRUE)
            s.stopped(g, k, c)
        back, c = s.round(ex, body, fr, e, st, "any other")
        no = And(*[Not(is_text("other key", k.encode())) for k, _, _ in TABLE])
        kept = back is not None and Implies(no, back.g) is TRUE and all(same(st.mem[c2], restrict_any(back.mem[c2], And(no, back.g))) for c2 in s.slots)
        g.goal("an entry with another key changes nothing", TRUE if kept else FALSE)
        back, c = s.round(ex, body, fr, e, st, None, True)
        g.goal("a document that cannot be read is an error", TRUE if back is None else Not(back.g))
        s.stopped(g, "a broken document", c)
        # the end of the document
        back, c = s.round(ex, body, fr, e, st, None)
        g.goal("reading stops at the end of the document", TRUE if back is None else Not(back.g))
        for b, x in c.pend.items():
            ex.goto(ctx, b, x)
        if c.ret is not None:
            ctx.ret = c.ret if ctx.ret is None else merge_states(ctx.ret, c.ret)

    def stopped(s, g, k, c):
        """the reader returned from inside the loop: that must be an error"""
        if c.out is not None:
            g.goal("%s: a rejected value is an error" % k, ieq(c.out[1].disc, I1), c.out[0])


def classes(p):
    ts = p.types.values() if isinstance(p.types, dict) else p.types
    for t in ts:
        if t.get("k") == "adt" and t.get("name", "").endswith("Classification"):
            return [v["name"] for v in t["variants"]]
    raise Unsupported("no classification")


def read_job(p, seed):
    e = Exec(p, models)
    src = Source(p, e)
    g = Goals("reading", lambda: search(seed))
    e.progress = lambda a, b: False
    src.key = "any other"
    loop = e.loop_hook = Entries(p, src, g)
    st = St({}, TRUE)
    fid = p.roots["roots::omm::omm_read"]
    v, out = e.run(fid, [], st)
    if not loop.used:
        raise Unsupported("no loop over the entries")
    ok = ieq(v.disc, I0)
    need = And(*[loop.seen[k] for k, _, kind in TABLE if kind != "optional text" and k in loop.seen])
    g.goal("the elements are complete exactly when no required key is missing", Iff(ok, need))
    rt = p.types[arg_tys(p, fid)[0]]
    names = fields(p, rt["variants"][0]["fields"][0]["ty"])
    el = v.vs[0][0] if 0 in v.vs else None
    if el is None:
        g.goal("a complete document is accepted", FALSE)
        return g.done(e)
    for k, name, kind in TABLE:
        if k not in loop.cell or name not in names:
            continue
        x, held, seen = el[names.index(name)], loop.held[k], loop.seen[k]
        label = "%s becomes the element it names" % k
        if kind == "optional text":
            have = restrict_any(x, seen)
            none = restrict_any(x, Not(seen))
            g.goal(label, TRUE if same(have, held) else FALSE)
            g.goal("%s missing means none" % k, TRUE if isinstance(none, En) and none.disc is I0 else FALSE)
        elif kind == "date-time":
            g.goal(label, TRUE if same(restrict_any(x, ok), held) else FALSE)
        elif kind == "class":
            g.goal(label, ieq(x.disc, held.disc), ok)
        elif kind == "f64":
            g.goal(label, TRUE if restrict(x, ok) is held else req(x, held), ok)
        else:
            g.goal(label, ieq(x, held), ok)
    g.res.append({"name": "a complete document", "reach": ok is not FALSE})
    return g.done(e)


def restrict_any(x, g):
    """a value where g holds"""
    if isinstance(x, T):
        return restrict(x, g)
    if isinstance(x, Cond):
        alts = [v for c, v in x.alts if And(c, g) is not FALSE]
        return restrict_any(alts[0], g) if len(alts) == 1 else x
    if isinstance(x, En):
        return En(restrict(x.disc, g), {k: restrict_any(v, g) for k, v in x.vs.items()})
    if isinstance(x, tuple):
        return tuple(restrict_any(y, g) for y in x)
    return x


def write_job(p, seed):
    """what is written: every key once, with the element it names"""
    e = Exec(p, models)
    g = Goals("writing", lambda: search(seed))
    fid = p.roots["roots::omm::omm_write"]
    ety = p.types[arg_tys(p, fid)[1]]["to"]
    names = fields(p, ety)
    kinds = {name: kind for _, name, kind in TABLE}
    st = St({}, TRUE)
    val = []
    for n in names:
        kind = kinds.get(n)
        if kind in ("u8", "u64"):
            val.append(ivar("field " + n, 0, TOP[kind]))
        elif kind == "f64":
            val.append(rvar("field " + n))
        elif kind == "class":
            val.append(En(ivar("field " + n, 0, 2), {0: (), 1: (), 2: ()}))
        elif kind == "optional text":
            val.append(En(ite(bvar("has " + n), I1, I0), {0: (), 1: (Nat("field", (n,)),)}))
        else:
            val.append(Nat("field", (n,)))
    val = tuple(val)
    log = []

    def lit(st, x):
        bs = e.slice_value(st, x)
        return bytes(cv(b) for b in bs).decode()

    def hook(e, f, args, st):
        n = f["n"]
        if n == "roots::omm::put_key":
            log.append([st.g, lit(st, args[0]), []])
            return (), st
        m = re.match(r"roots::omm::put_(integer|float|text|none)\Z", n)
        if m:
            v = args[0] if args else None
            if m.group(1) == "text":
                v = lit(st, v) if v.meta is not None and e.read_ptr(st, Ptr(v.base)) is not UNDEF and isinstance(st.mem.get(v.base), tuple) else Nat("text", ())
            log[-1][2].append((st.g, m.group(1), v))
            return (), st
        m = re.match(r".*<impl serde::Serialize for (core::option::Option<.*>|(?:sgp4::)?chrono::.*|alloc::string::String)>::serialize::<roots::omm::Sink>\Z", n)
        if m:
            e.modelled[n] = 1
            log[-1][2].append((st.g, "foreign", e.read_ptr(st, args[0])))
            return En(I0, {0: ((),)}), st
        return NotImplemented

    e.call_hook = hook
    v, out = e.run(fid, [Ptr(e.alloc(st, val))], st)
    g.goal("writing succeeds", ieq(v.disc, I0))
    keys = [k for _, k, _ in log]
    for k, name, kind in TABLE:
        if name not in names:
            continue
        mine = [x for x in log if x[1] == k]
        if len(mine) != 1:
            g.goal("%s is written once" % k, FALSE)
            continue
        guard, _, vs = mine[0]
        x = val[names.index(name)]
        always = guard if kind != "optional text" else Or(guard, ieq(x.disc, I0))
        g.goal("%s is written" % k, always)
        if kind in ("u8", "u64"):
            good = len(vs) == 1 and vs[0][1] == "integer" and vs[0][2] is x
        elif kind == "f64":
            good = len(vs) == 1 and vs[0][1] == "float" and vs[0][2] is x
        elif kind == "class":
            cs = classes(p)
            for t, n in CLASSES:
                here = Or(*[a for a, b, c in vs if b == "text" and c == t])
                g.goal("%s: class %s is written %s" % (k, n, t), Iff(here, ieq(x.disc, I(cs.index(n)))))
            good = all(b == "text" for _, b, _ in vs)
        else:
            good = len(vs) == 1 and vs[0][1] == "foreign" and same(vs[0][2], x)
        g.goal("%s is written with the element it names" % k, TRUE if good else FALSE)
    g.goal("no other key is written", TRUE if set(keys) <= {k for k, _, _ in TABLE} or all(k not in {t[0] for t in TABLE} or keys.count(k) == 1 for k in keys) else FALSE)
    return g.done(e)


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([("reading", lambda: read_job(p, ctx.seed)), ("writing", lambda: write_job(p, ctx.seed))])
    ctx.assume(
        "serde data model: a document is a sequence of entries with arbitrary keys and values (null, boolean, unsigned, negative or finite floating-point number, text, sequence, object), delivered in any order",
        "serde contract: optional text and chrono contract: date-time are read and written as the value they hold",
        "core contract: the unsigned number parsers accept the same texts up to their range; whether a text is a number, and which, is arbitrary",
        "JSON text to data model (serde_json's tokeniser, which may round a decimal number in its last place) is not verified",
    )
