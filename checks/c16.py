"""C16: multi-TLE text is split into every record, in order."""
from cases import *
from run import native
import lines_m
from lines_m import N
from bytes_m import without
import tz3
import tles

KINDS = {"two_les": ("two", 2), "three_les": ("three", 3)}


# ------------------------------------------------------------------ real code
def rust_lines(t):
    ls = t.split(b"\n")
    last = ls.pop()
    ls = [x[:-1] if x.endswith(b"\r") else x for x in ls]
    return ls + [last] if last else ls


def texts(rng, n, period):
    names = [b"ISS (ZARYA)", b"", b" NAME ", b"1 25544U", b"\xc3\xa9toile", b"0 VANGUARD 1", b"2 25544", b"#", b"# comment", b"\t"]
    for i in range(n):
        out = []
        for r in range(rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 7, 12])):
            a, b = rng.choice(tles.BASE)
            if rng.random() < (0.06 if i % 2 else 0.0):
                a, b = rng.choice([(b, a), (a, b[:-1] + b"x"), (a[:-1] + b"x", b), (a, a), (b"", b""), (a + b" ", b), (a, b + b" "), (b" " + a, b), (b"", a)])
            if period == 3:
                out.append(rng.choice(names))
            out += [a, b]
            if rng.random() < 0.03:
                out.append(rng.choice([b"", b" ", b"#"]))
        if rng.random() < 0.4 and out:
            out = out[: len(out) - rng.randint(1, min(period, len(out)))]
        if rng.random() < 0.1:
            out.append(b"")
        sep = rng.choice([b"\n", b"\n", b"\r\n"])
        t = sep.join(out)
        if rng.random() < 0.6 and t:
            t += sep
        try:
            t.decode()
        except UnicodeDecodeError:
            continue
        yield t


def search(root, seed, n=1500):
    cmd, per = KINDS[root]
    rng = random.Random(seed * 3 + per)
    ts = list(texts(rng, n, per))
    recs, todo = [], []
    for t in ts:
        ls = rust_lines(t)
        rs = [ls[i : i + per] for i in range(0, len(ls) - len(ls) % per, per)]
        recs.append(rs)
        for r in rs:
            todo.append(tles.cmd(r[0] if per == 3 else None, r[-2], r[-1]))
    todo = list(dict.fromkeys(todo))
    one = dict(zip(todo, native(todo)))
    lines = ["%s %s" % (cmd, tles.hexs(t)) for t in ts]
    for t, rs, line, ans in zip(ts, recs, lines, native(lines)):
        want = []
        for r in rs:
            a = one[tles.cmd(r[0] if per == 3 else None, r[-2], r[-1])]
            if not a.startswith("ok"):
                want = a
                break
            want.append(a[3:])
        if isinstance(want, list):
            want = "ok %d | %s" % (len(want), " | ".join(want))
        if ans.strip() != want.strip():
            return {"cmd": line, "text": repr(t)[:600], "real_code": ans[:1500], "specification": want[:1500]}


def native_search(ctx):
    return search("two_les", ctx.seed) or search("three_les", ctx.seed)


# ------------------------------------------------------------------ induction
class Induction:
    """the loop over the lines, by induction over the records it has completed"""

    def __init__(s, per):
        s.per = per
        s.k = ivar("k", 0, 1 << 60)
        s.used = 0
        s.res = []

    def steps(s, ex, body, fr, e, st, m):
        """m iterations -> (state back at the head, exits, returns)"""
        _, head, part = e
        from ex import RunCtx

        c = RunCtx(body, fr)
        c.pend[head] = st.copy()
        for _ in range(m):
            x = c.pend.pop(head, None)
            if x is None or x.g is FALSE:
                return None
            ex.step(body, fr, head, x, c)
            ex.process(body, fr, part, c)
        back = c.pend.pop(head, None)
        if back is None:
            return None
        back = St({k: vmap(lambda t: restrict(t, back.g), v) for k, v in back.mem.items()}, back.g)
        return back, c

    def lift(s, v, w, path, gen):
        """collect where w (a period after v) differs: linear integers or forgotten values"""
        if v is w or same(v, w):
            return
        if isinstance(v, T) and isinstance(w, T) and v.sort == "I":
            d = without(w, v)
            if isc(d) and cv(d) == 0:
                return
            if isc(d):
                gen[path] = ("linear", v, cv(d))
                return
        if isinstance(v, Nat) and isinstance(w, Nat) and v.kind == w.kind and len(v.f) == len(w.f):
            for i, (x, y) in enumerate(zip(v.f, w.f)):
                s.lift(x, y, path + (("n", i),), gen)
            return
        if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
            for i, (x, y) in enumerate(zip(v, w)):
                s.lift(x, y, path + (("t", i),), gen)
            return
        if isinstance(v, Ptr) and isinstance(w, Ptr) and v.base == w.base and same(v.path, w.path) and v.meta is not None and w.meta is not None:
            for i in (0, 1):
                s.lift(v.meta[i], w.meta[i], path + (("m", i),), gen)
            return
        gen[path] = ("any", v)

    def put(s, v, path, f):
        if not path:
            return f(v)
        (k, i), rest = path[0], path[1:]
        if k == "n":
            return Nat(v.kind, v.f[:i] + (s.put(v.f[i], rest, f),) + v.f[i + 1 :])
        if k == "t":
            return v[:i] + (s.put(v[i], rest, f),) + v[i + 1 :]
        meta = list(v.meta)
        meta[i] = s.put(meta[i], rest, f)
        return Ptr(v.base, v.path, tuple(meta))

    def get(s, v, path):
        for k, i in path:
            if v is UNDEF:
                return v
            v = v.f[i] if k == "n" else v[i] if k == "t" else v.meta[i]
        return v

    def state(s, entry, gen, k):
        st = entry.copy()
        for n, ((key, path), how) in enumerate(sorted(gen.items(), key=lambda x: repr(x[0]))):
            if how[0] == "linear":
                f = lambda v: iadd(how[1], imul(I(how[2]), k))
            else:
                f = lambda v: s.forget(v, "%r%r" % (key, path))
            st.mem[key] = s.put(st.mem[key], path, f)
        return st

    def forget(s, v, tag):
        if v is UNDEF:
            return v
        if isinstance(v, T):
            if v.sort == "I":
                return ivar("any" + tag)
            if v.sort == "B":
                return bvar("any" + tag)
            return rvar("any" + tag)
        if isinstance(v, Ptr):
            return Ptr(("forgotten", tag), (), None if v.meta is None else (I0, ivar("len" + tag, 0, 1 << 62)))
        if isinstance(v, tuple):
            return tuple(s.forget(x, "%s.%d" % (tag, i)) for i, x in enumerate(v))
        return Nat("forgotten", (ifn("value of " + tag),))

    def __call__(s, ex, body, fr, e, verts, entry, second, ctx):
        s.used += 1
        if s.used > 1:
            raise Unsupported("more than one loop over the lines")
        if entry.g is not TRUE:
            raise Unsupported("the loop is entered conditionally")
        for m in range(1, s.per + 1):
            r = s.steps(ex, body, fr, e, entry, m)
            if r is None:
                continue
            gen = {}
            for key in entry.mem:
                if key in r[0].mem:
                    g1 = {}
                    s.lift(entry.mem[key], r[0].mem[key], (), g1)
                    gen.update({(key, p): x for p, x in g1.items()})
            ok = False
            for _ in range(6):
                del ex.panics[:]
                st = s.state(entry, gen, s.k)
                nx = s.state(entry, gen, iadd(s.k, I1))
                try:
                    r = s.steps(ex, body, fr, e, st, m)
                except (Unsupported, KeyError):
                    r = None
                if r is None:
                    break
                again = False
                for key in entry.mem:
                    if key not in r[0].mem:
                        continue
                    d = {}
                    s.lift(nx.mem[key], r[0].mem[key], (), d)
                    for p, x in d.items():
                        if (key, p) in gen and gen[(key, p)][0] == "any":
                            continue
                        # not reproduced: forget the value
                        again = True
                        gen = {q: y for q, y in gen.items() if not (q[0] == key and q[1][: len(p)] == p)}
                        gen[(key, p)] = ("any", s.get(entry.mem[key], p))
                if not again:
                    ok = True
                    break
            if not ok:
                continue
            vec = [(x, how) for (x, p), how in gen.items() if isinstance(entry.mem[x], Nat) and entry.mem[x].kind == "vec" and p == (("n", 0),)]
            if len(vec) == 1 and vec[0][1][0] == "linear" and vec[0][1][2] == 1 and entry.mem[vec[0][0]].f == (I0,):
                break
        else:
            raise NotInductive()
        back, c = r
        s.res.append(("each round of the loop appends exactly the next record", back.g))
        s.back = back.g
        for b, x in c.pend.items():
            ex.goto(ctx, b, x)
        if c.ret is not None:
            ctx.ret = c.ret if ctx.ret is None else merge_states(ctx.ret, c.ret)


class NotInductive(Exception):
    pass


def job(p, root, seed):
    cmd, per = KINDS[root]
    e = Exec(p, models)
    oty = None
    for fid, f in p.fns.items() if isinstance(p.fns, dict) else enumerate(p.fns):
        if f["n"] == "sgp4::Elements::from_tle" and "body" in f:
            rt = p.types[arg_tys(p, fid)[0]]
            oty = rt["variants"][0]["fields"][0]["ty"]
    if oty is None:
        raise Unsupported("from_tle is not called")
    names = fields(p, oty)

    def which(x):
        k = lines_m.line_number(x)
        if k is not None:
            return k
        return ifn("odd:%r" % (x,))

    def element(name, d1, d2):
        return tuple(name if n == "object_name" else Nat("field", (I(i), d1, d2)) for i, n in enumerate(names))

    NONE = En(I0, {0: (), 1: (UNDEF,)})

    def parsed(name, d1, d2):
        ok = pred("tle_ok", d1, d2)
        return En(ite(ok, I0, I1), {0: (element(name, d1, d2),), 1: (Nat("tle_error", (d1, d2)),)})

    def hook(e, f, args, st):
        if f["n"] == "sgp4::Elements::from_tle":
            n = e.force(args[0])
            if isinstance(n, En) and n.disc is I0:
                n = NONE
            elif isinstance(n, En) and n.disc is I1:
                n = En(I1, {1: n.vs[1]})
            else:
                raise Unsupported("object name %r" % (n,))
            e.modelled[f["n"]] = 1
            return parsed(n, which(args[1]), which(args[2])), st
        if f["n"] == "sgp4::Elements::from_lines":
            e.modelled[f["n"]] = 1
            return parsed(NONE, which(args[0]), which(args[1])), st
        return NotImplemented

    def record(k):
        b = imul(I(per), k)
        n = NONE if per == 2 else En(I1, {1: (Nat("string", (Nat("content", (b,)),)),)})
        return element(n, iadd(b, I(per - 2)), iadd(b, I(per - 1)))

    e.call_hook = hook
    lines_m.NEXT_RECORD[:] = [record]
    e.progress = lambda a, b: False
    ind = e.loop_hook = Induction(per)
    st = St({}, TRUE)
    text = Ptr(e.alloc(st, Nat("whole text", ())), (), (I0, ivar("length", 0, 1 << 62)))
    label = "%d-line records" % per
    res = []

    def fail(name, detail):
        f = search(root, seed)
        if f is None and detail.startswith("?"):
            raise Unsupported(detail)
        res.append(rec("%s: %s" % (label, name), False, "induction", 0, f, detail))
        return res

    t0 = time.time()
    try:
        v, out = e.run(p.root(root), [text], st)
    except NotInductive:
        return fail("each round of the loop appends exactly the next record", "? no inductive invariant")
    if not ind.used:
        raise Unsupported("no loop over the lines")
    k, b = ind.k, imul(I(per), ind.k)
    facts = [ile(b, N)]
    r1, r2 = iadd(b, I(per - 2)), iadd(b, I(per - 1))
    good = pred("tle_ok", r1, r2)
    whole = ilt(r2, N)
    ok = ieq(v.disc, I0)
    res.append(rec("%s: each round of the loop appends exactly the next record" % label, True, "induction", time.time() - t0))

    def goal(name, x):
        t1 = time.time()
        how, _ = tz3.prove(x, facts, 20000)
        if how == "refuted" and any(t.op in ("iv", "rv", "bv") and t.args[0].startswith("any(") for t in subterms([x])):
            how = "unknown"  # the invariant forgot too much
        res.append(rec("%s: %s" % (label, name), how == "proved", "z3", time.time() - t1, None, how))

    goal("the loop goes on exactly when the next record is complete and valid", Iff(ind.back, And(whole, good)))
    stop = Not(ind.back)
    goal("an incomplete last record is ignored", Implies(And(stop, Not(whole)), ok))
    goal("a malformed record is an error", Implies(And(stop, whole, Not(good)), Not(ok)))
    res.append(rec("%s: the result holds exactly the records read" % label, same(v.vs[0][0], Nat("vec", (k,))), "syntactic", 0, None, repr(v.vs[0])[:300]))
    res.append(rec("%s: the error is the one of the malformed record" % label, same(v.vs[1][0], Nat("tle_error", (r1, r2))), "syntactic", 0, None, repr(v.vs[1])[:300]))
    for g, kind, f, span in e.panics:
        goal("no %s in %s" % (kind, f), Not(g))
    bad = [o for o in res if not o["ok"]]
    if bad:
        f = search(root, seed)
        for o in bad:
            o["fail"] = f
        if f is None and all(o["detail"] == "unknown" for o in bad):
            raise Unsupported(bad[0]["name"])
    for n, x in (("a further record", ind.back), ("an incomplete record", And(stop, Not(whole))), ("a malformed record", And(whole, Not(good)))):
        res.append({"name": "%s: %s" % (label, n), "reach": tz3.prove(Not(x), facts)[0] == "refuted"})
    res.append({"used": (sorted(e.executed), sorted(e.modelled))})
    return res


def check(ctx, cfg="default"):
    p = ctx.program(cfg)
    ctx.jobs([(r, lambda r=r: job(p, r, ctx.seed)) for r in KINDS])
    ctx.assume(
        "core contract: str::lines yields the lines of the text in order (any number, any content)",
        "alloc contract: Vec::push appends, to_owned copies a text",
        "parsing one record is represented by an arbitrary outcome per pair of lines: what it computes is the subject of C12 to C15",
    )
