"""Loops without a concrete counter: verified by an invariant at the loop head.

The memory written by one iteration that outlives the function (the caller's
object behind `&mut`) becomes an arbitrary state S.  Locals carried from one
iteration to the next are constrained by an invariant guessed from their value
at loop entry (a function of the entry state) and checked to be inductive.
The loop's result is then an uninterpreted function of the entry state, defined
by (continue condition, next state); two loops with equal definitions have
equal results.
"""
from terms import *
from ex import *

_ids = {}


def _diff(a, b, path, out):
    if a is b or same(a, b):
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            _diff(x, y, path + (i,), out)
        return
    if isinstance(a, En) and isinstance(b, En) and a.disc is b.disc:
        for k in a.vs:
            if k in b.vs:
                _diff(a.vs[k], b.vs[k], path + (("d", k),), out)
        return
    out.append((path, a, b))


def exists(g, pred_atom):
    """eliminate the atoms selected by pred_atom from a guard"""
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x.id)
        if r is None:
            hi, lo = go(x.args[1]), go(x.args[2])
            r = Or(hi, lo) if pred_atom(x.args[0]) else ite(atom(x.args[0]), hi, lo)
            memo[x.id] = r
        return r

    return go(g)


def mentions(vs):
    ids = {v.id for v in vs}
    memo = {}

    def f(t):
        r = memo.get(t.id)
        if r is None:
            r = any(x.id in ids for x in subterms([t]))
            memo[t.id] = r
        return r

    return f


def summarise(ex, body, fr, e, verts, entry, second, ctx):
    _, head, part = e
    leafs = []
    for k in entry.mem:
        if k in second.mem:
            d = []
            _diff(entry.mem[k], second.mem[k], (), d)
            leafs += [(k, p, a, b) for p, a, b in d]
    state = [x for x in leafs if x[0][0] != fr]
    carried = [x for x in leafs if x[0][0] == fr]
    carried = [x for x in carried if x[2] is not UNDEF]
    if not state:
        raise Unsupported("loop in %s without progress" % body.name)
    state.sort(key=lambda x: repr(x[:2]))
    for _, p, a, b in state:
        if not (isinstance(a, T) and isinstance(b, T) and a.sort == "R"):
            raise Unsupported("loop state in %s" % body.name)
    # every number of the objects written by the loop is part of the state
    keys = {x[0] for x in state}
    if len(keys) != 1:
        raise Unsupported("loop in %s writes several objects" % body.name)
    key = state[0][0]
    prefix = _common([x[1] for x in state])
    objv = ex.walk(entry.mem[key], prefix)
    fields = []

    def collect(v, path):
        if isinstance(v, T) and v.sort == "R":
            fields.append((path, v))
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                collect(x, path + (i,))
        else:
            raise Unsupported("loop state in %s" % body.name)

    collect(objv, prefix)
    svars = [rvar("S.%d" % i) for i in range(len(fields))]
    entry_s = [v for _, v in fields]
    m = {}
    for v, s in zip(entry_s, svars):
        if v.op == "rv":
            m[v] = s
    has_s = mentions(entry_s)
    g0 = exists(entry.g, has_s)
    st0 = entry.copy(g0)
    for (p, v), s in zip(fields, svars):
        st0.mem[key] = ex.update(st0.mem[key], p, s)
    guesses = []
    for k, p, a, b in carried:
        ts = vterms(a)
        ns = subst(ts, m) if ts else []
        mm = {t.id: n for t, n in zip(ts, ns)}
        gv = vmap(lambda t: mm[t.id], a)
        st0.mem[k] = ex.update(st0.mem[k], p, gv)
        guesses.append((k, p, gv))
    pre_mem = dict(st0.mem)
    c2 = RunCtx(body, fr)
    c2.pend[head] = st0.copy()
    st = c2.pend.pop(head)
    saved_hook = ex.loop_hook
    ex.step(body, fr, head, st, c2)
    ex.process(body, fr, part, c2)
    ex.loop_hook = saved_hook
    back = c2.pend.pop(head, None)
    exits = dict(c2.pend)
    if back is None:
        raise Unsupported("loop in %s does not repeat" % body.name)
    cont = restrict(back.g, g0)
    nxt = [ex.walk(back.mem[key], p) for p, _ in fields]
    ms = dict(zip(svars, nxt))
    inductive = []
    for k, p, gv in guesses:
        now = ex.walk(back.mem.get(k, UNDEF), p)
        ta, tb = vterms(gv), vterms(now)
        if len(ta) != len(tb):
            raise Unsupported("loop invariant in %s" % body.name)
        for x, y in zip(subst(ta, ms), tb):
            if x is not y:
                inductive.append((cont, x, y))
    # loops with the same definition have the same results
    lid = "L%d" % _ids.setdefault((cont.id,) + tuple(x.id for x in nxt), len(_ids) + 1)
    louts = [mk("fn", ("lout", lid, i) + tuple(entry_s), "R") for i in range(len(fields))]
    rec = {
        "id": lid,
        "fn": body.name,
        "entry": entry_s,
        "svars": svars,
        "cont": cont,
        "next": nxt,
        "inductive": inductive,
        "outs": louts,
        "guard": entry.g,
        "key": key,
    }
    ex.loops.append(rec)
    mo = dict(zip(svars, louts))
    memo = {}

    def out_state(x):
        gx = restrict(restrict(x.g, g0), Not(cont))
        ts = [gx]
        for k, v in x.mem.items():
            if pre_mem.get(k) is not v:
                vterms(v, ts)
            elif k == key or k[0] == fr:
                vterms(v, ts)
        subst(ts, mo, memo)

        def f(t):
            return memo.get(t.id, t)

        mem = {}
        for k, v in x.mem.items():
            if pre_mem.get(k) is not v or k == key or k[0] == fr:
                mem[k] = vmap(f, v)
            else:
                mem[k] = v
        return St(mem, And(entry.g, f(gx)))

    for b, x in exits.items():
        ex.goto(ctx, b, out_state(x))
    if c2.ret is not None:
        r = out_state(c2.ret)
        ctx.ret = r if ctx.ret is None else merge_states(ctx.ret, r)


def _common(paths):
    # the smallest enclosing object of all written places
    p = paths[0]
    for q in paths[1:]:
        n = 0
        while n < min(len(p), len(q)) and p[n] == q[n]:
            n += 1
        p = p[:n]
    return p if len(paths) > 1 else p[:-1]
