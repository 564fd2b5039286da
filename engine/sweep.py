"""What a loop that fills or rewrites storage slot by slot leaves in it.

A loop head describes storage written in earlier passes by a name only. If
every pass that counts writes exactly one slot, and that slot's index is the
pass count plus a fixed offset, then the content of an arbitrary slot J follows
from the pass in which the count was J minus that offset.
"""
from terms import *
from facts import Contradiction
from interp import Limit, Split
from subject import cases

PASS_NAMES = ("ret", "w", "mutby", "tree", "frees", "cleared", "newroot", "slot", "newlen")


class Pass:
    """The pass that wrote a slot: its iteration and the renaming of the values
    it computed."""
    __slots__ = ("it", "name", "known")

    def __init__(self, it, name, known):
        self.it, self.name, self.known = it, name, known

    def events(self):
        """What the pass did, in order, under the slot's names."""
        n = len(self.it.head.events) + 1
        return [subst(resolve(e, self.known), self.name) for e in self.it.back.events[n:]]


def resolve(v, known):
    for e, x in known:
        v = subst(v, {e: x})
    return v


def vec_paths(heap):
    out = []

    def walk(v, p):
        if isinstance(v, Vec):
            out.append((p, v))
        elif isinstance(v, Agg):
            for i, x in v.fields:
                walk(x, p + (i,))
    for k, v in heap.items():
        walk(v, (k,))
    return out


def at_path(heap, p):
    v = heap.get(p[0])
    if v is None:
        v = T("deref", p[0]) if isinstance(p[0], Term) else None
    for i in p[1:]:
        if v is None:
            return None
        v = fld(v, v.variant if isinstance(v, Agg) else 0, i)
    return v


def loop_of(ip, base):
    """(loop, place) at whose head some storage is called `base`."""
    for lp in ip.loops:
        if base.args[0] != lp.tag or base.args[1] <= lp.floor:
            continue
        for h in lp.heads:
            for p, v in vec_paths(h.heap):
                if v.base is base:
                    return lp, p
    return None, None


def sweep_of(ip, lp, p):
    """(index of the slot written when the count is zero, count, writing passes)
    of the storage at place `p`, or None if no pass writes it."""
    tab = getattr(ip, "_sweeps", None)
    if tab is None:
        tab = ip._sweeps = {}
    k = (id(lp), p)
    if k not in tab:
        tab[k] = find_sweep(ip, lp, p)
    return tab[k]


def find_sweep(ip, lp, p):
    wr = []
    for it in lp.passes:
        hv, bv = at_path(it.head.heap, p), at_path(it.back.heap, p)
        if hv is None or bv is None:
            raise Limit("storage lost in a loop")
        hv, bv = ip.as_vec(hv), ip.as_vec(bv)
        if hv.base is not bv.base or hv.over:
            raise Limit("storage replaced in a loop")
        if len(bv.over) > 1:
            raise Limit("several slots written in a pass")
        wr.append((it, bv.over[0] if bv.over else None))
    first = None
    for it, o in wr:
        if o is None:
            continue
        for i in (o[0], it.back.facts.norm(o[0])):
            c, ts = lin_parts(i)
            ns = [t for t in ts if t in lp.counts]
            if len(ns) == 1 and ts[ns[0]] == 1 and not any(pass_fresh(lp, t) for t in ts if t is not ns[0]):
                first = (mk_lin(c, {t: k for t, k in ts.items() if t is not ns[0]}), ns[0])
                break
        if first is not None:
            break
    if first is None:
        if any(o is not None for _, o in wr):
            raise Limit("slots written in no recognised order")
        return None
    a, n = first
    out = []
    for it, o in wr:
        d = delta(ip, lp, it, n)
        if o is None:
            if d != 0:
                raise Limit("a pass is counted but writes nothing")
            continue
        if d != 1 or it.back.facts.eq(o[0], lin_add(a, n)) is not True:
            raise Limit("slots written in no recognised order")
        out.append((it, o[1]))
    return a, n, out


def delta(ip, lp, it, n):
    """Change of count `n` in one pass."""
    p = lp.counts[n][0]
    h, b = ip.locs(it.head).get(p), ip.locs(it.back).get(p)
    if h is None or b is None:
        raise Limit("count lost")
    k = lin_parts(h)[1].get(n)
    d = lin_sub(it.back.facts.norm(b), it.back.facts.norm(h))
    if d.op != "int" or not k or d.args[0] % k:
        raise Limit("count lost")
    return d.args[0] // k


def pass_fresh(lp, t):
    return isinstance(t, Term) and (t in lp.counts or t.op in PASS_NAMES and isinstance(t.args[0], int) and t.args[0] > lp.floor
                                    or t.op == "w" and t.args[0] == lp.tag and t.args[1] > lp.floor)


def renaming(lp, fixed, j):
    def f(t):
        if t in fixed:
            return fixed[t]
        if isinstance(t, Term) and t.op == "mutby" and t.args[0] > lp.floor:
            return T("mutby", ("at", t.args[0], j), t.args[1], subst(t.args[2], f))
        if pass_fresh(lp, t):
            return T("at", t, j)
        return None
    return f


def contents(s, c, v, j, stop=None):
    """[(state, entry, Pass or None)]: what slot `j` of storage `v` holds, in
    terms of what `stop` (if given) held."""
    ip = s.ip
    v = ip.as_vec(c.facts.norm(v) if isinstance(v, Term) else v)
    for i, x in v.over:
        r = ip.same_ix(c, v.base, j, i)
        if r is None:
            raise Split("eq", j, i)
        if r:
            return [(c, x, None)]
    b = v.base
    if b is T("emptyvec"):
        return []
    if b.op != "w" or b is stop:
        return [(c, ip.base_elem(c, b, j), None)]
    lp, p = loop_of(ip, b)
    if lp is None:
        raise Limit("storage of unknown origin")
    sw = sweep_of(ip, lp, p)
    if sw is not None:
        a, n, passes = sw
        if ip.decide_le(c, a, j) and ip.decide_le(c, lin_add(j, I(1)), lin_add(a, n)):
            out = []
            for it, val in passes:
                for st, x, known in settled(s, it.back, val):
                    name = renaming(lp, {n: lin_sub(j, a)}, j)
                    c2 = c.copy()
                    try:
                        for f in st.facts.log:
                            c2.facts.assume((f[0], subst(f[1], name), subst(f[2], name)))
                    except Contradiction:
                        continue
                    out.append((c2, subst(x, name), Pass(it, name, known)))
            return out
    e = at_path(lp.entry.heap, p)
    if e is None:
        raise Limit("storage of unknown origin")
    return contents(s, c, e, j, stop)


def settled(s, st, val):
    """[(state, value, replacements)]: `val` with what it reads from
    loop-written storage replaced by what was stored there."""
    def go(c):
        return settle(s, c, val, ())
    out = []
    for c, r in cases(s.ip, st, go):
        out += r
    return out


def settle(s, c, val, known):
    e = loop_elem(val)
    if e is None:
        return [(c, val, known)]
    out = []
    for c2, x, _ in contents(s, c, vec(e.args[0], (), T("len", e.args[0])), e.args[1]):
        m = {e: x}
        c2 = c2.copy()
        try:
            for f in c.facts.log:
                g = (f[0], subst(f[1], m), subst(f[2], m))
                if g != f:
                    c2.facts.assume(g)
        except Contradiction:
            continue
        out += settle(s, c2, subst(val, m), known + ((e, x),))
    return out


def loop_elem(v):
    if isinstance(v, Term):
        if v.op == "elem" and isinstance(v.args[0], Term) and v.args[0].op == "w":
            return v
        it = [x for x, _ in v.args[1]] if v.op == "lin" else [a for a in v.args if isinstance(a, V)]
    elif isinstance(v, Agg):
        it = [x for _, x in v.fields] + ([v.base] if v.base is not None else [])
    else:
        it = []
    for x in it:
        r = loop_elem(x)
        if r is not None:
            return r
    return None
