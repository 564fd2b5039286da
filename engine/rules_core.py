"""Outcome rules shared by all arena types.

Every rule inspects the outcomes (final abstract state and result, per path) of
one function and names the function and the offending path.
"""
from terms import *
from interp import Split, Limit
from facts import Contradiction
from layout import last
from subject import Subject, cases, HeapView


class Finding:
    def __init__(self, rule, fn, what, detail=""):
        self.rule, self.fn, self.what, self.detail = rule, fn, what, detail

    def key(self):
        return f"{self.rule}|{self.fn}|{self.what}"

    def __repr__(self):
        return f"{self.rule}: {self.fn}: {self.what}" + (f"\n      {self.detail}" if self.detail else "")


def path_text(st, n=14):
    log = [f"{k} {a!r} {b!r}" for k, a, b in st.facts.log]
    return " & ".join(log[-n:])[:1500]


# ------------------------------------------------------------------ helpers

def ptr_parts(p):
    if isinstance(p, Agg):
        return fld(p, 0, 0), None
    return p_inx(p), p_gen(p)


def lookup(s, st, sub, m, i):
    """Entry at index i of vector value m, or None when out of bounds."""
    if not s.ip.decide_le(st, i, m.len):
        return None
    return s.ip.vec_get(st, m, i)


def valid(s, st, sub, p, m=None):
    """Does pointer p denote a live entry of `sub` (before the call)?"""
    m = sub.pre_m() if m is None else m
    i, g = ptr_parts(p)
    e = lookup(s, st, sub, m, i)
    if e is None or not sub.is_alloc(st, e):
        return False
    if sub.nogen or g is None:
        return True
    return s.ip.decide_eq(st, sub.egen(e), g)


def key_sub(s):
    """The arena that pointer arguments address."""
    ss = s.by.get(1, [])
    for r in ("keys", "nodes", "chain", "chain_ng", "plain"):
        for x in ss:
            if x.role == r and not x.nogen:
                return x
    return None


def opt_ptrs(s, st):
    """Pointers actually given (refines optional ones)."""
    out = []
    for i, v, k in s.ptr_args():
        if k == "p":
            out.append(v)
        elif s.variant(st, v) == 1:
            out.append(fld(v if not isinstance(st.facts.norm(v), Agg) else st.facts.norm(v), 1, 0))
    return out


def same_value(s, st, a, b):
    """Provable equality of two abstract values."""
    if a is b:
        return True
    if isinstance(a, Term):
        a = st.facts.norm(a)
    if isinstance(b, Term):
        b = st.facts.norm(b)
    if a is b:
        return True
    if isinstance(a, Vec) or isinstance(b, Vec):
        return same_vec(s, st, s.ip.as_vec(a), s.ip.as_vec(b))
    if isinstance(a, Agg) or isinstance(b, Agg):
        if not isinstance(a, Agg):
            a, b = b, a
        v = a.variant
        if isinstance(b, Agg):
            if b.variant != v:
                return False
        elif isinstance(b, Term):
            if a.base is not None and st.facts.norm(a.base) is b:
                pass
            elif is_enum_tag(s, a.ty):
                n = variants_of(s, a.ty)
                if st.facts.eq(T("discr", b, n), I(n[v])) is not True:
                    return False
        ks = {i for i, _ in a.fields} | ({i for i, _ in b.fields} if isinstance(b, Agg) else set())
        if a.base is not None and isinstance(b, Agg) and b.base is not a.base and b.base is not None:
            if st.facts.norm(a.base) is not st.facts.norm(b.base):
                return False
        return all(same_value(s, st, fld(a, v, i), fld(b, v, i)) for i in ks)
    if isinstance(a, Term) and isinstance(b, Term):
        return st.facts.eq(a, b) is True
    return False


_enum = {}


def variants_of(s, tag):
    t = _enum.get((id(s.prog), tag))
    if t is None:
        t = ()
        for x in s.prog.types:
            if x and x["k"] == "adt" and x["path"] == tag:
                t = tuple(v["discr"] for v in x["variants"]) if x["enum"] else ()
                break
        _enum[(id(s.prog), tag)] = t
    return t


def is_enum_tag(s, tag):
    return isinstance(tag, str) and bool(variants_of(s, tag))


def same_vec(s, st, a, b):
    if a.base is not b.base and st.facts.norm(a.base) is not st.facts.norm(b.base):
        return False
    if st.facts.eq(a.len, b.len) is not True:
        return False
    for i, _ in a.over + b.over:
        if not same_value(s, st, s.ip.vec_get(st, a, i), s.ip.vec_get(st, b, i)):
            return False
    return True


def touched(s, st, sub, pre, post):
    """Indices whose entry may differ between two vectors of one epoch."""
    out = []
    for i, _ in post.over + pre.over:
        if any(s.ip.same_ix(st, post.base, i, j) is True for j in out):
            continue
        out.append(i)
    res = []
    for i in out:
        inpre = None
        if st.facts.decide_le(i, pre.len) is False:
            res.append(i)
            continue
        if not same_value(s, st, s.ip.vec_get(st, pre, i), s.ip.vec_get(st, post, i)):
            res.append(i)
    return res


def elems(v, acc, seen=None):
    """elem(...) terms occurring in a value."""
    if seen is None:
        seen = set()
    if v in seen:
        return acc
    seen.add(v)
    if isinstance(v, Term):
        if v.op == "elem":
            acc.append(v)
            return acc
        for a in v.args:
            if isinstance(a, V):
                elems(a, acc, seen)
        if v.op == "lin":
            for t, _ in v.args[1]:
                elems(t, acc, seen)
    elif isinstance(v, Agg):
        for _, x in v.fields:
            elems(x, acc, seen)
        if v.base is not None:
            elems(v.base, acc, seen)
    elif isinstance(v, Ref):
        pass
    return acc


def refs(v, acc):
    if isinstance(v, Ref):
        acc.append(v)
    elif isinstance(v, Agg):
        for _, x in v.fields:
            refs(x, acc)
    return acc


def contains(st, v, x):
    n = st.facts.norm(v) if isinstance(v, V) else v
    return occurs(st.facts.norm(x), n)


def pval_inx(s, sub, e):
    L = s.L
    return fld(fld(sub.inner(e), 0, L.k_pval), 0, L.png_inx)


SKIP_ACCESS = {
    # constructors of advancers take a starting pointer; what they may yield is
    # decided by the iteration rules
    "find_key_linear", "find_similar_key_linear", "insert_linear", "insert_nonhereditary_linear",
    "advancer_chain", "iter_chain", "advancer_surject", "iter_surject", "advancer_starting_from",
}


# ------------------------------------------------------------------ A01

def picks_pointer(s):
    return key_sub(s) is not None and bool(s.ptr_args()) and s.name not in SKIP_ACCESS


def by_mut(s):
    t = s.prog.types[s.tys[0]]
    return t["k"] == "ref" and t["mut"]


def picks_failure(s):
    t = s.out_ty()
    return bool(s.subs) and by_mut(s) and s.name != "recast" and t["k"] == "adt" and last(t["path"]) in ("Option", "Result")


def picks_generation(s):
    return by_mut(s) and s.name not in GEN_EXEMPT


def picks_freelist(s):
    return by_mut(s) and s.name not in FREELIST_EXEMPT


def picks_insert(s):
    return by_mut(s) and key_sub(s) is not None


def rule_access(s):
    """Success with a pointer argument implies the pointer was live, and what
    is handed out or mutated belongs to the addressed entry."""
    sub = key_sub(s)
    ps = s.ptr_args()
    if sub is None or not ps or s.name in SKIP_ACCESS:
        return []
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            ok = s.success(c, ret)
            if ok is False:
                return None
            live = opt_ptrs(s, c)
            for k, p in enumerate(live):
                if not valid(s, c, sub, p):
                    return ("granted", k, None)
            return check_origin(s, c, sub, live, ret)
        for c, r in cases(s.ip, st, check):
            n += 1
            if r is not None:
                if r[0] == "granted":
                    out.append(Finding("A01", s.path, f"succeeds although pointer argument {r[1]} need not be live", path_text(c)))
                else:
                    out.append(Finding("A01", s.path, r[1], path_text(c)))
    s.checked = n
    return out


def check_origin(s, c, sub, ps, ret):
    """References and data in the result come from the addressed entries."""
    own = [(ptr_parts(p)[0]) for p in ps]
    rs = refs(c.facts.norm(ret) if isinstance(ret, Term) else ret, [])
    idx = []
    for r in rs:
        for z in s.by.get(1, []):
            if r.obj is z.obj or r.obj == z.obj:
                ix = [p[1] for p in r.proj if p[0] == "ix"]
                if ix and r.proj[:len(z.proj)] == z.proj and r.proj[len(z.proj)] == ("f", 0, s.L.a_m):
                    idx.append((z, ix[0]))
    # two pointers, two groups: in order
    groups = split_groups(s, ret, c)
    t = s.out_ty()
    t = s.prog.types[t["args"][0]] if t["k"] == "adt" and t.get("args") else t
    if len(ps) == 2 and groups is not None and t["k"] == "tuple" and t["args"][0] == t["args"][1]:
        for k, g in enumerate(groups):
            for r in refs(g, []):
                q = place_of(s, r)
                if q is None:
                    continue
                z, i = q
                if not belongs(s, c, sub, z, i, [own[k]]):
                    return ("wrong", f"result part {k} refers to an entry other than that of pointer argument {k}")
            bad = foreign_data(s, c, sub, g, [own[k]])
            if bad:
                return ("wrong", f"result part {k} carries data of an entry other than that of pointer argument {k}")
    else:
        for z, i in idx:
            if not belongs(s, c, sub, z, i, own):
                return ("wrong", "result refers to an entry other than the addressed one")
        if foreign_data(s, c, sub, ret, own):
            return ("wrong", "result carries data of an entry other than the addressed one")
    return None


def foreign_data(s, c, sub, v, own):
    for e in elems(c.facts.norm(v) if isinstance(v, V) else v, []):
        for z in s.by.get(1, []):
            if e.args[0] is z.base:
                if z.link is not None and any(is_link_of(s, c, z, sub, e.args[1], o) for o in own):
                    continue
                if not belongs(s, c, sub, z, e.args[1], own):
                    return True
    return False


def is_link_of(s, c, z, sub, i, o):
    if z is not sub:
        return False
    e = s.ip.vec_get(c, sub.pre_m(), o)
    for w in (0, 1):
        l = sub.link_of(e, w)
        if s.variant(c, l) == 1:
            q = opt_val(c, l)
            if c.facts.eq(i, p_inx(q) if sub.link[2] else q) is True:
                return True
    return False


def place_of(s, r):
    for z in s.by.get(1, []):
        if r.obj is z.obj or r.obj == z.obj:
            ix = [p[1] for p in r.proj if p[0] == "ix"]
            if ix and r.proj[:len(z.proj)] == z.proj and r.proj[len(z.proj)] == ("f", 0, s.L.a_m):
                return z, ix[0]
    return None


def split_groups(s, ret, c):
    v = c.facts.norm(ret) if isinstance(ret, Term) else ret
    if isinstance(v, Agg) and v.variant == 1 and len(v.fields) == 1:
        x = v.fields[0][1]
        if isinstance(x, Agg) and x.ty == "tuple" and len(x.fields) == 2:
            return [x.fields[0][1], x.fields[1][1]]
    return None


def belongs(s, c, sub, z, i, own):
    for o in own:
        if z is sub:
            if s.ip.decide_eq(c, i, o):
                return True
        elif z.role == "vals" and sub.role == "keys":
            e = s.ip.vec_get(c, sub.pre_m(), o)
            if s.ip.decide_eq(c, i, pval_inx(s, sub, e)):
                return True
    return False


# ------------------------------------------------------------------ A02

def same_inx(s, c, sub, ps):
    return len(ps) == 2 and s.ip.decide_eq(c, ptr_parts(ps[0])[0], ptr_parts(ps[1])[0])


def same_set(s, c, sub, ps):
    e0 = s.ip.vec_get(c, sub.pre_m(), ptr_parts(ps[0])[0])
    e1 = s.ip.vec_get(c, sub.pre_m(), ptr_parts(ps[1])[0])
    return s.ip.decide_eq(c, pval_inx(s, sub, e0), pval_inx(s, sub, e1))


def link_some(which):
    def f(s, c, sub, ps, k=0):
        e = s.ip.vec_get(c, sub.pre_m(), ptr_parts(ps[k])[0])
        return s.variant(c, sub.link_of(e, which)) == 1
    return f


def neighbours(s, c, sub, p0, p1):
    e = s.ip.vec_get(c, sub.pre_m(), ptr_parts(p0)[0])
    nx = sub.link_of(e, 1)
    if s.variant(c, nx) != 1:
        return False
    q = fld(nx, 1, 0)
    if sub.link[2]:
        return s.ip.decide_eq(c, p_inx(q), p_inx(p1)) and s.ip.decide_eq(c, p_gen(q), p_gen(p1))
    return s.ip.decide_eq(c, q, ptr_parts(p1)[0])


def r_connect(s, c, sub, ps):
    return link_some(1)(s, c, sub, ps, 0) or link_some(0)(s, c, sub, ps, 1)


def r_exchange(s, c, sub, ps):
    return not link_some(1)(s, c, sub, ps, 0) or not link_some(1)(s, c, sub, ps, 1)


def r_not_neighbours(s, c, sub, ps):
    return len(ps) == 2 and not neighbours(s, c, sub, ps[0], ps[1])


def r_start(s, c, sub, ps):
    return link_some(0)(s, c, sub, ps)


def r_end(s, c, sub, ps):
    return link_some(1)(s, c, sub, ps)


def r_no_prev(s, c, sub, ps):
    return not link_some(0)(s, c, sub, ps)


def r_no_next(s, c, sub, ps):
    return not link_some(1)(s, c, sub, ps)


def r_nonempty(s, c, sub, ps):
    return not s.ip.decide_eq(c, fld(sub.val0, 0, s.L.a_len), I(0))


REASONS = {
    ("*", "get2_mut"): same_inx, ("*", "get2_link_mut"): same_inx, ("*", "get2_val_mut"): same_inx,
    ("*", "get2_key_mut"): same_inx,
    ("SurjectArena", "get2_val_mut"): same_set, ("SurjectArena", "get2_mut"): same_set,
    ("SurjectArena", "union"): same_set,
    ("*", "connect"): r_connect, ("*", "exchange_next"): r_exchange,
    ("*", "insert_start"): r_start, ("*", "insert_end"): r_end,
    ("*", "break_prev"): r_no_prev, ("*", "break_next"): r_no_next,
    ("*", "are_neighbors"): r_not_neighbours,
    ("ChainArena", "insert"): r_not_neighbours, ("ChainArena", "insert_with"): r_not_neighbours,
    ("ChainNoGenArena", "insert"): r_not_neighbours, ("ChainNoGenArena", "insert_with"): r_not_neighbours,
    ("OrdArena", "insert_empty"): r_nonempty,
}


def reason_for(s):
    return REASONS.get((s.self_kind(), s.name)) or REASONS.get(("*", s.name))


def rule_refusal(s):
    """Refusal with all pointers live needs a documented reason."""
    sub = key_sub(s)
    ps = s.ptr_args()
    if sub is None or not ps or s.name in SKIP_ACCESS:
        return []
    why = reason_for(s)
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            if s.success(c, ret) is not False:
                return None
            live = opt_ptrs(s, c)
            if not all(valid(s, c, sub, p) for p in live):
                return True
            if why is not None and why(s, c, sub, live):
                return True
            return False
        for c, r in cases(s.ip, st, check):
            n += 1
            if r is False:
                out.append(Finding("A02", s.path, "refuses live pointers without a documented reason", path_text(c)))
    if s.f.get("trait") and last(s.f["trait"]) in ("Index", "IndexMut"):
        for where, line, st in s.ip.panics:
            def pcheck(c):
                return all(valid(s, c, sub, p) for p in opt_ptrs(s, c))
            for c, r in cases(s.ip, st, pcheck):
                n += 1
                if r:
                    out.append(Finding("A02", s.path, "panics on a live pointer", path_text(c)))
    s.checked = n
    return out


# ------------------------------------------------------------------ A03

def is_once(s, ty):
    bs = {last(b) for b in s.prog.types[ty]["bounds"]}
    return "FnOnce" in bs and not bs & {"FnMut", "Fn"}


def rule_failure(s):
    """A refusing outcome leaves the arena as it was, returns the argument it
    was given and has not run the caller's closure."""
    if s.self_kind() is None or not s.subs or s.prog.types[s.tys[0]]["k"] != "ref" or s.name == "recast":
        return []
    t = s.out_ty()
    if not (t["k"] == "adt" and last(t["path"]) in ("Option", "Result")):
        return []
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            if s.success(c, ret) is not False:
                return None
            bad = []
            for z in s.by.get(1, []):
                if not same_value(s, c, z.m(c), z.pre_m()):
                    bad.append(f"entries of the {z.role} arena changed")
                for nm, i in (("length", s.L.a_len), ("free-list root", s.L.a_root), ("generation", s.L.a_gen)):
                    if not same_value(s, c, fld(z.arena(c), 0, i), fld(z.val0, 0, i)):
                        bad.append(f"{nm} of the {z.role} arena changed")
            if isinstance(s.args[0], Term) and not bad:
                cur = c.heap.get(s.args[0])
                if isinstance(cur, Agg):
                    t0 = s.L.strip(s.tys[0])
                    for i, v in cur.fields:
                        if any(z.path[-1:] and z.path[1:2] == (("f", 0, i),) for z in s.by[1]):
                            continue
                        if not same_value(s, c, v, fld(T("deref", s.args[0]), 0, i)):
                            bad.append("a field of the structure changed: " + t0["variants"][0]["fields"][i]["name"])
            if last(t["path"]) == "Result":
                want = [a for _, a, ty, k in s.user_args() if ty == t["args"][1]]
                if len(want) == 1:
                    v = c.facts.norm(ret) if isinstance(ret, Term) else ret
                    got = fld(v, 1, 0)
                    if c.facts.norm(got) is not c.facts.norm(want[0]):
                        bad.append("the argument is not handed back")
            fns = [a for _, a, ty, k in s.user_args() if k == "fn" and is_once(s, ty)]
            for e in c.events:
                if e[0] == "call" and any(e[1] is a for a in fns):
                    bad.append("the caller's closure ran")
            return bad
        for c, r in cases(s.ip, st, check):
            if r is None:
                continue
            n += 1
            for b in r:
                out.append(Finding("A03", s.path, "refusal with effect: " + b, path_text(c)))
    s.checked = n
    return out


# ------------------------------------------------------------------ A04

def gen_steps(st, g, pre):
    """k with g = inc^k(pre), None if not of that form."""
    g = st.facts.norm(g)
    pre = st.facts.norm(pre)
    k = 0
    while True:
        if g is pre:
            return k
        if isinstance(g, Term) and g.op == "inc":
            g = g.args[0]
            k += 1
            continue
        return None


def seg_pairs(s, st, skip=0, start=()):
    for pre, post in s.segments(st, start, skip):
        yield HeapView.of(st, pre), HeapView.of(st, post)


def entry_changes(s, c, z, a, b):
    """[(index, pre entry | None, post entry | None)] between two heaps."""
    pre, post = z.m(a), z.m(b)
    if pre.base is not post.base and c.facts.norm(pre.base) is not c.facts.norm(post.base):
        return None
    out = []
    for i in touched(s, c, z, pre, post):
        e0 = s.ip.vec_get(c, pre, i) if s.ip.decide_le(c, i, pre.len) else None
        e1 = s.ip.vec_get(c, post, i) if s.ip.decide_le(c, i, post.len) else None
        out.append((i, e0, e1))
    return out


def pieces(s):
    """Every segment of every outcome and every loop pass: (label, state,
    heap before, heap after)."""
    seen = set()
    for st, ret in s.out:
        for a, b in s.segments(st):
            yield "path", st, a, b
    for it in s.ip.iterations:
        start = {k: v for k, v in it.head.heap.items() if isinstance(k, Term)}
        for a, b in s.segments(it.back, start, len(it.head.events) + 1):
            yield "loop", it.back, a, b


def rule_generation(s):
    """Retiring an entry (removal or generation change) advances the arena
    generation; new entries carry a current generation; it never goes back."""
    if s.self_kind() is None or s.name in GEN_EXEMPT:
        return []
    out = []
    n = 0
    for z in s.by.get(1, []):
        if z.nogen or s.prog.types[s.tys[0]]["k"] != "ref":
            continue
        frees_in_loop = False
        for it in s.ip.iterations:
            start = {k: v for k, v in it.head.heap.items() if isinstance(k, Term)}
            for a, b in s.segments(it.back, start, len(it.head.events) + 1):
                def look(c):
                    ch = entry_changes(s, c, z, HeapView.of(c, a), HeapView.of(c, b))
                    return ch is None or retires(s, c, z, ch)
                if any(r for _, r in cases(s.ip, it.back, look)):
                    frees_in_loop = True
        for st, ret in s.out:
            def check(c):
                bad = []
                g0 = fld(z.val0, 0, s.L.a_gen)
                g1 = z.gen(c)
                k = gen_steps(c, g1, g0)
                retired = frees_in_loop and any(e[0] == "head" for e in c.events)
                for a, b in s.segments(c):
                    va, vb = HeapView.of(c, a), HeapView.of(c, b)
                    ch = entry_changes(s, c, z, va, vb)
                    if ch is None:
                        if base_dropped(s, c, z, va, vb):
                            retired = True
                        continue
                    if retires(s, c, z, ch):
                        retired = True
                    for i, e0, e1 in ch:
                        if e1 is not None and z.is_alloc(c, e1):
                            fresh = e0 is None or not z.is_alloc(c, e0)
                            if fresh or not s.ip.decide_eq(c, z.egen(e0), z.egen(e1)):
                                kk = gen_steps(c, z.egen(e1), g0)
                                if kk is None or (not fresh and kk == 0):
                                    bad.append("an entry gets a generation that is not the arena's current one")
                                elif k is not None and kk > k:
                                    bad.append("an entry gets a generation the arena has not reached")
                                elif not fresh and kk != k:
                                    bad.append("an entry's new generation is not the arena's")
                if k is None:
                    if not widened(c, g1):
                        bad.append("the generation is replaced by an unrelated value")
                elif retired and k == 0:
                    bad.append("entries are retired without advancing the generation")
                return bad
            for c, r in cases(s.ip, st, check):
                n += 1
                for b in r:
                    out.append(Finding("A04", s.path, b, path_text(c)))
    s.checked = n
    return out


GEN_EXEMPT = {"clone_from", "clone_from_with", "clone_to_arena", "clone_to_chain_arena"}


def widened(c, g):
    g = c.facts.norm(g)
    while isinstance(g, Term) and g.op == "inc":
        g = g.args[0]
    return isinstance(g, Term) and g.op == "w"


def base_dropped(s, c, z, a, b):
    return True


def retires(s, c, z, ch):
    for i, e0, e1 in ch:
        if e0 is not None and z.is_alloc(c, e0):
            if e1 is None or not z.is_alloc(c, e1):
                return True
            if not s.ip.decide_eq(c, z.egen(e0), z.egen(e1)):
                return True
    return False


# ------------------------------------------------------------------ A05

def free_of(s, c, z, e):
    return fld(e, s.L.free, 0)


def rule_freelist(s):
    """Entry count and free list follow every change of an entry."""
    if not s.by.get(1) or s.name in FREELIST_EXEMPT or not by_mut(s):
        return []
    out = []
    n = 0
    for z in s.by.get(1, []):
        for label, st, a, b in pieces(s):
            def check(c):
                return check_freelist(s, c, z, HeapView.of(c, a), HeapView.of(c, b))
            for c, r in cases(s.ip, st, check):
                n += 1
                for x in r:
                    out.append(Finding("A05", s.path, x, path_text(c)))
    s.checked = n
    return out


# whole-arena rebuilds have their own rules (rules_bulk)
FREELIST_EXEMPT = {"reserve", "reserve_keys", "reserve_vals", "clear", "clear_and_shrink", "compress_and_shrink",
                   "compress_and_shrink_with", "compress_and_shrink_recaster", "clone_from", "clone_from_with",
                   "clone_to_arena", "clone_to_chain_arena", "recast"}


def ixeq(s, c, base, a, b):
    r = s.ip.same_ix(c, base, a, b)
    if r is None:
        raise Split("eq", a, b)
    return r


def check_freelist(s, c, z, va, vb):
    L = s.L
    # before: the free list starts at a free entry
    m0, r0 = z.m(va), z.root(va)
    if s.variant(c, r0) == 1:
        i0 = opt_val(c, r0)
        e = s.ip.vec_get(c, m0, i0)
        if z.variant(c, e) != L.free or not s.ip.decide_le(c, i0, m0.len):
            raise Contradiction
    ch = entry_changes(s, c, z, va, vb)
    if ch is None:
        return dropped_all(s, c, z, vb)
    bad = []
    pre, post = z.m(va), z.m(vb)
    delta = 0
    freed, taken = [], []
    for i, e0, e1 in ch:
        a0 = e0 is not None and z.is_alloc(c, e0)
        a1 = e1 is not None and z.is_alloc(c, e1)
        delta += int(a1) - int(a0)
        if a0 and not a1:
            freed.append(i)
        if a1 and not a0:
            taken.append(i)
        if not a0 and not a1 and e0 is not None:
            bad.append("a free entry is rewritten")
    d = lin_sub(c.facts.norm(z.len(vb)), c.facts.norm(z.len(va)))
    d = c.facts.norm(d)
    if not (is_int(d) and d.args[0] == delta):
        bad.append("length does not follow the number of live entries")
    if c.facts.eq(post.len, pre.len) is not True:
        bad.append("slot count changes outside of growth")
    r0, r1 = z.root(va), z.root(vb)
    # the old list without the slots taken from its front
    cur = None
    if s.variant(c, r0) == 1:
        cur = opt_val(c, r0)
    left = list(taken)
    while left:
        if cur is None:
            bad.append("an entry that is not on the free list is taken")
            break
        k = next((x for x in left if ixeq(s, c, pre.base, x, cur)), None)
        if k is None:
            bad.append("an entry that is not at the front of the free list is taken")
            break
        left.remove(k)
        e = s.ip.vec_get(c, pre, cur)
        nx = free_of(s, c, z, e)
        cur = None if ixeq(s, c, pre.base, nx, cur) else nx
    # the new list: freed slots, then the rest of the old one
    left = list(freed)
    now = opt_val(c, r1) if s.variant(c, r1) == 1 else None
    while left:
        if now is None:
            bad.append("a freed entry is not on the free list")
            return bad
        k = next((x for x in left if ixeq(s, c, pre.base, x, now)), None)
        if k is None:
            bad.append("a freed entry is not at the front of the free list")
            return bad
        left.remove(k)
        e = s.ip.vec_get(c, post, now)
        nx = free_of(s, c, z, e)
        now = None if ixeq(s, c, pre.base, nx, now) else nx
    if (now is None) != (cur is None) or (now is not None and not ixeq(s, c, pre.base, now, cur)):
        bad.append("the free list loses or gains entries")
    return bad


def dropped_all(s, c, z, vb):
    """The storage was emptied: so must be the length and the free list."""
    post = z.m(vb)
    if post.base is not T("emptyvec") or post.over or c.facts.eq(post.len, I(0)) is not True:
        return []
    bad = []
    if c.facts.eq(z.len(vb), I(0)) is not True:
        bad.append("the storage is emptied but the length is not reset")
    if s.variant(c, z.root(vb)) == 1:
        bad.append("the storage is emptied but the free list is not")
    return bad


def opt_val(c, o):
    v = c.facts.norm(o) if isinstance(o, Term) else o
    return fld(v, 1, 0)


# ------------------------------------------------------------------ A06

def ret_ptrs(s, c, ret):
    """Pointers in the result, by result type."""
    out = []

    def walk(v, ty, d=0):
        t = s.prog.types[ty]
        if s.ty_is_ptr(ty):
            out.append(v)
        elif t["k"] == "tuple":
            for i, a in enumerate(t["args"]):
                walk(fld(v, 0, i), a, d + 1)
        elif t["k"] == "adt" and t["enum"] and last(t["path"]) in ("Option", "Result"):
            k = s.variant(c, v)
            v2 = c.facts.norm(v) if isinstance(v, Term) else v
            fs = t["variants"][k]["fields"]
            if fs and (last(t["path"]) == "Option" or k == 0):
                walk(fld(v2, k, 0), fs[0]["ty"], d + 1)
    walk(ret, s.f["output"])
    return out


def rule_insert(s):
    """A returned pointer denotes a live entry afterwards; the values given (or
    made by the caller's closure, called once with that pointer) are in it."""
    if s.self_kind() is None or s.prog.types[s.tys[0]]["k"] != "ref" or not s.prog.types[s.tys[0]]["mut"]:
        return []
    sub = key_sub(s)
    if sub is None:
        return []
    ua = s.user_args()
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            if s.success(c, ret) is False:
                return None
            ps = ret_ptrs(s, c, ret)
            bad = []
            for p in ps:
                if not valid(s, c, sub, p, sub.m(c)):
                    bad.append("the returned pointer does not denote a live entry")
            tgt = ps[0] if len(ps) == 1 else None
            if tgt is None and not ps:
                pa = [v for _, v, k in s.ptr_args() if k == "p"]
                if len(pa) == 1:
                    tgt = pa[0]
            if bad or tgt is None:
                return bad
            i, g = ptr_parts(tgt)
            e = lookup(s, c, sub, sub.m(c), i)
            if e is None or not sub.is_alloc(c, e):
                return bad
            pay = c.facts.norm(sub.payload(e))
            more = pay
            if sub.role == "keys":
                vs = sub.sib["vals"]
                ve = lookup(s, c, vs, vs.m(c), pval_inx(s, sub, e))
                if ve is not None:
                    more = agg("tuple", 0, None, ((0, pay), (1, c.facts.norm(vs.payload(ve)))))
            for _, a, ty, k in ua:
                if k == "val":
                    if not occurs(c.facts.norm(a), more) and not occurs(c.facts.norm(a), c.facts.norm(ret)):
                        bad.append("the given value is not in the entry")
                else:
                    calls = [x for x in c.events if x[0] == "call" and x[1] is a]
                    if len(calls) != 1:
                        bad.append(f"the caller's closure runs {'more than once' if calls else 'never'}")
                        continue
                    if not occurs(T("ret", calls[0][4]), more):
                        bad.append("what the closure made is not in the entry")
                    for q in calls[0][2]:
                        if is_ptr_term(q) and ps:
                            if not (s.ip.decide_eq(c, ptr_parts(q)[0], i) and s.ip.decide_eq(c, ptr_parts(q)[1], g)):
                                bad.append("the closure is given another pointer than is returned")
            return bad
        for c, r in cases(s.ip, st, check):
            if r is None:
                continue
            n += 1
            for b in r:
                out.append(Finding("A06", s.path, b, path_text(c)))
    s.checked = n
    return out


def is_ptr_term(q):
    return isinstance(q, Term) and q.op in ("P",)
