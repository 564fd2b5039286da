"""Key counts (S01) and value resolution (S02) of SurjectArena."""
from terms import *
from layout import last
from facts import Contradiction
from subject import cases, HeapView
from rules_core import (Finding, path_text, lookup, same_value, entry_changes, opt_val, ixeq, ptr_parts, by_mut, pval_inx,
                        ret_ptrs)
from rules_chain import own_indices, initial, neighbour, BULK, at, data_fields

WHOLE = {"clear", "clear_and_shrink", "compress_and_shrink", "compress_and_shrink_with", "compress_and_shrink_recaster",
         "clone_from", "clone_from_with", "recast", "reserve_keys", "reserve_vals"}


def pair(s):
    k = next((z for z in s.by.get(1, []) if z.role == "keys"), None)
    return (k, k.sib["vals"]) if k is not None and "vals" in k.sib else None


def picks_surject(s):
    return pair(s) is not None and s.self_kind() == "SurjectArena" and s.name not in WHOLE and by_mut(s)


def count_of(s, z, e):
    return fld(z.payload(e), 0, s.L.v_count)


def rule_counts(s):
    """Key counts follow the keys; a value goes with its last key."""
    if not picks_surject(s):
        return []
    K, V = pair(s)
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            refused = s.success(c, ret) is False
            kc = entry_changes(s, c, K, initial(c), c)
            vc = entry_changes(s, c, V, initial(c), c)
            if vc is None or refused and kc is None:
                return None
            if not refused and (kc is None or s.name in ("union", "remove") and s.self_kind() == "SurjectArena" and not s.f.get("trait")):
                return by_name(s, c, K, V, vc, ret)
            delta = []

            def note(j, d):
                for k in range(len(delta)):
                    if ixeq(s, c, V.base, delta[k][0], j):
                        delta[k] = (delta[k][0], delta[k][1] + d)
                        return
                delta.append((j, d))
            for i, e0, e1 in kc:
                if e0 is not None and K.is_alloc(c, e0):
                    note(pval_inx(s, K, e0), -1)
                if e1 is not None and K.is_alloc(c, e1):
                    note(pval_inx(s, K, e1), 1)
            bad = []
            seen = []
            for j, e0, e1 in vc:
                d = next((d for i, d in delta if ixeq(s, c, V.base, i, j)), 0)
                seen.append(j)
                a0 = e0 is not None and V.is_alloc(c, e0)
                a1 = e1 is not None and V.is_alloc(c, e1)
                before = count_of(s, V, e0) if a0 else I(0)
                after = count_of(s, V, e1) if a1 else I(0)
                want = lin_add(c.facts.norm(before), I(d))
                got = c.facts.norm(after)
                if c.facts.eq(want, got) is not True:
                    if a1:
                        bad.append("a key count is not the number of keys")
                    else:
                        bad.append("a value is removed while keys resolve to it")
                elif a1 and c.facts.eq(got, I(0)) is True:
                    bad.append("a value outlives its last key")
            for j, d in delta:
                if d != 0 and not any(ixeq(s, c, V.base, i, j) for i in seen):
                    bad.append("a key count does not follow the keys")
            return bad
        for c, r in cases(s.ip, st, check):
            if r is None:
                continue
            n += 1
            for b in r:
                out.append(Finding("S01", s.path, b, path_text(c)))
    s.checked = n
    return out


def by_name(s, c, K, V, vc, ret):
    """Operations that walk a whole key set."""
    own = [o for _, o in own_indices(s, c)]
    vs = []
    for o in own:
        e = lookup(s, c, K, K.pre_m(), o)
        if e is None or not K.is_alloc(c, e):
            return ["acts on a key that is not live"]
        vs.append(pval_inx(s, K, e))
    live = {}
    bad = []
    for j, e0, e1 in vc:
        k = next((k for k, v in enumerate(vs) if ixeq(s, c, V.base, v, j)), None)
        if k is None:
            bad.append("the value of another set changes")
            continue
        live[k] = (V.is_alloc(c, e0) if e0 is not None else False, V.is_alloc(c, e1) if e1 is not None else False, e0, e1)
    if s.name == "remove" and len(vs) == 1:
        if live.get(0, (0, 0))[:2] != (True, False):
            bad.append("the value outlives its key set")
    if s.name == "union" and len(vs) == 2:
        gone = [k for k, v in live.items() if v[0] and not v[1]]
        if len(gone) != 1:
            bad.append("merging two sets does not remove exactly one value")
            return bad
        kept = 1 - gone[0]
        e = s.ip.vec_get(c, V.m(c), vs[kept])
        want = lin_add(c.facts.norm(count_of(s, V, s.ip.vec_get(c, V.pre_m(), vs[0]))),
                       c.facts.norm(count_of(s, V, s.ip.vec_get(c, V.pre_m(), vs[1]))))
        if c.facts.eq(count_of(s, V, e), want) is not True:
            bad.append("the merged key count is not the sum of the two")
        ps = ret_ptrs(s, c, ret)
        if len(ps) == 1 and not s.ip.decide_eq(c, ptr_parts(ps[0])[0], own[kept]):
            bad.append("the returned pointer is not into the set that was kept")
    return bad


# ------------------------------------------------------------------ S02

def rule_resolve(s):
    """Keys keep resolving to the value of their set; new keys resolve to the
    value of the set they join."""
    if not picks_surject(s):
        return []
    K, V = pair(s)
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            kc = entry_changes(s, c, K, initial(c), c)
            if s.success(c, ret) is False:
                if kc is None:
                    return None
                same = all(e0 is not None and e1 is not None and K.is_alloc(c, e0) and K.is_alloc(c, e1)
                           and ixeq(s, c, V.base, pval_inx(s, K, e0), pval_inx(s, K, e1)) for _, e0, e1 in kc)
                return [] if same else ["a refused operation changes what a key resolves to"]
            own = [o for _, o in own_indices(s, c)]
            if s.name == "union":
                return merged(s, c, K, V, own, kc or [])
            if kc is None:
                return None
            bad = []
            for o in own:
                cyclic(s, c, K, o)
            for i, e0, e1 in kc:
                a0 = e0 is not None and K.is_alloc(c, e0)
                a1 = e1 is not None and K.is_alloc(c, e1)
                if not a1:
                    continue
                j = pval_inx(s, K, e1)
                if a0:
                    if not ixeq(s, c, V.base, pval_inx(s, K, e0), j):
                        bad.append("a key resolves to another value than before")
                    continue
                ve = lookup(s, c, V, V.m(c), j)
                if ve is None or not V.is_alloc(c, ve):
                    bad.append("a new key does not resolve to a live value")
                    continue
                if own:
                    e = s.ip.vec_get(c, K.pre_m(), own[0])
                    if not ixeq(s, c, V.base, pval_inx(s, K, e), j):
                        bad.append("a new key does not join the set of the given key")
                else:
                    old = lookup(s, c, V, V.pre_m(), j) if c.facts.decide_le(j, V.pre_m().len) else None
                    if old is not None and V.is_alloc(c, old):
                        bad.append("a new set shares the value of another set")
                for w in (0, 1):
                    q = neighbour(s, c, K, e1, w)
                    if q is None:
                        bad.append("the keys of a set do not form a cycle")
                        continue
                    f = lookup(s, c, K, K.m(c), q)
                    if f is None or not K.is_alloc(c, f) or not ixeq(s, c, V.base, pval_inx(s, K, f), j):
                        bad.append("a key is linked to keys of another set")
            return bad
        for c, r in cases(s.ip, st, check):
            if r is None:
                continue
            n += 1
            for b in r:
                out.append(Finding("S02", s.path, b, path_text(c)))
    if s.name == "union":
        for it in s.ip.iterations:
            def step(c):
                own = [o for _, o in own_indices(s, c)]
                a = {k: v for k, v in it.head.heap.items() if isinstance(k, Term)}
                ch = entry_changes(s, c, K, HeapView.of(c, a), c)
                if ch is None:
                    return ["merging rewrites keys in an unknown way"]
                return merged(s, c, K, V, own, ch)
            for c, r in cases(s.ip, it.back, step):
                n += 1
                for b in r:
                    out.append(Finding("S02", s.path, b, path_text(c)))
    s.checked = n
    return out


def cyclic(s, c, K, i):
    """Before the call the keys of a set form a cycle."""
    e = lookup(s, c, K, K.pre_m(), i)
    if e is not None and K.is_alloc(c, e):
        if neighbour(s, c, K, e, 0) is None or neighbour(s, c, K, e, 1) is None:
            raise Contradiction


def merged(s, c, K, V, own, ch):
    """Rewritten keys resolve to the value that is kept, one of the two."""
    bad = []
    vs = []
    for o in own:
        e = lookup(s, c, K, K.pre_m(), o)
        if e is not None and K.is_alloc(c, e):
            vs.append(pval_inx(s, K, e))
    for i, e0, e1 in ch:
        if e0 is None or e1 is None or not K.is_alloc(c, e1):
            bad.append("merging adds or removes keys")
            continue
        a, b = pval_inx(s, K, e0), pval_inx(s, K, e1)
        if c.facts.eq(a, b) is True:
            continue
        if not any(ixeq(s, c, V.base, b, v) for v in vs):
            bad.append("merging makes a key resolve to a value of neither set")
            continue
        f = lookup(s, c, V, V.m(c), b)
        if f is None or not V.is_alloc(c, f):
            bad.append("merging makes a key resolve to the value that is removed")
    return bad
