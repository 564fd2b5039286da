"""Trait methods against the inherent methods they stand for.

Both bodies are analysed from the same abstract arguments. Every pair of
outcomes whose path facts can hold together must agree on the result and on
everything the caller can see afterwards.
"""
from terms import *
from interp import State, Limit, Split
from facts import Contradiction
from layout import last
from models import target, havoc_args
from rules_core import Finding, path_text, same_value, cases

ARENA_TRAIT = {
    ("ChainArena", "get"): "get_link", ("ChainArena", "get_mut"): "get_link_mut",
    ("ChainNoGenArena", "get"): "get_link", ("ChainNoGenArena", "get_mut"): "get_link_mut",
    ("SurjectArena", "capacity"): "capacity_keys", ("SurjectArena", "len"): "len_keys",
    ("SurjectArena", "remove"): "remove_key", ("SurjectArena", "get"): "get_key",
    ("SurjectArena", "get_mut"): "get_key_mut",
}
INDEX = {
    ("OrdArena", "index"): "get_val", ("OrdArena", "index_mut"): "get_val_mut",
    "index": "get", "index_mut": "get_mut",
}


def arena_of(s):
    """Kind of arena the impl is for: by receiver or by result."""
    k = s.self_kind()
    if k is None:
        t = s.out_ty()
        k = s.L.kinds.get(t.get("path")) if t["k"] == "adt" else None
    return k


def counterpart(s):
    """(inherent method name, argument map, result map) or None."""
    tr = last(s.f["trait"].split("<")[0]) if s.f.get("trait") else None
    k = arena_of(s)
    if tr is None or k is None:
        return None
    same = lambda a: a
    ident = lambda s_, c, r: r
    n = s.name
    if tr == "ArenaTrait":
        m = ARENA_TRAIT.get((k, n), n)
        if n == "insert" and k in ("ChainArena", "ChainNoGenArena"):
            return m, link_args(s), ok_only
        if n == "insert" and k == "SurjectArena":
            return m, lambda a: a + [UNIT], ident
        if n == "insert" and k == "OrdArena":
            return m, lambda a: [a[0], fld(a[1], 0, 0), fld(a[1], 0, 1)], first
        if n == "remove" and k == "SurjectArena":
            return m, same, some_first
        return m, same, ident
    if tr in ("Index", "IndexMut"):
        m = INDEX.get((k, n)) or INDEX.get(n)
        return m, lambda a: [a[0], T("borrowed", a[1])], some_only
    if tr == "IntoIterator":
        t = s.prog.types[s.tys[0]]
        m = "capacity_drain" if t["k"] != "ref" else "iter_mut" if t["mut"] else "iter"
        return m, same, ident
    if tr == "Default":
        return "new", same, ident
    return None


PANIC = object()


def link_args(s):
    def f(a):
        t = s.prog.types[s.tys[1]]
        pn, tt, _ = s.L.links[t["path"]]
        return [a[0], fld(a[1], 0, pn), fld(a[1], 0, tt)]
    return f


def ok_only(s, c, r):
    return val(c, r, 0) if s.variant(c, r) == 0 else PANIC


def some_only(s, c, r):
    return val(c, r, 1) if s.variant(c, r) == 1 else PANIC


def first(s, c, r):
    return fld(c.facts.norm(r) if isinstance(r, Term) else r, 0, 0)


def some_first(s, c, r):
    from models import some
    if s.variant(c, r) == 1:
        return some(fld(val(c, r, 1), 0, 0))
    return r


def val(c, r, v):
    return fld(c.facts.norm(r) if isinstance(r, Term) else r, v, 0)


def inherent(s, name):
    k = arena_of(s)
    for f in s.prog.fns:
        if f["key"] is None or f.get("trait") or f["name"] != name or not f["pub"]:
            continue
        ty = f["inputs"][0] if f["inputs"] else f["output"]
        t = s.L.strip(ty)
        if t["k"] == "adt" and s.L.kinds.get(t["path"]) == k:
            return f
    return None


def picks_forward(s):
    return bool(s.f.get("trait")) and counterpart(s) is not None


def both(st, other):
    """State with the facts of both paths, or None."""
    c = st.copy()
    have = set(c.facts.log)
    try:
        for k, a, b in other.facts.log:
            if (k, a, b) in have:
                continue
            if k == "eq":
                c.facts.assume_eq(a, b)
            elif k == "ne":
                c.facts.assume_ne(a, b)
            else:
                c.facts.assume_le(a, b, k == "le")
    except Contradiction:
        return None
    return c


def heap_terms(st):
    return {k: v for k, v in st.heap.items() if isinstance(k, Term)}


def rule_forward(s):
    name, amap, rmap = counterpart(s)
    rf = inherent(s, name)
    if rf is None:
        return [Finding("F01", s.path, f"the arena has no method `{name}` to agree with")]
    if arena_of(s) == "OrdArena" and name == "remove":
        return opaque_forward(s, rf, amap, rmap)
    panics = list(s.ip.panics)
    m = s.ip.models.contracts.get(rf["path"])
    args = amap(list(s.args))
    if m is not None:
        ref = m(s.ip, State(), {"path": rf["path"], "name": name}, args, rf["inputs"], 0, 0)
    else:
        ref = s.ip.call_body(rf["key"], args, State(), 0)
    shared = {p[:2] for p in s.ip.panics[len(panics):]}
    panics = [p for p in panics if p[:2] not in shared]
    out = []
    n = 0
    for st2, r2 in ref:
        for c0, want in cases(s.ip, st2, lambda c: rmap(s, c, r2)):
            for where, line, pst in panics:
                c = both(c0, pst)
                if c is not None and want is not PANIC:
                    out.append(Finding("F01", s.path, f"panics where `{name}` succeeds", path_text(c)))
            hit = False
            for st1, r1 in s.out:
                c = both(c0, st1)
                if c is None:
                    continue

                def check(x):
                    if want is PANIC:
                        return f"returns where `{name}` refuses"
                    if not same_value(s, x, r1, want):
                        return f"result differs from that of `{name}`"
                    h1, h2 = heap_terms(st1), heap_terms(st2)
                    for k in set(h1) | set(h2):
                        d = T("deref", k)
                        if not same_value(s, x, h1.get(k, d), h2.get(k, d)):
                            return f"effect differs from that of `{name}`"
                    return None
                for x, bad in cases(s.ip, c, check):
                    n += 1
                    hit = True
                    if bad:
                        out.append(Finding("F01", s.path, bad, path_text(x)))
            if not hit and want is not PANIC:
                n += 1
                out.append(Finding("F01", s.path, f"no outcome for a case in which `{name}` succeeds", path_text(c0)))
    s.checked = max(n, 1)
    return out


def opaque_forward(s, rf, amap, rmap):
    """For methods too large to compare: exactly one call, same arguments,
    result handed on, nothing else touched."""
    from models import Models
    want = amap(list(s.args))
    calls = []

    def model(ip, st, fn, args, tys, d, line):
        st.fresh += 1
        k = st.fresh
        st.event("fwd", tuple(args), ip.snapshot(st), k)
        havoc_args(ip, st, args, tys, k)
        return [(st, T("ret", k))]
    s.ip.models.contracts[rf["path"]] = model
    outs = s.ip.call_body(s.f["key"], list(s.args), State(), 0)
    out = []
    n = 0
    for st, r in outs:
        ev = [e for e in st.events if e[0] == "fwd"]
        n += 1
        if not ev:
            raise Limit("does not call the method it is compared with")
        def check(c):
            if len(ev) > 1 or len(ev[0][1]) != len(want) or not all(same_value(s, c, a, b) for a, b in zip(ev[0][1], want)):
                return f"calls `{rf['name']}` with other arguments"
            for k, v in ev[0][2]:
                if not same_value(s, c, v, T("deref", k)):
                    return f"changes the arena besides calling `{rf['name']}`"
            for k, v in heap_terms(st).items():
                if isinstance(v, Term) and v.op == "mutby" and v.args[2] is T("deref", k) or v is T("deref", k):
                    continue
                return f"changes the arena besides calling `{rf['name']}`"
            w = rmap(s, c, T("ret", ev[0][3]))
            if not same_value(s, c, r, w):
                return f"result differs from that of `{rf['name']}`"
        for c, bad in cases(s.ip, st, check):
            if bad:
                out.append(Finding("F01", s.path, bad, path_text(c)))
    s.checked = n
    return out


# ------------------------------------------------------------------ collecting

def picks_collect(s):
    return bool(s.f.get("trait")) and s.name == "from_iter" and arena_of(s) is not None


COLLECT = {"Arena": "insert", "ChainArena": "insert_new", "ChainNoGenArena": "insert_new", "OrdArena": "insert"}


def arena_locals(s, st):
    """Locals of the function's own frame that hold the collected arena."""
    want = s.f["output"]
    for k, v in st.heap.items():
        if isinstance(k, tuple) and k[1] == 0 and isinstance(k[2], int) and s.body["locals"][k[2]] == want:
            yield k, v


def rule_collect(s):
    """`from_iter` starts from `new()`, inserts every item the iterator yields
    exactly once, and stops only when it yields no more."""
    kind = arena_of(s)
    rf = inherent(s, COLLECT[kind])
    new = inherent(s, "new")
    if rf is None or new is None:
        return [Finding("F01", s.path, "the arena has no method to agree with")]
    byword = kind == "OrdArena"
    if byword:
        def model(ip, st, fn, args, tys, d, line):
            st.fresh += 1
            k = st.fresh
            st.event("fwd", tuple(args), k)
            havoc_args(ip, st, args, tys, k)
            return [(st, T("ret", k))]
        s.ip.models.contracts[rf["path"]] = model
    outs = s.ip.call_body(s.f["key"], list(s.args), State(), 0)
    its = [i for i in s.ip.iterations if i.fn == s.path]
    if not its:
        raise Limit("no loop over the iterator")
    fresh = s.ip.call_body(new["key"], [], State(), 0)
    out = []
    n = 0
    for it in its:
        ev = it.back.events[len(it.head.events):]
        nx = [e for e in ev if e[0] == "opaque" and e[1].endswith("Iterator::next")]
        n += 1
        if len(nx) != 1:
            out.append(Finding("F01", s.path, "a pass does not take exactly one item from the iterator"))
            continue
        item = fld(T("ret", nx[0][3]), 1, 0)
        c = it.back
        hl = dict(arena_locals(s, it.head))
        ok = False
        for k, v in arena_locals(s, c):
            if k not in hl:
                continue
            if byword:
                fw = [e for e in ev if e[0] == "fwd"]
                ok = ok or (len(fw) == 1 and fw[0][1][0] is ref(k, ()) and
                            all(same_value(s, c, a, fld(item, 0, i)) for i, a in enumerate(fw[0][1][1:])))
                continue
            ok = ok or added(s, c, kind, hl[k], v, item)
            e = it.entry.heap.get(k)
            if e is not None and not any(same_value(s, both(it.entry, st) or it.entry, e, r) for st, r in fresh):
                out.append(Finding("F01", s.path, "does not start from an empty arena"))
        if not ok:
            out.append(Finding("F01", s.path, f"a pass does not insert the item it took like `{rf['name']}`", path_text(c)))
    for st, r in outs:
        n += 1
        nx = [e for e in st.events if e[0] == "opaque" and e[1].endswith("Iterator::next")]
        if not nx or st.facts.eq(T("discr", T("ret", nx[-1][3]), (0, 1)), I(0)) is not True:
            out.append(Finding("F01", s.path, "stops before the iterator is exhausted", path_text(st)))
    s.checked = n
    return out


def added(s, c, kind, before, after, item):
    L = s.L
    a = before if kind == "Arena" else fld(before, 0, 0)
    b = after if kind == "Arena" else fld(after, 0, 0)
    m0, m1 = s.ip.as_vec(fld(a, 0, L.a_m)), s.ip.as_vec(fld(b, 0, L.a_m))
    if m0.base is not m1.base or m1.over[1:] != m0.over or len(m1.over) != len(m0.over) + 1:
        return False
    e = m1.over[0][1]
    if not (isinstance(e, Agg) and e.variant == L.alloc):
        return False
    t = fld(e, L.alloc, L.e_t)
    if kind == "Arena":
        return same_value(s, c, t, item)
    pn, tt, _ = next(v for v in L.links.values() if v[2] == (kind == "ChainArena"))
    p = fld(t, 0, pn)
    return same_value(s, c, fld(t, 0, tt), item) and all(s.variant(c, fld(p, 0, i)) == 0 for i in (0, 1))
