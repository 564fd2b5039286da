"""Comparison and hashing (E01).

Walks over two arenas are judged pass by pass: advancers become opaque, each
step of one yields an arbitrary live entry of its arena or the end, and every
stretch of the function up to the next loop head or return must compare all
documented parts of the two entries of that pass, and go on or answer
accordingly.
"""
from terms import *
from facts import Contradiction
from interp import Limit
from layout import last
from models import some, none, target
from subject import cases
from rules_core import Finding, path_text, same_value, opt_val, pval_inx
from rules_iter import trait_is

ORDERED = ("partial_cmp", "cmp", "lt", "le", "gt", "ge")
DOCUMENTED = {
    # pointer, then parts of the entry
    "plain": ("p", "x"), "chain": ("p", "prev", "next", "t"), "chain_ng": ("p", "prev", "next", "t"),
    "keys": ("p", "prev", "next", "k", "v"), "nodes": ("k", "v"),
}


def picks_compare(s):
    f = s.f
    if not (trait_is(f, "PartialEq") or trait_is(f, "PartialOrd") or trait_is(f, "Ord")) or len(s.tys) != 2:
        return False
    if s.name not in ("eq", "ne") + ORDERED:
        return False
    t = s.L.strip(s.tys[0])
    return t["k"] == "adt" and (t["path"] in s.L.kinds or t["path"] in s.L.links)


def walked_sub(subs):
    for role in ("keys", "nodes", "chain", "chain_ng", "plain"):
        for z in subs:
            if z.role == role:
                return z
    return None


def ordering(s):
    tab = getattr(s.prog, "_ordering", None)
    if tab is None:
        t = next(t for t in s.prog.types if t["k"] == "adt" and t["path"] == "core::cmp::Ordering")
        tab = s.prog._ordering = tuple(v["discr"] for v in t["variants"])
    return tab


def order_of(s, c, v):
    """0, 1, 2 for Less, Equal, Greater."""
    x = c.facts.norm(v) if isinstance(v, Term) else v
    if isinstance(x, Agg):
        return x.variant
    ds = ordering(s)
    d = T("discr", v, ds)
    for k in (1, 0):
        if s.ip.decide_eq(c, d, I(ds[k])):
            return k
    return 2


def outcome(s, c, v, partial):
    if not partial:
        return order_of(s, c, v)
    if s.variant(c, v) == 0:
        return "none"
    return order_of(s, c, opt_val(c, v))


def install_walk(s, zs):
    """Advancers over the arenas `zs`: `advancer()` starts at the first entry
    and each step yields the next live entry (decided by I01)."""
    tab = s.ip.models.contracts

    def which(place):
        obj, proj = place
        for i, z in enumerate(zs):
            if z is not None and (obj is z.obj or obj == z.obj) and z.proj[:len(proj)] == proj:
                return i
        return None

    def start(ip, st, fn, args, tys, d, line):
        i = which(target(st, args[0]))
        return None if i is None else [(st, T("advancer", i))]

    def step(ip, st, fn, args, tys, d, line):
        v = st.facts.norm(ip.read_loc(st, *target(st, args[0])))
        i = which(target(st, args[1]))
        if i is None:
            raise Limit("walk over another arena")
        z = zs[i]
        if not (isinstance(v, Term) and v.op == "advancer"):
            raise Limit("walk of unknown start")
        if v.args[0] != i:
            st.event("walk", i, "foreign", None)
            return [(st, none())]
        st.fresh += 1
        k = st.fresh
        t = T("walked", k)
        if ip.decide_eq(st, T("discr", t, (0, 1)), I(0)):
            st.event("walk", i, None, k)
            return [(st, none())]
        p = fld(t, 1, 0)
        x = walk_inx(s, z, p)
        m = z.m(st)
        st.facts.assume_le(I(1), x)
        st.facts.assume_le(x, m.len)
        e = ip.vec_get(st, m, x)
        n = st.facts.norm(e) if isinstance(e, Term) else e
        if isinstance(n, Agg):
            if n.variant != s.L.alloc:
                raise Contradiction()
        else:
            st.facts.assume_eq(T("discr", e, s.L.discr), I(s.L.discr[s.L.alloc]))
        if not z.nogen:
            st.facts.assume_eq(z.egen(e), p_gen(p))
        st.event("walk", i, p, k)
        return [(st, some(p))]
    for f in s.prog.fns:
        if f["key"] is None:
            continue
        if trait_is(f, "Advancer") and f["name"] == "advance":
            tab[f["path"]] = step
        elif f["name"] == "advancer" and len(f["inputs"]) == 1 and s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path")):
            tab[f["path"]] = start
    return zs


def walk_inx(s, z, p):
    """Slot a yielded pointer addresses (value pointers are plain structs)."""
    return fld(p, 0, s.L.png_inx) if z.role == "vals" else p_inx(p)


def parts_of(s, c, z, p):
    """Documented parts of the entry `p` of a walked arena, by name."""
    e = s.ip.vec_get(c, z.pre_m(), p_inx(p))
    out = {"p": p}
    n = fld(e, s.L.alloc, s.L.e_t)
    if z.role == "plain":
        out["x"] = n
        return out
    out["whole"] = n
    pn, t = fld(n, 0, z.link[0]), fld(n, 0, z.link[1])
    out["pair"], out["prev"], out["next"], out["t"] = pn, fld(pn, 0, 0), fld(pn, 0, 1), t
    if z.role == "nodes":
        out["k"], out["v"] = fld(t, 0, s.L.n_f["k"]), fld(t, 0, s.L.n_f["v"])
    if z.role == "keys":
        out["k"] = fld(t, 0, s.L.k_k)
        vz = z.sib["vals"]
        ve = s.ip.vec_get(c, vz.pre_m(), pval_inx(s, z, e))
        out["v"] = fld(fld(ve, s.L.alloc, s.L.e_t), 0, s.L.v_v)
        out.pop("whole")
        out.pop("t")
    return out


def link_parts(s, v, l):
    pn = fld(v, 0, l[0])
    return {"whole": v, "pair": pn, "prev": fld(pn, 0, 0), "next": fld(pn, 0, 1), "t": fld(v, 0, l[1])}


GROUPS = {"whole": ("prev", "next", "t"), "pair": ("prev", "next")}


def compared(s, c, a, b):
    """Comparisons made on this path: {names covered: operands}."""
    out = {}
    for e in c.events:
        if e[0] != "usereq":
            continue
        for n in a:
            if n not in b:
                continue
            cover = GROUPS.get(n, (n,))
            if same_value(s, c, e[1], a[n]) and same_value(s, c, e[2], b[n]):
                out[cover] = (e[1], e[2])
            elif same_value(s, c, e[2], a[n]) and same_value(s, c, e[1], b[n]):
                out.setdefault(cover, (e[1], e[2]))
    return out


def equal_part(s, c, n, x, y, seen):
    """Are two parts equal? Refines the state where the path did not ask."""
    ip = s.ip
    if n == "p":
        return same_ptr(s, c, x, y)
    if n in ("prev", "next"):
        vx, vy = s.variant(c, x), s.variant(c, y)
        if vx != vy:
            return False
        if vx == 0:
            return True
        q, r = opt_val(c, x), opt_val(c, y)
        return same_ptr(s, c, q, r) if s.link_gen else ip.decide_eq(c, q, r)
    for k, (a, b) in seen.items():
        if k == (n,):
            x, y = a, b
    return ip.truth(c, T("bool", "usereq", x, y)) == 1


def same_ptr(s, c, x, y):
    return s.ip.decide_eq(c, p_inx(x), p_inx(y)) and s.ip.decide_eq(c, p_gen(x), p_gen(y))


def all_equal(s, c, names, a, b):
    seen = compared(s, c, a, b)
    done = set()
    for k, (x, y) in seen.items():
        if len(k) > 1 and all(n in names for n in k):
            done |= set(k)
            if s.ip.truth(c, T("bool", "usereq", x, y)) != 1:
                return False
    for n in names:
        if n not in done and not equal_part(s, c, n, a[n], b[n], seen):
            return False
    return True


def lexicographic(s, c, names, a, b):
    """Result the comparisons made on this path determine; "open" if a part
    that matters was not compared."""
    i = 0
    while i < len(names):
        n = names[i]
        step = 1
        group = next((g for g in ("whole", "pair") if g in a and GROUPS[g] == names[i:i + len(GROUPS[g])]
                      and asked(s, c, a[g], b[g]) is not None), None)
        if group:
            r, step = asked(s, c, a[group], b[group]), len(GROUPS[group])
        elif n in ("prev", "next"):
            r = asked(s, c, a[n], b[n])
            if r is None:
                vx, vy = s.variant(c, a[n]), s.variant(c, b[n])
                r = 1 if vx == vy == 0 else 0 if vx < vy else 2 if vx > vy else asked(s, c, opt_val(c, a[n]), opt_val(c, b[n]))
        else:
            r = asked(s, c, a[n], b[n])
        if r is None:
            return "open"
        if r != 1:
            return r
        i += step
    return 1


def asked(s, c, x, y):
    """Outcome of the comparison of two values if this path made it."""
    for e in c.events:
        if e[0] != "usercmp":
            continue
        swapped = same_value(s, c, e[2], x) and same_value(s, c, e[1], y)
        if not swapped and not (same_value(s, c, e[1], x) and same_value(s, c, e[2], y)):
            continue
        r = outcome(s, c, e[3], e[3].op == "partial_cmp")
        return 2 - r if swapped and r != "none" else r
    return None


def rule_compare(s):
    t = s.L.strip(s.tys[0])
    s.link_gen = False
    if t["path"] in s.L.links:
        return compare_links(s, t)
    zs = install_walk(s, [walked_sub(s.by[i]) for i in (1, 2)])
    if None in zs or zs[0].role != zs[1].role:
        return [Finding("E01", s.path, "no two arenas to compare were found")]
    z = zs[0]
    s.link_gen = bool(z.link and z.link[2])
    names = DOCUMENTED[z.role]
    s.run()
    out = []
    n = 0
    ends = [(it.back, None, len(it.head.events)) for it in s.ip.iterations]
    ends += [(st, ret, last_head(st)) for st, ret in s.out]
    for st, ret, since in ends:
        for c, r in cases(s.ip, st, lambda c: judge(s, c, zs, names, ret, since)):
            n += 1
            if r:
                out.append(Finding("E01", s.path, r, path_text(c)))
    s.checked = n
    return out


def last_head(st):
    k = 0
    for i, e in enumerate(st.events):
        if e[0] == "head":
            k = i
    return k


def judge(s, c, zs, names, ret, since):
    walk = [[e for e in c.events[since:] if e[0] == "walk" and e[1] == i] for i in (0, 1)]
    if any(e[2] == "foreign" for w in walk for e in w):
        return "an advancer of one arena walks the other"
    partial = s.name == "partial_cmp"
    ordered = s.name in ("partial_cmp", "cmp")
    if any(len(w) > 1 for w in walk):
        return "one pass takes several entries of the same arena"
    got = [w[0][2] if w else "?" for w in walk]
    if "?" in got and any(e[0] == "opaque" and "::iter" in e[1] for e in c.events[since:]):
        raise Limit("walks by a library adaptor")
    l0, l1 = zs[0].len(c), zs[1].len(c)
    if ret is not None:
        if ordered:
            res = outcome(s, c, ret, partial)
        elif s.name in ("eq", "ne"):
            res = s.ip.truth(c, ret) == (1 if s.name == "eq" else 0)
        else:
            raise Limit("derived comparison")
    if "?" in got:
        if ret is None:
            return "a pass does not take an entry of both arenas"
        if ordered:
            return "answers without looking at both arenas"
        eq = c.facts.eq(l0, l1)
        if got == ["?", "?"] or not res:
            return None if eq is False and not res else "answers without looking at both arenas"
        return None if eq is True and None in got else "answers without looking at both arenas"
    if None in got:
        if ret is None:
            return "goes on after the end of an arena"
        want = 1 if got == [None, None] else 0 if got[0] is None else 2
        if not ordered:
            return None if res == (want == 1) else "does not tell a prefix from an equal arena"
        return None if res == want else "does not order by length"
    a, b = parts_of(s, c, zs[0], got[0]), parts_of(s, c, zs[1], got[1])
    if ordered:
        want = lexicographic(s, c, names, a, b)
        if ret is None:
            return None if want == 1 else "goes on although a part differs or was not compared"
        if want == 1:
            return "answers before the end although the entries are equal"
        return None if res == want else "does not answer by the first part that differs"
    eq = all_equal(s, c, names, a, b)
    if ret is None:
        return None if eq else "goes on although a documented part of the entries differs"
    if res:
        return "says equal before the end"
    return "says unequal although all documented parts are equal" if eq else None


def compare_links(s, t):
    l = s.L.links[t["path"]]
    s.link_gen = bool(l[2])
    a, b = (link_parts(s, T("deref", x), l) for x in s.args)
    names = ("prev", "next", "t")
    partial = s.name == "partial_cmp"
    out = []
    n = 0
    s.run()
    for st, ret in s.out:
        def check(c):
            if s.name in ("eq", "ne"):
                eq = all_equal(s, c, names, a, b)
                return None if (s.ip.truth(c, ret) == (1 if s.name == "eq" else 0)) == eq else "does not compare all parts"
            if s.name not in ("partial_cmp", "cmp"):
                raise Limit("derived comparison")
            want = lexicographic(s, c, names, a, b)
            return None if outcome(s, c, ret, partial) == want else "does not answer by the first part that differs"
        for c, r in cases(s.ip, st, check):
            n += 1
            if r:
                out.append(Finding("E01", s.path, r, path_text(c)))
    s.checked = n
    return out


def picks_hash(s):
    if not trait_is(s.f, "Hash") or s.name != "hash":
        return False
    t = s.L.strip(s.tys[0])
    return t["k"] == "adt" and t["path"] in s.L.links


def rule_hash(s):
    l = s.L.links[s.L.strip(s.tys[0])["path"]]
    a = link_parts(s, T("deref", s.args[0]), l)
    s.run()
    out = []
    n = 0
    for st, _ in s.out:
        if any(e[0] == "opaque" and s.args[1] in e[2] for e in st.events):
            raise Limit("writes to the hasher directly")
        fed = []
        n += 1
        for e in st.events:
            if e[0] != "hash":
                continue
            k = next((k for k in a if same_value(s, st, e[1], a[k])), None)
            if k is None:
                out.append(Finding("E01", s.path, "hashes something equality does not compare", path_text(st)))
            else:
                fed += GROUPS.get(k, (k,))
        if sorted(fed) != ["next", "prev", "t"]:
            out.append(Finding("E01", s.path, "does not hash each compared part once", path_text(st)))
    s.checked = n
    return out
