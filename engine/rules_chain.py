"""What an operation may change, and what it must leave or make: entry frames
(A07), mutual interlinks (C01), documented neighbours (C02), key counts (S01)
and value resolution (S02)."""
from terms import *
from interp import Split, Limit
from facts import Contradiction
from layout import last
from subject import cases, HeapView
from rules_core import (Finding, path_text, lookup, key_sub, same_value, entry_changes, opt_val, ixeq, ptr_parts, by_mut,
                        pval_inx, ret_ptrs, valid)

BULK = {"clear", "clear_and_shrink", "compress_and_shrink", "compress_and_shrink_with", "compress_and_shrink_recaster",
        "clone_from", "clone_from_with", "clone_to_arena", "clone_to_chain_arena", "recast", "drain", "capacity_drain",
        "remove_by", "remove_chain", "clone", "reserve"}


# ------------------------------------------------------------------ helpers

def is_inx_ty(s, ty):
    t = s.prog.types[ty]
    return t["k"] == "alias" and t["s"].endswith("::Inx")


def own_indices(s, c):
    """[(argument position, index)] that the arguments address."""
    out = []
    for i, (a, ty) in enumerate(zip(s.args, s.tys), 1):
        t = s.prog.types[ty]
        if s.ty_is_ptr(ty):
            out.append((i, ptr_parts(a)[0]))
        elif is_inx_ty(s, ty):
            out.append((i, a))
        elif t["k"] == "param" and any(b.endswith("::Borrow") for b in t["bounds"]):
            out.append((i, ptr_parts(T("borrowed", a))[0]))
        elif t["k"] == "tuple":
            for j, u in enumerate(t["args"]):
                ut = s.prog.types[u]
                if ut["k"] == "adt" and last(ut["path"]) == "Option":
                    isp, isi = s.ty_is_ptr(ut["args"][0]), is_inx_ty(s, ut["args"][0])
                    if (isp or isi) and s.variant(c, fld(a, 0, j)) == 1:
                        q = opt_val(c, fld(a, 0, j))
                        out.append((i, ptr_parts(q)[0] if isp else q))
    return out


def data_fields(s, z):
    """[(type id, projection below the payload)] of the caller's data."""
    L = s.L
    out = []
    skip = tree_names(L)

    def walk(ty, proj):
        t = s.prog.types[ty]
        if t["k"] == "adt" and t["path"] in L.links:
            f = L.links[t["path"]][1]
            walk(t["variants"][0]["fields"][f]["ty"], proj + ((0, f),))
        elif t["k"] == "adt" and t["path"] == L.key:
            out.append((t["variants"][0]["fields"][L.k_k]["ty"], proj + ((0, L.k_k),)))
        elif t["k"] == "adt" and t["path"] == L.val:
            out.append((t["variants"][0]["fields"][L.v_v]["ty"], proj + ((0, L.v_v),)))
        elif t["k"] == "adt" and t["path"] == L.node:
            for n in ("k", "v"):
                out.append((t["variants"][0]["fields"][L.n_f[n]]["ty"], proj + ((0, L.n_f[n]),)))
        else:
            out.append((ty, proj))
    walk(L.payload_ty(z.aty), ())
    return out


def tree_names(L):
    return {"p_back", "p_tree0", "p_tree1", "rank"}


def at(v, proj):
    for a, b in proj:
        v = fld(v, a, b)
    return v


def among(s, c, z, i, own):
    return any(ixeq(s, c, z.base, i, o) for o in own)


def index_in(s, c, z, own):
    """Indices of arena z that key indices `own` resolve to."""
    if z.role == "vals" and "keys" in z.sib:
        k = z.sib["keys"]
        out = []
        for o in own:
            e = lookup(s, c, k, k.pre_m(), o)
            if e is not None and k.is_alloc(c, e):
                out.append(pval_inx(s, k, e))
        return out
    return own


def initial(c):
    return HeapView.of(c, {})


# ------------------------------------------------------------------ A07

def may_change_data(name):
    return name.startswith(("swap", "replace")) or name in ("insert", "insert_linear", "insert_inx_manual_unwrap")


def picks_frame(s):
    return s.self_kind() is not None and s.name not in BULK and s.prog.types[s.tys[0]]["k"] == "ref"


def rule_frame(s):
    """Only addressed entries change; results are the addressed entry's data."""
    if not picks_frame(s):
        return []
    out = []
    n = 0
    sub = key_sub(s)
    for st, ret in s.out:
        def check(c):
            bad = []
            ok = s.success(c, ret)
            own = [o for _, o in own_indices(s, c)]
            rp = [ptr_parts(p)[0] for p in ret_ptrs(s, c, ret)] if ok is not False else []
            done = 0
            for z in s.by[1]:
                ch = entry_changes(s, c, z, initial(c), c)
                if ch is None:
                    continue
                done += 1
                mine = index_in(s, c, z, own + (rp if z is sub else []))
                gone = index_in(s, c, z, own)
                for i, e0, e1 in ch:
                    a0 = e0 is not None and z.is_alloc(c, e0)
                    a1 = e1 is not None and z.is_alloc(c, e1)
                    if a0 and not a1 and not among(s, c, z, i, gone):
                        bad.append(f"removes an entry of the {z.role} arena that is not addressed")
                    if a0 and a1:
                        me = among(s, c, z, i, mine)
                        if not z.nogen and not same_value(s, c, z.egen(e0), z.egen(e1)) and not me:
                            bad.append("changes the generation of an entry that is not addressed")
                        for ty, proj in data_fields(s, z):
                            if not same_value(s, c, at(z.payload(e0), proj), at(z.payload(e1), proj)):
                                if not me:
                                    bad.append("changes the value of an entry that is not addressed")
                                elif not may_change_data(s.name):
                                    bad.append("changes the value of an entry")
            if ok is not False:
                bad += check_result(s, c, sub, own, rp, ret)
                bad += check_moves(s, c, sub, ret)
            return bad if done or bad else None
        for c, r in cases(s.ip, st, check):
            if r is None:
                continue
            n += 1
            for b in r:
                out.append(Finding("A07", s.path, b, path_text(c)))
    s.checked = n
    return out


def check_result(s, c, sub, own, rp, ret):
    """Every datum in the result is the matching datum of an addressed entry."""
    bad = []
    if sub is None and not s.by.get(1):
        return bad
    fields = [(z, ty, proj) for z in s.by[1] for ty, proj in data_fields(s, z)]
    if not (own or rp):
        return bad
    args = {}
    for _, a, ty, k in s.user_args():
        args.setdefault(ty, []).append(a)

    def olds(ty, idx):
        for z, t, proj in fields:
            if t == ty:
                for i in index_in(s, c, z, idx):
                    e = lookup(s, c, z, z.pre_m(), i)
                    if e is not None and z.is_alloc(c, e):
                        yield at(z.payload(e), proj)

    def walk(v, ty, idx):
        t = s.prog.types[ty]
        hit = [f for f in fields if f[1] == ty]
        if hit and not (t["k"] == "adt" and t["path"] in s.L.links):
            vs = list(olds(ty, idx))
            if isinstance(v, Term) and v.op == "ret":
                return
            if any(same_value(s, c, v, x) for x in vs):
                return
            if any(same_value(s, c, v, a) for a in args.get(ty, [])) and not s.name.startswith("replace"):
                return
            bad.append("a returned value is not the one that was stored under the pointer")
            return
        if t["k"] == "ref":
            place(v, t["to"], idx)
            return
        if t["k"] == "tuple":
            for k, u in enumerate(t["args"]):
                walk(fld(v, 0, k), u, idx)
        elif t["k"] == "adt" and t["enum"] and last(t["path"]) in ("Option", "Result"):
            k = s.variant(c, v)
            v2 = c.facts.norm(v) if isinstance(v, Term) else v
            fs = t["variants"][k]["fields"]
            if fs and (last(t["path"]) == "Option" or k == 0):
                # two results for two pointers, in order
                ft = s.prog.types[fs[0]["ty"]]
                if len(idx) == 2 and len(own) == 2 and ft["k"] == "tuple" and len(ft["args"]) == 2 and ft["args"][0] == ft["args"][1]:
                    for j in (0, 1):
                        walk(fld(fld(v2, k, 0), 0, j), ft["args"][j], [own[j]])
                else:
                    walk(fld(v2, k, 0), fs[0]["ty"], idx)
        elif t["k"] == "adt" and t["path"] in s.L.links:
            f = s.L.links[t["path"]]
            fs = t["variants"][0]["fields"]
            walk(fld(v, 0, f[1]), fs[f[1]]["ty"], idx)
            links(v, f, idx)
        elif t["k"] == "alias" and t["s"].endswith("::Gen"):
            z = sub
            if z is None or z.nogen:
                return
            for i in idx:
                e = lookup(s, c, z, z.m(c), i)
                if e is not None and z.is_alloc(c, e) and same_value(s, c, v, z.egen(e)):
                    return
            bad.append("a returned generation is not that of the addressed entry")

    def links(v, f, idx):
        z = next((x for x in s.by[1] if x.link is not None), None)
        if z is None:
            return
        for i in idx:
            e = lookup(s, c, z, z.pre_m(), i)
            if e is None or not z.is_alloc(c, e):
                continue
            good = True
            for w in (0, 1):
                want = z.link_of(e, w)
                got = fld(fld(v, 0, f[0]), 0, w)
                k = s.variant(c, want)
                if s.variant(c, got) != k:
                    good = False
                elif k == 1:
                    g, x = opt_val(c, got), opt_val(c, want)
                    wi = p_inx(x) if z.link[2] else x
                    gi = ptr_parts(g)[0] if f[2] else g
                    if not ixeq(s, c, z.base, gi, wi):
                        good = False
                    elif f[2]:
                        te = s.ip.vec_get(c, z.pre_m(), wi)
                        if not same_value(s, c, ptr_parts(g)[1], z.egen(te)):
                            good = False
            if good:
                return
        bad.append("the returned interlinks are not those of the addressed link")

    def place(v, ty, idx):
        r = c.facts.norm(v) if isinstance(v, Term) else v
        if not isinstance(r, Ref):
            return
        t = s.prog.types[ty]
        for z in s.by[1]:
            if not (r.obj is z.obj or r.obj == z.obj):
                continue
            pre = z.proj + (("f", 0, s.L.a_m),)
            n = len(pre)
            if r.proj[:n] != pre or len(r.proj) < n + 1 or r.proj[n][0] != "ix":
                continue
            rest = tuple((p[1], p[2]) for p in r.proj[n + 1:])
            head = ((s.L.alloc, s.L.e_t),)
            want = [head + proj for fz, fty, proj in fields if fz is z and fty == ty]
            if t["k"] == "adt" and t["path"] in s.L.links:
                want.append(head)
            if want and rest not in want:
                bad.append("the returned reference is not to the stored value")
            if not among(s, c, z, r.proj[n][1], index_in(s, c, z, idx)):
                bad.append("the returned reference is to another entry")
            return
    walk(ret, s.f["output"], (rp or own) if s.name.startswith("insert") else (own or rp))
    return bad


def moves_of(s):
    """(arena role, datum name) exchanged by a swap."""
    return {"swap": (None, None), "swap_keys": ("keys", None), "swap_vals": ("vals", None)}.get(s.name)


def check_moves(s, c, sub, ret):
    bad = []
    if s.name.startswith("swap") and moves_of(s) is not None:
        own = [o for _, o in own_indices(s, c)]
        if len(own) != 2:
            return bad
        role = moves_of(s)[0]
        z = next((x for x in s.by[1] if x.role == role), sub)
        idx = index_in(s, c, z, own)
        if len(idx) != 2:
            return bad
        fs = data_fields(s, z)
        if z.role == "nodes":
            fs = fs[1:]
        for a, b in ((0, 1), (1, 0)):
            e1 = s.ip.vec_get(c, z.m(c), idx[a])
            e0 = s.ip.vec_get(c, z.pre_m(), idx[b])
            for ty, proj in fs:
                if not same_value(s, c, at(z.payload(e1), proj), at(z.payload(e0), proj)):
                    bad.append("the two values are not exchanged")
    if s.name.startswith("replace") and s.name != "replace_free_with_allocated":
        own = [o for _, o in own_indices(s, c)]
        vals = [(a, ty) for _, a, ty, k in s.user_args() if k == "val"]
        if len(own) == 1 and len(vals) == 1 and sub is not None:
            e1 = s.ip.vec_get(c, sub.m(c), own[0])
            if not any(ty == vals[0][1] and same_value(s, c, at(sub.payload(e1), proj), vals[0][0])
                       for ty, proj in data_fields(s, sub)):
                bad.append("the given value is not stored")
    return bad


# ------------------------------------------------------------------ C01

def chain_subs(s):
    return [z for z in s.by.get(1, []) if z.link is not None]


def picks_chain(s):
    return bool(chain_subs(s)) and by_mut(s) and s.self_kind() is not None


def neighbour(s, c, z, e, w, raw=False):
    """Index of the prev (0) / next (1) link of entry e, or None."""
    l = z.link_of(e, w)
    if s.variant(c, l) != 1:
        return None
    q = opt_val(c, l)
    if raw:
        return q
    return p_inx(q) if z.link[2] else q


def rule_mutual(s):
    """After the call the interlinks of every link that changed, and of its
    former neighbours, are mutual and lead to live links."""
    if not picks_chain(s):
        return []
    out = []
    n = 0
    for z in chain_subs(s):
        for st, ret in s.out:
            def check(c):
                ch = entry_changes(s, c, z, initial(c), c)
                if ch is None:
                    return None
                return mutual(s, c, z, ch)
            for c, r in cases(s.ip, st, check):
                if r is None:
                    continue
                n += 1
                for b in r:
                    out.append(Finding("C01", s.path, b, path_text(c)))
    s.checked = n
    return out


def mutual(s, c, z, ch):
    post = z.m(c)
    todo = []

    def add(i):
        if not any(ixeq(s, c, z.base, i, j) for j in todo):
            todo.append(i)
    for i, e0, e1 in ch:
        if e1 is not None:
            add(i)
        if e0 is not None and z.is_alloc(c, e0):
            for w in (0, 1):
                q = neighbour(s, c, z, e0, w)
                if q is not None:
                    add(q)
    bad = []
    for i in todo:
        e = s.ip.vec_get(c, post, i)
        if not z.is_alloc(c, e):
            continue
        for w in (0, 1):
            q = neighbour(s, c, z, e, w, True)
            if q is None:
                continue
            j = p_inx(q) if z.link[2] else q
            if c.facts.decide_le(j, post.len) is False:
                bad.append("a link names a slot that does not exist")
                continue
            f = s.ip.vec_get(c, post, j)
            if not z.is_alloc(c, f):
                bad.append("a link names a removed link")
                continue
            if z.link[2] and not s.ip.decide_eq(c, p_gen(q), z.egen(f)):
                bad.append("a link names another by an outdated pointer")
                continue
            b = neighbour(s, c, z, f, 1 - w, True)
            if b is None:
                bad.append("a link names another that does not name it back")
                continue
            bi = p_inx(b) if z.link[2] else b
            if not ixeq(s, c, z.base, bi, i) or (z.link[2] and not s.ip.decide_eq(c, p_gen(b), z.egen(e))):
                bad.append("a link names another that does not name it back")
    return bad


# ------------------------------------------------------------------ C02

class Links:
    """Expected interlinks: those before the call with edits on top."""

    def __init__(self, s, c, z):
        self.s, self.c, self.z = s, c, z
        self.edits = []

    def set(self, i, w, v):
        if i is not None:
            self.edits.insert(0, (i, w, v))

    def get(self, i, w):
        for j, u, v in self.edits:
            if u == w and ixeq(self.s, self.c, self.z.base, i, j):
                return v
        e = self.s.ip.vec_get(self.c, self.z.pre_m(), i)
        return neighbour(self.s, self.c, self.z, e, w)

    def join(self, a, b):
        self.set(a, 1, b)
        self.set(b, 0, a)


def expected(s, c, z, ret):
    """Links object after a successful call of this method, None if the
    method has no statement here."""
    E = Links(s, c, z)
    name = s.name
    kind = s.self_kind()
    own = own_indices(s, c)
    idx = [o for _, o in own]
    if kind in ("ChainArena", "ChainNoGenArena"):
        if name in ("insert", "insert_with"):
            new = ptr_parts(ret_ptrs(s, c, ret)[0])[0]
            tup = next((a for a, ty in zip(s.args, s.tys) if s.prog.types[ty]["k"] == "tuple"), None)
            if tup is None:
                # through the arena trait: a link says where it goes
                tup = fld(s.args[1], 0, z.link[0])
            ab = []
            for w in (0, 1):
                if s.variant(c, fld(tup, 0, w)) == 1:
                    q = opt_val(c, fld(tup, 0, w))
                    ab.append(ptr_parts(q)[0] if z.link[2] else q)
                else:
                    ab.append(None)
            a, b = ab
            if a is not None and b is None:
                b = E.get(a, 1)
            elif b is not None and a is None:
                a = E.get(b, 0)
            return between(E, new, a, b)
        if name in ("insert_new", "insert_new_with"):
            return between(E, ptr_parts(ret_ptrs(s, c, ret)[0])[0], None, None)
        if name in ("insert_new_cyclic", "insert_new_cyclic_with"):
            new = ptr_parts(ret_ptrs(s, c, ret)[0])[0]
            return between(E, new, new, new)
        if name == "insert_start":
            return between(E, ptr_parts(ret_ptrs(s, c, ret)[0])[0], None, idx[0])
        if name == "insert_end":
            return between(E, ptr_parts(ret_ptrs(s, c, ret)[0])[0], idx[0], None)
        if name == "connect":
            E.join(idx[0], idx[1])
            return E
        if name == "break_prev":
            p = E.get(idx[0], 0)
            E.set(idx[0], 0, None)
            E.set(p, 1, None)
            return E
        if name == "break_next":
            p = E.get(idx[0], 1)
            E.set(idx[0], 1, None)
            E.set(p, 0, None)
            return E
        if name == "exchange_next":
            d0, d1 = E.get(idx[0], 1), E.get(idx[1], 1)
            E.set(idx[0], 1, d1)
            E.set(idx[1], 1, d0)
            E.set(d0, 0, idx[1])
            E.set(d1, 0, idx[0])
            return E
    if name == "remove" and kind in ("ChainArena", "ChainNoGenArena", "OrdArena") or name == "remove_key":
        a, b = E.get(idx[0], 0), E.get(idx[0], 1)
        if a is not None and ixeq(s, c, z.base, a, idx[0]):
            return E
        E.set(a, 1, b)
        E.set(b, 0, a)
        return E
    if kind == "SurjectArena":
        if name in ("insert", "insert_with"):
            new = ptr_parts(ret_ptrs(s, c, ret)[0])[0]
            return between(E, new, new, new)
        return None
    if kind == "OrdArena" and name.startswith("insert"):
        return None
    return E


def between(E, new, a, b):
    E.set(new, 0, a)
    E.set(new, 1, b)
    if a is not None:
        E.set(a, 1, new)
    if b is not None:
        E.set(b, 0, new)
    return E


def kept(s, c, z, e0, e1):
    """The entry is live with the same interlinks in both, or free in both."""
    a0 = e0 is not None and z.is_alloc(c, e0)
    a1 = e1 is not None and z.is_alloc(c, e1)
    if not a0 or not a1:
        return a0 == a1
    for w in (0, 1):
        i, j = neighbour(s, c, z, e0, w), neighbour(s, c, z, e1, w)
        if (i is None) != (j is None) or (i is not None and not ixeq(s, c, z.base, i, j)):
            return False
    return True


def picks_neighbours(s):
    return picks_chain(s) and s.name not in BULK


def rule_neighbours(s):
    """The interlinks after a call are exactly the documented ones."""
    if not picks_neighbours(s):
        return []
    out = []
    n = 0
    for z in chain_subs(s):
        for st, ret in s.out:
            def check(c):
                ch = entry_changes(s, c, z, initial(c), c)
                if ch is None:
                    return None
                if s.success(c, ret) is False:
                    return [] if all(kept(s, c, z, e0, e1) for _, e0, e1 in ch) else ["a refused operation changes interlinks"]
                E = expected(s, c, z, ret)
                if E is None:
                    return None
                look = []

                def add(i):
                    if i is not None and not any(ixeq(s, c, z.base, i, j) for j in look):
                        look.append(i)
                for i, e0, e1 in ch:
                    add(i)
                for i, w, v in E.edits:
                    add(i)
                bad = []
                for i in look:
                    e = lookup(s, c, z, z.m(c), i)
                    if e is None or not z.is_alloc(c, e):
                        continue
                    for w in (0, 1):
                        want = E.get(i, w)
                        got = neighbour(s, c, z, e, w)
                        if (want is None) != (got is None) or (want is not None and not ixeq(s, c, z.base, want, got)):
                            bad.append(f"an interlink ({'next' if w else 'prev'}) is not the documented one")
                return bad
            for c, r in cases(s.ip, st, check):
                if r is None:
                    continue
                n += 1
                for b in r:
                    out.append(Finding("C02", s.path, b, path_text(c)))
    s.checked = n
    return out
