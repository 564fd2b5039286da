"""Iteration (I01): cursors visit every live entry once and in order, items are
the visited entry's own pointer and data, drains remove what they yield.

A cursor is any struct with an `Advancer` impl, found inside iterators by type.
Index cursors hold a slot index; link cursors hold an optional pointer (plus,
recognised by type, the starting pointer, the direction flag and a step limit).
"""
from terms import *
from interp import Limit, State
from layout import last
from models import target, some, none
from subject import Subject, cases
from rules_core import (Finding, path_text, lookup, key_sub, same_value, opt_val, ixeq, ptr_parts, pval_inx, ret_ptrs, valid,
                        gen_steps)
from rules_chain import check_result, at, data_fields, is_inx_ty


def trait_is(f, name):
    return bool(f.get("trait")) and last(f["trait"].split("<")[0]) == name


def cursor_types(s):
    tab = getattr(s.prog, "_cursors", None)
    if tab is None:
        tab = {s.L.strip(f["inputs"][0])["path"] for f in s.prog.fns if trait_is(f, "Advancer") and f["name"] == "advance"
               and f["inputs"]}
        s.prog._cursors = tab
    return tab


class Cursor:
    """A cursor inside a value: steps to it and its fields by role."""

    def __init__(self, path, ty):
        self.path = path
        self.ty = ty
        self.inx = self.ptr = self.init = self.switch = self.max = None
        self.ptr_ty = self.init_ty = None


def cursors(s, ty, path=(), depth=0, inside=False):
    """Cursors inside a value of type `ty` (through references)."""
    t = s.prog.types[ty]
    if depth > 7:
        return []
    if t["k"] == "ref":
        return cursors(s, t["to"], path + (("d",),), depth + 1, inside)
    if t["k"] != "adt" or t["enum"] or not t["local"] or len(t["variants"]) != 1 or s.prog.is_vec(ty):
        return []
    if t["path"] in s.L.kinds:
        return []
    fs = t["variants"][0]["fields"]
    mine = inside or t["path"] in cursor_types(s)
    out = []
    for i, f in enumerate(fs):
        out += cursors(s, f["ty"], path + (("f", 0, i),), depth + 1, mine)
    if out or not mine:
        return out
    c = Cursor(path, ty)
    for i, f in enumerate(fs):
        ft = s.prog.types[f["ty"]]
        if ft["k"] == "adt" and last(ft["path"]) == "PhantomData":
            continue
        if s.prog.is_nonzero(f["ty"]):
            c.inx = i
        elif ft["k"] == "adt" and last(ft["path"]) == "Option":
            c.ptr, c.ptr_ty = i, ft["args"][0]
        elif ft["k"] == "bool":
            c.switch = i
        elif ft["k"] == "int":
            c.max = i
        elif s.ty_is_ptr(f["ty"]) or is_inx_ty(s, f["ty"]):
            c.init, c.init_ty = i, f["ty"]
    return [c] if c.inx is not None or c.ptr is not None else []


def locate(arg, path):
    """(object, projection, initial value) of a part of argument `arg`."""
    obj, proj, v = None, (), arg
    for p in path:
        if p[0] == "d":
            obj, proj, v = v, (), T("deref", v)
        else:
            proj, v = proj + (p,), fld(v, p[1], p[2])
    return obj, proj, v


def walked(s, argi, path):
    """The arena a cursor walks over: the one nearest to it."""
    best = None
    order = ("keys", "nodes", "chain", "chain_ng", "plain", "vals")
    for z in s.by.get(argi, []):
        k = 0
        while k < len(path) and k < len(z.path) and path[k] == z.path[k]:
            k += 1
        key = (-k, order.index(z.role))
        if best is None or key < best[0]:
            best = (key, z)
    return best and best[1]


# ------------------------------------------------------------------ stepping

def picks_step(s):
    if trait_is(s.f, "Advancer") and s.name == "advance":
        return True
    return trait_is(s.f, "Iterator") and s.name == "next" and bool(s.by.get(1)) and bool(cursors(s, s.tys[0]))


def install_removal(s):
    """Removal from an OrdArena as one step: hands back the entry's key and
    value if the pointer is live (decided by A01, A07 and C02 for `remove`)."""
    z = next((x for x in s.subs if x.role == "nodes"), None)
    if z is None:
        return
    f = next((f for f in s.prog.fns if f["name"] == "remove" and f["key"] and not f.get("trait") and f["inputs"]
              and s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path")) == "OrdArena"), None)
    if f is None:
        return

    def model(ip, st, fn, args, tys, d, line):
        if z.m(st).base is not z.base or z.m(st).over:
            raise Limit("second removal")
        if not valid(s, st, z, args[1]):
            return [(st, none())]
        i = ptr_parts(args[1])[0]
        e = ip.vec_get(st, z.pre_m(), i)
        n = z.inner(e)
        ip.write_loc(st, z.obj, z.proj + (("f", 0, s.L.a_m), ("ix", i)),
                     agg(s.L.entry, s.L.free, None, ((0, st.new("tree")),)))
        kv = agg("tuple", 0, None, ((0, fld(n, 0, s.L.n_f["k"])), (1, fld(n, 0, s.L.n_f["v"]))))
        return [(st, some(kv))]
    s.ip.models.contracts[f["path"]] = model


def rule_step(s):
    adv = s.name == "advance"
    cs = cursors(s, s.tys[0])
    if not cs:
        return [Finding("I01", s.path, "no cursor state was recognised")]
    if len(cs) > 1:
        raise Limit("several cursors")
    cur = cs[0]
    z = walked(s, 2 if adv else 1, () if adv else cur.path)
    if z is None:
        return [Finding("I01", s.path, "no arena to walk over was found")]
    obj, proj, v0 = locate(s.args[0], cur.path)
    install_removal(s)
    s.run()
    n = 0
    out = []

    def post(c, i):
        return fld(s.ip.read_loc(c, obj, proj), 0, i)
    passes = set()
    for st, ret in s.out:
        def check(c):
            bad = []
            if cur.inx is not None:
                i = index_step(s, c, z, cur, v0, post, ret, bad, passes)
            else:
                i = link_step(s, c, z, cur, v0, post, ret, bad)
            if i is not None:
                item(s, c, z, i, ret, bad)
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("I01", s.path, b, path_text(c)) for b in r]
    if cur.inx is not None:
        x0 = fld(v0, 0, cur.inx)
        for it in s.ip.iterations:
            for off, k in passes:
                def skip(c):
                    j = lin_add(lin_add(x0, k), I(off))
                    e = lookup(s, c, z, z.pre_m(), j)
                    return e is not None and not z.is_alloc(c, e)
                for c, r in cases(s.ip, it.back, skip):
                    n += 1
                    if not r:
                        out.append(Finding("I01", s.path, "a pass of the search skips an entry it has not found vacant",
                                           path_text(c)))
    s.checked = n
    return out


def index_step(s, c, z, cur, v0, post, ret, bad, passes):
    x0 = fld(v0, 0, cur.inx)
    x1 = c.facts.norm(post(c, cur.inx))
    some_ = s.variant(c, ret) == 1
    # position at which the search stopped
    pos = lin_sub(x1, I(1)) if some_ else x1
    off, terms = lin_parts(lin_sub(pos, c.facts.norm(x0)))
    ns = [t for t in terms if t.op == "n"]
    if len(terms) > 1 or len(terms) == 1 and (not ns or terms[ns[0]] != 1) or off < 0:
        bad.append("the cursor does not move one slot at a time")
        return None
    k = ns[0] if ns else I(0)
    if ns:
        passes.add((off, k))
    # entries stepped over outside the loop
    for j in range(off):
        e = lookup(s, c, z, z.pre_m(), lin_add(x0, I(j)))
        if e is None or z.is_alloc(c, e):
            bad.append("an entry is skipped")
    e = lookup(s, c, z, z.pre_m(), pos)
    if some_:
        if e is None or not z.is_alloc(c, e):
            bad.append("a vacant slot is yielded")
            return None
        return pos
    if e is not None:
        bad.append("stops before the last slot")
    return None


def live(s, c, z, q, ty):
    """Entry a stored pointer or index leads to, or None."""
    if s.ty_is_ptr(ty):
        if not valid(s, c, z, q):
            return None
        q = ptr_parts(q)[0]
    e = lookup(s, c, z, z.pre_m(), q)
    return e if e is not None and z.is_alloc(c, e) else None


def slot(s, q, ty):
    return ptr_parts(q)[0] if s.ty_is_ptr(ty) else q


def link_step(s, c, z, cur, v0, post, ret, bad):
    f0 = lambda i: fld(v0, 0, i)
    some_ = s.variant(c, ret) == 1
    if cur.max is not None and s.ip.decide_eq(c, f0(cur.max), I(0)):
        if some_:
            bad.append("yields beyond its step limit")
        return None
    p0 = f0(cur.ptr)
    p1 = post(c, cur.ptr)
    if s.variant(c, p0) == 0:
        if some_:
            bad.append("yields after its end")
        elif s.variant(c, p1) == 1:
            bad.append("resumes after its end")
        return None
    q = opt_val(c, p0)
    e = live(s, c, z, q, cur.ptr_ty)
    if e is None:
        if some_:
            bad.append("yields a dead entry")
        elif not s.ty_is_ptr(cur.ptr_ty) and s.variant(c, p1) == 1:
            bad.append("goes on after a dead entry")
        return None
    if not some_:
        bad.append("stops at a live entry")
        return None
    i = slot(s, q, cur.ptr_ty)
    if cur.max is not None:
        d = c.facts.norm(lin_sub(c.facts.norm(f0(cur.max)), c.facts.norm(post(c, cur.max))))
        if d is not I(1):
            bad.append("the step limit does not count the step")
    back = cur.switch is not None and s.ip.truth(c, f0(cur.switch)) == 1
    turned = back
    want = None
    l = z.link_of(e, 0 if back else 1)
    if s.variant(c, l) == 1:
        want = link_index(z, opt_val(c, l))
        if not back and cur.init is not None:
            ini = f0(cur.init)
            if s.ty_is_ptr(cur.init_ty):
                e2 = s.ip.vec_get(c, z.pre_m(), want)
                same = ixeq(s, c, z.base, want, ptr_parts(ini)[0]) and s.ip.decide_eq(c, z.egen(e2), ptr_parts(ini)[1])
            else:
                same = ixeq(s, c, z.base, want, ini)
            if same:
                want = None
    elif cur.switch is not None and not back:
        turned = True
        ie = live(s, c, z, f0(cur.init), cur.init_ty) if cur.init is not None else None
        if ie is not None:
            l = z.link_of(ie, 0)
            if s.variant(c, l) == 1:
                want = link_index(z, opt_val(c, l))
    got = s.variant(c, p1) == 1
    if want is None:
        if got:
            bad.append("goes on where the links end")
    elif not got:
        bad.append("ends although the links go on")
    else:
        q1 = opt_val(c, p1)
        if not ixeq(s, c, z.base, slot(s, q1, cur.ptr_ty), want):
            bad.append("does not follow the interlink")
        elif s.ty_is_ptr(cur.ptr_ty):
            e2 = s.ip.vec_get(c, z.pre_m(), want)
            if not s.ip.decide_eq(c, ptr_parts(q1)[1], z.egen(e2)):
                bad.append("does not follow the interlink")
    if cur.switch is not None and (got or want is not None) and (s.ip.truth(c, post(c, cur.switch)) == 1) != turned:
        bad.append("loses its direction")
    if cur.init is not None and not same_value(s, c, post(c, cur.init), f0(cur.init)):
        bad.append("forgets where it started")
    return i


def link_index(z, q):
    return p_inx(q) if z.link[2] else q


def by_value(s, z):
    """Does the item contain stored data by value?"""
    tys = {ty for ty, _ in data_fields(s, z)}
    tys.add(s.L.payload_ty(z.aty))

    def walk(ty):
        t = s.prog.types[ty]
        if ty in tys:
            return True
        if t["k"] == "tuple":
            return any(walk(a) for a in t["args"])
        if t["k"] == "adt" and t["enum"]:
            return any(walk(f["ty"]) for v in t["variants"] for f in v["fields"])
        return False
    return walk(s.f["output"])


def item(s, c, z, i, ret, bad):
    e = s.ip.vec_get(c, z.pre_m(), i)
    for p in ret_ptrs(s, c, ret):
        pi, pg = ptr_parts(p)
        if not ixeq(s, c, z.base, pi, i) or not (z.nogen or same_value(s, c, pg, z.egen(e))):
            bad.append("the yielded pointer is not that of the visited entry")
    if s.by.get(1):
        for b in check_result(s, c, key_sub(s), [i], [], ret):
            bad.append(b.replace("returned", "yielded"))
        if by_value(s, z):
            now = lookup(s, c, z, z.m(c), i)
            if now is not None and z.is_alloc(c, now):
                bad.append("an entry is yielded by value but not removed")


# ------------------------------------------------------------------ starting

def picks_start(s):
    return s.self_kind() is not None and bool(cursors(s, s.f["output"]))


def in_value(s, c, v, path):
    """Part of a returned value, through references."""
    obj, proj = None, ()
    for p in path:
        if p[0] == "d":
            v = c.facts.norm(v) if isinstance(v, Term) else v
            if isinstance(v, Ref):
                obj, proj = v.obj, v.proj
            else:
                obj, proj = v, ()
            v = s.ip.read_loc(c, obj, proj)
        else:
            v = fld(c.facts.norm(v) if isinstance(v, Term) else v, p[1], p[2])
            proj = proj + (p,)
    return obj, proj, v


def held(s, ty):
    """Arenas a returned iterator holds."""
    return s.L.subs(ty)


def rule_start(s):
    out = []
    n = 0
    oty = s.f["output"]
    holds = held(s, oty)
    key = next((z for r in ("keys", "nodes", "chain", "chain_ng", "plain") for z in s.by[1] if z.role == r), s.by[1][0])
    for st, ret in s.out:
        def check(c):
            bad = []
            for path, aty in holds:
                src = next((z for z in s.by[1] if z.aty == aty), None)
                if src is None:
                    continue
                obj, proj, v = in_value(s, c, ret, path)
                if ("d",) in path:
                    if not ((obj is src.obj or obj == src.obj) and proj == src.proj):
                        bad.append("iterates over another arena")
                elif not same_value(s, c, v, src.val0):
                    bad.append("iterates over a changed arena")
            for cur in cursors(s, oty):
                _, _, v = in_value(s, c, ret, cur.path)
                z = start_arena(s, cur, holds, oty) or key
                start_cursor(s, c, cur, v, z, bad)
            extras(s, c, ret, oty, key, bad)
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("I01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def start_arena(s, cur, holds, oty):
    """Arena of `self` that the holder pairs with the cursor."""
    best = None
    for path, aty in holds:
        z = next((x for x in s.by[1] if x.aty == aty), None)
        if z is None:
            continue
        k = 0
        while k < len(cur.path) and k < len(path) and cur.path[k] == path[k]:
            k += 1
        key = (-k, ("keys", "nodes", "chain", "chain_ng", "plain", "vals").index(z.role))
        if best is None or key < best[0]:
            best = (key, z)
    return best and best[1]


def start_cursor(s, c, cur, v, z, bad):
    g = lambda i: fld(v, 0, i)
    if cur.inx is not None:
        if c.facts.eq(g(cur.inx), I(1)) is not True:
            bad.append("does not start at the first slot")
        return
    given = [(a, ty) for a, ty in zip(s.args[1:], s.tys[1:]) if s.ty_is_ptr(ty) or is_inx_ty(s, ty)]
    p = g(cur.ptr)
    some_ = s.variant(c, p) == 1
    if given:
        a, ty = given[0]
        e = live(s, c, z, a, ty)
        if e is None and s.ty_is_ptr(ty) and not s.ty_is_ptr(cur.ptr_ty) and some_:
            bad.append("starts from a dead pointer")
        if e is not None:
            if not some_:
                bad.append("does not start from a live pointer")
            elif not ixeq(s, c, z.base, slot(s, opt_val(c, p), cur.ptr_ty), slot(s, a, ty)):
                bad.append("starts from another entry")
            elif s.ty_is_ptr(cur.ptr_ty) and not same_value(s, c, ptr_parts(opt_val(c, p))[1], z.egen(e)):
                bad.append("starts from another entry")
            if cur.init is not None:
                i0 = g(cur.init)
                if not ixeq(s, c, z.base, slot(s, i0, cur.init_ty), slot(s, a, ty)) or \
                        s.ty_is_ptr(cur.init_ty) and not same_value(s, c, ptr_parts(i0)[1], z.egen(e)):
                    bad.append("remembers another start")
    elif z.role == "nodes":
        first = fld(locate(s.args[0], z.path[:-2])[2], 0, s.L.o_f["first"])
        if s.ip.decide_eq(c, fld(z.val0, 0, s.L.a_len), I(0)):
            if some_:
                bad.append("starts in an empty arena")
        elif not some_:
            bad.append("does not start although there are entries")
        elif c.facts.eq(slot(s, opt_val(c, p), cur.ptr_ty), first) is not True:
            bad.append("does not start at the first entry")
    if cur.switch is not None and s.ip.truth(c, g(cur.switch)) == 1:
        bad.append("starts in the wrong direction")
    if cur.max is not None and not (given and e is None):
        if c.facts.decide_le(fld(z.val0, 0, s.L.a_len), g(cur.max)) is not True:
            bad.append("the step limit is below the number of entries")


def extras(s, c, ret, oty, key, bad):
    """Optional references a holder keeps besides its cursor."""
    t = s.prog.types[oty]
    own = [slot(s, a, ty) for a, ty in zip(s.args[1:], s.tys[1:]) if s.ty_is_ptr(ty)]
    if t["path"] in cursor_types(s) or not own:
        return
    for i, f in enumerate(t["variants"][0]["fields"]):
        ft = s.prog.types[f["ty"]]
        if ft["k"] == "adt" and last(ft["path"]) == "Option" and s.prog.types[ft["args"][0]]["k"] == "ref":
            v = fld(c.facts.norm(ret) if isinstance(ret, Term) else ret, 0, i)
            ok = valid(s, c, key, s.args[1])
            if (s.variant(c, v) == 1) != ok:
                bad.append("keeps a value exactly when the pointer is not live")
            elif ok:
                old = s.f
                s.f = dict(old, output=f["ty"])
                try:
                    bad += [b.replace("returned", "kept") for b in check_result(s, c, key, own, [], v)]
                finally:
                    s.f = old


# ------------------------------------------------------------------ dropping

def picks_drop(s):
    return trait_is(s.f, "Drop") and s.name == "drop" and bool(s.by.get(1)) and bool(cursors(s, s.tys[0]))


def rule_drop(s):
    """A dropped drain leaves nothing behind."""
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            return [z for z in s.by[1] if not s.ip.decide_eq(c, z.len(c), I(0))]
        for c, r in cases(s.ip, st, check):
            n += 1
            if r:
                out.append(Finding("I01", s.path, "entries remain after the drain is dropped", path_text(c)))
    s.checked = n
    return out


# ------------------------------------------------------------------ A04

def picks_drain(s):
    if s.self_kind() is None or s.prog.types[s.tys[0]]["k"] != "ref" or not s.prog.types[s.tys[0]].get("mut"):
        return False
    return next_of(s) is not None


def next_of(s):
    """`next` of the returned iterator, if it yields by value."""
    t = s.prog.types[s.f["output"]]
    if t["k"] != "adt" or not t["local"]:
        return None
    for f in s.prog.fns:
        if trait_is(f, "Iterator") and f["name"] == "next" and f["key"] and s.L.strip(f["inputs"][0]).get("path") == t["path"]:
            return f
    return None


def rule_drain_gen(s):
    """A draining iterator whose steps free entries without advancing the
    generation must have been created with the generation advanced."""
    f = next_of(s)
    it = Subject(s.prog, s.L, f, ("reserve", "clear"))
    zs = [z for z in it.by.get(1, []) if not z.nogen]
    if not zs or zs[0].role == "nodes" or not by_value(it, zs[0]):
        return []
    it.run()
    lazy = False
    n = 0
    for z in zs:
        for st, ret in it.out:
            def look(c):
                if it.variant(c, ret) == 0:
                    return False
                k = gen_steps(c, z.gen(c), fld(z.val0, 0, s.L.a_gen))
                return k is None or k == 0
            for c, r in cases(it.ip, st, look):
                n += 1
                lazy = lazy or r
    out = []
    if lazy:
        z = key_sub(s)
        for st, ret in s.out:
            k = gen_steps(st, z.gen(st), fld(z.val0, 0, s.L.a_gen))
            n += 1
            if k is not None and k == 0:
                out.append(Finding("A04", s.path, "entries are drained without advancing the generation", path_text(st)))
    s.checked = n
    return out
