"""Operations that rebuild an arena slot by slot: growth and clearing (A05),
cloning (K01) and compression (K02). What an arbitrary slot holds afterwards is
worked out from the writing loops (see sweep)."""
from terms import *
from facts import Contradiction
from interp import Limit
from layout import last
from subject import cases
from rules_core import Finding, path_text, same_value, opt_val, ixeq, lookup
from sweep import contents, settled

SLOT = T("nz", "slot")


class Whole:
    """An arena inside a returned value."""

    def __init__(self, L, ip, path, aty, ret):
        self.L, self.ip, self.aty, self.ret, self.path = L, ip, aty, ret, path
        self.role = L.role(aty)
        p = L.prog.types[L.payload_ty(aty)]
        self.link = L.links.get(p["path"]) if p["k"] == "adt" else None

    def at(self, st):
        v = self.ret
        for p in self.path:
            v = self.ip.project(st, v, p)
        return v

    def m(self, st):
        v = fld(self.at(st), 0, self.L.a_m)
        return self.ip.as_vec(st.facts.norm(v) if isinstance(v, Term) else v)

    def len(self, st):
        return fld(self.at(st), 0, self.L.a_len)

    def root(self, st):
        return fld(self.at(st), 0, self.L.a_root)

    def gen(self, st):
        return fld(self.at(st), 0, self.L.a_gen)


def variant_of(s, c, e):
    """Variant of an arena entry (refines when unknown)."""
    return s.subs[0].variant(c, e)


def each_slot(s, st, v, check):
    """Runs `check` on the content of an arbitrary slot of arena `v`."""
    def step(c):
        m = v.m(c)
        if not s.ip.decide_le(c, SLOT, m.len):
            return None
        return contents(s, c, m, SLOT)
    for c, r in cases(s.ip, st, step):
        for c2, e, ps in r or ():
            for c3, bad in cases(s.ip, c2, lambda x: check(x, e, ps)):
                yield c3, bad


def free_next(s, e):
    return fld(e, s.L.free, 0)


def is_run(s, c, base, nx, lo, hi, up, tail):
    """Does a vacant slot between `lo` and `hi` lead to its neighbour, and the
    last one to `tail` (to itself if there is none)?"""
    end, step = (hi, 1) if up else (lo, -1)
    if s.ip.decide_eq(c, SLOT, end):
        want = SLOT if tail is None else tail
    else:
        want = lin_add(SLOT, I(step))
    return c.facts.eq(nx, want) is True


def option(s, c, o):
    return opt_val(c, o) if s.variant(c, o) == 1 else None


def run_way(s, c, root, lo, hi):
    """Does the list start at the low (True) or the high (False) end?"""
    if root is None:
        return None
    if c.facts.eq(root, lo) is True:
        return True
    return False if c.facts.eq(root, hi) is True else None


def picks_growth(s):
    return s.self_kind() == "Arena" and s.name == "reserve" and not s.f.get("trait")


def rule_growth(s):
    """Growing links the new slots into the free list and nothing else."""
    z = s.by[1][0]
    pre = z.pre_m()
    n = 0
    out = []

    def note(c, bad):
        out.extend(Finding("A05", s.path, b, path_text(c)) for b in bad)
    for st, ret in s.out:
        def frame(c):
            bad = []
            if c.facts.eq(z.len(c), fld(z.val0, 0, s.L.a_len)) is not True:
                bad.append("growth changes the number of entries")
            m = z.m(c)
            if m.base is pre.base and not m.over:
                if not same_value(s, c, z.root(c), fld(z.val0, 0, s.L.a_root)) or c.facts.eq(m.len, pre.len) is not True:
                    bad.append("the free list changes although there are no new slots")
                return bad
            lo = lin_add(pre.len, I(1))
            if run_way(s, c, option(s, c, z.root(c)), lo, m.len) is None:
                bad.append("after growth the free list does not start at the new slots")
            return bad
        for c, bad in cases(s.ip, st, frame):
            n += 1
            note(c, bad)

        def slot(c, e, ps):
            m = z.m(c)
            if m.base is pre.base and not m.over:
                return []
            if s.ip.decide_le(c, SLOT, pre.len):
                x = s.ip.vec_get(c, pre, SLOT)
                return [] if same_value(s, c, e, x) else ["growth changes an existing slot"]
            if variant_of(s, c, e) != s.L.free:
                return ["growth makes a slot that is not vacant"]
            lo = lin_add(pre.len, I(1))
            up = run_way(s, c, option(s, c, z.root(c)), lo, m.len)
            tail = option(s, c, fld(z.val0, 0, s.L.a_root))
            if up is not None and not is_run(s, c, m.base, free_next(s, e), lo, m.len, up, tail):
                return ["growth does not link the new slots one after the other to the old free list"]
            return []
        for c, bad in each_slot(s, st, z, slot):
            n += 1
            note(c, bad)
    s.checked = n
    return out


def picks_clearing(s):
    return s.self_kind() == "Arena" and s.name in ("clear", "clear_and_shrink") and not s.f.get("trait")


def rule_clearing(s):
    """Clearing vacates every slot and links them all."""
    z = s.by[1][0]
    n = 0
    out = []

    def note(c, bad):
        out.extend(Finding("A05", s.path, b, path_text(c)) for b in bad)
    for st, ret in s.out:
        def frame(c):
            bad = []
            if c.facts.eq(z.len(c), I(0)) is not True:
                bad.append("clearing leaves a nonzero length")
            m = z.m(c)
            root = option(s, c, z.root(c))
            if s.ip.decide_le(c, I(1), m.len):
                if run_way(s, c, root, I(1), m.len) is None:
                    bad.append("after clearing the free list does not start at an end of the storage")
            elif root is not None:
                bad.append("after clearing the free list of an arena without slots is not empty")
            return bad
        for c, bad in cases(s.ip, st, frame):
            n += 1
            note(c, bad)

        def slot(c, e, ps):
            m = z.m(c)
            if variant_of(s, c, e) != s.L.free:
                return ["clearing leaves a slot that is not vacant"]
            up = run_way(s, c, option(s, c, z.root(c)), I(1), m.len)
            if up is not None and not is_run(s, c, m.base, free_next(s, e), I(1), m.len, up, None):
                return ["clearing does not link the slots one after the other"]
            return []
        for c, bad in each_slot(s, st, z, slot):
            n += 1
            note(c, bad)
    s.checked = n
    return out


# ------------------------------------------------------------------ K01

ORDER = ("keys", "nodes", "chain", "chain_ng", "plain", "vals")


def picks_clone(s):
    if not s.by:
        return False
    if s.f.get("trait"):
        return last(s.f["trait"].split("<")[0]) == "Clone" and s.self_kind() is not None
    return s.f["pub"] and s.name.startswith("clone_") and len(s.by) == 2


def clone_pairs(s, ret):
    """[(destination arena, source arena)]"""
    if s.prog.types[s.tys[0]].get("mut") or len(s.by) == 2:
        ds = next((v for i, v in s.by.items() if s.prog.types[s.tys[i - 1]].get("mut")), [])
        ss = next((v for i, v in s.by.items() if not s.prog.types[s.tys[i - 1]].get("mut")), [])
    else:
        ds = [Whole(s.L, s.ip, p, a, ret) for p, a in s.L.subs(s.f["output"])]
        ss = s.by[1]

    def split(x):
        return (min((z for z in x if z.role != "vals"), key=lambda z: ORDER.index(z.role), default=None),
                next((z for z in x if z.role == "vals"), None))
    d, e = split(ds), split(ss)
    return [(a, b) for a, b in zip(d, e) if a is not None and b is not None]


def rule_clone(s):
    n = 0
    out = []
    for st, ret in s.out:
        pairs = clone_pairs(s, ret)
        if not pairs:
            return [Finding("K01", s.path, "no source or destination arena was recognised")]
        for d, z in pairs:
            pre = z.pre_m()
            if pre.base is not z.m(st).base or z.m(st).over:
                out.append(Finding("K01", s.path, "cloning changes its source", path_text(st)))
            vals = d.role == "vals"

            def note(c, bad):
                for b in bad:
                    out.append(Finding("K01", s.path, ("values: " if vals else "") + b, path_text(c)))

            def frame(c):
                bad = []
                if not same_value(s, c, d.len(c), fld(z.val0, 0, s.L.a_len)):
                    bad.append("the clone's length is not the source's")
                if not same_value(s, c, d.gen(c), fld(z.val0, 0, s.L.a_gen)):
                    bad.append("the clone's generation counter is not the source's")
                m = d.m(c)
                r0, r1 = option(s, c, fld(z.val0, 0, s.L.a_root)), option(s, c, d.root(c))
                if s.ip.decide_le(c, m.len, pre.len):
                    if c.facts.eq(m.len, pre.len) is not True:
                        bad.append("the clone has fewer slots than the source")
                    if (r0 is None) != (r1 is None) or r0 is not None and c.facts.eq(r0, r1) is not True:
                        bad.append("the clone's free list does not start where the source's does")
                elif run_way(s, c, r1, lin_add(pre.len, I(1)), m.len) is None:
                    bad.append("the clone's free list does not start at the leftover slots")
                return bad
            for c, bad in cases(s.ip, st, frame):
                n += 1
                note(c, bad)

            def slot(c, e, ps):
                if not s.ip.decide_le(c, SLOT, pre.len):
                    if variant_of(s, c, e) != s.L.free:
                        return ["a leftover slot of the clone is not vacant"]
                    m = d.m(c)
                    lo = lin_add(pre.len, I(1))
                    up = run_way(s, c, option(s, c, d.root(c)), lo, m.len)
                    tail = option(s, c, fld(z.val0, 0, s.L.a_root))
                    if up is not None and not is_run(s, c, m.base, free_next(s, e), lo, m.len, up, tail):
                        return ["the clone does not link its leftover slots to the copied free list"]
                    return []
                o = s.ip.vec_get(c, pre, SLOT)
                k = z.variant(c, o)
                if variant_of(s, c, e) != k:
                    return ["a slot is vacant in the source or the clone but not in both"]
                if k == s.L.free:
                    if c.facts.eq(free_next(s, e), free_next(s, o)) is not True:
                        return ["a vacant slot of the clone does not lead on as in the source"]
                    return []
                g = fld(o, s.L.alloc, s.L.e_gen)
                bad = []
                if not same_value(s, c, fld(e, s.L.alloc, s.L.e_gen), g):
                    bad.append("an entry's generation is not the one in the source")
                cp = Copy(s, c, z, ps, g, bad)
                cp.match(fld(e, s.L.alloc, s.L.e_t), s.L.payload_ty(d.aty), z.payload(o), s.L.payload_ty(z.aty), ())
                return bad
            for c, bad in each_slot(s, st, d, slot):
                n += 1
                note(c, bad)
        n += ord_ends(s, st, ret, out)
    s.checked = n
    return out


def ord_ends(s, st, ret, out):
    """An ordered clone takes over the root and both ends."""
    L = s.L
    if s.self_kind() != "OrdArena":
        return 0
    if s.prog.types[s.tys[0]].get("mut"):
        src = T("deref", s.args[1])
        dst = lambda c: s.ip.read_loc(c, s.args[0], ())
    elif L.strip(s.f["output"]).get("path") == L.ord:
        src = T("deref", s.args[0])
        dst = lambda c: ret
    else:
        return 0
    n = 0
    for f in ("root", "first", "last"):
        i = L.o_f[f]
        for c, ok in cases(s.ip, st, lambda c: same_value(s, c, fld(dst(c), 0, i), fld(src, 0, i))):
            n += 1
            if not ok:
                out.append(Finding("K01", s.path, f"the clone's `{f}` is not the source's", path_text(c)))
    return n


class Copy:
    """Compares a cloned payload with its source, by type."""

    def __init__(self, s, c, z, ps, gen, bad):
        self.s, self.c, self.z, self.ps, self.gen, self.bad = s, c, z, ps, gen, bad
        self.events = ps.events() if ps is not None else []

    def match(self, dv, dty, sv, sty, above):
        s = self.s
        L = s.L
        dt, t = s.prog.types[dty], s.prog.types[sty]
        dl = L.links.get(dt["path"]) if dt["k"] == "adt" else None
        sl = L.links.get(t["path"]) if t["k"] == "adt" else None
        above = above + (sv,)
        if sl is not None and dl is not None:
            self.links(dv, dl, sv, sl)
            self.match(fld(dv, 0, dl[1]), field_ty(dt, dl[1]), fld(sv, 0, sl[1]), field_ty(t, sl[1]), above)
        elif sl is not None:
            if self.data(dv, sv, above, quiet=True):
                return
            self.match(dv, dty, fld(sv, 0, sl[1]), field_ty(t, sl[1]), above)
        elif t["k"] == "adt" and dt["k"] == "adt" and t["path"] == dt["path"] and t["path"] in (L.key, L.val, L.node):
            above += tuple(fld(sv, 0, i) for i, f in enumerate(t["variants"][0]["fields"])
                           if s.prog.types[f["ty"]]["k"] != "param")
            for i, f in enumerate(t["variants"][0]["fields"]):
                a, b = fld(dv, 0, i), fld(sv, 0, i)
                ft = s.prog.types[f["ty"]]
                if ft["k"] == "param" and not s.ty_is_ptr(f["ty"]):
                    self.data(a, b, above)
                elif not same_value(s, self.c, a, b):
                    self.bad.append(f"a cloned entry's `{f['name']}` is not the source's")
        elif t["k"] == "adt" and t["path"] in (L.key, L.val, L.node):
            parts = [fld(sv, 0, i) for i, f in enumerate(t["variants"][0]["fields"])
                     if s.prog.types[f["ty"]]["k"] == "param"]
            self.data(dv, sv, above + tuple(parts))
        else:
            self.data(dv, sv, above)

    def links(self, dv, dl, sv, sl):
        s, c = self.s, self.c
        for w, word in ((0, "previous"), (1, "next")):
            a, b = fld(fld(dv, 0, dl[0]), 0, w), fld(fld(sv, 0, sl[0]), 0, w)
            if dl[2] == sl[2]:
                if not same_value(s, c, a, b):
                    self.bad.append(f"a cloned link's {word} link is not the source's")
                continue
            x, y = option(s, c, a), option(s, c, b)
            if (x is None) != (y is None):
                self.bad.append(f"a cloned link's {word} link is not the source's")
            elif x is not None:
                i = x if not dl[2] else p_inx(x)
                j = y if not sl[2] else p_inx(y)
                if c.facts.eq(i, j) is not True:
                    self.bad.append(f"a cloned link's {word} link is not the source's")
                elif dl[2]:
                    e = lookup(s, c, self.z, self.z.pre_m(), j)
                    if e is None or c.facts.eq(p_gen(x), self.z.egen(e)) is not True:
                        self.bad.append(f"a cloned link's {word} link does not carry its target's generation")

    def data(self, dv, sv, above, quiet=False):
        """A clone of the source's datum, or what the given function returned
        for the entry's own pointer and datum."""
        s, c = self.s, self.c
        v = c.facts.norm(dv) if isinstance(dv, Term) else dv
        srcs = above + (sv,)
        if isinstance(v, Term) and v.op == "clone" and same_value(s, c, v.args[0], sv):
            return True
        if isinstance(v, Term) and v.op == "at" and v.args[0].op == "ret":
            k = v.args[0].args[0]
            for e in self.events:
                if e[0] != "call" or e[4] != k:
                    continue
                bad = None
                for x, y in zip(e[2], e[3]):
                    if isinstance(x, Term) and (x.op == "P" or x.op in ("inx", "gen") or s_is_ptr(x)):
                        if c.facts.eq(p_inx(x), SLOT) is not True or c.facts.eq(p_gen(x), self.gen) is not True:
                            bad = "the mapping function is not given the entry's own pointer"
                    elif not any(same_value(s, c, y, w) for w in srcs):
                        bad = "the mapping function is not given the entry's own data"
                if bad and not quiet:
                    self.bad.append(bad)
                return bad is None
        if not quiet:
            self.bad.append("a cloned entry's data does not come from the source entry")
        return False


def s_is_ptr(x):
    return x.op == "at"


def field_ty(t, i):
    return t["variants"][0]["fields"][i]["ty"]


def picks_vec_clone(s):
    """Cloning of the slot vector, which cloning an arena relies on."""
    return bool(s.f.get("trait")) and last(s.f["trait"]) == "Clone" and s.name == "clone" and s.prog.is_vec(s.f["output"])


def rule_vec_clone(s):
    src = s.ip.as_vec(T("deref", s.args[0]))
    n = 0
    out = []
    for st, ret in s.out:
        def step(c):
            m = s.ip.as_vec(ret)
            if c.facts.eq(m.len, src.len) is not True:
                return None
            if not s.ip.decide_le(c, SLOT, m.len):
                return []
            return contents(s, c, m, SLOT)
        for c, r in cases(s.ip, st, step):
            n += 1
            if r is None:
                out.append(Finding("K01", s.path, "the clone has another number of slots", path_text(c)))
            for c2, e, _ in r or ():
                n += 1
                if not same_value(s, c2, e, T("clone", s.ip.base_elem(c2, src.base, SLOT))):
                    out.append(Finding("K01", s.path, "a slot is not the clone of the same slot", path_text(c2)))
    s.checked = n
    return out
