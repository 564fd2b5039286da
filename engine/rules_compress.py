"""Compression (K02). A plain arena is compressed by one sweep over its slots;
the content of an arbitrary slot of the new storage is compared with the source
entry its writing pass read. Chains are walked link by link: between any two
loop heads every entry that left the old storage must have been copied, the
caller's function told about it, and the interlinks of the copies must mirror
the old ones. Interlinks still open at a loop head are carried by pairs of
variables (old neighbour, copy that waits for it), which are inferred.
"""
from terms import *
from facts import Contradiction
from interp import Limit, Split
from layout import last
from models import target, none, some
from subject import cases, HeapView
from rules_core import Finding, path_text, same_value, opt_val, gen_steps, touched, lookup
from rules_bulk import SLOT, each_slot, option
from sweep import contents, settled, loop_of, delta


def picks_compress(s):
    return (s.self_kind() == "Arena" and s.name.startswith("compress_and_shrink") and not s.f.get("trait")
            and s.out_ty()["k"] == "tuple")


def closure_arg(s):
    return next((a for _, a, _, k in s.user_args() if k == "fn"), None)


def calls_of(events, f):
    return [e for e in events if e[0] == "call" and (f is None or same_fn(e[1], f))]


def same_fn(x, f):
    return x is f or isinstance(x, Term) and x.op == "deref" and x.args[0] is f or x == f


def rule_compress(s):
    z = s.by[1][0]
    L = s.L
    pre = z.pre_m()
    fn = closure_arg(s)
    out = []
    n = 0

    def note(c, bad):
        out.extend(Finding("K02", s.path, b, path_text(c)) for b in bad)
    for st, ret in s.out:
        def frame(c):
            bad = []
            if not gen_steps(c, z.gen(c), fld(z.val0, 0, L.a_gen)):
                bad.append("compression does not advance the generation")
            if option(s, c, z.root(c)) is not None:
                bad.append("the compressed arena has a free list")
            if c.facts.eq(z.len(c), fld(z.val0, 0, L.a_len)) is not True:
                bad.append("compression changes the number of entries")
            m = z.m(c)
            if m.over or m.base.op not in ("w", "emptyvec"):
                raise Limit("storage of unknown origin")
            return bad
        for c, bad in cases(s.ip, st, frame):
            n += 1
            note(c, bad)
        seen = []

        def slot(c, e, ps):
            if s.subs[0].variant(c, e) != L.alloc:
                return ["the compressed arena has a vacant slot"]
            if ps is None:
                raise Limit("slot not written by a pass")
            bad = []
            if not same_value(s, c, fld(e, L.alloc, L.e_gen), z.gen(c)):
                bad.append("a relocated entry does not carry the new generation")
            t = fld(e, L.alloc, L.e_t)
            t = c.facts.norm(t) if isinstance(t, Term) else t
            evs = calls_of(ps.events(), fn) if fn is not None else []
            if fn is not None and len(evs) != 1:
                return bad + ["the given function is not called once for a relocated entry"]
            k = None
            if fn is not None and isinstance(t, Term) and t.op == "mutby":
                k, t = t.args[0], t.args[2]
                t = c.facts.norm(t) if isinstance(t, Term) else t
            src = source_of(s, c, pre, t)
            if src is None:
                return bad + ["a relocated entry's value is not that of an entry of the source"]
            i, g = src
            seen.append((ps.it, i))
            if fn is not None:
                a = evs[0][2]
                if c.facts.eq(p_inx(a[0]), i) is not True or c.facts.eq(p_gen(a[0]), g) is not True:
                    bad.append("the given function is not told the entry's old pointer")
                q = a[len(a) - 1]
                if c.facts.eq(p_inx(q), SLOT) is not True or not same_value(s, c, p_gen(q), z.gen(c)):
                    bad.append("the given function is not told the entry's new pointer")
                if not same_value(s, c, subst_plain(evs[0][3][1]), subst_plain(t)):
                    bad.append("the given function is not given the entry's value")
                if k is None:
                    bad.append("what the given function does to the value is lost")
            return bad
        for c, bad in each_slot(s, st, z, slot):
            n += 1
            note(c, bad)
        n += every_source(s, z, st, pre, fn, note)
    s.checked = n
    return out


def subst_plain(v):
    return v


def source_of(s, c, pre, t):
    """(index, generation) of the source entry `t` is the value of."""
    L = s.L
    if not (isinstance(t, Term) and t.op == "fld"):
        return None
    e = t.args[0]
    if t.args[1:] != (L.alloc, L.e_t) or not (isinstance(e, Term) and e.op == "elem" and e.args[0] is pre.base):
        return None
    if s.ip.decide_eq(c, T("discr", e, (0, 1)), I(L.alloc)) is not True:
        return None
    return e.args[1], fld(e, L.alloc, L.e_gen)


def every_source(s, z, st, pre, fn, note):
    """Each slot of the source is visited, and passed over only if vacant."""
    m = z.m(st)
    if m.base.op != "w":
        # nothing was written: there must have been nothing to move
        for c, ok in cases(s.ip, st, lambda c: c.facts.eq(pre.len, I(0)) is True or c.facts.eq(fld(z.val0, 0, s.L.a_len), I(0)) is True):
            if not ok:
                note(c, ["entries are lost"])
        return 1
    lp, p = loop_of(s.ip, m.base)
    n = 0
    cnt = None
    for it in lp.passes:
        for x in list(lp.counts):
            if all(delta(s.ip, lp, k, x) == 1 for k in lp.passes):
                cnt = x
    if cnt is None:
        raise Limit("no count of the passes")
    if st.facts.eq(cnt, pre.len) is not True:
        note(st, ["the sweep does not end with the last slot of the source"])
    for it in lp.passes:
        hv = z.m(it.head)
        probe = agg("tuple", 0, None, ((0, s.ip.base_elem(it.back, hv.base, lin_add(cnt, I(1)))),
                                       (1, agg("tuple", 0, None, tuple(enumerate(written(s, it)))))))
        for c0, v, known in settled(s, it.back, probe):
            for c, r in cases(s.ip, c0, lambda c: pass_ok(s, c, v, calls_of(it.back.events[len(it.head.events) + 1:], fn))):
                n += 1
                note(c, r)
    return n


def written(s, it):
    """Values of the entries a pass stores in new storage."""
    out = []
    for p, v in locs_of(it.back.heap):
        for j, x in v.over:
            if isinstance(x, Agg) and x.ty == s.L.entry and x.variant == s.L.alloc:
                t = fld(x, s.L.alloc, s.L.e_t)
                if isinstance(t, Term) and t.op == "mutby":
                    t = t.args[2]
                out.append(t)
    return out


def pass_ok(s, c, v, calls):
    L = s.L
    e = fld(v, 0, 0)
    live = s.subs[0].variant(c, e) == L.alloc
    moved = sum(1 for _, t in fld(v, 0, 1).fields if same_value(s, c, t, fld(e, L.alloc, L.e_t)))
    if live:
        return [] if moved == 1 else ["an entry is passed over or relocated more than once"]
    if moved or calls:
        return ["a vacant slot is relocated"]
    return []


def locs_of(heap):
    out = []

    def walk(v, p):
        if isinstance(v, Vec):
            out.append((p, v))
        elif isinstance(v, Agg):
            for i, x in v.fields:
                walk(x, p + (i,))
    for k, v in heap.items():
        walk(v, (k,))
    return out


# ---------------------------------------------------------------- chains

def picks_mirror(s):
    return (s.self_kind() in ("ChainArena", "ChainNoGenArena") and s.name.startswith("compress_and_shrink")
            and not s.f.get("trait") and s.out_ty()["k"] == "tuple")


class Seg:
    """A stretch of a path between two loop heads (or the function's ends)."""

    def __init__(self, no, start, st, to):
        self.no, self.start, self.st, self.to = no, start, st, to

    def events(self):
        return self.st.events[self.skip:]


def last_seg(st, to):
    """The stretch of `st`'s path after the last loop head."""
    ev = st.events
    if to is not None and to[0] == "enter":
        while ev and ev[-1][0] in ("enter", "loop"):
            ev = ev[:-1]
    for k in range(len(ev) - 1, -1, -1):
        if ev[k][0] == "head":
            g = Seg(ev[k][3], dict(ev[k][2]), st, to)
            g.skip = k + 1
            return g
    g = Seg(None, {}, st, to)
    g.skip = 0
    return g


def mine(k):
    return not isinstance(k[0], Term) and k[0][0] == "L" and k[0][1] <= 1


def gen_link(z):
    return z.link[2]


class Mirror:
    def __init__(self, s):
        self.s, self.L, self.ip = s, s.L, s.ip
        self.z = s.by[1][0]
        self.fn = closure_arg(s)
        self.rels = {}
        self.out = []
        self.n = 0
        self.segs = []
        self.loops()

    def loops(self):
        """All stretches, and the loops they start and end at."""
        todo = list(self.ip.loops)
        seen = set()
        number = {id(lp): no for no, lp in self.ip.loop_by_no.items()}
        nest = set()

        def add(st, to):
            g = last_seg(st, to)
            self.segs.append(g)
            if g.no is not None and g.no in self.ip.loop_by_no:
                todo.append(self.ip.loop_by_no[g.no])
            return g
        for st, _ in self.s.out:
            add(st, None)
        while todo:
            lp = todo.pop()
            if id(lp) in seen:
                continue
            seen.add(id(lp))
            no = number[id(lp)]
            lp_segs = [add(lp.entry, ("enter", no))]
            for it in lp.passes:
                g = add(it.back, ("head", no))
                if g.no != no:
                    nest.add(no)
        self.nest = nest

    # -- what a stretch does
    def vecs(self, g):
        """(old storage before, after, new storage before, after)"""
        a, b = HeapView.of(g.st, g.start), g.st
        z = self.z
        sa, sb = z.m(a), z.m(b)
        da, db = self.dst(g.start), self.dst(g.st.heap)
        if db is None and da is not None and sb.base is not sa.base:
            db, sb = z.arena(b), None
        return sa, sb, da, db

    def dst(self, heap):
        r = [v for k, v in heap.items() if not isinstance(k, Term) and k[0] == "L" and k[1] <= 1
             and isinstance(v, Agg) and v.ty == self.L.arena]
        if len(r) > 1:
            raise Limit("several arenas under construction")
        return r[0] if r else None

    def m_of(self, a):
        return self.ip.as_vec(fld(a, 0, self.L.a_m))

    def work(self, c, g):
        """Moved entries, copies and edits of a stretch (refines)."""
        s, L, z = self.s, self.L, self.z
        sa, sb, da, db = self.vecs(g)
        moves, news, edits = [], [], []
        if sb is not None:
            for i in touched(s, c, z, sa, sb):
                e0, e1 = s.ip.vec_get(c, sa, i), s.ip.vec_get(c, sb, i)
                k0, k1 = z.variant(c, e0), z.variant(c, e1)
                if k0 == L.alloc and k1 == L.free:
                    moves.append((i, z.egen(e0), z.payload(e0)))
                elif k1 == L.alloc:
                    raise Limit("old storage is rewritten")
        if db is not None:
            ma = self.m_of(da) if da is not None else vec(T("emptyvec"), (), I(0))
            mb = self.m_of(db)
            if ma.base is not mb.base:
                raise Limit("new storage is replaced")
            old = [i for i, _ in ma.over]
            for i, e in mb.over:
                if i.op == "slot" and i.args[1] is mb.base and not any(i is o for o in old):
                    news.append((i, s.ip.vec_get(c, mb, i)))
                elif z.variant(c, e) == L.alloc and not same_value(s, c, e, s.ip.vec_get(c, ma, i)):
                    edits.append(i)
        return moves, news, edits, db

    def side(self, link, w):
        return fld(fld(link, 0, self.z.link[0]), 0, w)

    def index(self, x):
        return p_inx(x) if gen_link(self.z) else x

    def pairs(self, c, g, bad):
        """[(old index, old generation, old link, new slot, new link)]"""
        s, L = self.s, self.L
        moves, news, edits, db = self.work(c, g)
        calls = calls_of(g.events(), self.fn) if self.fn is not None else []
        res = []
        left = list(news)
        if len(moves) != len(news):
            bad.append("an entry is lost or copied twice")
            return None
        if self.fn is not None and len(calls) != len(moves):
            bad.append("the given function is not called once per entry")
            return None
        for i, gen, link in moves:
            t = fld(link, 0, self.z.link[1])
            hit = None
            for slot, e in left:
                new = fld(e, L.alloc, L.e_t)
                nt = fld(new, 0, self.z.link[1])
                nt = c.facts.norm(nt) if isinstance(nt, Term) else nt
                k = None
                if self.fn is not None:
                    if not (isinstance(nt, Term) and nt.op == "mutby"):
                        continue
                    k, nt = nt.args[0], nt.args[2]
                if not same_value(s, c, nt, t):
                    continue
                hit = slot, e, new, k
                break
            if hit is None:
                bad.append("a copied entry does not hold the value of the entry that was moved")
                return None
            slot, e, new, k = hit
            left.remove((slot, e))
            ng = fld(db, 0, L.a_gen)
            if not same_value(s, c, fld(e, L.alloc, L.e_gen), ng):
                bad.append("a copied entry does not carry the new generation")
            if self.fn is not None:
                ev = [x for x in calls if x[4] == k]
                if len(ev) != 1:
                    bad.append("the given function is not called with the entry's value")
                    return None
                a = ev[0][2]
                if c.facts.eq(p_inx(a[0]), i) is not True or c.facts.eq(p_gen(a[0]), gen) is not True:
                    bad.append("the given function is not told the entry's old pointer")
                q = a[len(a) - 1]
                if c.facts.eq(p_inx(q), slot) is not True or not same_value(s, c, p_gen(q), ng):
                    bad.append("the given function is not told the entry's new pointer")
            res.append((i, gen, link, slot, new))
        return res, edits, db

    # -- open interlinks carried over loop heads
    def relations(self, no):
        """{(side, place of the old neighbour, place of the waiting copy)}"""
        if no is None or no in self.nest:
            return frozenset()
        if no not in self.rels:
            self.rels[no] = self.infer(no)
        return self.rels[no]

    def infer(self, no):
        g = next(x for x in self.segs if x.to == ("enter", no))
        have = self.holding(g, None, self.relations(g.no))
        backs = [x for x in self.segs if x.to == ("head", no)]
        while True:
            keep = set(have)
            for x in backs:
                if not keep:
                    break
                keep &= self.holding(x, keep, have)
            if keep == have:
                return frozenset(have)
            have = keep

    def places(self, heap):
        out = {}
        for k, v in heap.items():
            if not isinstance(k, Term) and k[0] == "L" and k[1] <= 1:
                out[k] = v
        return out

    def given(self, c, g, rels):
        """The open interlinks at the start of a stretch as values."""
        out = []
        for w, pa, pb, ptr in rels:
            if pa in g.start and pb in g.start:
                b = g.start[pb]
                if gen_link(self.z):
                    # part of the relation: a current pointer of the new arena
                    c.facts.assume_eq(p_gen(b), fld(self.dst(g.start), 0, self.L.a_gen))
                out.append((w, (g.start[pa], ptr), b))
        return out

    def fresh_slots(self, c, given):
        """An insertion does not return the slot of an entry that is there."""
        for f in c.facts.log:
            if f[0] == "eq":
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if isinstance(x, Term) and x.op == "slot" and any(y is p_inx(b) for _, _, b in given):
                        raise Contradiction()

    def apart(self, c, prs, given):
        """Copies are distinct live entries of the new storage."""
        for _, _, _, slot, _ in prs:
            for _, _, b in given:
                if c.facts.eq(p_inx(b), slot) is not True:
                    c.facts.assume(("ne", p_inx(b), slot))
                else:
                    raise Contradiction()

    def mutual(self, c, prs, given):
        """The interlinks of the entries still in the old storage are those
        before the call, which were mutual."""
        for i, _, link, _, _ in prs:
            for w in (0, 1):
                o = option(self.s, c, self.side(link, w))
                x = option(self.s, c, self.side(link, 1 - w))
                if o is not None and self.ip.decide_eq(c, self.index(o), i):
                    if x is None or not self.ip.decide_eq(c, self.index(x), i):
                        raise Contradiction()
        for v, a, b in given:
            o = self.neighbour(c, a)
            if o is None:
                continue
            for i, _, link, _, _ in prs:
                if self.ip.decide_eq(c, o, i):
                    # its neighbour on the other side is the entry that waits for it, which was moved earlier
                    x = option(self.s, c, self.side(link, 1 - v))
                    if x is None or any(self.ip.decide_eq(c, self.index(x), p[0]) for p in prs):
                        raise Contradiction()

    def holding(self, g, only, rels):
        """The relations that hold at the end of stretch `g`."""
        s = self.s
        heap = self.places(g.st.heap)
        res = None
        for c, r in cases(self.ip, g.st, lambda c: self.hold_in(c, g, heap, only, rels)):
            res = r if res is None else res & r
        if res is None:
            # the stretch cannot happen
            return set(only or ())
        return res

    def hold_in(self, c, g, heap, only, rels):
        given = self.given(c, g, rels)
        self.fresh_slots(c, given)
        r = self.pairs(c, g, [])
        if r is None:
            return set()
        prs, _, db = r
        self.apart(c, prs, given)
        self.mutual(c, prs, given)
        out = set()
        known = [(w, (self.side(link, w), gen_link(self.z)), slot) for _, _, link, slot, _ in prs for w in (0, 1)]
        known += [(w, a, p_inx(b)) for w, a, b in given]
        for kb, b in heap.items():
            if not (isinstance(b, Term) and (b.op == "P" or b.op == "w")):
                continue
            for w, a, slot in known:
                if c.facts.eq(p_inx(b), slot) is not True:
                    continue
                if gen_link(self.z) and not same_value(self.s, c, p_gen(b), fld(db, 0, self.L.a_gen)):
                    continue
                for ka, x in heap.items():
                    for ptr in (False, True):
                        if only is not None and (w, ka, kb, ptr) not in only:
                            continue
                        if self.same_option(c, (x, ptr), a):
                            out.add((w, ka, kb, ptr))
        return out

    def neighbour(self, c, a):
        """Index in an optional index or (second part) pointer."""
        o = option(self.s, c, a[0])
        return o if o is None or not a[1] else p_inx(o)

    def same_option(self, c, x, a):
        """Do two optional indices or pointers name the same entry?"""
        if not self.optional(x[0]):
            return False
        if x[0] is a[0]:
            return x[1] == a[1]
        p, q = self.neighbour(c, x), self.neighbour(c, a)
        if p is None or q is None:
            return p is None and q is None
        return c.facts.eq(p, q) is True

    def optional(self, x):
        if isinstance(x, Agg):
            return last(x.ty) == "Option" if isinstance(x.ty, str) else False
        return isinstance(x, Term) and x.op in ("w", "fld")

    # -- nothing is left behind
    def cursors(self):
        """Places of counters that pass a slot only if it is vacant by then."""
        good, seen = None, set()
        for g in self.segs:
            a = {k: v for k, v in self.ip.locs(HeapView.of(g.st, g.start)).items() if mine(k)}
            b = {k: v for k, v in self.ip.locs(g.st).items() if mine(k)}
            for p in set(a) | set(b):
                if p not in seen:
                    seen.add(p)
                    good = {p} if good is None else good | {p}
                if p in good and not all(r for _, r in cases(self.ip, g.st, lambda c: self.steps(c, g, a.get(p), b.get(p)))):
                    good.discard(p)
        return good or set()

    def steps(self, c, g, x, y):
        one = I(1)
        if g.to is None:
            last_ = y if y is not None else x
            return last_ is not None and c.facts.decide_le(lin_add(self.z.pre_m().len, one), last_) is True
        if y is None:
            return False
        if x is None:
            return c.facts.eq(y, one) is True
        d = lin_sub(c.facts.norm(y), c.facts.norm(x))
        if d is I(0):
            return True
        if d is not one:
            return False
        sb = self.z.m(g.st)
        if not self.ip.decide_le(c, x, sb.len):
            return True
        return self.z.variant(c, self.ip.vec_get(c, sb, x)) == self.L.free

    def overall(self):
        s, L, z = self.s, self.L, self.z

        def frame(c):
            bad = []
            if not gen_steps(c, z.gen(c), fld(z.val0, 0, L.a_gen)):
                bad.append("compression does not advance the generation")
            return bad
        for st, _ in s.out:
            for c, bad in cases(self.ip, st, frame):
                self.n += 1
                self.out += [Finding("K02", s.path, b, path_text(c)) for b in bad]
        for g in self.segs:
            if g.no is None:
                db = self.dst(g.st.heap)
                if db is None or self.m_of(db).len.op == "newlen":
                    continue
                self.n += 1
                if g.st.facts.eq(self.m_of(db).len, fld(z.val0, 0, L.a_len)) is not True:
                    self.out.append(Finding("K02", s.path, "the new storage is not made for exactly the entries there are",
                                            path_text(g.st)))
        if not s.ptr_args():
            self.n += 1
            if not self.cursors():
                self.out.append(Finding("K02", s.path, "entries may be left behind: no cursor passes every slot of the old storage"))

    # -- the rule
    def run(self):
        self.overall()
        for g in self.segs:
            rels = self.relations(g.no)
            end = self.relations(g.to[1]) if g.to is not None else frozenset()
            for c, bad in cases(self.ip, g.st, lambda c: self.judge(c, g, rels, end)):
                self.n += 1
                for b in bad:
                    self.out.append(Finding("K02", self.s.path, b, path_text(c)))
        return self.out

    def judge(self, c, g, rels, end):
        bad = []
        given = self.given(c, g, rels)
        self.fresh_slots(c, given)
        r = self.pairs(c, g, bad)
        if r is None:
            return bad
        prs, edits, db = r
        self.apart(c, prs, given)
        self.mutual(c, prs, given)
        heap = g.st.heap
        ending = [(w, (heap[a], ptr), heap[b]) for w, a, b, ptr in end if a in heap and b in heap]
        m = self.m_of(db) if db is not None else None
        names = ("previous", "next")

        def copy_side(b, w):
            e = self.ip.vec_get(c, m, b)
            return option(self.s, c, self.side(fld(e, self.L.alloc, self.L.e_t), w))

        def leads(x, slot):
            if x is None:
                return False
            if c.facts.eq(self.index(x), slot) is not True:
                return False
            return not gen_link(self.z) or same_value(self.s, c, p_gen(x), fld(db, 0, self.L.a_gen))

        def waiting(w, a, slot):
            return any(v == w and c.facts.eq(p_inx(y), slot) is True and self.same_option(c, x, a)
                       for v, x, y in ending)

        def moved(i):
            return next((p for p in prs if self.ip.decide_eq(c, i, p[0])), None)
        for i, gen, link, slot, new in prs:
            for w in (0, 1):
                want, got = option(self.s, c, self.side(link, w)), option(self.s, c, self.side(new, w))
                if got is None:
                    if want is None:
                        continue
                    if w == 0 and any(i is p_inx(a) for _, a, _ in self.s.ptr_args()):
                        # documented: the given link is the first of its chain
                        continue
                    if self.s.ptr_args() and c.facts.eq(self.index(want), i) is True:
                        # documented: that chain is not cyclic
                        continue
                    if moved(self.index(want)) is not None or not waiting(w, (self.side(link, w), gen_link(self.z)), slot):
                        bad.append(f"a copied link loses its {names[w]} link")
                    continue
                ok = False
                for x, y in [(p[0], p[3]) for p in prs]:
                    if want is not None and self.ip.decide_eq(c, self.index(want), x) and leads(got, y):
                        ok = True
                for v, a, b in given:
                    if v == 1 - w and not ok:
                        o = self.neighbour(c, a)
                        if o is not None and self.ip.decide_eq(c, o, i) and leads(got, p_inx(b)):
                            ok = True
                if not ok:
                    bad.append(f"a copied link's {names[w]} link does not lead to the copy of its old neighbour")
        used = []
        for w, a, b in given:
            o = self.neighbour(c, a)
            if o is None:
                continue
            p = moved(o)
            if p is not None:
                used.append((w, p_inx(b)))
                if m is None or not leads(copy_side(p_inx(b), w), p[3]):
                    bad.append(f"a copied link's {names[w]} link is not completed")
            elif not waiting(w, a, p_inx(b)):
                bad.append(f"a copied link's {names[w]} link is never completed")
        for i in edits:
            if any(c.facts.eq(i, p[3]) is True for p in prs):
                continue
            if not any(c.facts.eq(i, j) is True for _, j in used):
                bad.append("a copied entry is changed for no reason")
        return bad


def rule_mirror(s):
    s.ip.keep_locals = True
    s.contracts.local_fresh = True
    s.run()
    m = Mirror(s)
    out = m.run()
    s.checked = m.n
    return out


# ------------------------------------------------------------- recasters

def picks_recaster(s):
    return s.self_kind() is not None and s.name == "compress_and_shrink_recaster" and not s.f.get("trait")


OLD = T("nz", "old")
NEW = T("arg", -1, "new")


def arena_fns(s, pick):
    for f in s.prog.fns:
        if f["key"] is None or f.get("trait") or not f["inputs"] or not pick(f["name"]):
            continue
        if s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path")) is not None:
            yield f


def main_sub(s, subs):
    order = ("keys", "nodes", "chain", "chain_ng", "plain")
    return min((z for z in subs if z.role in order), key=lambda z: order.index(z.role))


def rule_recaster(s):
    """Compression is represented by one relocation of an arbitrary entry
    (rule_compress and rule_mirror judge it), cloning by a copy of the slots
    (K01 judges it)."""
    from contracts import call_closure
    L = s.L
    z = main_sub(s, s.by[1])
    used = []
    tab = s.ip.models.contracts

    def clone(ip, st, fn, args, tys, d, line):
        """The destination gets the slots of the source."""
        mut = [i for i, t in enumerate(tys) if ip.prog.types[t]["k"] == "ref" and ip.prog.types[t]["mut"] and L.subs(t)]
        src = [i for i, t in enumerate(tys) if ip.prog.types[t]["k"] == "ref" and not ip.prog.types[t]["mut"] and L.subs(t)]
        if not mut or not src:
            return None
        obj, proj = target(st, args[mut[0]])
        path, aty = next(iter(L.subs(tys[mut[0]])))
        if L.strip(tys[mut[0]]).get("path") != L.arena:
            return None
        so, sp = target(st, args[src[0]])
        if so is not z.obj and so != z.obj:
            return None
        for i, v in ((L.a_m, z.m(st)), (L.a_len, z.len(st)), (L.a_root, z.root(st)), (L.a_gen, z.gen(st))):
            ip.write_loc(st, obj, proj + (("f", 0, i),), v)
        used.append("clone")
        return [(st, UNIT)]

    def compress(ip, st, fn, args, tys, d, line):
        obj, proj = target(st, args[0])
        if obj is not z.obj and obj != z.obj:
            return None
        m = z.pre_m()
        st.facts.assume_le(I(1), OLD)
        st.facts.assume_le(OLD, m.len)
        e = ip.vec_get(st, m, OLD)
        st.facts.assume_eq(T("discr", e, (0, 1)), I(L.alloc))
        t = ip.prog.types[tys[1]]
        if t["k"] != "closure":
            return None
        n = ip.prog.bodies[t["body"]]["argc"] - 1
        p = T("P", OLD, fld(e, L.alloc, L.e_gen))
        tup = [p] + [ref(T("arg", -2 - i, "moved"), ()) for i in range(n - 2)] + [NEW]
        used.append("compress")
        f2 = dict(fn, name="call_mut", trait="core::ops::function::FnMut")
        r = call_closure(ip, st, f2, args[1], agg("tuple", 0, None, tuple(enumerate(tup))), tys[1], None, d, line)
        return [(c, UNIT) for c, _ in r]
    for f in arena_fns(s, lambda n: n.startswith("clone_")):
        tab[f["path"]] = clone
    for f in arena_fns(s, lambda n: n == "compress_and_shrink_with"):
        tab[f["path"]] = compress
    s.run()
    if "compress" not in used or "clone" not in used:
        raise Limit("no call of a compression and a clone to summarise")
    out = []
    n = 0
    g0 = lambda c: fld(s.ip.vec_get(c, z.pre_m(), OLD), L.alloc, L.e_gen)
    for st, ret in s.out:
        def look(c):
            m = s.ip.as_vec(fld(ret, 0, L.a_m))
            if m.base is not z.pre_m().base:
                return ["the recaster does not have the slots the arena had"]
            if c.facts.decide_le(OLD, m.len) is not True:
                return ["the recaster does not cover every old pointer"]
            e = s.ip.vec_get(c, m, OLD)
            if z.variant(c, e) != L.alloc or not same_value(s, c, fld(e, L.alloc, L.e_gen), g0(c)):
                return ["the recaster does not know an old pointer"]
            v = fld(e, L.alloc, L.e_t)
            if c.facts.eq(p_inx(v), p_inx(NEW)) is not True or c.facts.eq(p_gen(v), p_gen(NEW)) is not True:
                return ["the recaster does not map an old pointer to the new one"]
            for i, _ in m.over:
                if s.ip.same_ix(c, m.base, i, OLD) is not True:
                    return ["the recaster is changed elsewhere"]
            return []
        for c, bad in cases(s.ip, st, look):
            n += 1
            out += [Finding("K02", s.path, b, path_text(c)) for b in bad]
    for p in s.ip.panics:
        if p[2].facts.eq(T("discr", s.ip.base_elem(p[2], z.pre_m().base, OLD), (0, 1)), I(L.alloc)) is not True:
            continue
        n += 1
        out.append(Finding("K02", s.path, "the recaster's function can panic on a live old pointer", path_text(p[2])))
    s.checked = n
    return out


# -------------------------------------------------------- ordered arenas

def picks_ordered(s):
    return (s.self_kind() == "OrdArena" and s.name.startswith("compress_and_shrink") and not s.f.get("trait")
            and s.out_ty()["k"] == "tuple")


def rule_ordered(s):
    """The chain is compressed from its first entry on (rule_mirror judges
    that); here one arbitrary relocation runs the function given to it. The
    tree that is built afterwards is not tracked."""
    from contracts import call_closure
    L = s.L
    z = main_sub(s, s.by[1])
    fn = closure_arg(s)
    s.tree_mode()
    tab = s.ip.models.contracts
    node = T("arg", -2, "moved")
    used = []

    def compress(ip, st, fn_, args, tys, d, line):
        obj, proj = target(st, args[0])
        t = ip.prog.types[tys[-1]]
        if (obj is not z.obj and obj != z.obj) or t["k"] != "closure":
            return None
        a = z.arena(st)
        ptrs = [x for x, ty in zip(args, tys) if s.ty_is_ptr(ty)]
        tup = (T("arg", -3, "old"), ref(node, ()), NEW)
        f2 = dict(fn_, name="call_mut", trait="core::ops::function::FnMut")
        n0 = len(st.events)
        r = call_closure(ip, st, f2, args[len(args) - 1], agg("tuple", 0, None, tuple(enumerate(tup))), tys[-1], None, d, line)
        out = []
        for c, _ in r:
            c.event("relocation", ptrs[0] if ptrs else None, c.events[n0:])
            ip.write_loc(c, z.obj, z.proj + (("f", 0, L.a_m),), vec(c.new("compressed"), (), fld(a, 0, L.a_len)))
            ip.write_loc(c, z.obj, z.proj + (("f", 0, L.a_gen),), T("inc", fld(a, 0, L.a_gen)))
            used.append(1)
            out.append((c, UNIT))
        return out
    for f in arena_fns(s, lambda n: n.startswith("compress_and_shrink") and n != "compress_and_shrink"):
        if f["path"] != s.path and L.kinds.get(L.strip(f["inputs"][0]).get("path")) == "ChainNoGenArena":
            tab[f["path"]] = compress
    s.run()
    if not used:
        raise Limit("no compression of the chain to summarise")
    out = []
    n = 0
    first0 = fld(T("deref", s.args[0]), 0, L.o_f["first"])

    def look(c):
        bad = []
        ev = [e for e in c.events if e[0] == "relocation"]
        empty = s.ip.decide_eq(c, fld(z.val0, 0, L.a_len), I(0))
        if not ev:
            if not empty:
                return ["entries are lost: the chain is not compressed although the arena is not empty"]
            return [] if c.facts.eq(z.len(c), I(0)) is True else ["compressing an empty arena leaves entries"]
        if len(ev) != 1:
            return ["the chain is compressed more than once"]
        if ev[0][1] is not None and c.facts.eq(p_inx(ev[0][1]), first0) is not True:
            bad.append("compression does not start at the first entry of the chain")
        v = s.ip.read_loc(c, node, ())
        old = T("deref", node)
        calls = calls_of(ev[0][2], fn) if fn is not None else []
        if fn is not None:
            if len(calls) != 1:
                return bad + ["the given function is not called once per entry"]
            a = calls[0][2]
            if a[0] is not T("arg", -3, "old") or a[len(a) - 1] is not NEW:
                bad.append("the given function is not told the entry's old and new pointer")
            if not same_value(s, c, calls[0][3][1], fld(old, 0, L.n_f["k"])):
                bad.append("the given function is not given the entry's key")
            if not same_value(s, c, calls[0][3][2], fld(old, 0, L.n_f["v"])):
                bad.append("the given function is not given the entry's value")
        if not same_value(s, c, fld(v, 0, L.n_f["k"]), fld(old, 0, L.n_f["k"])):
            bad.append("compression changes a key")
        w = fld(v, 0, L.n_f["v"])
        w = c.facts.norm(w) if isinstance(w, Term) else w
        if fn is not None and isinstance(w, Term) and w.op == "mutby" and calls and w.args[0] == calls[0][4]:
            w = w.args[2]
        if not same_value(s, c, w, fld(old, 0, L.n_f["v"])):
            bad.append("compression changes a value")
        if c.facts.eq(z.len(c), fld(z.val0, 0, L.a_len)) is not True or z.m(c).base.op != "compressed" or z.m(c).over:
            bad.append("the compressed chain is changed afterwards")
        o = s.ip.read_loc(c, s.args[0], ())
        if c.facts.eq(fld(o, 0, L.o_f["first"]), I(1)) is not True:
            bad.append("`first` is not the first entry of the compressed chain")
        if c.facts.eq(fld(o, 0, L.o_f["last"]), fld(z.val0, 0, L.a_len)) is not True:
            bad.append("`last` is not the last entry of the compressed chain")
        return bad
    for st, ret in s.out:
        for c, bad in cases(s.ip, st, look):
            n += 1
            out += [Finding("K02", s.path, b, path_text(c)) for b in bad]
    s.checked = n
    return out


# ------------------------------------------------ values of surject arenas

def picks_values(s):
    return (s.self_kind() == "SurjectArena" and s.name == "compress_and_shrink_with" and not s.f.get("trait")
            and s.out_ty()["k"] == "tuple")


def rule_values(s):
    """The keys are compressed whole surjects at a time (rule_mirror judges
    that). Here the function given to that compression runs on two keys of an
    arbitrary surject and then on a key of another one."""
    from contracts import call_closure
    from rules_surject import pair
    L = s.L
    K, V = pair(s)
    fn = closure_arg(s)
    tab = s.ip.models.contracts
    sets = (T("nz", "one"), T("nz", "one"), T("nz", "other"))
    later = T("nz", "later")
    keys = [T("arg", -2 - i, "moved%d" % i) for i in range(3)]
    old = [T("arg", -10 - i, "old%d" % i) for i in range(3)]
    new = [T("arg", -20 - i, "new%d" % i) for i in range(3)]
    pval = lambda k: fld(fld(k, 0, L.k_pval), 0, L.png_inx)
    used = []
    out = []

    def plain(c, v):
        """A value before the given function could change it."""
        v = c.facts.norm(v) if isinstance(v, Term) else v
        while isinstance(v, Term) and v.op == "mutby":
            v = c.facts.norm(v.args[2]) if isinstance(v.args[2], Term) else v.args[2]
        return v

    def judge(c, events):
        bad = []
        calls = calls_of(events, fn)
        if len(calls) != len(keys):
            return ["the given function is not called once per key"]
        for i, k in enumerate(keys):
            now = s.ip.read_loc(c, k, ())
            e0 = s.ip.base_elem(c, V.pre_m().base, sets[i])
            v0 = fld(V.payload(e0), 0, L.v_v)
            a, seen = calls[i][2], calls[i][3]
            if a[0] is not old[i] or a[len(a) - 1] is not new[i]:
                bad.append("the given function is not told the key's old and new pointer")
            if not same_value(s, c, plain(c, seen[1]), fld(T("deref", k), 0, L.k_k)):
                bad.append("the given function is not given the key")
            if not same_value(s, c, plain(c, seen[2]), v0):
                bad.append("the given function is not given the key's value")
            if not same_value(s, c, plain(c, fld(now, 0, L.k_k)), fld(T("deref", k), 0, L.k_k)):
                bad.append("compression changes a key")
            e = s.ip.vec_get(c, V.m(c), pval(now))
            if V.variant(c, e) != L.alloc:
                bad.append("a key resolves to no value after compression")
                continue
            w = V.payload(e)
            if not same_value(s, c, plain(c, fld(w, 0, L.v_v)), v0):
                bad.append("a key resolves to another value after compression")
            if not same_value(s, c, fld(w, 0, L.v_count), fld(V.payload(e0), 0, L.v_count)):
                bad.append("compression changes a key count")
            if c.facts.decide_le(pval(now), sets[i]) is not True:
                bad.append("a value is moved away from the front")
        if not same_value(s, c, s.ip.vec_get(c, V.m(c), later), s.ip.base_elem(c, V.pre_m().base, later)):
            bad.append("a value is displaced before its keys are")
        return bad

    def compress(ip, st, fn_, args, tys, d, line):
        obj, proj = target(st, args[0])
        t = ip.prog.types[tys[-1]]
        if (obj is not K.obj and obj != K.obj) or proj != K.proj and proj != K.proj[:len(proj)] or t["k"] != "closure":
            return None
        m = V.pre_m()
        for i, k in enumerate(keys):
            x = sets[i]
            st.facts.assume_le(I(1), x)
            st.facts.assume_le(x, m.len)
            st.facts.assume_eq(T("discr", ip.base_elem(st, m.base, x), (0, 1)), I(L.alloc))
            st.facts.assume_eq(pval(T("deref", k)), x)
        st.facts.assume_ne(sets[0], sets[2])
        st.facts.assume_le(I(1), later)
        st.facts.assume_le(later, m.len)
        st.facts.assume_eq(T("discr", ip.base_elem(st, m.base, later), (0, 1)), I(L.alloc))
        for x in sets[1:]:
            st.facts.assume_ne(later, x)
        f2 = dict(fn_, name="call_mut", trait="core::ops::function::FnMut")
        before = len(ip.panics)
        work = [(st, len(st.events))]
        for i, k in enumerate(keys):
            nxt = []
            for c, n0 in work:
                tup = agg("tuple", 0, None, tuple(enumerate((old[i], ref(k, ()), new[i]))))
                nxt += [(q, n0) for q, _ in call_closure(ip, c, f2, args[len(args) - 1], tup, tys[-1], None, d, line)]
            work = nxt
        for p in ip.panics[before:]:
            for q, _ in cases(ip, p[2], lambda q: None):
                out.append(Finding("K02", s.path, "compression can panic on a live key", path_text(q)))
        r = []
        for c, n0 in work:
            for q, bad in cases(ip, c, lambda q: judge(q, q.events[n0:])):
                used.append(1)
                out.extend(Finding("K02", s.path, b, path_text(q)) for b in bad)
                q.event("values", V.m(q))
                r.append((q, UNIT))
        return r

    def pop(ip, st, fn_, args, tys, d, line):
        obj, proj = target(st, args[0])
        v = ip.as_vec(ip.read_loc(st, obj, proj))
        r = []
        for c, empty in cases(ip, st, lambda c: ip.decide_eq(c, v.len, I(0))):
            if empty:
                r.append((c, none()))
                continue
            e = ip.vec_get(c, v, v.len)
            if any(x == L.alloc for _, x in cases(ip, c, lambda q: V.variant(q, e))):
                out.append(Finding("K02", s.path, "a value is thrown away", path_text(c)))
            ip.write_loc(c, obj, proj, vec(v.base, v.over, lin_add(c.facts.norm(v.len), I(-1))))
            r.append((c, some(e)))
        return r
    for f in s.prog.fns:
        if "NonZeroInxVec" in f["path"] and f["name"] == "pop":
            tab[f["path"]] = pop
    for f in arena_fns(s, lambda n: n == "compress_and_shrink_with"):
        if f["path"] != s.path:
            tab[f["path"]] = compress
    s.run()
    if not used:
        raise Limit("no compression of the keys to summarise")

    def look(c):
        bad = []
        if sum(e[0] == "values" for e in c.events) != 1:
            return ["the keys are not compressed once"]
        if c.facts.eq(V.len(c), fld(V.val0, 0, L.a_len)) is not True:
            bad.append("compression changes the number of values")
        if option(s, c, V.root(c)) is not None:
            bad.append("vacant slots stay listed after they are gone")
        return bad
    n = len(used)
    for st, ret in s.out:
        for c, bad in cases(s.ip, st, look):
            n += 1
            out += [Finding("K02", s.path, b, path_text(c)) for b in bad]
    s.checked = n
    return out
