"""Ordered search and insertion. O01: every step of a search goes where its
comparison says and what is reported is the last compared entry with that
outcome. O02: what an insertion does with what the search reported."""
from terms import *
from facts import Contradiction
from interp import Limit
from layout import last
from models import target
from subject import cases, loops, tree_helper
from rules_core import Finding, lookup, path_text, same_value, valid
from rules_cmp import order_of

LESS, EQUAL, GREATER = 0, 1, 2
SAY = ("Less", "Equal", "Greater")


def picks_find(s):
    """Shared methods of OrdArena with pointer (and ordering) results that
    compare with a key or ask a closure."""
    if s.self_kind() != "OrdArena" or s.f.get("trait") or not s.name.startswith("find"):
        return False
    return out_kind(s) is not None


def out_kind(s, f=None):
    t = s.prog.types[(f or s.f)["output"]]
    if t["k"] != "adt" or last(t["path"]) != "Option":
        return None
    x = s.prog.types[t["variants"][1]["fields"][0]["ty"]]
    return "similar" if x["k"] == "tuple" else "exact"


class Cmp:
    """One comparison: the slot compared and how the key compares to it."""
    __slots__ = ("x", "term", "flip")

    def __init__(self, x, term, flip):
        self.x, self.term, self.flip = x, term, flip

    def outcome(self, s, c):
        o = order_of(s, c, self.term)
        return GREATER - o if self.flip else o


class Search:
    def __init__(self, s):
        self.s = s
        self.z = s.by[1][0]
        self.m = self.z.pre_m()
        self.L = s.L
        self.kind = out_kind(s)
        fns = [i for i, a in enumerate(s.args) if s.prog.types[s.tys[i]]["k"] == "param"
               and s.prog.types[s.tys[i]]["s"] not in ("P", "K", "V")]
        self.key = None
        for i, a in enumerate(s.args[1:], 1):
            t = s.prog.types[s.tys[i]]
            if t["k"] == "ref":
                self.key = T("deref", a)
        self.ptr = next((a for i, a in enumerate(s.args[1:], 1)
                         if s.prog.types[s.tys[i]]["k"] == "param" and i not in fns), None)

    def len0(self):
        return fld(self.z.val0, 0, self.L.a_len)

    def base(self):
        return self.m.base if isinstance(self.m, Vec) else self.m

    def slot_of(self, v):
        """Slot of the arena whose node the term `v` is part of, and the field."""
        path = []
        while isinstance(v, Term) and v.op == "fld":
            path.append((v.args[1], v.args[2]))
            v = v.args[0]
        if isinstance(v, Term) and v.op == "elem" and v.args[0] == self.base():
            return v.args[1], path[::-1]
        return None, None

    def part(self, c, x, name):
        """Value of a node field (or "prev", "next", "gen") of entry `x`."""
        e = self.s.ip.vec_get(c, self.m, x)
        if name == "gen":
            return self.z.egen(e)
        p = self.z.payload(e)
        pn, t = self.z.link[0], self.z.link[1]
        if name in ("prev", "next"):
            return fld(fld(p, 0, pn), 0, name == "next")
        return fld(fld(p, 0, t), 0, self.L.n_f[name])

    def compares(self, events, c, bad):
        out = []
        for e in events:
            if e[0] == "usercmp":
                for a, b, flip in ((e[1], e[2], False), (e[2], e[1], True)):
                    x, path = self.slot_of(b)
                    if x is not None and a is self.key and same_value(self.s, c, b, self.part(c, x, "k")):
                        out.append(Cmp(x, e[3], flip))
                        break
                else:
                    bad.append("compares something other than the key with an entry's key")
            elif e[0] == "call":
                p, k, v = (tuple(e[3]) + (None,) * 3)[:3]
                x, path = self.slot_of(k) if k is not None else (None, None)
                if x is None or not (same_value(self.s, c, p_inx(p), x) and same_value(self.s, c, p_gen(p), self.part(c, x, "gen"))
                                     and same_value(self.s, c, k, self.part(c, x, "k"))
                                     and same_value(self.s, c, v, self.part(c, x, "v"))):
                    bad.append("asks about something other than one entry's pointer, key and value")
                else:
                    out.append(Cmp(x, T("ret", e[4]), False))
            elif e[0] == "opaque" and last(e[1]) in ("lt", "le", "gt", "ge", "eq", "ne", "partial_cmp"):
                raise Limit("search by another comparison")
        return out

    def step(self, c, x, v):
        """Which way from entry `x` the slot value `v` lies: (way, mode)."""
        for name, way, mode in (("p_tree0", LESS, "tree"), ("p_tree1", GREATER, "tree"),
                                ("prev", LESS, "chain"), ("next", GREATER, "chain")):
            o = self.part(c, x, name)
            if same_value(self.s, c, v, o) or same_value(self.s, c, v, fld(o, 1, 0)) or \
                    mode == "chain" and same_value(self.s, c, v, p_inx(fld(o, 1, 0))):
                return way, mode
        return None, None


def cursors(s, st, x):
    """Places of `st` that hold the slot `x` (or a pointer or option with it)."""
    out = []

    def look(v, path):
        if isinstance(v, Agg):
            for i, y in v.fields:
                look(y, path + (i,))
        elif isinstance(v, Term):
            if v is x:
                out.append((path, "inx"))
            elif x is p_inx(v):
                out.append((path, "ptr"))
            elif x is fld(v, 1, 0):
                out.append((path, "opt"))
    for k, v in st.heap.items():
        if not isinstance(k, Term):
            look(v, (k,))
    return out


def at(heap, path):
    v = heap.get(path[0])
    for i in path[1:]:
        if isinstance(v, Agg):
            v = dict(v.fields).get(i)
        elif isinstance(v, Term):
            v = fld(v, 1, i)
        else:
            return None
    return v


def apart(c, x, y):
    """Provably different values; `y` is of another pass, so that only its
    constants mean the same here."""
    if isinstance(x, Term):
        x = c.facts.norm(x)
    if isinstance(y, Term):
        y = c.facts.norm(y)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.variant != y.variant:
            return True
        dy = dict(y.fields)
        return any(i in dy and apart(c, v, dy[i]) for i, v in x.fields)
    if isinstance(x, Term) and is_int(y):
        return c.facts.eq(x, y) is False
    return False


def install_find(s):
    """Searches called by other searches are judged on their own."""
    tab = s.ip.models.contracts
    kinds = {}
    for f in s.prog.fns:
        if f["key"] is None or f["path"] == s.path or not f["name"].startswith("find") or f.get("trait"):
            continue
        if not f["inputs"] or s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path")) != "OrdArena":
            continue
        k = out_kind(s, f)
        if k is None:
            continue
        kinds[f["path"]] = k

        def contract(ip, st, fn, args, tys, d, line, k=k):
            st.fresh += 1
            t = T("found", st.fresh)
            vals = tuple(ip.read_loc(st, *target(st, a)) for a, ty in list(zip(args, tys))[1:]
                         if ip.prog.types[ty]["k"] == "ref")
            st.event("found", k, tuple(args), t, vals)
            return [(st, t)]
        tab[f["path"]] = contract
    return kinds


def stretches(events):
    """[(head event or None, events)] between loop heads."""
    runs = [(None, [])]
    for e in events:
        if e[0] == "head":
            runs.append((e, []))
        else:
            runs[-1][1].append(e)
    return runs


def rule_find(s):
    s.ip.keep_locals = True
    install_find(s)
    s.run()
    q = Search(s)
    out = []
    n = 0
    modes = {}
    steps = {}
    # every pass of every loop
    for it in s.ip.iterations:
        ev = it.back.events[len(it.head.events) + 1:]

        def check(c, it=it, ev=ev):
            bad = []
            cs = q.compares(ev, c, bad)
            if bad:
                return bad
            if len(cs) != 1:
                raise Limit("a pass without exactly one comparison")
            x = cs[0].x
            o = cs[0].outcome(s, c)
            if o == EQUAL:
                return ["goes on after an equal comparison"]
            got = set()
            for path, how in cursors(s, it.head, x):
                b, e = at(it.back.heap, path), at(it.entry.heap, path)
                if b is None:
                    continue
                v = p_inx(b) if how == "ptr" and not (isinstance(b, Term) and b is x) else b
                way, mode = q.step(c, x, v)
                if way is not None:
                    got.add((way, mode))
                    if e is not None:
                        starts.setdefault(id(it.loop), []).append((it, how, e, mode))
            if not got:
                return ["steps to an entry that is no neighbour of the compared one"]
            if all(w != o for w, _ in got):
                return [f"steps the wrong way after {SAY[o]}"]
            mode = next(m for w, m in got if w == o)
            modes.setdefault(id(it.loop), set()).add(mode)
            steps.setdefault(id(it.loop), []).append((it, o))
            return []
        starts = {}
        for c, r in cases(s.ip, it.back, check):
            n += 1
            out += [Finding("O01", s.path, b, path_text(c)) for b in r]
        for l in starts.values():
            for it2, how, e, mode in l:
                v = p_inx(e) if how == "ptr" else e
                n += 1
                if not good_start(s, q, it2.entry, v, how, mode):
                    out.append(Finding("O01", s.path, "the search does not start at the root or a live entry"))
    for ms in modes.values():
        if len(ms) > 1:
            out.append(Finding("O01", s.path, "mixes steps of the tree and of the ordering"))
    for st, ret in s.out:
        for c, r in cases(s.ip, st, lambda c: judge_result(s, q, c, ret, modes, steps)):
            n += 1
            out += [Finding("O01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def good_start(s, q, st, v, how, mode):
    root = fld(T("deref", s.args[0]), 0, s.L.o_f["root"])
    if how == "opt":
        if not (isinstance(v, Agg) and v.variant == 1):
            return False
        v = fld(v, 1, 0)
    filled = st.facts.eq(q.len0(), I(0)) is False
    if same_value(s, st, v, root):
        return filled
    if mode == "tree":
        return False
    if filled and any(same_value(s, st, v, fld(T("deref", s.args[0]), 0, s.L.o_f[n])) for n in ("first", "last")):
        return True
    if q.ptr is not None and same_value(s, st, v, p_inx(q.ptr)):
        return all(r for _, r in cases(s.ip, st, lambda c: valid(s, c, q.z, q.ptr)))
    return False


def judge_result(s, q, c, ret, modes, steps):
    bad = []
    runs = stretches(c.events)
    head, evs = runs[-1]
    found = [e for e in evs if e[0] == "found"]
    if found:
        return judge_found(s, q, c, ret, found[-1])
    cs = q.compares(evs, c, bad)
    if bad:
        return bad
    some_ = s.variant(c, ret) == 1
    if not cs:
        if head is None:
            if some_:
                return ["reports an entry without a comparison"]
            if c.facts.eq(q.len0(), I(0)) is not True:
                return ["gives up on an arena that may have entries"]
            return []
        if q.kind == "exact" and not some_ and id(s.ip.loop_by_no[head[3]]) in modes:
            return []
        raise Limit("result decided after the loop")
    if len(cs) != 1:
        raise Limit("several comparisons after the last pass")
    x, o = cs[0].x, cs[0].outcome(s, c)
    lp = s.ip.loop_by_no[head[3]] if head is not None else None
    if some_:
        p = fld(ret, 1, 0)
        if q.kind == "similar":
            d = fld(p, 0, 1)
            p = fld(p, 0, 0)
            if order_of(s, c, d) != o:
                bad.append("reports another ordering than the comparison gave")
        elif o != EQUAL:
            return ["reports an entry that did not compare equal"]
        if not same_value(s, c, p_inx(p), x) or not same_value(s, c, p_gen(p), q.part(c, x, "gen")):
            bad.append("does not report the compared entry")
        if o == EQUAL:
            return bad
    else:
        if q.kind == "similar":
            return ["reports nothing although an entry was compared"]
        if o == EQUAL:
            return ["misses an equal entry"]
    # the search is over although the comparison was not equal
    ms = modes.get(id(lp), {"tree"})
    name = {"tree": ("p_tree0", None, "p_tree1"), "chain": ("prev", None, "next")}
    for m in ms:
        if s.variant(c, q.part(c, x, name[m][o])) == 0:
            return bad
    if "chain" in ms and q.kind == "similar" and reversed_here(s, q, c, head, lp, steps, o):
        return bad
    bad.append(f"ends although there are entries to compare after {SAY[o]}")
    return bad


def reversed_here(s, q, c, head, lp, steps, o):
    """The pass before this one compared the other way, on every way to here."""
    now = dict(head[2])
    prior = [it.back.heap for it, w in steps.get(id(lp), ()) if w == o] + [lp.entry.heap]
    for h in prior:
        if not any(k in h and apart(c, v, h[k]) for k, v in now.items() if not isinstance(k, Term)):
            return False
    return True


def judge_found(s, q, c, ret, e):
    _, kind, args, t, vals = e
    if target(c, args[0]) != target(c, s.args[0]):
        return ["searches another arena"]
    if q.key is not None and not any(same_value(s, c, v, q.key) for v in vals):
        return ["searches for another key"]
    if kind == q.kind:
        return [] if same_value(s, c, ret, t) else ["does not report what the search found"]
    if kind == "exact":
        raise Limit("similar search by an exact one")
    some_ = s.variant(c, ret) == 1
    hit = s.variant(c, t) == 1 and order_of(s, c, fld(fld(t, 1, 0), 0, 1)) == EQUAL
    if some_ != hit:
        return ["reports an entry that did not compare equal" if some_ else "misses an equal entry"]
    if some_ and not same_value(s, c, fld(ret, 1, 0), fld(fld(t, 1, 0), 0, 0)):
        return ["does not report what the search found"]
    return []


# ---- O02: insertion


def picks_insert(s):
    if s.self_kind() != "OrdArena" or s.f.get("trait") or not s.f["pub"]:
        return False
    t = s.prog.types[s.tys[0]]
    k, v = kv_args(s)
    return t["k"] == "ref" and t["mut"] and k is not None and v is not None and s.name.startswith("insert")


def kv_args(s):
    """The key and value arguments (by value, of the arena's own types)."""
    arena = s.L.strip(s.tys[0])
    want = [s.prog.types[a]["s"] for a in arena["args"]]
    out = {}
    for i, ty in enumerate(s.tys[1:], 1):
        t = s.prog.types[ty]
        if t["k"] == "param" and t["s"] in want[1:]:
            out[want.index(t["s"])] = s.args[i]
    return out.get(1), out.get(2)


class Ends:
    """An OrdArena's two ends and the parts of its entries."""

    def __init__(self, s):
        self.s = s
        self.q = Search(s)
        self.z = self.q.z

    def end(self, c, name, pre=False):
        s = self.s
        v = T("deref", s.args[0]) if pre else s.ip.read_loc(c, s.args[0], ())
        return fld(v, 0, s.L.o_f[name])

    def live(self, c, x):
        e = lookup(self.s, c, self.z, self.q.m, x)
        return e is not None and self.z.is_alloc(c, e)

    def part(self, c, x, name, pre=False):
        m = self.q.m if pre else self.z.m(c)
        e = self.s.ip.vec_get(c, m, x)
        if name == "gen":
            return self.z.egen(e)
        p = self.z.payload(e)
        pn, t = self.z.link[0], self.z.link[1]
        if name in ("prev", "next"):
            return fld(fld(p, 0, pn), 0, name == "next")
        return fld(fld(p, 0, t), 0, self.s.L.n_f[name])


class Insertion(Ends):
    def __init__(self, s):
        super().__init__(s)
        self.k, self.v = kv_args(s)
        o = s.prog.types[s.f["output"]]
        # what the caller gets: the pointer and what was replaced, the pointer, or maybe the pointer
        self.kind = "replace" if o["k"] == "tuple" else "empty" if o["k"] == "adt" else "add"
        self.at = next((a for i, a in enumerate(s.args[1:], 1) if s.prog.types[s.tys[i]]["k"] == "alias"), None)
        self.dir = next((a for i, a in enumerate(s.args[1:], 1) if s.prog.types[s.tys[i]].get("path") == "core::cmp::Ordering"), None)

    def well_formed(self, c, x):
        """An entry has no predecessor exactly if it is the first, and no
        successor exactly if it is the last; so its neighbours are live and
        are not the end on its side."""
        s = self.s
        if not self.live(c, x):
            raise Contradiction()
        for name, back, end, other in (("prev", "next", "first", "last"), ("next", "prev", "last", "first")):
            near = self.part(c, x, name, True)
            none_ = s.variant(c, near) == 0
            if s.ip.decide_eq(c, self.end(c, end, True), x) != none_:
                raise Contradiction()
            if not none_:
                y = fld(near, 1, 0)
                if s.ip.decide_eq(c, self.end(c, other, True), y):
                    raise Contradiction()
                b = self.part(c, y, back, True)
                if s.variant(c, b) != 1 or not s.ip.decide_eq(c, fld(b, 1, 0), x):
                    raise Contradiction()

    def is_some(self, c, o, x):
        return self.s.variant(c, o) == 1 and same_value(self.s, c, fld(o, 1, 0), x)

    def ends_are(self, c, first, last_, bad):
        if not same_value(self.s, c, self.end(c, "first"), first):
            bad.append("the first entry is not kept track of")
        if not same_value(self.s, c, self.end(c, "last"), last_):
            bad.append("the last entry is not kept track of")

    def entry(self, c, ptr, bad):
        """The returned pointer denotes the new entry with key and value."""
        s = self.s
        x = p_inx(ptr)
        m = self.z.m(c)
        e = s.ip.vec_get(c, m, x)
        if not self.z.is_alloc(c, e) or not same_value(s, c, self.part(c, x, "gen"), p_gen(ptr)):
            bad.append("the returned pointer is not of the new entry")
        if not same_value(s, c, self.part(c, x, "k"), self.k) or not same_value(s, c, self.part(c, x, "v"), self.v):
            bad.append("the new entry has another key or value")
        return x

    def alone(self, c, ptr):
        bad = []
        x = self.entry(c, ptr, bad)
        if any(self.s.variant(c, self.part(c, x, n)) != 0 for n in ("prev", "next")):
            bad.append("the only entry has a neighbour")
        self.ends_are(c, x, x, bad)
        return bad

    def beside(self, c, ptr, p, o):
        s = self.s
        bad = []
        x = self.entry(c, ptr, bad)
        ahead, behind, end = ("next", "prev", "first") if o == LESS else ("prev", "next", "last")
        q = self.part(c, p, behind, True)
        none_ = s.variant(c, q) == 0
        if not self.is_some(c, self.part(c, x, ahead), p) or not self.is_some(c, self.part(c, p, behind), x):
            bad.append(f"is not linked directly {'before' if o == LESS else 'after'} the entry after {SAY[o]}")
        mine = self.part(c, x, behind)
        if none_:
            if s.variant(c, mine) != 0:
                bad.append("gets a neighbour at the end of the ordering")
        elif not self.is_some(c, mine, fld(q, 1, 0)) or not self.is_some(c, self.part(c, fld(q, 1, 0), ahead), x):
            bad.append("is not linked to the neighbour on the other side")
        f, l = self.end(c, "first", True), self.end(c, "last", True)
        if o == LESS and none_:
            f = x
        if o == GREATER and none_:
            l = x
        self.ends_are(c, f, l, bad)
        return bad

    def replaced(self, c, ptr, old, p):
        s = self.s
        bad = []
        if not same_value(s, c, p_inx(ptr), p) or not same_value(s, c, p_gen(ptr), self.part(c, p, "gen", True)):
            bad.append("does not return the pointer of the equal entry")
        if s.variant(c, old) != 1:
            return bad + ["does not say what was replaced"]
        old = fld(old, 1, 0)
        if not same_value(s, c, fld(old, 0, 0), self.k) or not same_value(s, c, fld(old, 0, 1), self.part(c, p, "v", True)):
            bad.append("does not return the given key and the replaced value")
        if not same_value(s, c, self.part(c, p, "v"), self.v) or not same_value(s, c, self.part(c, p, "k"), self.part(c, p, "k", True)):
            bad.append("does not replace exactly the value")
        if any(not same_value(s, c, self.part(c, p, n), self.part(c, p, n, True)) for n in ("prev", "next")) or \
                not same_value(s, c, self.z.len(c), self.q.len0()):
            bad.append("duplicates or moves an equal entry")
        self.ends_are(c, self.end(c, "first", True), self.end(c, "last", True), bad)
        return bad


def rule_insert(s):
    install_find(s)
    s.run()
    w = Insertion(s)
    n = 0
    out = []

    def check(c, ret):
        bad = []
        found = [e for e in c.events if e[0] == "found"]
        ptr, old = ret, None
        if w.kind == "replace":
            ptr, old = fld(ret, 0, 0), fld(ret, 0, 1)
        elif w.kind == "empty":
            if s.variant(c, ret) == 0:
                if c.facts.eq(w.q.len0(), I(0)) is not False:
                    return ["refuses although the arena may be empty"]
                w.ends_are(c, w.end(c, "first", True), w.end(c, "last", True), bad)
                return bad
            ptr = fld(ret, 1, 0)
        if w.at is not None:
            p, o = w.at, order_of(s, c, w.dir)
        elif found:
            e = found[-1]
            if len(found) > 1:
                raise Limit("several searches")
            if e[1] != "similar":
                raise Limit("insertion by an exact search")
            if target(c, e[2][0]) != target(c, s.args[0]):
                return ["searches another arena"]
            if not any(same_value(s, c, x, w.k) for x in e[4]):
                return ["searches for another key"]
            r = fld(e[3], 1, 0)
            p, o = p_inx(fld(r, 0, 0)), order_of(s, c, fld(r, 0, 1))
        else:
            if c.facts.eq(w.q.len0(), I(0)) is not True:
                return ["inserts without a search into an arena that may have entries"]
            bad = w.alone(c, ptr)
            if old is not None and s.variant(c, old) != 0:
                bad.append("claims to have replaced an entry")
            return bad
        w.well_formed(c, p)
        if o == EQUAL and w.kind == "replace":
            return w.replaced(c, ptr, old, p)
        if old is not None and s.variant(c, old) != 0:
            bad.append("claims to have replaced an entry")
        if o == EQUAL:
            # beside the equal entry, on either side
            a, b = w.beside(c.copy(), ptr, p, LESS), w.beside(c.copy(), ptr, p, GREATER)
            return bad + (a if len(a) <= len(b) else b)
        return bad + w.beside(c, ptr, p, o)
    for st, ret in s.out:
        for c, r in cases(s.ip, st, lambda c: check(c, ret)):
            n += 1
            out += [Finding("O02", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def picks_treeonly(s):
    return tree_helper(s.L, s.prog, s.f) and loops(s.prog.bodies[s.f["key"]])


def rule_treeonly(s):
    """Rebalancing moves nothing but tree pointers and ranks: what the
    analysis tracks of the arena (slots, keys, values, chain, first, last) is
    the same at every return and around every loop."""
    s.run()
    out = []
    n = 0
    me = s.args[0]

    def same(heap):
        v = heap.get(me)
        return v is None or v is T("deref", me) or same_value(s, s.st0.copy(), v, T("deref", me))
    ends = [st.heap for st, _ in s.out] + [it.back.heap for it in s.ip.iterations]
    for h in ends:
        n += 1
        if not same(h):
            out.append(Finding("O02", s.path, "rebalancing changes more than the tree"))
    s.checked = n
    return out


def picks_ends(s):
    return (s.self_kind() == "OrdArena" and s.f["pub"] and not s.f.get("trait") and s.name in ("first", "last")
            and len(s.args) == 1)


def rule_ends(s):
    """`first()` and `last()` give the pointer of the entry kept as that end."""
    s.run()
    out = []
    n = 0
    w = Ends(s)

    def check(c, ret):
        empty = s.ip.decide_eq(c, w.q.len0(), I(0))
        x = w.end(c, s.name, True)
        # the kept ends of an arena with entries are entries
        if not empty and not w.live(c, x):
            raise Contradiction()
        if s.variant(c, ret) == 0:
            return [] if empty else ["claims that an arena with entries has none"]
        if empty:
            return ["names an entry of an empty arena"]
        p = fld(ret, 1, 0)
        if not same_value(s, c, p_inx(p), x):
            return [f"does not name the {s.name} entry"]
        if not same_value(s, c, p_gen(p), w.part(c, x, "gen", True)):
            return ["gives the pointer another generation than the entry's"]
        return []
    for st, ret in s.out:
        for c, r in cases(s.ip, st, lambda c: check(c, ret)):
            n += 1
            out += [Finding("O02", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out
