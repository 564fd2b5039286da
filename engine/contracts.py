"""Summaries of the base arena's insertion and growth, used when analysing
their callers. Each is itself checked against the callee's body: see
`reserve_rule` and the generic rules applied to `Arena::insert*` in rules_core.
"""
from terms import *
from models import target, some, none, m_call, call_value, m_fn_trait
from interp import Split


def boundary(ip, st, before):
    st.event("boundary", before, ip.snapshot(st))


class Contracts:
    def __init__(self, L):
        self.L = L
        self.used = set()
        self.local_fresh = False

    def table(self, names):
        out = {}
        p = self.L.arena + "::<P, T>::"
        for n in names:
            out[p + n] = getattr(self, "c_" + n)
        return out

    def place(self, st, a):
        return target(st, a)

    def c_reserve(self, ip, st, fn, args, tys, d, line):
        L = self.L
        self.used.add("reserve")
        obj, proj = self.place(st, args[0])
        extra = args[1]
        if ip.decide_eq(st, extra, I(0)):
            return [(st, UNIT)]
        before = ip.snapshot(st)
        a = ip.read_loc(st, obj, proj)
        m = ip.as_vec(fld(a, 0, L.a_m))
        ln = lin_add(st.facts.norm(m.len), st.facts.norm(extra))
        st.facts.assume_le(ln, T("maxinx"))
        if st.facts.decide_le(I(1), extra) is not True:
            st.facts.assume_le(I(1), extra)
        r = lin_add(st.facts.norm(m.len), I(1))
        nx = st.new("frees", m.base)
        nm = vec(m.base, ((r, agg(L.entry, L.free, None, ((0, nx),))),) + m.over, ln)
        ip.write_loc(st, obj, proj + (("f", 0, L.a_m),), nm)
        ip.write_loc(st, obj, proj + (("f", 0, L.a_root),), some(r))
        boundary(ip, st, before)
        return [(st, UNIT)]

    def c_clear(self, ip, st, fn, args, tys, d, line):
        L = self.L
        self.used.add("clear")
        obj, proj = self.place(st, args[0])
        before = ip.snapshot(st)
        a = ip.read_loc(st, obj, proj)
        m = ip.as_vec(fld(a, 0, L.a_m))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_m),), vec(st.new("cleared"), (), m.len))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_root),), st.new("newroot"))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_gen),), T("inc", fld(a, 0, L.a_gen)))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_len),), I(0))
        boundary(ip, st, before)
        return [(st, UNIT)]

    def c_remove(self, ip, st, fn, args, tys, d, line):
        """Only for rules that do not look at the free list."""
        L = self.L
        self.used.add("remove")
        obj, proj = self.place(st, args[0])
        a = ip.read_loc(st, obj, proj)
        m = ip.as_vec(fld(a, 0, L.a_m))
        i = p_inx(args[1])
        if not ip.decide_le(st, i, m.len):
            return [(st, none())]
        e = ip.vec_get(st, m, i)
        n = st.facts.norm(e) if isinstance(e, Term) else e
        k = n.variant if isinstance(n, Agg) else L.alloc if ip.decide_eq(st, T("discr", e, (0, 1)), I(L.alloc)) else L.free
        if k != L.alloc or not ip.decide_eq(st, fld(e, L.alloc, L.e_gen), p_gen(args[1])):
            return [(st, none())]
        before = ip.snapshot(st)
        free = agg(L.entry, L.free, None, ((0, st.new("frees", m.base)),))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_m),), vec(m.base, ((i, free),) + m.over, m.len))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_root),), st.new("newroot"))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_gen),), T("inc", fld(a, 0, L.a_gen)))
        ip.write_loc(st, obj, proj + (("f", 0, L.a_len),), lin_add(st.facts.norm(fld(a, 0, L.a_len)), I(-1)))
        boundary(ip, st, before)
        return [(st, some(fld(e, L.alloc, L.e_t)))]

    def alloc(self, ip, st, a0, make, d, line):
        L = self.L
        obj, proj = self.place(st, a0)
        a = ip.read_loc(st, obj, proj)
        m = ip.as_vec(fld(a, 0, L.a_m))
        g = fld(a, 0, L.a_gen)
        slot = st.new("slot", m.base)
        ln = st.new("newlen", m.base)
        st.facts.assume_le(slot, ln)
        st.facts.assume_le(m.len, ln)
        st.facts.assume_le(I(1), slot)
        if self.local_fresh and not isinstance(obj, Term):
            # pointers at hand denote entries that are there (see rules_compress)
            for k, v in st.heap.items():
                if not isinstance(k, Term) and k[0] == "L" and k[1] <= 1 and isinstance(v, Term) and v.op in ("P", "w"):
                    if v.op == "P" and v.args[0].op == "slot" or v.op == "w":
                        st.facts.assume_ne(p_inx(v), slot)
        ptr = self.mkptr(ip, a0, slot, g)
        out = []
        for s, t in make(st, ptr):
            before = ip.snapshot(s)
            a = ip.read_loc(s, obj, proj)
            m2 = ip.as_vec(fld(a, 0, L.a_m))
            nm = vec(m2.base, ((slot, agg(L.entry, L.alloc, None, tuple(sorted(((L.e_gen, g), (L.e_t, t)))))),) + m2.over, ln)
            ip.write_loc(s, obj, proj + (("f", 0, L.a_m),), nm)
            ip.write_loc(s, obj, proj + (("f", 0, L.a_root),), s.new("newroot"))
            ln0 = fld(a, 0, L.a_len)
            ip.write_loc(s, obj, proj + (("f", 0, L.a_len),), lin_add(s.facts.norm(ln0), I(1)))
            boundary(ip, s, before)
            out.append((s, ptr))
        return out

    def mkptr(self, ip, a0, slot, g):
        return self._ptr(slot, g)

    def _ptr(self, slot, g):
        if self.cur_nogen:
            return agg(self.png, 0, None, ((0, slot), (1, UNIT)))
        return T("P", slot, g)

    def settle(self, ip, tys):
        t = ip.prog.types[tys[0]]
        while t["k"] == "ref":
            t = ip.prog.types[t["to"]]
        p = ip.prog.types[t["args"][0]]
        self.cur_nogen = p["k"] == "adt"
        self.png = p.get("path")

    def c_insert(self, ip, st, fn, args, tys, d, line):
        self.used.add("insert")
        self.settle(ip, tys)
        return self.alloc(ip, st, args[0], lambda s, p: [(s, args[1])], d, line)

    def c_insert_with(self, ip, st, fn, args, tys, d, line):
        self.used.add("insert_with")
        self.settle(ip, tys)

        def make(s, p):
            tup = agg("tuple", 0, None, ((0, p),))
            f2 = dict(fn, name="call_once", trait="core::ops::function::FnOnce")
            r = call_closure(ip, s, f2, args[1], tup, tys[1], ip_tuple(ip, tys, p), d, line)
            return r
        return self.alloc(ip, st, args[0], make, d, line)


def ip_tuple(ip, tys, p):
    return None


def call_closure(ip, st, fn, f, tup, fty, _t, d, line):
    """Invoke a closure value (inlined) or a user closure (opaque)."""
    t = ip.prog.types[fty]
    if t["k"] == "closure":
        r = m_fn_trait(ip, st, fn, [f, tup], [fty, fty], d, line)
        if r is not None:
            return r
    r = call_value(ip, st, f, tup, d, line)
    if r is not None:
        return r
    st.fresh += 1
    n = st.fresh
    elems = (fld(tup, 0, 0),)
    st.event("call", f, elems, elems, n, line)
    return [(st, T("ret", n))]
