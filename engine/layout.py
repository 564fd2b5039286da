"""Where the arena structures keep things, discovered from the exported types.

Roles are recognised by type (the vector field, the `Option` field, the
generation-typed field, the tuple of interlinks ...), not by position.
"""
from terms import *


class Anchor(Exception):
    """A structure the rules are stated over is not where they can find it."""


def last(path):
    return path.split("::")[-1]


class Layout:
    def __init__(self, prog):
        self.prog = prog
        T_ = prog.types
        self.arena = None
        for t in T_:
            if t and t["k"] == "adt" and t["local"] and not t["enum"] and len(t["variants"]) == 1:
                fs = t["variants"][0]["fields"]
                v = [i for i, f in enumerate(fs) if prog.is_vec(f["ty"])]
                if len(v) == 1 and last(t["path"]) == "Arena":
                    self.arena = t["path"]
                    self.a_m = v[0]
                    for i, f in enumerate(fs):
                        ft = T_[f["ty"]]
                        if i == v[0]:
                            continue
                        if ft["k"] == "int":
                            self.a_len = i
                        elif ft["k"] == "adt" and last(ft["path"]) == "Option":
                            self.a_root = i
                        else:
                            self.a_gen = i
                    vt = T_[fs[v[0]]["ty"]]
                    et = T_[vt["args"][0]]
                    self.entry = et["path"]
                    break
        if self.arena is None:
            raise Anchor("no struct `Arena` holding a NonZeroInxVec")
        if not all(hasattr(self, k) for k in ("a_len", "a_root", "a_gen")):
            raise Anchor("struct `Arena` lacks a length, free-list root or generation field")
        ok = False
        for t in T_:
            if t and t["k"] == "adt" and t["path"] == self.entry:
                vs = t["variants"]
                if len(vs) != 2:
                    raise Anchor("arena entry enum does not have two variants")
                self.discr = tuple(v["discr"] for v in vs)
                self.free = next((i for i, v in enumerate(vs) if len(v["fields"]) == 1), None)
                self.alloc = next((i for i, v in enumerate(vs) if len(v["fields"]) == 2), None)
                if self.free is None or self.alloc is None:
                    raise Anchor("arena entry variants are not Free(1 field)/Allocated(2 fields)")
                fs = vs[self.alloc]["fields"]
                g = [i for i, f in enumerate(fs) if T_[f["ty"]]["s"].endswith("::Gen")]
                if len(g) == 1:
                    self.e_gen = g[0]
                    self.e_t = 1 - g[0]
                    ok = True
                    break
        if not ok:
            raise Anchor("arena entry generation field not found")
        self.links = {}
        for t in T_:
            if t and t["k"] == "adt" and t["local"] and last(t["path"]) in ("Link", "LinkNoGen"):
                fs = t["variants"][0]["fields"]
                pn = [i for i, f in enumerate(fs) if T_[f["ty"]]["k"] == "tuple" and len(T_[f["ty"]]["args"]) == 2
                      and all(T_[x]["k"] == "adt" and last(T_[x]["path"]) == "Option" for x in T_[f["ty"]]["args"])]
                named = [i for i in pn if fs[i]["name"] == "prev_next"]
                pn = named or pn
                self.links[t["path"]] = (pn[0], 1 - pn[0], last(t["path"]) == "Link")
        self.key = self.val = self.node = None
        for t in T_:
            if t and t["k"] == "adt" and t["local"] and len(t["variants"]) == 1:
                fs = t["variants"][0]["fields"]
                n = last(t["path"])
                if n == "Key" and len(fs) == 2:
                    pv = [i for i, f in enumerate(fs) if T_[f["ty"]]["k"] == "adt" and last(T_[f["ty"]]["path"]) == "PtrNoGen"]
                    if pv:
                        self.key = t["path"]
                        self.k_pval = pv[0]
                        self.k_k = 1 - pv[0]
                        pt = T_[fs[pv[0]]["ty"]]
                        self.png_inx = next(i for i, f in enumerate(pt["variants"][0]["fields"])
                                            if not (T_[f["ty"]]["k"] == "tuple"))
                elif n == "Val" and len(fs) == 2:
                    c = [i for i, f in enumerate(fs) if prog.is_nonzero(f["ty"])]
                    if c:
                        self.val = t["path"]
                        self.v_count = c[0]
                        self.v_v = 1 - c[0]
                elif n == "Node":
                    self.node = t["path"]
                    self.n_f = {f["name"]: i for i, f in enumerate(fs)}
        self.ord = None
        for t in T_:
            if t and t["k"] == "adt" and t["local"] and last(t["path"]) == "OrdArena":
                self.ord = t["path"]
                self.o_f = {f["name"]: i for i, f in enumerate(t["variants"][0]["fields"])}
        self.kinds = {}
        for t in T_:
            if t and t["k"] == "adt" and t["local"]:
                n = last(t["path"])
                if n in ("ChainArena", "ChainNoGenArena", "SurjectArena", "OrdArena", "Arena"):
                    self.kinds.setdefault(t["path"], n)

    # --- types
    def strip(self, ty):
        t = self.prog.types[ty]
        while t["k"] == "ref":
            t = self.prog.types[t["to"]]
        return t

    def subs(self, ty, path=(), depth=0):
        """Arenas inside a value of type `ty`: [(path, arena type)]."""
        t = self.prog.types[ty]
        if depth > 6:
            return []
        if t["k"] == "ref":
            return self.subs(t["to"], path + (("d",),), depth + 1)
        if t["k"] == "tuple":
            out = []
            for i, a in enumerate(t["args"]):
                out += self.subs(a, path + (("f", 0, i),), depth + 1)
            return out
        if t["k"] != "adt" or t["enum"]:
            return []
        if t["path"] == self.arena:
            return [(path, ty)]
        if not t["local"] or len(t["variants"]) != 1:
            return []
        out = []
        for i, f in enumerate(t["variants"][0]["fields"]):
            out += self.subs(f["ty"], path + (("f", 0, i),), depth + 1)
        return out

    def payload_ty(self, arena_ty):
        """(payload type id, entry type id)"""
        t = self.prog.types[arena_ty]
        vt = self.prog.types[t["variants"][0]["fields"][self.a_m]["ty"]]
        et = self.prog.types[vt["args"][0]]
        return et["variants"][self.alloc]["fields"][self.e_t]["ty"]

    def role(self, arena_ty):
        p = self.prog.types[self.payload_ty(arena_ty)]
        if p["k"] == "adt" and p["path"] in self.links:
            inner = self.prog.types[p["variants"][0]["fields"][self.links[p["path"]][1]]["ty"]]
            if inner["k"] == "adt" and inner["path"] == self.key:
                return "keys"
            if inner["k"] == "adt" and inner["path"] == self.node:
                return "nodes"
            return "chain" if self.links[p["path"]][2] else "chain_ng"
        if p["k"] == "adt" and p["path"] == self.val:
            return "vals"
        return "plain"


class Sub:
    """One arena inside an argument: object, projection, roles, accessors."""

    def __init__(self, L, ip, st, argi, arg, path, aty, byval):
        self.L, self.ip = L, ip
        self.argi = argi
        self.aty = aty
        self.path = path
        self.role = L.role(aty)
        self.link = None
        p = L.prog.types[L.payload_ty(aty)]
        if p["k"] == "adt" and p["path"] in L.links:
            self.link = L.links[p["path"]]
        if byval:
            self.obj, self.proj = ("L", 0, argi), ()
        else:
            self.obj, self.proj = None, ()
        cur_obj, cur_proj = (("L", 0, argi), ())
        v = arg
        self.val0 = None
        for s in path:
            if s[0] == "d":
                cur_obj, cur_proj = v, ()
                v = T("deref", cur_obj)
            else:
                cur_proj = cur_proj + (s,)
                v = fld(v, s[1], s[2])
        self.obj, self.proj = cur_obj, cur_proj
        self.val0 = v
        self.base = fld(v, 0, L.a_m)
        self.sib = {}
        # whether generations of this arena are trivial
        gt = L.prog.types[L.prog.types[aty]["variants"][0]["fields"][L.a_gen]["ty"]]
        self.nogen = gt["k"] == "tuple"

    # -- values in a heap
    def arena(self, st):
        return self.ip.read_loc(st, self.obj, self.proj)

    def part(self, v, i):
        return fld(v, 0, i)

    def m(self, st):
        v = fld(self.arena(st), 0, self.L.a_m)
        if isinstance(v, Term):
            n = st.facts.norm(v)
            if isinstance(n, Vec):
                v = n
        return self.ip.as_vec(v)

    def len(self, st):
        return fld(self.arena(st), 0, self.L.a_len)

    def root(self, st):
        return fld(self.arena(st), 0, self.L.a_root)

    def gen(self, st):
        return fld(self.arena(st), 0, self.L.a_gen)

    def pre_m(self):
        return self.ip.as_vec(self.base)

    def entry(self, st, vec, i):
        return self.ip.vec_get(st, vec, i)

    def is_alloc(self, st, e):
        return self.variant(st, e) == self.L.alloc

    def variant(self, st, e):
        n = st.facts.norm(e) if isinstance(e, Term) else e
        if isinstance(n, Agg):
            return n.variant
        d = T("discr", e, self.L.discr)
        for k, v in enumerate(self.L.discr):
            if st.facts.eq(d, I(v)) is True:
                return k
        a = self.L.alloc
        return a if self.ip.decide_eq(st, d, I(self.L.discr[a])) else self.L.free

    def payload(self, e):
        return fld(e, self.L.alloc, self.L.e_t)

    def egen(self, e):
        return fld(e, self.L.alloc, self.L.e_gen)

    def link_of(self, e, which):
        """Option value: prev (0) or next (1) of an allocated entry."""
        return fld(fld(self.payload(e), 0, self.link[0]), 0, which)

    def inner(self, e):
        """User payload of a chain entry."""
        return fld(self.payload(e), 0, self.link[1]) if self.link else self.payload(e)


class WF:
    """What well-formedness of the structure before the call says about values
    read from it: links and value pointers lead to allocated entries, the
    free-list root leads to a free one, interlinks are mutual."""

    def __init__(self, L, subs):
        self.L = L
        self.bases = {}
        self.roots = {}
        for s in subs:
            self.bases[s.base] = s
            self.roots[fld(s.val0, 0, L.a_root)] = s

    def origin(self, j):
        """Trace an index to the entry field it was read from."""
        x = j
        path = []
        while isinstance(x, Term) and x.op in ("fld", "inx"):
            if x.op == "fld":
                if x in self.roots:
                    return ("root", self.roots[x], path)
                path.append((x.args[1], x.args[2]))
            else:
                path.append("inx")
            x = x.args[0]
            if isinstance(x, Term) and x.op == "elem" and x.args[0] in self.bases:
                path.reverse()
                return ("elem", x, path)
        if isinstance(x, Term) and x.op in ("slot", "frees"):
            return (x.op, x, path)
        return None

    def members(self, st, j):
        yield j
        f = st.facts
        for k in f.parent:
            if k is not j and k.op in ("fld", "inx") and f.norm(k) is j:
                yield k

    def classify(self, st, base, j):
        o = self.origin(j)
        if o is None:
            return None
        L = self.L
        kind, x, path = o
        if kind == "root":
            return "free" if x.base is base else None
        if kind == "slot":
            return "free" if x.args[1] is base else None
        if kind == "frees":
            return "free" if x.args[1] is base else None
        s = self.bases[x.args[0]]
        v = path[0]
        if v == "inx":
            return None
        if v[0] == L.free:
            return "free" if s.base is base else None
        if v[0] != L.alloc or v[1] != L.e_t or len(path) < 2:
            return None
        if s.link is not None:
            if path[1] == (0, s.link[0]) or path[1][1] == s.link[0]:
                return "alloc" if s.base is base else None
            if s.role == "keys" and len(path) >= 3 and path[2][1] == L.k_pval:
                vs = s.sib.get("vals")
                return "alloc" if vs is not None and vs.base is base else None
            if s.role == "nodes" and len(path) >= 3 and path[2][1] in tree_fields(L):
                return "alloc" if s.base is base else None
        return None

    def status(self, st, base, j):
        if base not in self.bases:
            return None
        j = st.facts.norm(j)
        if not isinstance(j, Term):
            return None
        d = st.facts.norm(T("discr", T("elem", base, j), self.L.discr))
        if is_int(d):
            return "alloc" if d.args[0] == self.L.discr[self.L.alloc] else "free"
        for m in self.members(st, j):
            r = self.classify(st, base, m)
            if r:
                return r
        return None

    def seen(self, st, base, i):
        """Facts implied by reading entry `i` of an initial vector."""
        if base not in self.bases:
            return
        s = self.bases[base]
        L = self.L
        e = T("elem", base, i)
        r = self.status(st, base, i)
        d = T("discr", e, L.discr)
        if r == "alloc" and not is_int(st.facts.norm(d)):
            st.facts.assume_eq(d, I(L.discr[L.alloc]))
        elif r == "free" and not is_int(st.facts.norm(d)):
            st.facts.assume_eq(d, I(L.discr[L.free]))
        if r is not None and st.facts.decide_le(i, T("len", base)) is not True and not self.isnew(st, i):
            st.facts.assume_le(i, T("len", base))
        if s.link is None or r != "alloc":
            return
        j = st.facts.norm(i)
        for m in list(self.members(st, j)):
            o = self.origin(m)
            if o is None or o[0] != "elem" or o[1].args[0] is not base:
                continue
            path = o[2]
            if len(path) >= 4 and path[0] == (L.alloc, L.e_t) and path[1][1] == s.link[0]:
                which = path[2][1]
                src = o[1]
                back = s.link_of(e, 1 - which)
                want = T("discr", back, (0, 1))
                if st.facts.eq(want, I(1)) is not True:
                    st.facts.assume_eq(want, I(1))
                p = fld(back, 1, 0)
                if s.link[2]:
                    tgt = T("P", src.args[1], s.egen(src))
                    fwd = fld(s.link_of(src, which), 1, 0)
                    if st.facts.eq(T("gen", fwd), s.egen(e)) is not True:
                        st.facts.assume_eq(T("gen", fwd), s.egen(e))
                else:
                    tgt = src.args[1]
                if st.facts.eq(p, tgt) is not True:
                    st.facts.assume_eq(p, tgt)
                if s.role == "keys":
                    a = fld(fld(s.inner(e), 0, L.k_pval), 0, L.png_inx)
                    b = fld(fld(s.inner(src), 0, L.k_pval), 0, L.png_inx)
                    if st.facts.eq(a, b) is not True:
                        st.facts.assume_eq(a, b)

    def apart(self, st, a, b):
        """Stored generations never exceed the arena's."""
        a, b = st.facts.norm(a), st.facts.norm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == "inc":
                while isinstance(x, Term) and x.op == "inc":
                    x = x.args[0]
                for m in self.members(st, y):
                    o = self.origin(m) if isinstance(m, Term) else None
                    if o and o[0] == "elem" and o[2] == [(self.L.alloc, self.L.e_gen)]:
                        s = self.bases[o[1].args[0]]
                        if st.facts.norm(fld(s.val0, 0, self.L.a_gen)) is x:
                            return True
        return False

    def isnew(self, st, i):
        n = st.facts.norm(i)
        return isinstance(n, Term) and n.op == "slot"


def tree_fields(L):
    return {i for n, i in L.n_f.items() if n.startswith("p_")}
