"""Analysis of one function: arguments, arenas inside them, outcomes, segments."""
import sys
from terms import *
from facts import Contradiction
from interp import *
from models import Models, target
from layout import *
from contracts import Contracts


def cases(ip, st, f, limit=4000):
    """Evaluate `f` on `st`, refining the state whenever it needs a fact."""
    work = [st.copy()]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Limit("case budget")
        try:
            r = f(s)
        except Split as sp:
            ip.fork(s, sp, work.append)
            continue
        except Contradiction:
            continue
        out.append((s, r))
    return out


def tree_helper(L, prog, f):
    """A private unit-returning method of OrdArena that takes `&mut self` and
    an index: rebalancing."""
    if f["pub"] or f.get("trait") or f["key"] is None or "::ord::" not in f["path"] or len(f["inputs"]) != 2:
        return False
    t = prog.types[f["inputs"][0]]
    if t["k"] != "ref" or not t["mut"] or L.strip(f["inputs"][0]).get("path") != L.ord:
        return False
    o = prog.types[f["output"]]
    return o["k"] == "tuple" and not o["args"] and prog.types[f["inputs"][1]]["s"].endswith("::Inx")


def loops(b):
    if "loops" not in b:
        b["loops"] = bool(BodyInfo(b).loops)
    return b["loops"]


class Subject:
    def __init__(self, prog, L, f, contracts=(), max_states=60000):
        self.prog, self.L, self.f = prog, L, f
        self.path = f["path"]
        self.name = f["name"]
        self.body = prog.bodies[f["key"]]
        C = Contracts(L)
        self.contracts = C
        self.ip = Interp(prog, Models(prog, C.table(contracts)), max_states=max_states)
        self.st0 = State()
        names = dict(self.body["names"])
        self.args = [T("arg", i, names.get(i, "a%d" % i)) for i in range(1, self.body["argc"] + 1)]
        self.tys = f["inputs"]
        self.subs = []
        by = {}
        for i, (a, ty) in enumerate(zip(self.args, self.tys), 1):
            t = prog.types[ty]
            for path, aty in L.subs(ty):
                s = Sub(L, self.ip, self.st0, i, a, path, aty, t["k"] != "ref")
                self.subs.append(s)
                by.setdefault(i, []).append(s)
        for i, ss in by.items():
            for s in ss:
                for o in ss:
                    s.sib[o.role] = o
        self.by = by
        self.ip.wf = WF(L, self.subs)
        self.out = None

    def tree_mode(self):
        """Do not track the search tree of an OrdArena (child, parent and rank
        fields, root): reads give unknown values, writes are dropped. The chain,
        keys, values and slots are tracked as ever."""
        L = self.L
        z = next((s for s in self.subs if s.role == "nodes"), None)
        if z is None:
            return
        tree = tree_fields(L) | {L.n_f["rank"]}
        t = z.link[1]
        pre = z.proj + (("f", 0, L.a_m),)
        n = len(pre)
        # the OrdArena around the chain arena around the arena
        oproj = z.proj[:-2]
        root = ("f", 0, L.o_f["root"])

        def forget(obj, proj):
            if obj is not z.obj and obj != z.obj:
                return False
            k = len(oproj)
            if len(proj) > k and proj[k] == root and proj[:k] == oproj:
                return True
            return (len(proj) > n + 3 and proj[:n] == pre and proj[n][0] == "ix" and proj[n + 1] == ("f", L.alloc, L.e_t)
                    and proj[n + 2] == ("f", 0, t) and proj[n + 3][2] in tree)
        self.ip.forget = forget
        # only bodies that loop over the tree through `&mut`
        big = {b["path"] for b in self.prog.bodies.values() if "::ord::" in b["path"] and len(b["blocks"]) > 80}
        big |= {f["path"] for f in self.prog.fns if tree_helper(L, self.prog, f) and loops(self.prog.bodies[f["key"]])}
        self.ip.merge = lambda b: b["path"] in big
        pay = (("f", L.alloc, L.e_t),)

        names = {p.split("::")[-1] for p in big}

        def outside(i):
            """Not an index the tree led to (it may not be live)."""
            return i.op == "arg" or i.op == "w" and i.args[0][0] not in names

        def lazy(suffix):
            def model(ip, st, fn, args, tys, d, line):
                obj, proj = target(st, args[0])
                if not (obj is z.obj or obj == z.obj) or proj != z.proj[:-1] or outside(st.facts.norm(args[1])):
                    return None
                return [(st, ref(obj, pre + (("ix", args[1]),) + pay + suffix))]
            return model
        c = next(p for p, n_ in L.kinds.items() if n_ == "ChainNoGenArena") + "::<P, T>::"
        tab = self.ip.models.contracts
        tab[c + "get_inx_unwrap"] = lazy(())
        tab[c + "get_inx_mut_unwrap_t"] = lazy((("f", 0, t),))
        pair = lazy((("f", 0, t),))
        lt = next(p for p, v in L.links.items() if not v[2])

        def link_model(ip, st, fn, args, tys, d, line):
            r = pair(ip, st, fn, args, tys, d, line)
            if r is None:
                return None
            fs = sorted(((z.link[0], st.new("tree")), (t, r[0][1])))
            return [(st, agg(lt, 0, None, tuple(fs)))]
        tab[c + "get_inx_mut_unwrap"] = link_model
        # private helpers that only rearrange the tree (decided by rule_treeonly)
        for f in self.prog.fns:
            if tree_helper(L, self.prog, f) and f["path"] != self.path and loops(self.prog.bodies[f["key"]]):
                tab[f["path"]] = lambda ip, st, fn, args, tys, d, line: [(st, UNIT)]

    def run(self):
        self.out = self.ip.call_body(self.f["key"], list(self.args), self.st0, 0)
        return self.out

    # --- arguments
    def self_kind(self):
        """Name of the arena type `self` is (through references), or None."""
        if not self.tys:
            return None
        t = self.L.strip(self.tys[0])
        return self.L.kinds.get(t.get("path")) if t["k"] == "adt" else None

    def out_ty(self):
        return self.prog.types[self.f["output"]]

    def ty_is_ptr(self, ty):
        t = self.prog.types[ty]
        return t["k"] == "param" and any(b.endswith("::Ptr") for b in t["bounds"])

    def ptr_args(self):
        """[(arg index, value accessor)] for pointers passed by value."""
        out = []
        for i, (a, ty) in enumerate(zip(self.args, self.tys), 1):
            if self.ty_is_ptr(ty):
                out.append((i, a, "p"))
                continue
            t = self.prog.types[ty]
            if t["k"] == "param" and any(b.endswith("::Borrow") for b in t["bounds"]):
                out.append((i, T("borrowed", a), "p"))
            if t["k"] == "tuple":
                for j, u in enumerate(t["args"]):
                    ut = self.prog.types[u]
                    if ut["k"] == "adt" and last(ut["path"]) == "Option" and self.ty_is_ptr(ut["args"][0]):
                        out.append((i, fld(a, 0, j), "opt"))
        return out

    def user_args(self):
        """By-value arguments of plain type-parameter type (not pointers)."""
        out = []
        for i, (a, ty) in enumerate(zip(self.args, self.tys), 1):
            t = self.prog.types[ty]
            if t["k"] == "param" and not self.ty_is_ptr(ty):
                bs = t["bounds"]
                if any(b.split("::")[-1] in ("Fn", "FnMut", "FnOnce") for b in bs):
                    out.append((i, a, ty, "fn"))
                elif any(b.endswith("::Borrow") for b in bs):
                    continue
                else:
                    out.append((i, a, ty, "val"))
        return out

    # --- results
    def variant(self, st, v, n=2):
        """Variant of an enum value (0/1), refining when unknown."""
        x = st.facts.norm(v) if isinstance(v, Term) else v
        if isinstance(x, Agg):
            return x.variant
        d = T("discr", v, (0, 1))
        return 1 if self.ip.decide_eq(st, d, I(1)) else 0

    def success(self, st, ret):
        """True / False for success / refusal by result type; None if the type
        does not say."""
        t = self.out_ty()
        if t["k"] == "adt" and t["enum"]:
            n = last(t["path"])
            if n == "Option":
                return self.variant(st, ret) == 1
            if n == "Result":
                return self.variant(st, ret) == 0
        if t["k"] == "bool":
            return self.ip.truth(st, ret) == 1
        return None

    # --- segments
    def segments(self, st, start=(), skip=0):
        """[(heap before, heap after)] separated by loops and summarised calls."""
        segs = []
        cur = dict(start)
        for e in st.events[skip:]:
            if e[0] == "enter":
                if cur is not None:
                    segs.append((cur, dict(e[2])))
                cur = None
            elif e[0] == "head":
                cur = dict(e[2])
            elif e[0] == "boundary":
                if cur is not None:
                    segs.append((cur, dict(e[1])))
                cur = dict(e[2])
        if cur is not None:
            segs.append((cur, {k: v for k, v in st.heap.items() if isinstance(k, Term)}))
        return segs


class HeapView:
    """A state with another heap under the same facts."""

    @staticmethod
    def of(st, heap):
        s = State()
        s.heap = heap
        s.facts = st.facts
        s.events = st.events
        s.fresh = st.fresh
        s.tags = st.tags
        return s
