"""Path-sensitive abstract interpretation of exported MIR.

A state maps objects (locals, opaque referents) to abstract values and carries
path facts over value numbers. Branches whose condition the facts decide are
followed one way, others both ways. Loops are analysed to a fixpoint: states
that reach a loop head with the same shape are joined, differing locations are
replaced by fresh values, counters that move in step keep their affine relation.
Callees with a body are analysed in the caller's context.
"""
from terms import *
from facts import Facts, Contradiction


class Split(Exception):
    def __init__(self, kind, a, b):
        self.kind, self.a, self.b = kind, a, b


class Limit(Exception):
    pass


class Panic(Exception):
    pass


class State:
    __slots__ = ("heap", "facts", "events", "fresh", "tags")

    def __init__(self):
        self.heap = {}
        self.facts = Facts()
        self.events = ()
        self.fresh = 0
        self.tags = ()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.events = self.events
        s.fresh = self.fresh
        s.tags = self.tags
        return s

    def new(self, name, *args):
        self.fresh += 1
        return T(name, self.fresh, *args)

    def event(self, *e):
        self.events = self.events + (e,)


class Program:
    def __init__(self, data):
        self.types = data["types"]
        self.bodies = data["bodies"]
        self.fns = data["fns"]
        self.surface = data["surface"]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f["path"], f)
        self._info = {}
        self._vecty = {}

    def ty(self, i):
        return self.types[i]

    def is_vec(self, i):
        t = self.types[i]
        return t["k"] == "adt" and t["path"].endswith("::NonZeroInxVec")

    def is_nonzero(self, i):
        t = self.types[i]
        return t["k"] == "adt" and t["path"].startswith("core::num::nonzero::NonZero") and t["path"].endswith("NonZero")

    def info(self, key):
        inf = self._info.get(key)
        if inf is None:
            inf = BodyInfo(self.bodies[key])
            self._info[key] = inf
        return inf


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class BodyInfo:
    """Loop heads, natural loops and liveness of one body."""

    def __init__(self, b):
        blocks = b["blocks"]
        n = len(blocks)
        self.succ = [succs(x["t"]) for x in blocks]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(i)
        # dominators-free back edge detection by DFS
        color = [0] * n
        back = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(self.succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        self.loops = {}
        for u, h in back:
            body = self.loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred[x])
        self.live_in = None
        self._rpo = None
        self.b = b
        self.addr = None

    def rpo(self):
        if self._rpo is None:
            n = len(self.succ)
            seen = [False] * n
            order = []
            stack = [(0, iter(self.succ[0]))]
            seen[0] = True
            while stack:
                u, it = stack[-1]
                for v in it:
                    if not seen[v]:
                        seen[v] = True
                        stack.append((v, iter(self.succ[v])))
                        break
                else:
                    order.append(u)
                    stack.pop()
            order.reverse()
            self._rpo = [n] * n
            for i, u in enumerate(order):
                self._rpo[u] = i
        return self._rpo

    def liveness(self):
        if self.live_in is not None:
            return self.live_in
        blocks = self.b["blocks"]
        n = len(blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        addr = set()

        def uses_place(p, s, d):
            if p[0] not in d:
                s.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    s.add(e[1])

        def uses_op(o, s, d):
            if "p" in o:
                uses_place(o["p"], s, d)

        for i, bb in enumerate(blocks):
            s, d = use[i], de[i]
            for st in bb["s"]:
                if st[0] == "=":
                    rv = st[2]
                    k = rv[0]
                    if k in ("use", "repeat"):
                        uses_op(rv[1], s, d)
                    elif k in ("ref", "raw"):
                        uses_place(rv[2], s, d)
                        if "*" not in rv[2][1:]:
                            addr.add(rv[2][0])
                    elif k == "cast" or k == "un":
                        uses_op(rv[2], s, d)
                    elif k == "bin":
                        uses_op(rv[2], s, d)
                        uses_op(rv[3], s, d)
                    elif k == "discr":
                        uses_place(rv[1], s, d)
                    elif k == "agg":
                        for o in rv[2]:
                            uses_op(o, s, d)
                    if len(st[1]) == 1:
                        d.add(st[1][0])
                    else:
                        uses_place(st[1], s, d)
                elif st[0] == "setd":
                    uses_place(st[1], s, d)
                elif st[0] == "assume":
                    uses_op(st[1], s, d)
                elif st[0] == "cno":
                    for o in st[1:]:
                        uses_op(o, s, d)
            t = bb["t"]
            if t[0] == "switch":
                uses_op(t[1], s, d)
            elif t[0] == "drop":
                uses_place(t[1], s, d)
            elif t[0] == "assert":
                uses_op(t[1], s, d)
            elif t[0] == "call":
                uses_op(t[1], s, d)
                for o in t[2]:
                    uses_op(o, s, d)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    uses_place(t[3], s, d)
            elif t[0] == "return":
                s.add(0)
        live = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for x in self.succ[i]:
                    o |= live[x]
                nl = use[i] | (o - de[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self.live_in = live
        self.addr = addr
        return live


class Outcome:
    __slots__ = ("st", "ret", "trace")

    def __init__(self, st, ret):
        self.st, self.ret = st, ret


class Iteration:
    """One arbitrary pass of a loop: head state and back-edge state, and the
    state in which the loop was entered."""
    __slots__ = ("fn", "head", "back", "entry", "loop")

    def __init__(self, fn, head, back, entry, loop):
        self.fn, self.head, self.back, self.entry, self.loop = fn, head, back, entry, loop


class Loop:
    """A loop as analysed on entry from one state: states at its head (one per
    shape), the fresh-name mark of the entry and its pass counts."""
    __slots__ = ("fn", "tag", "entry", "heads", "floor", "counts", "passes")

    def __init__(self, fn, tag, entry, heads, floor, counts):
        self.fn, self.tag, self.entry, self.heads, self.floor, self.counts = fn, tag, entry, heads, floor, counts
        self.passes = []


class Interp:
    def __init__(self, prog, models, max_states=60000, max_depth=40):
        self.prog = prog
        self.models = models
        self.max_states = max_states
        self.max_depth = max_depth
        self.steps = 0
        self.panics = []
        self.iterations = []
        self.loops = []
        self.loop_no = 0
        self.loop_by_no = {}
        self.keep_locals = False
        self.unmodelled = {}
        self.raw_derefs = []
        self.inlined = set()
        self.stack = []
        self.calls_seen = []
        self.on_call = None
        self.wf = None
        # places whose contents the analysis does not track (see Subject.tree_mode)
        self.promos = {}
        self.forget = None
        self.merge = None
        # treat the slot vector as the plain struct it is (rules_mem)
        self.rawmem = False

    # ---------------------------------------------------------------- values
    def read_loc(self, st, obj, proj):
        if self.forget is not None and len(proj) and self.forget(obj, proj):
            return st.new("tree")
        v = st.heap.get(obj)
        if v is None and isinstance(obj, Term) and obj.op == "promoted":
            v = self.promos[obj]
        if v is None:
            v = T("deref", obj) if isinstance(obj, Term) else T("undef")
        for p in proj:
            v = self.project(st, v, p)
        return v

    def as_vec(self, v):
        if isinstance(v, Vec):
            return v
        return vec(v, (), T("len", v))

    def vec_get(self, st, v, i):
        v = self.as_vec(v)
        for j, x in v.over:
            r = self.same_ix(st, v.base, i, j)
            if r is True:
                return x
            if r is None:
                raise Split("eq", i, j)
        return self.base_elem(st, v.base, i)

    def same_ix(self, st, base, i, j):
        """Do two indices of one vector coincide?"""
        r = st.facts.eq(i, j)
        if r is None and self.wf is not None:
            a = self.wf.status(st, base, i)
            if a is not None:
                b = self.wf.status(st, base, j)
                if b is not None and a != b:
                    st.facts.assume_ne(i, j)
                    return False
        return r

    def base_elem(self, st, base, i):
        if self.wf is not None:
            self.wf.seen(st, base, i)
        return T("elem", base, i)

    def project(self, st, v, p):
        if p[0] == "f":
            v2 = fld(v, p[1], p[2])
            if isinstance(v, Term) and not isinstance(v2, Agg):
                n = st.facts.norm(v)
                if isinstance(n, Agg):
                    return fld(n, p[1], p[2])
            return v2
        if p[0] == "ix":
            if isinstance(v, Term):
                n = st.facts.norm(v)
                if isinstance(n, Vec):
                    v = n
            return self.vec_get(st, v, p[1])
        if p[0] == "vf":
            return T("vf_" + p[1], self.as_vec(v))
        raise AssertionError(p)

    def update(self, st, v, proj, val, ty=None):
        if not proj:
            return val
        p = proj[0]
        if p[0] == "f":
            old = fld(v, p[1], p[2])
            new = self.update(st, old, proj[1:], val)
            if isinstance(v, Agg) and v.variant == p[1]:
                fs = dict(v.fields)
                fs[p[2]] = new
                return agg(v.ty, v.variant, v.base, sorted(fs.items()))
            return agg(None, p[1], v if isinstance(v, Term) else None, ((p[2], new),))
        if p[0] == "ix":
            vv = self.as_vec(v)
            if len(proj) > 1:
                old = self.vec_get(st, vv, p[1])
                new = self.update(st, old, proj[1:], val)
            else:
                new = val
            over = []
            for j, x in vv.over:
                r = self.same_ix(st, vv.base, p[1], j)
                if r is True:
                    continue
                over.append((j, x))
            return vec(vv.base, ((p[1], new),) + tuple(over), vv.len)
        if p[0] == "vf":
            vv = self.as_vec(v)
            if p[1] == "len":
                return vec(vv.base, vv.over, val)
            return vv
        raise AssertionError(p)

    def write_loc(self, st, obj, proj, val):
        if self.forget is not None and proj and self.forget(obj, proj):
            return
        if not proj:
            st.heap[obj] = val
            return
        cur = st.heap.get(obj)
        if cur is None:
            cur = T("deref", obj) if isinstance(obj, Term) else T("undef")
        st.heap[obj] = self.update(st, cur, proj, val)

    def is_vec(self, ty):
        return not self.rawmem and self.prog.is_vec(ty)

    def resolve(self, st, d, body, place):
        """Static place -> (object, projection, type id)."""
        obj = ("L", d, place[0])
        proj = ()
        ty = body["locals"][place[0]]
        variant = 0
        types = self.prog.types
        for e in place[1:]:
            if e == "*":
                v = self.read_loc(st, obj, proj)
                if isinstance(v, Term):
                    v = st.facts.norm(v)
                if self.rawmem and types[ty]["k"] == "ptr":
                    st.event("touch", v, types[ty]["mut"])
                    obj, proj = T("mem", v), ()
                elif isinstance(v, Ref):
                    obj, proj = v.obj, v.proj
                elif isinstance(v, Raw):
                    obj, proj = v.obj, v.proj + (("ix", v.off),)
                    self.note_raw(st, v, body)
                elif isinstance(v, Term):
                    obj, proj = v, ()
                else:
                    # a by-value box or similar: look through
                    obj, proj = T("objof", v), ()
                ty = types[ty].get("to", ty)
                variant = 0
            elif e[0] == "f":
                if self.is_vec(ty):
                    name = types[ty]["variants"][0]["fields"][e[1]]["name"]
                    proj = proj + (("vf", vec_field(name)),)
                    if name.endswith("ptr"):
                        pass
                elif self.prog.is_nonzero(ty):
                    pass
                else:
                    proj = proj + (("f", variant, e[1]),)
                ty = e[2]
                variant = 0
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "i":
                iv = self.read_loc(st, ("L", d, e[1]), ())
                proj = proj + (("ix", iv),)
                ty = types[ty].get("to", ty)
            elif e[0] == "ci":
                proj = proj + (("ix", I(e[1])),)
                ty = types[ty].get("to", ty)
            else:
                raise Limit("place projection " + str(e))
        return obj, proj, ty

    def note_raw(self, st, r, body):
        v = self.as_vec(self.read_loc(st, r.obj, r.proj))
        lo = st.facts.decide_le(I(1), r.off)
        hi = st.facts.decide_le(r.off, v.len)
        self.raw_derefs.append((body["path"], lo is True and hi is True, r.off, v.len))

    def read(self, st, d, body, place):
        obj, proj, ty = self.resolve(st, d, body, place)
        if proj and proj[-1] == ("vf", "ptr"):
            return raw(obj, proj[:-1], I(0))
        v = self.read_loc(st, obj, proj)
        if isinstance(v, Term) and v.op == "vf_len":
            return v.args[0].len
        if isinstance(v, Term) and v.op == "vf_cap":
            return T("cap", v.args[0].base)
        return v

    def operand(self, st, d, body, o):
        if "p" in o:
            return self.read(st, d, body, o["p"])
        if "c" in o:
            return self.const(o["c"])
        if "rt" in o:
            return FALSE
        raise Limit("operand")

    def const(self, c):
        if "int" in c:
            return I(int(c["int"]))
        if "fn" in c:
            return T("fn", c["fn"]["full"], _FnBox.get(c["fn"]))
        if "promoted" in c:
            r = self.promoted(c["promoted"])
            if r is not None:
                return r
        t = self.prog.types[c["ty"]]
        if t["k"] == "tuple" and not t["args"]:
            return UNIT
        if self.prog.is_nonzero(c["ty"]):
            import re
            m = re.search(r"0x0*([0-9a-f]+)", c.get("dbg", ""))
            if c.get("item", "").endswith("NZONE"):
                return I(1)
            if m:
                return I(int(m.group(1), 16))
        if t["k"] == "adt" and len(t["variants"]) == 1 and not t["variants"][0]["fields"]:
            return agg(c["ty"], 0, None, ())
        if "val" in c:
            return self.const_val(c["val"])
        if t["k"] == "adt" and t["path"] == "core::option::Option":
            # generic payload: `None` of a type with a pointer niche or no values
            d = c.get("dbg", "")
            if d.startswith("Val(ZeroSized") or d.startswith("Val(Scalar(0x0000000000000000)"):
                return agg(t["path"], 0, None, ())
        if t["k"] == "closure":
            return agg(c["ty"], 0, None, ())
        return T("const", c.get("item") or c.get("dbg", "?"))

    def promoted(self, key):
        """A reference to a constant the compiler moved out of the body."""
        o = T("promoted", key)
        if o not in self.promos:
            self.promos[o] = None
            body = self.prog.bodies.get(key)
            if body is not None and len(body["blocks"]) == 1 and body["blocks"][0]["t"][0] == "return":
                st = State()
                for s in body["blocks"][0]["s"]:
                    self.statement(st, 0, body, s)
                r = self.read(st, 0, body, [0])
                if isinstance(r, Ref) and isinstance(r.obj, tuple):
                    self.promos[o] = self.read_loc(st, r.obj, r.proj)
        return None if self.promos[o] is None else ref(o, ())

    def const_val(self, v):
        if "int" in v:
            return I(int(v["int"]))
        if self.prog.is_nonzero(v["ty"]):
            return self.const_val(v["fields"][0])
        t = self.prog.types[v["ty"]]
        if t["k"] == "tuple":
            if not v["fields"]:
                return UNIT
            return agg("tuple", 0, None, tuple(enumerate(map(self.const_val, v["fields"]))))
        return agg(t["path"], v["variant"], None, tuple(enumerate(map(self.const_val, v["fields"]))))

    # --------------------------------------------------------------- rvalues
    def place_ty(self, body, place):
        ty = body["locals"][place[0]]
        for e in place[1:]:
            if e == "*":
                ty = self.prog.types[ty].get("to", ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.prog.types[ty].get("to", ty)
        return ty

    def discr_values(self, ty):
        t = self.prog.types[ty]
        if t["k"] != "adt":
            return None
        return tuple(v["discr"] for v in t["variants"])

    def discriminant(self, st, v, ty):
        vals = self.discr_values(ty)
        n = st.facts.norm(v) if isinstance(v, Term) else v
        if isinstance(n, Agg):
            return I(vals[n.variant]) if vals else I(n.variant)
        return T("discr", v, vals)

    def operand_ty(self, body, o):
        if "p" in o:
            return self.place_ty(body, o["p"])
        return o["c"]["ty"]

    def rvalue(self, st, d, body, r):
        k = r[0]
        if k == "use":
            return self.operand(st, d, body, r[1])
        if k in ("ref", "raw"):
            obj, proj, ty = self.resolve(st, d, body, r[2])
            if not proj and isinstance(obj, Term) and not (obj.op == "objof"):
                return obj
            return ref(obj, proj)
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, d, body, o) for o in r[2]]
            if kind["k"] == "adt":
                ty = kind["ty"]
                if self.is_vec(ty):
                    fs = self.prog.types[ty]["variants"][0]["fields"]
                    ln = I(0)
                    for f, o in zip(fs, ops):
                        if vec_field(f["name"]) == "len":
                            ln = o
                    return vec(T("emptyvec"), (), ln)
                if self.prog.is_nonzero(ty):
                    return ops[0]
                if kind["active"] is not None:
                    return agg(ty, 0, None, ((kind["active"], ops[0]),))
                return agg(self.adt_tag(ty), kind["variant"], None, tuple(enumerate(ops)))
            if kind["k"] == "tuple":
                if not ops:
                    return UNIT
                return agg("tuple", 0, None, tuple(enumerate(ops)))
            if kind["k"] == "closure":
                return agg(("closure", kind["ty"]), 0, None, tuple(enumerate(ops)))
            if kind["k"] == "array":
                return T("array", *ops)
            return T("rawagg", *ops)
        if k == "discr":
            v = self.read(st, d, body, r[1])
            return self.discriminant(st, v, self.place_ty(body, r[1]))
        if k == "bin":
            a = self.operand(st, d, body, r[2])
            b = self.operand(st, d, body, r[3])
            return self.binop(st, r[1], a, b, self.prog.types[self.operand_ty(body, r[2])])
        if k == "un":
            a = self.operand(st, d, body, r[2])
            if r[1] == "Not":
                t = self.prog.types[self.operand_ty(body, r[2])]
                if t["k"] == "bool":
                    return I(1 - self.truth(st, a))
                return T("not", a)
            if r[1] == "Neg":
                return lin_sub(I(0), a)
            return T("un" + r[1], a)
        if k == "cast":
            return self.operand(st, d, body, r[2])
        if k == "repeat":
            return T("repeat", self.operand(st, d, body, r[1]))
        return T("rv", str(r[1])[:80])

    def adt_tag(self, ty):
        return self.prog.types[ty]["path"]

    def truth(self, st, v):
        n = st.facts.norm(v)
        if is_int(n):
            return n.args[0]
        r = st.facts.eq(n, TRUE)
        if r is None:
            r = st.facts.eq(n, FALSE)
            if r is None:
                raise Split("eq", n, TRUE)
            r = not r
        return 1 if r else 0

    def decide_eq(self, st, a, b):
        r = st.facts.eq(a, b)
        if r is None and self.wf is not None and self.wf.apart(st, a, b):
            st.facts.assume_ne(a, b)
            return False
        if r is None:
            raise Split("eq", a, b)
        return r

    def decide_le(self, st, a, b):
        r = st.facts.decide_le(a, b)
        if r is None and self.wf is not None:
            for base in self.wf.bases:
                ln = T("len", base)
                for x, y in ((a, b), (b, a)):
                    # an index of a known entry is within bounds
                    if occurs(ln, st.facts.norm(y)) and self.wf.status(st, base, x) is not None \
                            and not self.wf.isnew(st, x) and st.facts.decide_le(x, ln) is not True:
                        st.facts.assume_le(x, ln)
                        r = st.facts.decide_le(a, b)
        if r is None:
            raise Split("le", a, b)
        return r

    def binop(self, st, op, a, b, t):
        isint = t["k"] in ("int", "char", "bool")
        if op in ("Add", "AddUnchecked"):
            return lin_add(st.facts.norm(a), st.facts.norm(b))
        if op in ("Sub", "SubUnchecked"):
            return lin_sub(st.facts.norm(a), st.facts.norm(b))
        if op in ("Eq", "Ne"):
            if not isint:
                r = a is b or T("bool", "ptreq", a, b)
                if r is True:
                    return TRUE if op == "Eq" else FALSE
                return r
            r = self.decide_eq(st, a, b)
            return TRUE if r == (op == "Eq") else FALSE
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op == "Lt":
                r = self.decide_le(st, lin_add(st.facts.norm(a), I(1)), b)
            elif op == "Le":
                r = self.decide_le(st, a, b)
            elif op == "Gt":
                r = self.decide_le(st, lin_add(st.facts.norm(b), I(1)), a)
            else:
                r = self.decide_le(st, b, a)
            return TRUE if r else FALSE
        if op in ("BitAnd", "BitOr", "BitXor") and t["k"] == "bool":
            x, y = self.truth(st, a), self.truth(st, b)
            return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if op == "Mul" and is_int(st.facts.norm(a)) and is_int(st.facts.norm(b)):
            return I(st.facts.norm(a).args[0] * st.facts.norm(b).args[0])
        if op == "Offset":
            if isinstance(a, Raw):
                return raw(a.obj, a.proj, lin_add(a.off, b))
        if op == "Cmp":
            x = self.decide_le(st, a, b)
            y = self.decide_le(st, b, a)
            return agg("core::cmp::Ordering", 1 if x and y else (0 if x else 2), None, ())
        return T("op" + op, a, b)

    # ------------------------------------------------------------- execution
    def call_body(self, key, args, st, depth):
        """All normal outcomes [(state, return value)] of a body."""
        if depth > self.max_depth:
            raise Limit("call depth")
        body = self.prog.bodies[key]
        self.inlined.add(body["path"])
        inf = self.prog.info(key)
        for i, a in enumerate(args):
            st.heap[("L", depth, i + 1)] = a
        self.stack.append(key)
        try:
            out = []
            self.run(key, body, inf, depth, [(0, 0, st)], None, None, out)
        finally:
            self.stack.pop()
        res = []
        for s in out:
            ret = s.heap.get(("L", depth, 0), UNIT)
            for k in [k for k in s.heap if isinstance(k, tuple) and k[1] == depth]:
                del s.heap[k]
            res.append((s, ret))
        if self.merge is not None and len(res) > 1 and self.merge(body):
            res = merge_outcomes(res)
        return res

    def run(self, key, body, inf, d, work, region, head, out, exits=None, backs=None):
        """Process states; `region` restricts to a loop body with head `head`:
        states leaving it go to `exits`, states returning to it to `backs`."""
        blocks = body["blocks"]
        merging = self.merge is not None and self.merge(body)
        while work:
            if merging:
                bi, si, st = self.next_merged(body, inf, d, work)
            else:
                bi, si, st = work.pop()
            self.steps += 1
            if self.steps > self.max_states:
                raise Limit("state budget")
            try:
                self.block(key, body, inf, d, bi, si, st, work, region, head, out, exits, backs)
            except Split as sp:
                # handled inside block(); reaching here is a bug
                raise
            except (Contradiction, Panic):
                continue

    def next_merged(self, body, inf, d, work):
        """Next state in topological order; states that arrive at one block
        and agree on everything outside the frame become one."""
        rpo = inf.rpo()
        k = min(range(len(work)), key=lambda i: (rpo[work[i][0]], -work[i][1]))
        bi, si, st = work[k]
        del work[k]
        if si != 0:
            return bi, si, st
        same = [w for w in work if w[0] == bi and w[1] == 0]
        if not same:
            return bi, si, st
        work[:] = [w for w in work if not (w[0] == bi and w[1] == 0)]
        sts = [st] + [w[2] for w in same]
        for x in sts:
            self.prune(x, d, inf, bi)
        groups = {}
        for x in sts:
            key = (self.shape(x, d, body), frozenset((k, v) for k, v in x.heap.items() if isinstance(k, Term) or k[1] != d),
                   x.events)
            groups.setdefault(key, []).append(x)
        out = []
        for g in groups.values():
            out.append((bi, 0, g[0] if len(g) == 1 else self.merge_group(g)))
        work.extend(out[1:])
        # do not try these again against each other
        return out[0]

    def merge_group(self, g):
        n = State()
        common = set(g[0].facts.log)
        for o in g[1:]:
            common &= set(o.facts.log)
        n.facts = replay([f for f in g[0].facts.log if f in common])
        n.events = g[0].events
        n.tags = g[0].tags
        n.fresh = max(o.fresh for o in g) + 1
        heap = dict(g[0].heap)

        def tag():
            return n.new("tree")
        tag.mine = lambda t: False
        for o in g[1:]:
            for k in list(heap):
                if k not in o.heap:
                    del heap[k]
                    continue
                if heap[k] is not o.heap[k]:
                    heap[k] = self.join_val(heap[k], o.heap[k], (g[0], o), tag)
        n.heap = heap
        return n

    def arrive(self, key, body, inf, d, frm, to, st, work, region, head, out, exits, backs):
        if region is not None:
            if to == head:
                backs.append(st)
                return
            if to not in region:
                exits.append((to, st))
                return
        if to in inf.loops and to != head:
            self.loop(key, body, inf, d, to, st, work, region, head, out, exits, backs)
            return
        work.append((to, 0, st))

    def fork(self, st, sp, cont):
        alts = []
        for truth in (True, False):
            s2 = st.copy()
            try:
                if sp.kind == "eq":
                    if truth:
                        s2.facts.assume_eq(sp.a, sp.b)
                    else:
                        s2.facts.assume_ne(sp.a, sp.b)
                else:
                    s2.facts.assume_le(sp.a, sp.b, truth)
            except Contradiction:
                continue
            alts.append(s2)
        for s2 in alts:
            cont(s2)

    def block(self, key, body, inf, d, bi, si, st, work, region, head, out, exits, backs):
        bb = body["blocks"][bi]
        stm = bb["s"]
        n = len(stm)
        while si < n:
            s = stm[si]
            try:
                self.statement(st, d, body, s)
            except Split as sp:
                i = si
                self.fork(st, sp, lambda s2: work.append((bi, i, s2)))
                return
            si += 1
        t = bb["t"]
        k = t[0]

        def go(to, s):
            self.arrive(key, body, inf, d, bi, to, s, work, region, head, out, exits, backs)

        try:
            if k == "goto":
                go(t[1], st)
            elif k == "return":
                out.append(st)
            elif k in ("unreachable", "resume"):
                return
            elif k == "drop":
                self.drop(st, d, body, t)
                go(t[2], st)
            elif k == "assert":
                v = self.operand(st, d, body, t[1])
                if self.truth(st, v) != (1 if t[2] else 0):
                    self.panics.append((body["path"], "assert", st))
                    return
                go(t[3], st)
            elif k == "switch":
                self.switch(st, d, body, t, go)
            elif k == "call":
                self.call(st, d, body, t, go)
            else:
                raise Limit("terminator " + k)
        except Split as sp:
            self.fork(st, sp, lambda s2: work.append((bi, n, s2)))

    def drop(self, st, d, body, t):
        pass

    def statement(self, st, d, body, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, d, body, s[2])
            self.assign(st, d, body, s[1], v)
            if s[2][0] == "use":
                o = s[2][1]
                if o.get("mv") and len(o["p"]) == 1 and o["p"] != s[1]:
                    st.heap.pop(("L", d, o["p"][0]), None)
        elif k == "sd":
            st.heap.pop(("L", d, s[1]), None)
        elif k == "setd":
            obj, proj, ty = self.resolve(st, d, body, s[1])
            self.write_loc(st, obj, proj, agg(None, s[2], None, ()))
        elif k == "assume":
            pass
        elif k == "cno":
            raise Limit("copy_nonoverlapping")

    def assign(self, st, d, body, place, v):
        obj, proj, ty = self.resolve(st, d, body, place)
        self.write_loc(st, obj, proj, v)

    def switch(self, st, d, body, t, go):
        v = self.operand(st, d, body, t[1])
        n = st.facts.norm(v)
        if is_int(n):
            for val, b in t[2]:
                if int(val) == n.args[0]:
                    go(b, st)
                    return
            go(t[3], st)
            return
        rest = st
        targets = t[2]
        for val, b in targets:
            c = I(int(val))
            r = rest.facts.eq(n, c)
            if r is True:
                go(b, rest)
                return
            if r is False:
                continue
            s2 = rest.copy()
            try:
                s2.facts.assume_eq(n, c)
                ok = True
            except Contradiction:
                ok = False
            if ok:
                go(b, s2)
            try:
                rest.facts.assume_ne(n, c)
            except Contradiction:
                return
        # all listed values excluded
        tt = body["blocks"][t[3]]
        if tt["t"][0] == "unreachable" and not tt["s"]:
            return
        go(t[3], rest)

    def call(self, st, d, body, t, go):
        f = t[1]
        if "c" in f and "fn" in f["c"]:
            fn = f["c"]["fn"]
        else:
            v = self.operand(st, d, body, f)
            fn = _FnBox.of(v)
            if fn is None:
                fn = {"path": "<indirect>", "full": "<indirect>", "name": "", "targs": [], "local": False}
        args = [self.operand(st, d, body, a) for a in t[2]]
        argtys = [self.operand_ty(body, a) for a in t[2]]
        line = t[5]
        s0 = st.copy()
        res = self.dispatch(s0, fn, args, argtys, d, line, body)
        for a in t[2]:
            if a.get("mv") and len(a["p"]) == 1:
                for s, _ in res:
                    s.heap.pop(("L", d, a["p"][0]), None)
        if t[4] is None:
            return
        pend = list(res)
        while pend:
            s, r = pend.pop(0)
            try:
                self.assign(s, d, body, t[3], r)
            except Split as sp:
                self.fork(s, sp, lambda s2: pend.append((s2, r)))
                continue
            go(t[4], s)

    def dispatch(self, st, fn, args, argtys, d, line, body):
        m = self.models.find(fn)
        if m is not None:
            r = m(self, st, fn, args, argtys, d, line)
            if r is not None:
                return r
        key = fn.get("key")
        if key is not None and key in self.prog.bodies:
            if self.stack.count(key) >= 2:
                raise Limit("recursion " + fn["path"])
            cb = self.prog.bodies[key]
            if len(args) != cb["argc"]:
                args = self.models.untuple(self, st, args, cb)
            if self.on_call:
                self.on_call(self, st, fn, args, line)
            return self.call_body(key, args, st, d + 1)
        return self.models.opaque(self, st, fn, args, argtys, d, line)

    # ----------------------------------------------------------------- loops
    def prune(self, st, d, inf, h):
        live = inf.liveness()[h]
        for k in list(st.heap):
            if isinstance(k, tuple) and k[1] == d and k[2] not in live and k[2] not in inf.addr:
                del st.heap[k]

    def skeleton(self, v, st):
        if isinstance(v, Agg):
            return ("A", v.variant, tuple((i, self.skeleton(x, st)) for i, x in v.fields))
        if isinstance(v, Ref):
            return ("R", v.obj, tuple(p if p[0] != "ix" else "ix" for p in v.proj))
        if isinstance(v, Vec):
            return "V"
        if isinstance(v, Term):
            n = st.facts.norm(v)
            if isinstance(n, Agg):
                return self.skeleton(n, st)
            return "t"
        return "r"

    def shape(self, st, d, body):
        out = []
        for k in sorted(st.heap, key=lambda k: (isinstance(k, Term), k.id if isinstance(k, Term) else (k[1], str(k[2:])))):
            v = st.heap[k]
            sk = self.skeleton(v, st)
            if isinstance(k, tuple) and k[1] == d:
                tk = self.prog.types[body["locals"][k[2]]]
                n = st.facts.norm(v) if isinstance(v, Term) else None
                if tk["k"] == "bool" and n is not None and is_int(n):
                    sk = ("b", n.args[0])
            if isinstance(k, Term) and sk in ("V", "t"):
                sk = "o"
            if isinstance(k, Term) and isinstance(v, Term) and v.op == "deref":
                continue
            out.append((k, sk))
        return tuple(out)

    def join_val(self, a, b, st, tag):
        """Least common description; fresh terms where the two differ.
        `tag.mine` tells this loop's own unknowns."""
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            r = st[0].facts.norm(a)
            if r is st[1].facts.norm(b):
                # the representative means the same on both sides
                return r
            if tag.mine(a):
                return a
            return tag()
        if isinstance(a, Agg) and isinstance(b, Agg) and a.variant == b.variant:
            ks = sorted({i for i, _ in a.fields} | {i for i, _ in b.fields})
            base = a.base if a.base is b.base else None
            if a.base is not b.base:
                base = tag() if (a.base is not None or b.base is not None) else None
                if isinstance(a.base, Term) and tag.mine(a.base):
                    base = a.base
            return agg(a.ty, a.variant, base,
                       tuple((i, self.join_val(fld(a, a.variant, i), fld(b, b.variant, i), st, tag)) for i in ks))
        if isinstance(a, Vec) or isinstance(b, Vec):
            a2, b2 = self.as_vec(a), self.as_vec(b)
            ln = self.join_val(a2.len, b2.len, st, tag)
            if a2.base is b2.base and a2.over == b2.over:
                return vec(a2.base, a2.over, ln)
            if isinstance(a2.base, Term) and tag.mine(a2.base) and not a2.over:
                return vec(a2.base, (), ln)
            return vec(tag(), (), ln)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.obj is b.obj or (
                isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj):
            if len(a.proj) == len(b.proj):
                pr = []
                for x, y in zip(a.proj, b.proj):
                    if x == y:
                        pr.append(x)
                    elif x[0] == "ix" and y[0] == "ix":
                        pr.append(("ix", self.join_val(x[1], y[1], st, tag)))
                    else:
                        return tag()
                return ref(a.obj, tuple(pr))
        if isinstance(a, Term) and tag.mine(a):
            return a
        return tag()

    def join(self, a, b, h, at, floor):
        """Join of two head states (of the loop's head shape number `at`);
        returns (state, changed)."""
        s = State()
        n = 0
        la, lb = a.facts.log, b.facts.log
        while n < len(la) and n < len(lb) and la[n] == lb[n]:
            n += 1
        s.facts = replay(la[:n])
        n2 = 0
        while n2 < len(a.events) and n2 < len(b.events) and a.events[n2] == b.events[n2]:
            n2 += 1
        s.events = a.events[:n2]
        if not s.events or s.events[-1][0] != "loop":
            s.events = s.events + (("loop", h),)
        s.fresh = max(a.fresh, b.fresh) + 1
        s.tags = a.tags
        ctr = [0]

        def tag():
            ctr[0] += 1
            return T("w", h, s.fresh, ctr[0] + 1000 * at)
        tag.mine = lambda t: t.op == "w" and t.args[0] == h and t.args[1] > floor
        changed = n < len(la)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                if isinstance(k, Term):
                    x = T("deref", k) if x is None else x
                    y = T("deref", k) if y is None else y
                else:
                    changed = changed or (y is None)
                    continue
            v = self.join_val(x, y, (a, b), tag)
            if v is not x:
                changed = True
            s.heap[k] = v
        return s, changed

    def loop(self, key, body, inf, d, h, entry, work, region, head, out, exits, backs):
        live = inf.liveness()
        reg = inf.loops[h]
        tagh = (body["name"], h)
        self.prune(entry, d, inf, h)
        entry.events = entry.events + (("enter", tagh, self.snapshot(entry)), ("loop", tagh))
        self.loop_no += 1
        no = self.loop_no
        heads = {self.shape(entry, d, body): entry}
        order = list(heads)
        floor = entry.fresh
        mark = (len(self.iterations), len(self.raw_derefs), len(self.panics), len(self.loops))
        for it in range(14):
            self.rewind(mark)
            my_exits, my_backs, my_out = [], [], []
            trans = []
            for sh in order:
                hs = heads[sh]
                b1, e1 = [], []
                self.run(key, body, inf, d, [(h, 0, self.at_head(hs, tagh, no))], reg, h, my_out, e1, b1)
                for s in b1:
                    self.prune(s, d, inf, h)
                    trans.append((sh, hs, s))
                my_exits.extend(e1)
            if it == 0 and self.expand(entry, [s for _, _, s in trans]):
                heads = {self.shape(entry, d, body): entry}
                order = list(heads)
                continue
            changed = False
            for sh, hs, s in trans:
                s2 = self.shape(s, d, body)
                if s2 not in heads:
                    if len(heads) > 24:
                        raise Limit("loop shapes")
                    heads[s2] = s
                    order.append(s2)
                    changed = True
                else:
                    j, ch = self.join(heads[s2], s, tagh, order.index(s2), floor)
                    if ch:
                        heads[s2] = j
                        changed = True
            if not changed:
                break
        else:
            raise Limit("loop did not converge")
        ref_heads, counts = self.induction(heads, order, trans, entry, body, d)
        again = first = bool(ref_heads)
        late = []
        while again:
            self.rewind(mark)
            my_exits, my_backs, my_out, trans = [], [], [], []
            for sh in order:
                hs = ref_heads[sh]
                b1, e1 = [], []
                self.run(key, body, inf, d, [(h, 0, self.at_head(hs, tagh, no))], reg, h, my_out, e1, b1)
                for s in b1:
                    self.prune(s, d, inf, h)
                trans.extend((sh, hs, s) for s in b1)
                my_exits.extend(e1)
            again = first and self.head_facts(ref_heads, order, trans, entry, body, d, counts, late)
            first = False
        if late:
            # tell the first arrival at the head from the later ones
            esh = self.shape(entry, d, body)
            rest = ref_heads[esh].copy()
            for f in late:
                rest.facts.assume(f)
            self.rewind(mark)
            my_exits, my_out = [], []
            for hs in [entry, rest] + [ref_heads[sh] for sh in order if sh != esh]:
                e1 = []
                self.run(key, body, inf, d, [(h, 0, self.at_head(hs, tagh, no))], reg, h, my_out, e1, [])
                my_exits.extend(e1)
        lp = Loop(body["path"], tagh, entry, [(ref_heads or heads)[sh] for sh in order], floor, counts or {})
        self.loops.append(lp)
        self.loop_by_no[no] = lp
        for sh, hs, s in trans:
            self.iterations.append(Iteration(body["path"], hs, s, entry, lp))
            lp.passes.append(self.iterations[-1])
        out.extend(my_out)
        for to, s in my_exits:
            self.prune(s, d, inf, to)
            self.arrive(key, body, inf, d, h, to, s, work, region, head, out, exits, backs)

    def expand(self, entry, backs):
        """Write opaque values of the entry state out as far as the loop
        updates parts of them, so that entry and later passes have one shape."""
        hit = False
        for s in backs:
            for k, v in s.heap.items():
                x = entry.heap.get(k)
                if x is None:
                    if not isinstance(k, Term):
                        continue
                    x = T("deref", k)
                y = expanded(x, v)
                if y is not x:
                    entry.heap[k] = y
                    hit = True
        return hit

    def at_head(self, hs, tagh, no):
        s = hs.copy()
        s.events = s.events + (("head", tagh, self.snapshot(hs), no),)
        return s

    def snapshot(self, st):
        """Contents of the objects that outlive the call frames (with
        `keep_locals`, of the outermost frame as well)."""
        return tuple((k, v) for k, v in st.heap.items()
                     if isinstance(k, Term) or self.keep_locals and k[0] == "L" and k[1] <= 1)

    def rewind(self, mark):
        del self.iterations[mark[0]:]
        del self.raw_derefs[mark[1]:]
        del self.panics[mark[2]:]
        del self.loops[mark[3]:]

    def int_locs(self, v, path, acc):
        if isinstance(v, Agg):
            for i, x in v.fields:
                self.int_locs(x, path + (i,), acc)
        elif isinstance(v, Vec):
            acc[path + ("len",)] = v.len
        elif isinstance(v, Term):
            acc[path] = v

    def locs(self, st):
        acc = {}
        for k, v in st.heap.items():
            self.int_locs(v, (k,), acc)
        return acc

    def induction(self, heads, order, trans, entry, body, d):
        """Affine relations: locations whose change per pass is a constant."""
        hl = {sh: self.locs(heads[sh]) for sh in order}
        el = self.locs(entry)
        cand = {}
        for p, v in el.items():
            if not all(p in hl[sh] for sh in order):
                continue
            if not any(isinstance(hl[sh][p], Term) and hl[sh][p].op == "w" for sh in order):
                continue
            deltas = []
            ok = True
            for sh, hs, s in trans:
                sl = self.locs(s)
                if p not in sl:
                    ok = False
                    break
                a = s.facts.norm(sl[p])
                b = s.facts.norm(hl[sh][p])
                if not (isinstance(a, Term) and isinstance(b, Term)):
                    ok = False
                    break
                df = lin_sub(a, b)
                if df.op != "int":
                    ok = False
                    break
                deltas.append(df.args[0])
            if ok and any(deltas) and all(x >= 0 for x in deltas):
                cand[p] = tuple(deltas)
        if not cand:
            return None, None
        groups = {}
        res = {}
        entry.fresh += 1
        fresh = max([heads[sh].fresh for sh in order] + [entry.fresh]) + 1
        subst = {}
        for p, dv in cand.items():
            g = next(x for x in dv if x)
            import math
            for x in dv:
                g = math.gcd(g, x)
            unit = tuple(x // g for x in dv)
            n = groups.get(unit)
            if n is None:
                n = T("n", fresh, len(groups))
                groups[unit] = n
            subst[p] = lin_add(el[p], mk_lin(0, {n: g}))
        for sh in order:
            hs = heads[sh].copy()
            hs.fresh = fresh + 1
            for n in groups.values():
                if heads[sh] is entry:
                    hs.facts.assume_eq(n, I(0))
                else:
                    hs.facts.assume_le(I(0), n)
            for p, v in subst.items():
                k = p[0]
                hs.heap[k] = self.put(hs.heap[k], p[1:], v)
            res[sh] = hs
        return res, {n: next((p, n) for p, v in subst.items() if n in lin_parts(v)[1]) for n in groups.values()}

    def head_facts(self, heads, order, trans, entry, body, d, counts, late):
        """Adds to the heads inequalities and equations about the pass counts
        that hold whenever the head is reached; True if there are any. Those
        that need not hold when the loop is entered go to `late`."""
        at = {}
        for sh, hs, s in trans:
            to = self.shape(s, d, body)
            m = {}
            sl, hl = self.locs(s), self.locs(hs)
            for n, (p, _) in counts.items():
                k = lin_parts(hl[p])[1].get(n) if isinstance(hl[p], Term) else None
                df = lin_sub(s.facts.norm(sl[p]), s.facts.norm(hl[p])) if k and p in sl else None
                if df is None or df.op != "int" or df.args[0] % k:
                    return False
                m[n] = df.args[0] // k
            at.setdefault(to, []).append((hs, s, m))
        esh = self.shape(entry, d, body)
        hit = False
        for to, ins in at.items():
            if to not in heads:
                continue
            hs, s, m = ins[0]
            old = set(hs.facts.log)
            back = {n: lin_add(n, I(-x)) for n, x in m.items()}
            cand = []
            for f in s.facts.log:
                if f in old or f[0] == "ne" or not stable(f[1], counts, entry.fresh) or not stable(f[2], counts, entry.fresh):
                    continue
                if not any(occurs(n, f[1]) or occurs(n, f[2]) for n in counts):
                    continue
                cand.append((f[0], subst(f[1], back), subst(f[2], back)))
            for f in cand:
                if f in heads[to].facts.log:
                    continue
                ok = all(holds(o.facts, f, {n: lin_add(n, I(x)) for n, x in mo.items()}) for _, o, mo in ins[1:])
                if ok and to == esh and not holds(entry.facts, f, {n: I(0) for n in counts}):
                    late.append(f)
                    continue
                if ok:
                    try:
                        heads[to].facts.assume(f)
                    except Contradiction:
                        pass
                    hit = True
            for n in counts:
                f = ("le", I(1), n)
                if not all(mo[n] >= 1 for _, _, mo in ins) or f in heads[to].facts.log:
                    continue
                if to != esh:
                    heads[to].facts.assume(f)
                    hit = True
                elif late:
                    late.append(f)
        return hit

    def put(self, v, path, x):
        if not path:
            return x
        if path[0] == "len":
            return vec(v.base, v.over, x)
        return agg(v.ty, v.variant, v.base, tuple((i, self.put(y, path[1:], x) if i == path[0] else y) for i, y in v.fields))


def expanded(x, v):
    """`x` with the parts spelled out that `v`, an update of it, has."""
    if isinstance(v, Vec):
        if isinstance(x, Term):
            return vec(x, (), T("len", x))
        return x
    if isinstance(v, Agg) and v.base is not None:
        if isinstance(x, Term) and v.base is x:
            return agg(v.ty, v.variant, x, tuple((i, expanded(fld(x, v.variant, i), y)) for i, y in v.fields))
        if isinstance(x, Agg) and x.variant == v.variant and x.base is v.base:
            have = dict(x.fields)
            for i, y in v.fields:
                have[i] = expanded(fld(x, x.variant, i), y)
            return agg(x.ty, x.variant, x.base, tuple(sorted(have.items())))
    elif isinstance(v, Agg) and isinstance(x, Agg) and x.variant == v.variant and x.base is None:
        fs = tuple((i, expanded(y, fld(v, v.variant, i))) for i, y in x.fields)
        return agg(x.ty, x.variant, None, fs)
    return x


def stable(t, counts, floor):
    """Made of values that do not change from pass to pass and pass counts."""
    if not isinstance(t, V):
        return True
    if isinstance(t, Term):
        if t.op == "lin":
            return all(stable(x, counts, floor) for x, _ in t.args[1])
        if t.op == "n":
            return t in counts or t.args[0] <= floor
        if t.op == "w":
            return t.args[1] <= floor
        if t.op == "ret":
            return t.args[0] <= floor
        return t.op in ("int", "arg", "deref", "fld", "len", "maxinx", "elem", "inx") \
            and all(stable(a, counts, floor) for a in t.args)
    return False


def holds(facts, f, m):
    k, a, b = f[0], subst(f[1], m), subst(f[2], m)
    if k == "eq":
        return facts.eq(a, b) is True
    return facts.decide_le(a, b) is (k == "le")


def merge_outcomes(res):
    """Outcomes that differ in path facts only become one that keeps the
    common facts."""
    groups = {}
    for s, ret in res:
        k = (ret, frozenset(s.heap.items()), s.events)
        groups.setdefault(k, []).append((s, ret))
    out = []
    for g in groups.values():
        if len(g) == 1:
            out.append(g[0])
            continue
        s = g[0][0]
        common = set(g[0][0].facts.log)
        for o, _ in g[1:]:
            common &= set(o.facts.log)
        n = State()
        n.heap = s.heap
        n.facts = replay([f for f in s.facts.log if f in common])
        n.events = s.events
        n.fresh = max(o.fresh for o, _ in g)
        n.tags = s.tags
        out.append((n, g[0][1]))
    return out


def replay(log):
    f = Facts()
    for x in log:
        f.assume(x)
    return f


def vec_field(name):
    if "len" in name:
        return "len"
    if "cap" in name:
        return "cap"
    if "ptr" in name:
        return "ptr"
    return "boo"


class _FnBox:
    tab = {}
    lst = []

    @classmethod
    def get(cls, fn):
        k = (fn["full"], fn.get("key"))
        i = cls.tab.get(k)
        if i is None:
            i = len(cls.lst)
            cls.lst.append(fn)
            cls.tab[k] = i
        return i

    @classmethod
    def of(cls, v):
        if isinstance(v, Term) and v.op == "fn":
            return cls.lst[v.args[1]]
        return None
