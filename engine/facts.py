"""Path facts: equalities (congruence closure), disequalities and linear
inequalities over value numbers. Queries answer True / False / None (unknown).
"""
from terms import *


class Contradiction(Exception):
    pass


class Facts:
    __slots__ = ("parent", "ne", "le", "cache", "log")

    def __init__(self):
        self.parent = {}
        self.ne = []
        self.le = []
        self.cache = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.parent = dict(self.parent)
        f.ne = list(self.ne)
        f.le = list(self.le)
        f.cache = dict(self.cache)
        f.log = self.log
        return f

    # -- normal forms
    def norm(self, t):
        c = self.cache.get(t)
        if c is not None:
            return c
        r = self._norm(t)
        self.cache[t] = r
        return r

    def _norm(self, t):
        if isinstance(t, Term):
            if t.op == "int" or t.op == "unit":
                return t
            if t.op == "lin":
                out = I(t.args[0])
                for x, k in t.args[1]:
                    out = lin_add(out, self.norm(x), k)
                t = out
                if t.op == "lin":
                    p = self.parent.get(t)
                    return self.norm(p) if p is not None else t
                return self.norm(t) if t in self.parent else t
            if t.args:
                na = tuple(self.norm(a) if isinstance(a, V) else a for a in t.args)
                if na != t.args:
                    t = rebuild(t, na)
                    if not isinstance(t, Term):
                        return self.norm(t)
                    if t.op in ("int", "lin"):
                        return self.norm(t)
            p = self.parent.get(t)
            if p is not None:
                return self.norm(p)
            return t
        if isinstance(t, Agg):
            nf = tuple((i, self.norm(v)) for i, v in t.fields)
            nb = self.norm(t.base) if t.base is not None else None
            if nf == t.fields and nb is t.base:
                return t
            return agg(t.ty, t.variant, nb, nf)
        if isinstance(t, Vec):
            return vec(self.norm(t.base), tuple((self.norm(i), self.norm(v)) for i, v in t.over), self.norm(t.len))
        return t

    # -- queries
    def eq(self, a, b):
        """Integer / scalar / pointer equality: True, False or None."""
        a = self.norm(a)
        b = self.norm(b)
        if a is b:
            return True
        if not (isinstance(a, Term) and isinstance(b, Term)):
            return None
        if a.op == "P" or b.op == "P":
            r1 = self.eq(p_inx(a), p_inx(b))
            r2 = self.eq(p_gen(a), p_gen(b))
            if r1 is False or r2 is False:
                return False
            if r1 and r2:
                return True
            return None
        for g, h in ((a, b), (b, a)):
            # inc(x) differs from x
            x = g
            n = 0
            while isinstance(x, Term) and x.op == "inc":
                x = x.args[0]
                n += 1
                if x is h and n:
                    return False
        if a.op == "inc" and b.op == "inc":
            r = self.eq(a.args[0], b.args[0])
            if r is not None:
                return r
        if arith(a) or arith(b):
            d = lin_sub(a, b)
            if d.op == "int":
                return d.args[0] == 0
            dn = lin_sub(I(0), d)
            for x, y in self.ne:
                e = lin_sub(self.norm(x), self.norm(y))
                if e is d or e is dn:
                    return False
            if self.decide_le(lin_add(a, I(1)), b) or self.decide_le(lin_add(b, I(1)), a):
                return False
            return None
        for x, y in self.ne:
            x = self.norm(x)
            y = self.norm(y)
            if (x is a and y is b) or (x is b and y is a):
                return False
            if x.op == "P" or y.op == "P":
                continue
        # pointer disequality through components
        return None

    def decide_le(self, a, b):
        """a <= b ?"""
        e = lin_sub(self.norm(a), self.norm(b))
        if e.op == "int":
            return e.args[0] <= 0
        if self._entailed(e):
            return True
        if self._entailed(lin_sub(I(1), e)):
            return False
        return None

    def _entailed(self, e):
        if nonpos(e):
            return True
        known = [self.norm(k) for k in self.le]
        for k in known:
            if nonpos(lin_sub(e, k)):
                return True
        if len(known) <= 60:
            for i, k in enumerate(known):
                r = lin_sub(e, k)
                if shared(r, e) is False:
                    continue
                for k2 in known[i:]:
                    if nonpos(lin_sub(r, k2)):
                        return True
        return False

    # -- assertions
    def assume(self, f):
        k, a, b = f
        if k == "eq":
            self.assume_eq(a, b)
        elif k == "ne":
            self.assume_ne(a, b)
        else:
            self.assume_le(a, b, k == "le")

    def assume_eq(self, a, b):
        self.log = self.log + (("eq", a, b),)
        self._union(a, b)
        self._check()

    def _union(self, a, b):
        work = [(a, b)]
        while work:
            a, b = work.pop()
            a = self.norm(a)
            b = self.norm(b)
            if a is b:
                continue
            if not (isinstance(a, Term) and isinstance(b, Term)):
                if isinstance(a, Agg) and isinstance(b, Agg):
                    if a.variant != b.variant:
                        raise Contradiction
                    n = {i for i, _ in a.fields} | {i for i, _ in b.fields}
                    for i in n:
                        work.append((fld(a, a.variant, i), fld(b, b.variant, i)))
                    continue
                # opaque value equated with an aggregate: record as representative
                if isinstance(a, Term):
                    a, b = b, a
                if isinstance(b, Term) and b.op not in ("int",) and not occurs(b, a):
                    self._set(b, a, work)
                continue
            if a.op == "P" or b.op == "P":
                if a.op == "P" and b.op == "P":
                    work.append((a.args[0], b.args[0]))
                    work.append((a.args[1], b.args[1]))
                    continue
                if a.op == "P":
                    a, b = b, a
                # a opaque pointer, b = P(i, g)
                work.append((T("inx", a), b.args[0]))
                work.append((T("gen", a), b.args[1]))
                continue
            if arith(a) or arith(b):
                d = lin_sub(a, b)
                if d.op == "int":
                    if d.args[0] != 0:
                        raise Contradiction
                    continue
                c, vs = lin_parts(d)
                # solve for the newest variable with unit coefficient
                cand = [t for t, k in vs.items() if k in (1, -1)]
                cand = [t for t in cand if not any(o is not t and occurs(t, o) for o in vs)]
                if not cand:
                    self.le.append(d)
                    self.le.append(lin_sub(I(0), d))
                    continue
                t = max(cand, key=lambda t: (t.depth, t.id))
                k = vs.pop(t)
                rhs = mk_lin(-c * k, {x: -y * k for x, y in vs.items()})
                self._set(t, rhs, work)
                continue
            if b.op == "int" or (a.op != "int" and (b.depth, b.id) < (a.depth, a.id)):
                a, b = b, a
            # a is representative
            if a.op == "int" and b.op == "int":
                raise Contradiction
            if occurs(b, a):
                if occurs(a, b):
                    continue
                a, b = b, a
            self._set(b, a, work)

    def _set(self, b, a, work):
        """Adds the rewrite b -> a; rules whose sides it rewrites are taken
        out and their equation is processed again (keeps the rules terminating)."""
        self.cache = {}
        for k in list(self.parent):
            if k is not b and (occurs(b, k) or occurs(b, self.parent[k])):
                work.append((k, self.parent.pop(k)))
        self.parent[b] = a

    def _check(self):
        for x, y in self.ne:
            nx, ny = self.norm(x), self.norm(y)
            if nx is ny:
                raise Contradiction
            if isinstance(nx, Term) and isinstance(ny, Term) and ("P" in (nx.op, ny.op)):
                if self.eq(p_inx(nx), p_inx(ny)) and self.eq(p_gen(nx), p_gen(ny)):
                    raise Contradiction
        for k in self.le:
            e = self.norm(k)
            if e.op == "int" and e.args[0] > 0:
                raise Contradiction
            if pos(e):
                raise Contradiction
        # enum discriminants: exhausting all variants is a contradiction
        for b in list(self.parent):
            if b.op == "discr":
                v = self.norm(b)
                if v.op == "int" and b.args[1] is not None and not (0 <= v.args[0] < 10 ** 6):
                    raise Contradiction

    def assume_ne(self, a, b):
        self.log = self.log + (("ne", a, b),)
        r = self.eq(a, b)
        if r is True:
            raise Contradiction
        na, nb = self.norm(a), self.norm(b)
        self.ne.append((na, nb))
        if isinstance(na, Term) and isinstance(nb, Term):
            if "P" in (na.op, nb.op) or na.op == "inx" or nb.op == "inx":
                pass
            # strengthen a <= b, a != b to a + 1 <= b
            if arith_like(na) or arith_like(nb):
                if self.decide_le(na, nb):
                    self.le.append(lin_add(lin_sub(na, nb), I(1)))
                elif self.decide_le(nb, na):
                    self.le.append(lin_add(lin_sub(nb, na), I(1)))
            for d, o in ((na, nb), (nb, na)):
                if d.op == "discr" and d.args[1]:
                    left = [k for k in d.args[1] if self.eq(d, I(k)) is not False]
                    if not left:
                        raise Contradiction
                    if len(left) == 1:
                        self._union(d, I(left[0]))
                        self._check()
                if d.op == "bool" and o.op == "int":
                    self._union(d, I(1 - o.args[0]))
                    self._check()

    def assume_le(self, a, b, truth=True):
        self.log = self.log + (("le" if truth else "gt", a, b),)
        e = lin_sub(self.norm(a), self.norm(b))
        if not truth:
            e = lin_sub(I(1), e)
        if e.op == "int":
            if e.args[0] > 0:
                raise Contradiction
            return
        r = self._entailed(lin_sub(I(1), e))
        if r:
            raise Contradiction
        self.le.append(e)
        # tighten to equality
        back = self._entailed(lin_sub(I(0), e))
        if back:
            self._union(e, I(0))
            self._check()
        else:
            for x, y in self.ne:
                d = lin_sub(self.norm(x), self.norm(y))
                if d is e or lin_sub(I(0), d) is e:
                    self.le.append(lin_add(e, I(1)))
                    break


def arith(t):
    return t.op in ("int", "lin")


def arith_like(t):
    return True


def shared(r, e):
    return True


# operators that are known to be at least one (indices, key counts)
def at_least_one(t):
    return isinstance(t, Term) and t.op in ("inx", "nz", "maxinx")


def nonpos(e):
    """e <= 0 for all nonnegative values of its variables"""
    c, vs = lin_parts(e)
    for t, k in vs.items():
        if k > 0:
            return False
        if at_least_one(t):
            c += k
    return c <= 0


def pos(e):
    """e >= 1 always"""
    c, vs = lin_parts(e)
    for t, k in vs.items():
        if k < 0:
            return False
        if at_least_one(t):
            c += k
    return c >= 1
