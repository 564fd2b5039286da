"""Abstract values: hash-consed terms, aggregates, references and vectors.

Every value is interned, so equality is identity.
"""


class V:
    __slots__ = ("id",)


class Term(V):
    """Value number: an operator applied to values (no interpretation attached)."""
    __slots__ = ("op", "args", "depth")

    def __repr__(self):
        if self.op == "int":
            return str(self.args[0])
        if self.op == "lin":
            c, vs = self.args
            s = "+".join((f"{k}*" if k != 1 else "") + repr(t) for t, k in vs)
            return f"({s}{c:+d})" if c else f"({s})"
        if not self.args:
            return self.op
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Agg(V):
    """Struct, tuple, enum variant or closure; fields missing from `fields`
    are those of `base` (an opaque value known to be of this variant)."""
    __slots__ = ("ty", "variant", "base", "fields")

    def __repr__(self):
        f = ", ".join(f"{i}: {v!r}" for i, v in self.fields)
        b = f" ..{self.base!r}" if self.base is not None else ""
        return f"<{self.variant}|{f}{b}>"


class Ref(V):
    """Reference or raw pointer to a place (object, projection)."""
    __slots__ = ("obj", "proj")

    def __repr__(self):
        return f"&{self.obj!r}{''.join('.' + str(p) for p in self.proj)}"


class Vec(V):
    """Backing storage: `base` epoch, index overrides (latest first), length."""
    __slots__ = ("base", "over", "len")

    def __repr__(self):
        return f"Vec({self.base!r}; {', '.join(f'{i!r}:={v!r}' for i, v in self.over)}; len={self.len!r})"


class Raw(V):
    """Raw pointer into a vector's storage: vector place + element offset in
    nonzero-index units; `cap` marks allocator results."""
    __slots__ = ("obj", "proj", "off")

    def __repr__(self):
        return f"*raw({self.obj!r}{self.proj}+{self.off!r})"


_tab = {}
_next = [0]


def _intern(key, cls, **kw):
    v = _tab.get(key)
    if v is None:
        v = cls()
        _next[0] += 1
        v.id = _next[0]
        for k, x in kw.items():
            setattr(v, k, x)
        _tab[key] = v
    return v


def T(op, *args):
    v = _tab.get((op, args))
    if v is None:
        d = 1
        for a in (args if op != "lin" else [t for t, _ in args[1]]):
            if isinstance(a, Term) and a.depth >= d:
                d = a.depth + 1
        v = _intern((op, args), Term, op=op, args=args, depth=d)
    return v


def agg(ty, variant, base, fields):
    fields = tuple(fields)
    return _intern(("A", ty, variant, base, fields), Agg, ty=ty, variant=variant, base=base, fields=fields)


def ref(obj, proj):
    return _intern(("R", obj, proj), Ref, obj=obj, proj=proj)


def vec(base, over, ln):
    over = tuple(over)
    return _intern(("V", base, over, ln), Vec, base=base, over=over, len=ln)


def raw(obj, proj, off):
    return _intern(("W", obj, proj, off), Raw, obj=obj, proj=proj, off=off)


def I(n):
    return T("int", n)


TRUE = I(1)
FALSE = I(0)
UNIT = T("unit")


def is_int(t):
    return isinstance(t, Term) and t.op == "int"


# ---- linear integer terms -------------------------------------------------

def lin_parts(t):
    if is_int(t):
        return t.args[0], {}
    if isinstance(t, Term) and t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def lin_add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return mk_lin(ca + kb * cb, d)


def lin_sub(a, b):
    return lin_add(a, b, -1)


# ---- pointer values -------------------------------------------------------

def mkP(i, g):
    if isinstance(i, Term) and isinstance(g, Term) and i.op == "inx" and g.op == "gen" and i.args[0] is g.args[0]:
        return i.args[0]
    return T("P", i, g)


def p_inx(p):
    if isinstance(p, Term) and p.op == "P":
        return p.args[0]
    return T("inx", p)


def p_gen(p):
    if isinstance(p, Term) and p.op == "P":
        return p.args[1]
    return T("gen", p)


def rebuild(t, args):
    """Rebuild an operator with new arguments, simplifying."""
    op = t.op
    if op == "P":
        return mkP(*args)
    if op == "inx":
        return p_inx(args[0])
    if op == "gen":
        return p_gen(args[0])
    if op == "fld":
        b = args[0]
        if isinstance(b, Agg) and (b.variant == args[1]):
            return fld(b, args[1], args[2])
        return T("fld", *args)
    if op == "discr":
        b = args[0]
        if isinstance(b, Agg):
            return I(args[1][b.variant]) if args[1] else I(b.variant)
        return T("discr", *args)
    return T(op, *args)


def fld(v, variant, i):
    if isinstance(v, Agg):
        for k, x in v.fields:
            if k == i:
                return x
        if v.base is not None:
            return T("fld", v.base, variant, i)
        return T("undef")
    if isinstance(v, Vec):
        return T("fld", v.base, variant, i)
    return T("fld", v, variant, i)


def occurs(b, t):
    """Does term `b` occur in value `t`?"""
    if t is b:
        return True
    if isinstance(t, Term):
        if t.op == "lin":
            return any(occurs(b, x) for x, _ in t.args[1])
        if t.depth <= b.depth and not any(isinstance(a, V) and not isinstance(a, Term) for a in t.args):
            return False
        return any(occurs(b, a) for a in t.args if isinstance(a, V))
    if isinstance(t, Agg):
        return any(occurs(b, v) for _, v in t.fields) or (t.base is not None and occurs(b, t.base))
    if isinstance(t, Vec):
        return occurs(b, t.base) or occurs(b, t.len) or any(occurs(b, i) or occurs(b, v) for i, v in t.over)
    return False


def has_op(op, t):
    """Does a term with operator `op` occur in `t`?"""
    if isinstance(t, Term):
        if t.op == op:
            return True
        if t.op == "lin":
            return any(has_op(op, x) for x, _ in t.args[1])
        return any(has_op(op, a) for a in t.args if isinstance(a, V))
    if isinstance(t, Agg):
        return any(has_op(op, v) for _, v in t.fields) or (t.base is not None and has_op(op, t.base))
    return False


def subst(v, m, memo=None):
    """`v` with the terms in `m` replaced (a dict, or a function that gives
    None for terms to look into)."""
    if memo is None:
        memo = {}
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(subst(x, m, memo) for x in v)
        return v
    r = memo.get(v)
    if r is not None:
        return r
    r = m(v) if callable(m) else m.get(v)
    if r is None:
        if isinstance(v, Term):
            if v.op == "lin":
                r = I(v.args[0])
                for x, k in v.args[1]:
                    r = lin_add(r, subst(x, m, memo), k)
            elif not v.args:
                r = v
            else:
                na = tuple(subst(a, m, memo) if isinstance(a, V) else a for a in v.args)
                r = v if na == v.args else rebuild(v, na)
        elif isinstance(v, Agg):
            r = agg(v.ty, v.variant, subst(v.base, m, memo) if v.base is not None else None,
                    tuple((i, subst(x, m, memo)) for i, x in v.fields))
        elif isinstance(v, Vec):
            r = vec(subst(v.base, m, memo), tuple((subst(i, m, memo), subst(x, m, memo)) for i, x in v.over),
                    subst(v.len, m, memo))
        elif isinstance(v, Ref):
            r = ref(subst(v.obj, m, memo), subst(v.proj, m, memo))
        else:
            r = raw(subst(v.obj, m, memo), subst(v.proj, m, memo), subst(v.off, m, memo))
    memo[v] = r
    return r
