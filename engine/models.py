"""Meaning of the callees that have no analysed body: pointer traits, user
closures, user trait impls, memory primitives, integer primitives, panics.
"""
from terms import *
from interp import Split, _FnBox
from facts import Contradiction

OPT_NONE = 0
OPT_SOME = 1
OPTION = "core::option::Option"


def none():
    return agg(OPTION, 0, None, ())


def some(v):
    return agg(OPTION, 1, None, ((0, v),))


PANICS = (
    "core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
    "core::result::unwrap_failed", "alloc::alloc::handle_alloc_error", "std::rt::", "core::cell::panic",
)

IGNORED_VEC = ("reserve", "shrink_to_fit")


class Models:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.exact = {}
        self.rawmem = False
        for k in dir(self):
            pass
        self.build()

    def build(self):
        e = self.exact
        e["core::cmp::min"] = m_minmax
        e["core::cmp::max"] = m_minmax
        e["core::ops::range::RangeInclusive::<Idx>::new"] = m_range_incl
        e["core::mem::swap"] = m_swap
        e["core::mem::replace"] = m_replace
        e["core::mem::take"] = None
        e["core::ptr::write"] = m_ptr_write
        e["core::ptr::read"] = m_ptr_read
        e["core::ptr::mut_ptr::<impl *mut T>::write"] = m_ptr_write
        e["core::ptr::mut_ptr::<impl *mut T>::read"] = m_ptr_read
        e["core::ptr::const_ptr::<impl *const T>::read"] = m_ptr_read
        for q in ("mut_ptr::<impl *mut T>", "const_ptr::<impl *const T>"):
            for n in ("wrapping_add", "wrapping_offset", "add", "offset"):
                e[f"core::ptr::{q}::{n}"] = m_ptr_add
            for n in ("wrapping_sub", "sub"):
                e[f"core::ptr::{q}::{n}"] = m_ptr_sub
            e[f"core::ptr::{q}::cast"] = m_first
            e[f"core::ptr::{q}::cast_mut"] = m_first
            e[f"core::ptr::{q}::cast_const"] = m_first
        for n in ("new_unchecked", "get"):
            e[f"core::num::nonzero::NonZero::<T>::{n}"] = m_first
        e["core::num::nonzero::NonZero::<T>::new"] = m_nz_new
        e["core::num::nonzero::NonZero::<T>::new_unchecked"] = m_first
        for t in ("usize",):
            for n, f in (("wrapping_add", m_add), ("wrapping_sub", m_sub), ("unchecked_add", m_add),
                         ("unchecked_sub", m_sub),
                         ("checked_add", m_checked_add), ("checked_sub", m_checked_sub),
                         ("saturating_add", m_sat_add), ("saturating_sub", m_sat_sub)):
                e[f"core::num::<impl {t}>::{n}"] = f
            e[f"core::num::nonzero::NonZero::<{t}>::checked_add"] = m_checked_add
            e[f"core::num::nonzero::NonZero::<{t}>::get"] = m_first
            e[f"core::num::nonzero::NonZero::<{t}>::saturating_add"] = m_sat_add
        e["core::intrinsics::cold_path"] = m_unit
        e["core::hint::must_use"] = m_first
        e["core::mem::drop"] = m_unit
        e["core::mem::forget"] = m_unit
        e["core::intrinsics::discriminant_value"] = m_discr
        e["core::mem::discriminant"] = m_mem_discr
        e["core::hint::unreachable_unchecked"] = m_never
        e["core::intrinsics::unreachable"] = m_never
        e["core::intrinsics::wrapping_add"] = m_add
        e["core::intrinsics::wrapping_sub"] = m_sub
        e["core::intrinsics::unchecked_add"] = m_add
        e["core::intrinsics::unchecked_sub"] = m_sub
        e["core::intrinsics::saturating_sub"] = m_sat_sub
        e["core::intrinsics::saturating_add"] = m_sat_add
        e["core::intrinsics::assert_unsafe_precondition"] = m_unit

    def find(self, fn):
        p = fn.get("rpath") or fn["path"]
        c = self.contracts.get(p)
        if c is not None:
            return c
        m = self.exact.get(p)
        if m is not None:
            return m
        for q in PANICS:
            if p.startswith(q):
                return m_panic
        # trait methods on type parameters
        tr = fn.get("trait")
        if tr is not None and fn.get("rpath") is None:
            m = TRAIT.get((tr.split("::")[-1], fn["name"]))
            if m is not None:
                return m
        if tr is not None:
            m = TRAIT_ANY.get((tr, fn["name"]))
            if m is not None:
                return m
        if "NonZeroInxVec" in p and not self.rawmem:
            n = fn["name"]
            if n in IGNORED_VEC:
                return m_unit
            if n in ("clear", "clear_and_shrink"):
                return m_vec_clear
            if n == "push" and tr is None:
                return m_vec_push
            if n == "clone" and tr == "core::clone::Clone":
                return m_vec_clone
        return None

    def untuple(self, ip, st, args, body):
        """Arguments of a closure body called through the Fn traits."""
        if len(args) == 2:
            tup = args[1]
            n = body["argc"] - 1
            if n == 0:
                return [args[0]]
            return [args[0]] + [fld(tup, 0, i) for i in range(n)]
        return args

    def opaque(self, ip, st, fn, args, argtys, d, line):
        p = fn.get("rpath") or fn["path"]
        ip.unmodelled[p] = ip.unmodelled.get(p, 0) + 1
        st.fresh += 1
        n = st.fresh
        vals = tuple(args)
        st.event("opaque", p, vals, n, line)
        havoc_args(ip, st, args, argtys, n)
        return [(st, T("ret", n))]


def havoc_args(ip, st, args, argtys, n):
    """A callee given `&mut` may have changed the referent."""
    for i, (a, t) in enumerate(zip(args, argtys)):
        ty = ip.prog.types[t]
        if ty["k"] == "ref" and ty["mut"]:
            obj, proj = target(st, a)
            old = ip.read_loc(st, obj, proj)
            ip.write_loc(st, obj, proj, T("mutby", n, i, old))
        elif ty["k"] == "tuple":
            for j, u in enumerate(ty["args"]):
                uty = ip.prog.types[u]
                if uty["k"] == "ref" and uty["mut"]:
                    obj, proj = target(st, fld(a, 0, j))
                    old = ip.read_loc(st, obj, proj)
                    ip.write_loc(st, obj, proj, T("mutby", n, j, old))


def target(st, a):
    if isinstance(a, Term):
        a = st.facts.norm(a)
    if isinstance(a, Ref):
        return a.obj, a.proj
    if isinstance(a, Raw):
        return a.obj, a.proj + (("ix", a.off),)
    return a, ()


def deref(ip, st, a):
    o, p = target(st, a)
    if isinstance(a, Raw):
        ip.note_raw(st, a, {"path": "raw access"})
    return ip.read_loc(st, o, p)


def m_swap(ip, st, fn, args, tys, d, line):
    o0, p0 = target(st, args[0])
    o1, p1 = target(st, args[1])
    a = ip.read_loc(st, o0, p0)
    b = ip.read_loc(st, o1, p1)
    # resolve index aliases before writing
    ip.write_loc(st, o0, p0, b)
    ip.write_loc(st, o1, p1, a)
    return [(st, UNIT)]


def m_replace(ip, st, fn, args, tys, d, line):
    o, p = target(st, args[0])
    a = ip.read_loc(st, o, p)
    ip.write_loc(st, o, p, args[1])
    return [(st, a)]


def m_ptr_write(ip, st, fn, args, tys, d, line):
    o, p = target(st, args[0])
    if isinstance(args[0], Raw):
        ip.note_raw(st, args[0], {"path": "ptr::write"})
    ip.write_loc(st, o, p, args[1])
    return [(st, UNIT)]


def m_ptr_read(ip, st, fn, args, tys, d, line):
    o, p = target(st, args[0])
    return [(st, ip.read_loc(st, o, p))]


def m_ptr_add(ip, st, fn, args, tys, d, line):
    a = args[0]
    if isinstance(a, Raw):
        n = st.facts.norm(args[1])
        if is_int(n) and n.args[0] >= 1 << 63:
            n = I(n.args[0] - (1 << 64))
        return [(st, raw(a.obj, a.proj, lin_add(a.off, n)))]
    return [(st, T("ptradd", a, args[1]))]


def m_ptr_sub(ip, st, fn, args, tys, d, line):
    a = args[0]
    if isinstance(a, Raw):
        return [(st, raw(a.obj, a.proj, lin_sub(a.off, args[1])))]
    return [(st, T("ptrsub", a, args[1]))]


def m_first(ip, st, fn, args, tys, d, line):
    return [(st, args[0])]


def m_unit(ip, st, fn, args, tys, d, line):
    return [(st, UNIT)]


def m_never(ip, st, fn, args, tys, d, line):
    return []


def m_panic(ip, st, fn, args, tys, d, line):
    ip.panics.append((ip.prog.bodies[ip.stack[-1]]["path"] if ip.stack else "?", line, st))
    return []


def m_nz_new(ip, st, fn, args, tys, d, line):
    r = ip.decide_eq(st, args[0], I(0))
    return [(st, none() if r else some(args[0]))]


def m_add(ip, st, fn, args, tys, d, line):
    return [(st, lin_add(st.facts.norm(args[0]), st.facts.norm(args[1])))]


def m_sub(ip, st, fn, args, tys, d, line):
    return [(st, lin_sub(st.facts.norm(args[0]), st.facts.norm(args[1])))]


def m_sat_add(ip, st, fn, args, tys, d, line):
    return [(st, lin_add(st.facts.norm(args[0]), st.facts.norm(args[1])))]


def m_sat_sub(ip, st, fn, args, tys, d, line):
    if ip.decide_le(st, args[0], args[1]):
        return [(st, I(0))]
    return m_sub(ip, st, fn, args, tys, d, line)


def m_checked_add(ip, st, fn, args, tys, d, line):
    b = T("bool", "overflow", args[0], args[1])
    if ip.truth(st, b):
        return [(st, none())]
    return [(st, some(lin_add(st.facts.norm(args[0]), st.facts.norm(args[1]))))]


def m_checked_sub(ip, st, fn, args, tys, d, line):
    if ip.decide_le(st, args[1], args[0]):
        return [(st, some(lin_sub(st.facts.norm(args[0]), st.facts.norm(args[1]))))]
    return [(st, none())]


def m_discr(ip, st, fn, args, tys, d, line):
    v = deref(ip, st, args[0])
    return [(st, ip.discriminant(st, v, ip.prog.types[tys[0]]["to"]))]


m_mem_discr = m_discr


def m_vec_clear(ip, st, fn, args, tys, d, line):
    o, p = target(st, args[0])
    ip.write_loc(st, o, p, vec(T("emptyvec"), (), I(0)))
    return [(st, UNIT)]


def m_vec_push(ip, st, fn, args, tys, d, line):
    # the body of `push` is decided by the storage rules (M01)
    o, p = target(st, args[0])
    v = ip.as_vec(ip.read_loc(st, o, p))
    n = lin_add(st.facts.norm(v.len), I(1))
    ip.write_loc(st, o, p, vec(v.base, ((n, args[1]),) + v.over, n))
    return [(st, UNIT)]


def m_vec_clone(ip, st, fn, args, tys, d, line):
    v = ip.as_vec(deref(ip, st, args[0]))
    return [(st, vec(T("cloneof", v), (), v.len))]


# ---- traits on type parameters ----

def m_inx(ip, st, fn, args, tys, d, line):
    return [(st, p_inx(args[0]))]


def m_gen(ip, st, fn, args, tys, d, line):
    return [(st, p_gen(args[0]))]


def m_from_raw(ip, st, fn, args, tys, d, line):
    return [(st, mkP(args[0], args[1]))]


def m_invalid(ip, st, fn, args, tys, d, line):
    return [(st, T("P", T("nz", "invalid_inx"), T("genone")))]


def m_max(ip, st, fn, args, tys, d, line):
    return [(st, T("maxinx"))]


def m_one(ip, st, fn, args, tys, d, line):
    return [(st, T("genone"))]


def m_two(ip, st, fn, args, tys, d, line):
    return [(st, T("inc", T("genone")))]


def m_inc(ip, st, fn, args, tys, d, line):
    return [(st, T("inc", args[0]))]


def kind_of(ip, ty):
    """'ptr' for a type parameter bounded by Ptr, 'inx', 'gen', or 'user'."""
    t = ip.prog.types[ty]
    while t["k"] == "ref":
        t = ip.prog.types[t["to"]]
    if t["k"] == "param":
        if any(b.endswith("::Ptr") for b in t["bounds"]):
            return "ptr"
        return "user"
    if t["k"] == "alias":
        if t["s"].endswith("::Inx"):
            return "inx"
        if t["s"].endswith("::Gen"):
            return "gen"
    return "user"


def deep(ip, st, v, ty):
    """Follow references of the given static type."""
    t = ip.prog.types[ty]
    while t["k"] == "ref":
        v = deref(ip, st, v)
        t = ip.prog.types[t["to"]]
    return v


def m_eq(ip, st, fn, args, tys, d, line):
    k = kind_of(ip, tys[0])
    a = deep(ip, st, args[0], tys[0])
    b = deep(ip, st, args[1], tys[1])
    neg = fn["name"] == "ne"
    if k in ("inx", "gen"):
        r = ip.decide_eq(st, a, b)
    elif k == "ptr":
        r = ip.decide_eq(st, p_inx(a), p_inx(b)) and ip.decide_eq(st, p_gen(a), p_gen(b))
    else:
        st.event("usereq", a, b)
        t = T("bool", "usereq", a, b)
        if neg:
            return [(st, I(1 - ip.truth(st, t)))]
        return [(st, t)]
    if neg:
        r = not r
    return [(st, TRUE if r else FALSE)]


def m_ordcmp(ip, st, fn, args, tys, d, line):
    a = deep(ip, st, args[0], tys[0])
    b = deep(ip, st, args[1], tys[1])
    k = kind_of(ip, tys[0])
    n = fn["name"]
    if k == "inx" and n in ("lt", "le", "gt", "ge"):
        x, y = (a, b) if n in ("lt", "le") else (b, a)
        if n in ("lt", "gt"):
            x = lin_add(x, I(1))
        return [(st, TRUE if ip.decide_le(st, x, y) else FALSE)]
    if n in ("lt", "le", "gt", "ge"):
        return [(st, T("bool", "cmp_" + n, k, a, b))]
    t = T(n, k, a, b)
    st.event("usercmp", a, b, t)
    return [(st, t)]


def m_clone(ip, st, fn, args, tys, d, line):
    k = kind_of(ip, tys[0])
    v = deref(ip, st, args[0])
    if k != "user":
        return [(st, v)]
    t = ip.prog.types[ip.prog.types[tys[0]]["to"]]
    if t["k"] in ("int", "bool"):
        return [(st, v)]
    return [(st, T("clone", v))]


def m_call(ip, st, fn, args, tys, d, line):
    """Call of a user closure (type parameter) through a Fn trait."""
    f = args[0]
    if fn["name"] in ("call_mut", "call"):
        fo, fp = target(st, f)
        fv = ip.read_loc(st, fo, fp)
    else:
        fv = f
    r = call_value(ip, st, fv, args[1], d, line)
    if r is not None:
        return r
    st.fresh += 1
    n = st.fresh
    tup = args[1]
    tty = ip.prog.types[tys[1]]
    k = len(tty.get("args", []))
    elems = tuple(fld(tup, 0, i) for i in range(k))
    snap = []
    for i, e in enumerate(elems):
        u = ip.prog.types[tty["args"][i]]
        if u["k"] == "ref":
            snap.append(ip.read_loc(st, *target(st, e)))
        else:
            snap.append(e)
    root = fv
    while isinstance(root, Term) and root.op == "mutby" and root.args[1] == "fn":
        root = root.args[2]
    st.event("call", root, elems, tuple(snap), n, line)
    havoc_args(ip, st, [tup], [tys[1]], n)
    return [(st, T("ret", n))]


def call_value(ip, st, fv, tup, d, line):
    if isinstance(fv, Term):
        f2 = _FnBox.of(fv)
        if f2 is not None:
            key = f2.get("key")
            body = ip.prog.bodies.get(key) if key else None
            if body is not None:
                args = [fld(tup, 0, i) for i in range(body["argc"])]
                return ip.call_body(key, args, st, d + 1)
    if isinstance(fv, Agg) and isinstance(fv.ty, tuple) and fv.ty[0] == "closure":
        return None
    return None


def m_fn_trait(ip, st, fn, args, tys, d, line):
    """Fn* call resolved to a closure or fn item."""
    f = args[0]
    t = ip.prog.types[tys[0]]
    byref = t["k"] == "ref"
    while t["k"] == "ref":
        t = ip.prog.types[t["to"]]
    if t["k"] == "closure":
        key = t["body"]
        body = ip.prog.bodies.get(key)
        if body is None:
            return None
        n = body["argc"] - 1
        params = [fld(args[1], 0, i) for i in range(n)]
        selfty = ip.prog.types[body["locals"][1]]
        # peel extra references (`&mut F` called through FnOnce)
        depth_have = 0
        u = ip.prog.types[tys[0]]
        while u["k"] == "ref":
            depth_have += 1
            u = ip.prog.types[u["to"]]
        if selfty["k"] == "ref":
            if depth_have == 0:
                obj = ("L", d + 1, "env%d" % len(ip.stack))
                obj = ("L", d, "env%d_%d" % (len(ip.stack), st.fresh))
                st.fresh += 1
                st.heap[obj] = f
                a0 = ref(obj, ())
            else:
                a0 = f
                for _ in range(depth_have - 1):
                    a0 = deref(ip, st, a0)
        else:
            a0 = f
            for _ in range(depth_have):
                a0 = deref(ip, st, a0)
        if ip.stack.count(key) >= 2:
            return None
        return ip.call_body(key, [a0] + params, st, d + 1)
    if t["k"] == "fndef":
        v = f
        if byref:
            v = deref(ip, st, f)
        r = call_value(ip, st, v, args[1], d, line)
        if r is not None:
            return r
        return ctor_call(ip, st, v, args[1], tys[1])
    if t["k"] in ("param", "alias", "other"):
        # user closure behind references
        v = f
        u = ip.prog.types[tys[0]]
        while u["k"] == "ref":
            v2 = deref(ip, st, v)
            u = ip.prog.types[u["to"]]
            if u["k"] == "ref":
                v = v2
        if byref and fn["name"] == "call_once":
            # FnOnce for &mut F: f is the reference
            fn = dict(fn, name="call_mut")
            return m_call(ip, st, fn, [v, args[1]], tys, d, line)
        return m_call(ip, st, fn, [v, args[1]], tys, d, line)
    return None


def ctor_call(ip, st, v, tup, tty):
    return None


def m_borrow(ip, st, fn, args, tys, d, line):
    # Borrow<P> on the index argument: denotes the pointer itself
    v = deref(ip, st, args[0])
    st.fresh += 1
    obj = ("L", d, "borrow%d" % st.fresh)
    st.heap[obj] = T("borrowed", v)
    return [(st, ref(obj, ()))]


TRAIT = {
    ("Ptr", "inx"): m_inx,
    ("Ptr", "generation"): m_gen,
    ("Ptr", "_from_raw"): m_from_raw,
    ("Ptr", "invalid"): m_invalid,
    ("PtrInx", "new"): m_first,
    ("PtrInx", "get"): m_first,
    ("PtrInx", "max"): m_max,
    ("PtrGen", "one"): m_one,
    ("PtrGen", "two"): m_two,
    ("PtrGen", "increment"): m_inc,
    ("PartialEq", "eq"): m_eq,
    ("PartialEq", "ne"): m_eq,
    ("PartialOrd", "lt"): m_ordcmp,
    ("PartialOrd", "le"): m_ordcmp,
    ("PartialOrd", "gt"): m_ordcmp,
    ("PartialOrd", "ge"): m_ordcmp,
    ("PartialOrd", "partial_cmp"): m_ordcmp,
    ("Ord", "cmp"): m_ordcmp,
    ("Clone", "clone"): m_clone,
    ("Borrow", "borrow"): m_borrow,
}


def m_range_next(ip, st, fn, args, tys, d, line):
    t = ip.prog.types[ip.prog.types[tys[0]]["to"]]
    incl = t.get("path") == "core::ops::range::RangeInclusive"
    if t.get("path") != "core::ops::range::Range" and not incl:
        return None
    o, p = target(st, args[0])
    a = ip.read_loc(st, o, p + (("f", 0, 0),))
    b = ip.read_loc(st, o, p + (("f", 0, 1),))
    if ip.decide_le(st, a if incl else lin_add(a, I(1)), b):
        ip.write_loc(st, o, p + (("f", 0, 0),), lin_add(st.facts.norm(a), I(1)))
        return [(st, some(a))]
    return [(st, none())]


def m_nz_eq(ip, st, fn, args, tys, d, line):
    t = tys[0]
    ty = ip.prog.types[t]
    if ty["k"] == "ref" and (ip.prog.is_nonzero(ty["to"]) or ip.prog.types[ty["to"]]["k"] in ("int", "bool")):
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        r = ip.decide_eq(st, a, b)
        if fn["name"] == "ne":
            r = not r
        return [(st, TRUE if r else FALSE)]
    if ty["k"] == "ref" and ip.prog.types[ty["to"]]["k"] == "tuple" and not ip.prog.types[ty["to"]]["args"]:
        return [(st, FALSE if fn["name"] == "ne" else TRUE)]
    return None


def m_nz_ord(ip, st, fn, args, tys, d, line):
    ty = ip.prog.types[tys[0]]
    if ty["k"] == "ref" and (ip.prog.is_nonzero(ty["to"]) or ip.prog.types[ty["to"]]["k"] == "int"):
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        n = fn["name"]
        x, y = (a, b) if n in ("lt", "le") else (b, a)
        if n in ("lt", "gt"):
            x = lin_add(x, I(1))
        return [(st, TRUE if ip.decide_le(st, x, y) else FALSE)]
    return None


def m_nz_clone(ip, st, fn, args, tys, d, line):
    ty = ip.prog.types[tys[0]]
    if ty["k"] == "ref":
        to = ip.prog.types[ty["to"]]
        if ip.prog.is_nonzero(ty["to"]) or to["k"] in ("int", "bool") or (to["k"] == "tuple" and not to["args"]):
            return [(st, deref(ip, st, args[0]))]
    return None


def m_nz_cmp(ip, st, fn, args, tys, d, line):
    ty = ip.prog.types[tys[0]]
    if ty["k"] == "ref" and (ip.prog.is_nonzero(ty["to"]) or ip.prog.types[ty["to"]]["k"] == "int"):
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        x = ip.decide_le(st, a, b)
        y = ip.decide_le(st, b, a)
        o = agg("core::cmp::Ordering", 1 if x and y else (0 if x else 2), None, ())
        return [(st, o if fn["name"] == "cmp" else some(o))]
    return None


def m_range_incl(ip, st, fn, args, tys, d, line):
    return [(st, agg("core::ops::range::RangeInclusive", 0, None, ((0, args[0]), (1, args[1]))))]


def m_minmax(ip, st, fn, args, tys, d, line):
    if not (ip.prog.is_nonzero(tys[0]) or ip.prog.types[tys[0]]["k"] == "int"):
        return None
    low = ip.decide_le(st, args[0], args[1])
    return [(st, args[0] if low == (fn["name"] == "min") else args[1])]


def m_hash(ip, st, fn, args, tys, d, line):
    if (fn.get("rpath") or "core::").split("::")[0] not in ("core", "alloc"):
        return None
    st.event("hash", deep(ip, st, args[0], tys[0]), args[1])
    st.fresh += 1
    havoc_args(ip, st, args, tys, st.fresh)
    return [(st, UNIT)]


TRAIT_ANY = {
    ("core::hash::Hash", "hash"): m_hash,
    ("core::ops::function::FnOnce", "call_once"): m_fn_trait,
    ("core::ops::function::FnMut", "call_mut"): m_fn_trait,
    ("core::ops::function::Fn", "call"): m_fn_trait,
    ("core::iter::traits::iterator::Iterator", "next"): m_range_next,
    ("core::cmp::PartialEq", "eq"): m_nz_eq,
    ("core::cmp::PartialEq", "ne"): m_nz_eq,
    ("core::cmp::PartialOrd", "lt"): m_nz_ord,
    ("core::cmp::PartialOrd", "le"): m_nz_ord,
    ("core::cmp::PartialOrd", "gt"): m_nz_ord,
    ("core::cmp::PartialOrd", "ge"): m_nz_ord,
    ("core::cmp::PartialOrd", "partial_cmp"): m_nz_cmp,
    ("core::cmp::Ord", "cmp"): m_nz_cmp,
    ("core::cmp::Ord", "min"): m_minmax,
    ("core::cmp::Ord", "max"): m_minmax,
    ("core::clone::Clone", "clone"): m_nz_clone,
}
