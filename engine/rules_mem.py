"""Memory safety of the slot storage (M01).

The slot vector is analysed as the plain struct it is: addresses are linear
terms counted in elements, and each function is replayed with a ghost heap of
live allocations (address, capacity, number of initialised elements).
"""
from terms import *
from interp import Limit, State
from layout import last
from models import some, none, m_never
from subject import cases
from rules_core import Finding, path_text


def ok(v):
    return agg("core::result::Result", 0, None, ((0, v),))


def err():
    return agg("core::result::Result", 1, None, ((0, T("layouterror")),))


def signed(n):
    if is_int(n) and n.args[0] >= 1 << 63:
        return I(n.args[0] - (1 << 64))
    return n


def m_padd(ip, st, fn, args, tys, d, line):
    if not element(ip, tys[0]):
        raise Limit("arithmetic on a pointer to bytes")
    return [(st, lin_add(st.facts.norm(args[0]), signed(st.facts.norm(args[1]))))]


def m_psub(ip, st, fn, args, tys, d, line):
    if not element(ip, tys[0]):
        raise Limit("arithmetic on a pointer to bytes")
    return [(st, lin_sub(st.facts.norm(args[0]), signed(st.facts.norm(args[1]))))]


def element(ip, ty):
    t = ip.prog.types[ty]
    return t["k"] == "ptr" and ip.prog.types[t["to"]]["k"] != "int"


def m_write(ip, st, fn, args, tys, d, line):
    st.event("mwrite", st.facts.norm(args[0]), args[1])
    return [(st, UNIT)]


def m_read(ip, st, fn, args, tys, d, line):
    st.event("mread", st.facts.norm(args[0]))
    st.fresh += 1
    return [(st, T("moved", st.fresh))]


def m_drop_in_place(ip, st, fn, args, tys, d, line):
    st.event("mread", st.facts.norm(args[0]))
    return [(st, UNIT)]


def m_copy(ip, st, fn, args, tys, d, line):
    if not element(ip, tys[0]):
        raise Limit("copies bytes")
    st.event("mcopy", st.facts.norm(args[0]), st.facts.norm(args[1]), st.facts.norm(args[2]))
    return [(st, UNIT)]


def m_array(ip, st, fn, args, tys, d, line):
    n = st.facts.norm(args[0])
    if ip.truth(st, T("bool", "toobig", n)):
        return [(st, err())]
    return [(st, ok(T("layout", n)))]


def m_size(ip, st, fn, args, tys, d, line):
    from models import deref
    v = args[0]
    if ip.prog.types[tys[0]]["k"] == "ref":
        v = deref(ip, st, v)
    return [(st, T("lsize", st.facts.norm(v)))]


def m_alloc(ip, st, fn, args, tys, d, line):
    st.fresh += 1
    a = T("block", st.fresh)
    st.event("malloc", a, st.facts.norm(args[0]))
    return [(st, a)]


def m_realloc(ip, st, fn, args, tys, d, line):
    st.fresh += 1
    a = T("block", st.fresh)
    st.event("mrealloc", a, st.facts.norm(args[0]), st.facts.norm(args[1]), st.facts.norm(args[2]))
    return [(st, a)]


def m_dealloc(ip, st, fn, args, tys, d, line):
    st.event("mfree", st.facts.norm(args[0]), st.facts.norm(args[1]))
    return [(st, UNIT)]


def m_is_null(ip, st, fn, args, tys, d, line):
    return [(st, T("bool", "null", st.facts.norm(args[0])))]


def m_null(ip, st, fn, args, tys, d, line):
    return [(st, I(0))]


def m_pow2(ip, st, fn, args, tys, d, line):
    r = T("pow2", st.facts.norm(args[0]))
    st.facts.assume_le(args[0], r)
    st.facts.assume_le(I(1), r)
    return [(st, r)]


def m_clamp(ip, st, fn, args, tys, d, line):
    if ip.prog.types[tys[0]]["k"] != "int":
        return None
    x, lo, hi = args
    if ip.decide_le(st, x, lo):
        return [(st, lo)]
    if ip.decide_le(st, hi, x):
        return [(st, hi)]
    return [(st, x)]


TABLE = {
    "core::ptr::write": m_write, "core::ptr::read": m_read, "core::ptr::copy": m_copy,
    "core::ptr::copy_nonoverlapping": m_copy, "core::ptr::drop_in_place": m_drop_in_place,
    "core::ptr::null": m_null, "core::ptr::null_mut": m_null,
    "alloc::alloc::alloc": m_alloc, "alloc::alloc::realloc": m_realloc, "alloc::alloc::dealloc": m_dealloc,
    "alloc::alloc::handle_alloc_error": m_never,
    "core::alloc::layout::Layout::array": m_array, "core::alloc::layout::Layout::size": m_size,
    "core::num::<impl usize>::next_power_of_two": m_pow2,
    "core::cmp::Ord::clamp": m_clamp,
}
for q in ("mut_ptr::<impl *mut T>", "const_ptr::<impl *const T>"):
    for n in ("wrapping_add", "wrapping_offset", "add", "offset"):
        TABLE[f"core::ptr::{q}::{n}"] = m_padd
    for n in ("wrapping_sub", "sub"):
        TABLE[f"core::ptr::{q}::{n}"] = m_psub
    TABLE[f"core::ptr::{q}::is_null"] = m_is_null
    TABLE[f"core::ptr::{q}::write"] = m_write
    TABLE[f"core::ptr::{q}::read"] = m_read
    TABLE[f"core::ptr::{q}::copy_to"] = m_copy
    TABLE[f"core::ptr::{q}::copy_to_nonoverlapping"] = m_copy


def vec_ty(s, ty):
    t = s.prog.types[ty]
    while t["k"] == "ref":
        ty, t = t["to"], s.prog.types[t["to"]]
    return ty if s.prog.is_vec(ty) else None


def picks_storage(s):
    """Safe functions of the slot vector: those others can call."""
    if s.f["key"] is None or not (s.f["pub"] or s.f.get("trait")):
        return False
    return bool(s.tys) and vec_ty(s, s.tys[0]) is not None or vec_ty(s, s.f["output"]) is not None and \
        "NonZeroInxVec" in s.path


def calls(body):
    for b in body["blocks"]:
        t = b["t"]
        if t[0] == "call" and "c" in t[1] and "fn" in t[1]["c"]:
            yield t[1]["c"]["fn"], t[1]["c"]["ty"]


def is_unsafe(prog, ty):
    return "unsafe" in prog.types[ty]["s"].split("fn(")[0].split()


def touches(s, f, seen):
    """Does the function itself (or a private part of the vector it calls) use
    fields of the vector, raw pointers or unsafe functions?"""
    body = s.prog.bodies[f["key"]]
    if f["path"] in seen:
        return False
    seen.add(f["path"])
    tys = s.prog.types

    def place(p):
        ty = body["locals"][p[0]]
        for e in p[1:]:
            if e == "*":
                if tys[ty]["k"] == "ptr":
                    return True
                ty = tys[ty].get("to", ty)
            elif e[0] == "f":
                if s.prog.is_vec(ty):
                    return True
                ty = e[2]
        return False

    def walk(x):
        if isinstance(x, dict):
            if "p" in x and isinstance(x["p"], list) and place(x["p"]):
                return True
            return any(walk(v) for v in x.values())
        if isinstance(x, list):
            if len(x) > 1 and x[0] in ("ref", "raw", "discr") and isinstance(x[-1], list) and x[-1] and \
                    isinstance(x[-1][0], int) and place(x[-1]):
                return True
            if x and x[0] == "agg" and isinstance(x[1], dict) and x[1].get("k") == "adt" and s.prog.is_vec(x[1]["ty"]):
                return True
            return any(walk(v) for v in x)
        return False
    for b in body["blocks"]:
        for st in b["s"]:
            if walk(st) or len(st) > 1 and st[0] == "=" and isinstance(st[1], list) and st[1] and isinstance(st[1][0], int) and place(st[1]):
                return True
    for fn, ty in calls(body):
        if is_unsafe(s.prog, ty):
            return True
        g = s.prog.by_path.get(fn.get("rpath") or fn["path"])
        if g is not None and g["key"] is not None and not (g["pub"] or g.get("trait")) and touches(s, g, seen):
            return True
    return False


class Fields:
    def __init__(self, s, ty):
        fs = s.prog.types[ty]["variants"][0]["fields"]
        ints = [i for i, f in enumerate(fs) if s.prog.types[f["ty"]]["k"] == "int"]
        self.ptr = [i for i, f in enumerate(fs) if s.prog.types[f["ty"]]["k"] == "ptr"]
        self.len = [i for i in ints if "len" in fs[i]["name"]]
        self.cap = [i for i in ints if "cap" in fs[i]["name"]]
        self.good = len(self.ptr) == len(self.len) == len(self.cap) == 1 and len(ints) == 2

    def of(self, v):
        return fld(v, 0, self.ptr[0]), fld(v, 0, self.cap[0]), fld(v, 0, self.len[0])


class Block:
    def __init__(self, base, cap, init):
        self.base, self.cap, self.init, self.live = base, cap, init, True


def rule_storage(s):
    s.ip.rawmem = True
    s.ip.models.rawmem = True
    s.ip.models.contracts.update(TABLE)
    ty = vec_ty(s, s.tys[0]) if s.tys else None
    if ty is None:
        ty = vec_ty(s, s.f["output"])
    F = Fields(s, ty)
    if not F.good:
        return [Finding("M01", s.path, "the slot vector's pointer, capacity and length were not recognised")]
    mine = s.tys and vec_ty(s, s.tys[0]) is not None
    obj = s.args[0] if mine else None
    out = []
    n = 0
    if mine:
        p, c, l = F.of(T("deref", obj))
        s.st0.facts.assume_le(l, c)
    for a, t in zip(s.args, s.tys):
        if s.prog.is_nonzero(t):
            s.st0.facts.assume_le(I(1), a)
    if s.name not in EMPTIES and not touches(s, s.f, set()):
        # only calls safe functions that are judged themselves
        s.checked = 1
        return []
    s.run()
    ends = [(it.back, None, it.head.events, it) for it in s.ip.iterations]
    ends += [(st, ret, st.events[:0], None) for st, ret in s.out]
    for it in s.ip.iterations:
        ends.append((it.entry, None, (), it))
    for st, ret, ev, it in ends:
        def check(c):
            return replay(s, c, F, obj, ret, it)
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("M01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def start_of(s, c, obj):
    """Slot vector at the start of the last stretch, and the events since."""
    k, v = 0, T("deref", obj)
    for i, e in enumerate(c.events):
        if e[0] == "head":
            heap = dict(e[2])
            k, v = i, heap.get(obj, T("deref", obj))
    return v, c.events[k:]


def replay(s, c, F, obj, ret, it):
    bad = []
    D = lambda a, b: c.facts.decide_le(a, b) is True
    same = lambda a, b: c.facts.eq(a, b) is True
    blocks = []
    events = c.events
    if obj is not None:
        v, events = start_of(s, c, obj)
        p, cap, ln = F.of(v)
        # holds at the start and, as every stretch ends with it, at loop heads
        c.facts.assume_le(ln, cap)
        if s.ip.decide_eq(c, cap, I(0)):
            c.facts.assume_eq(ln, I(0))
        else:
            blocks.append(Block(lin_add(c.facts.norm(p), I(1)), cap, ln))

    def at(addr):
        for b in blocks:
            if b.live:
                d = lin_sub(c.facts.norm(addr), c.facts.norm(b.base))
                if D(I(0), lin_add(d, I(0))) or not any(t.op == "block" or t is c.facts.norm(b.base) for t in lin_parts(d)[1]):
                    return b, d
        return None, None
    muts = []
    for e in events:
        if e[0] == "touch":
            b, k = at(e[1])
            if b is None or not (D(I(0), k) and D(lin_add(k, I(1)), b.init)):
                bad.append("a slot is accessed without its index being found within the length")
            if e[2]:
                muts.append(e[1])
        elif e[0] == "mwrite":
            b, k = at(e[1])
            if b is None or not (D(I(0), k) and D(lin_add(k, I(1)), b.cap)):
                bad.append("writes beyond the capacity")
            elif same(k, b.init):
                b.init = lin_add(c.facts.norm(b.init), I(1))
            elif not D(lin_add(k, I(1)), b.init):
                bad.append("writes a slot beyond the next one")
        elif e[0] == "mread":
            b, k = at(e[1])
            if b is None or not (D(I(0), k) and D(lin_add(k, I(1)), b.init)):
                bad.append("reads a slot that is not within the length")
            elif not same(lin_add(k, I(1)), b.init):
                bad.append("moves out a slot that stays in use")
            else:
                b.init = k
        elif e[0] == "malloc":
            n = e[2]
            if not (n.op == "layout" and D(I(1), n.args[0])):
                bad.append("allocates an empty layout")
            blocks.append(Block(e[1], n.args[0] if n.op == "layout" else n, I(0)))
        elif e[0] == "mrealloc":
            b = next((b for b in blocks if b.live and same(e[2], b.base)), None)
            n, z = e[3], e[4]
            if b is None or not (n.op == "layout" and same(n.args[0], b.cap)):
                bad.append("resizes storage with another pointer or layout than it was allocated with")
                continue
            if not (z.op == "lsize" and z.args[0].op == "layout"):
                raise Limit("size not of a layout")
            m = z.args[0].args[0]
            if not D(I(1), m) or not D(b.init, m):
                bad.append("resizes storage below the slots in use")
            b.live = False
            blocks.append(Block(e[1], m, b.init))
        elif e[0] == "mfree":
            b = next((b for b in blocks if b.live and same(e[1], b.base)), None)
            if b is None or not (e[2].op == "layout" and same(e[2].args[0], b.cap)):
                bad.append("frees storage with another pointer or layout than it was allocated with")
            else:
                b.live = False
        elif e[0] == "mcopy":
            a = next((b for b in blocks if b.live and same(e[1], b.base)), None)
            b = next((b for b in blocks if b.live and same(e[2], b.base)), None)
            if a is None or b is None or not D(e[3], a.init) or not D(e[3], b.cap):
                bad.append("copies slots outside their storage")
            else:
                b.init = e[3]
    if obj is None:
        v = ret
    else:
        v = s.ip.read_loc(c, obj, ())
    p, cap, ln = F.of(v)
    if c.facts.eq(cap, I(0)) is None:
        s.ip.decide_eq(c, cap, I(0))
    if same(cap, I(0)):
        if not empty(c, ln):
            bad.append("has a length without capacity")
        if any(b.live for b in blocks):
            bad.append("forgets storage it still holds")
    else:
        base = lin_add(c.facts.norm(p), I(1))
        b = next((b for b in blocks if b.live and same(b.base, base)), None)
        if b is None:
            bad.append("does not point at the storage it holds")
        else:
            if not same(b.cap, cap):
                bad.append("its capacity is not that of its storage")
            if not same(b.init, ln):
                bad.append("its length is not the number of slots in use")
            if b.base.op == "block" and c.facts.eq(T("bool", "null", b.base), FALSE) is not True:
                bad.append("uses storage without having tested that there is any")
            if not D(ln, cap):
                bad.append("its length exceeds its capacity")
    if ret is not None and s.name in EMPTIES and not empty(c, ln):
        bad.append("leaves elements behind")
    if ret is not None and s.name == "push" and not any(e[0] == "mwrite" and e[2] is s.args[1] for e in c.events):
        bad.append("does not store what it is given")
    if ret is not None and len(muts) > 1 and refs_in(s) > 1:
        for i, x in enumerate(muts):
            for y in muts[:i]:
                if c.facts.eq(x, y) is not False and c.facts.eq(lin_sub(x, y), I(0)) is not False:
                    bad.append("hands out the same slot twice")
    return bad


# relied on by the models of these functions
EMPTIES = ("clear", "clear_and_shrink")


def empty(c, ln):
    if c.facts.decide_le(ln, I(0)) is True:
        return True
    if any(t.op == "w" for t in lin_parts(c.facts.norm(ln))[1]):
        raise Limit("length after a loop")
    return False


def refs_in(s):
    def count(ty):
        t = s.prog.types[ty]
        if t["k"] == "ref":
            return 1 if t["mut"] else 0
        if t["k"] in ("tuple", "adt"):
            return sum(count(a) for a in t.get("args", ()))
        return 0
    return count(s.f["output"])


# ------------------------------------------- unchecked conversions elsewhere

NONZERO = ("nzusize_unchecked", "ptrinx_unchecked", "new_unchecked")
DEAD = ("core::hint::unreachable_unchecked", "core::intrinsics::unreachable")


def unsafe_calls(prog, f, seen):
    """Unsafe functions called by `f` or by private functions it calls."""
    if f["key"] is None or f["path"] in seen:
        return set()
    seen.add(f["path"])
    out = set()
    for fn, ty in calls(prog.bodies[f["key"]]):
        p = fn.get("rpath") or fn["path"]
        if is_unsafe(prog, ty) and "fmt::Arguments" not in p:
            out.add(p)
            continue
        g = prog.by_path.get(p)
        if g is not None and "nonzero_inx_vec" not in g["path"] and not (g["pub"] or g.get("trait")):
            out |= unsafe_calls(prog, g, seen)
    return out


def picks_unchecked(s):
    if "nonzero_inx_vec" in s.path and "NonZeroInxVec" in s.path:
        return False
    f = s.f
    if not (f["pub"] or f.get("trait")) or f["name"] in NONZERO:
        return False
    return bool(unsafe_calls(s.prog, f, set()))


def rule_unchecked(s):
    ip = s.ip
    tab = ip.models.contracts
    done = {}
    unknown = set()
    for p in unsafe_calls(s.prog, s.f, set()):
        n = last(p)
        if n in NONZERO:
            done[p] = n
        elif p not in DEAD and n != "unwrap_unchecked":
            unknown.add(p)
    if unknown:
        raise Limit("unsafe function " + sorted(unknown)[0])

    def nz(ip, st, fn, args, tys, d, line):
        ip.raw_derefs.append(("!" + fn["name"], st.facts.decide_le(I(1), args[0]) is True, args[0], path_text(st)))
        return [(st, args[0])]

    def dead(ip, st, fn, args, tys, d, line):
        ip.raw_derefs.append(("!" + fn["name"], False, None, path_text(st)))
        return []
    for p in done:
        tab[p] = nz
    for p in DEAD:
        tab[p] = dead

    def unwrap(ip, st, fn, args, tys, d, line):
        if last(ip.prog.types[tys[0]]["path"]) != "Option":
            raise Limit("unsafe function " + fn["path"])
        if s.variant(st, args[0]) == 0:
            return dead(ip, st, fn, args, tys, d, line)
        return [(st, fld(args[0], 1, 0))]
    for p in unsafe_calls(s.prog, s.f, set()):
        if last(p) == "unwrap_unchecked":
            tab[p] = unwrap
    s.run()
    out = []
    for name, good, _, text in ip.raw_derefs:
        if name[0] != "!":
            continue
        s.checked += 1
        if not good:
            out.append(Finding("M01", s.path, f"`{name[1:]}` is given an index that may be zero" if name[1:] in NONZERO
                               else "reaches code declared unreachable", text))
    return out


def picks_mut_items(s):
    from rules_iter import picks_step
    return s.name == "next" and refs_in(s) > 0 and picks_step(s)
