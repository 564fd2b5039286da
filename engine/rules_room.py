"""Capacity, reservation and clearing (V01)."""
from terms import *
from models import target
from subject import cases
from rules_core import Finding, path_text, same_value, key_sub
import rules_mem as mem

GROW = ("reserve", "reserve_keys", "reserve_vals")
SIZES = ("len", "len_keys", "len_vals", "capacity", "capacity_keys", "capacity_vals", "is_empty", "generation")
CLEARS = ("clear", "clear_and_shrink")
VEC = ("reserve", "clear", "clear_and_shrink", "shrink_to_fit", "drop", "len", "capacity", "is_empty")


def addressed(s):
    """The storage a function is about by its name: keys unless said otherwise."""
    if s.name.endswith("_vals"):
        return next((z for z in s.by[1] if z.role == "vals"), None)
    return key_sub(s) or next((z for z in s.by[1] if z.role != "vals"), None)


def picks_room(s):
    if s.f.get("trait") or not s.f["pub"] or s.self_kind() is None or not s.by.get(1):
        return False
    n = sum(s.prog.types[t]["k"] == "int" for t in s.tys)
    return s.name in GROW and n == 1 or s.name in SIZES + CLEARS and len(s.tys) == 1


def watch_release(s):
    """Note which slot vectors are emptied and which give up their memory."""
    tab = s.ip.models.contracts
    for f in s.prog.fns:
        if "NonZeroInxVec" not in f["path"] or f["name"] not in ("clear", "clear_and_shrink", "shrink_to_fit"):
            continue

        def model(ip, st, fn, args, tys, d, line, name=f["name"]):
            obj, proj = target(st, args[0])
            if name != "shrink_to_fit":
                ip.write_loc(st, obj, proj, vec(st.new("emptied"), (), I(0)))
            st.event("emptied" if name == "clear" else "released", (obj, proj), ip.as_vec(ip.read_loc(st, obj, proj)).base)
            return [(st, UNIT)]
        tab[f["path"]] = model


def released(c, base):
    """The slot vector that holds `base` was not only emptied."""
    kept = [e[1] for e in c.events if e[0] == "emptied" and e[2] is base]
    return not any(not any(e[0] == "released" and e[1] == k for e in c.events) for k in kept)


def rule_room(s):
    """Reserving makes the room asked for and clearing vacates every storage;
    sizes are those of the storage named."""
    z = addressed(s)
    if z is None:
        return [Finding("V01", s.path, "the storage it is about was not recognised")]
    L = s.L
    for x in s.by[1]:
        s.st0.facts.assume_le(fld(x.val0, 0, L.a_len), x.pre_m().len)
    watch_release(s)
    s.run()
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            bad = []
            f = c.facts
            if s.name in SIZES:
                ln = fld(z.val0, 0, L.a_len)
                if s.name.startswith("is_empty"):
                    # keys and values are gone together (S01)
                    e = {s.ip.decide_eq(c, fld(x.val0, 0, L.a_len), I(0)) for x in s.by[1]}
                    if len(e) > 1:
                        return bad
                    want = TRUE if s.ip.decide_eq(c, ln, I(0)) else FALSE
                else:
                    want = ln if s.name.startswith("len") else z.pre_m().len
                    if s.name == "generation":
                        want = fld(z.val0, 0, L.a_gen)
                if f.eq(ret, want) is not True:
                    bad.append("does not give the size of the storage it is about")
                return bad
            for x in s.by[1]:
                m, pre = x.m(c), x.pre_m()
                if s.name in CLEARS:
                    if f.eq(x.len(c), I(0)) is not True:
                        bad.append("leaves entries behind")
                    if f.eq(m.len, I(0) if s.name == "clear_and_shrink" else pre.len) is not True:
                        bad.append("does not release the capacity" if s.name == "clear_and_shrink" else "changes the capacity")
                    elif s.name == "clear_and_shrink" and not released(c, m.base):
                        bad.append("keeps the memory of its capacity")
                    continue
                if f.eq(x.len(c), fld(x.val0, 0, L.a_len)) is not True or not same_value(s, c, x.gen(c), fld(x.val0, 0, L.a_gen)):
                    bad.append("reserving changes the length or generation")
                if x is z:
                    extra = next(a for a, t in zip(s.args, s.tys) if s.prog.types[t]["k"] == "int")
                    want = lin_add(f.norm(fld(x.val0, 0, L.a_len)), f.norm(extra))
                    if f.decide_le(want, m.len) is not True:
                        bad.append("reserves less than it was asked for")
                elif m.base is not pre.base or m.over or f.eq(m.len, pre.len) is not True:
                    bad.append("reserves in another storage than asked for")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("V01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def picks_end(s):
    """Dropping an iterator that empties an arena it borrows."""
    if s.name != "drop" or not s.f.get("trait") or not s.by.get(1):
        return False
    return s.self_kind() is None and all(isinstance(z.obj, Term) for z in s.by[1])


def rule_end(s):
    """A dropped draining iterator leaves an empty arena of the same capacity."""
    for x in s.by[1]:
        s.st0.facts.assume_le(fld(x.val0, 0, s.L.a_len), x.pre_m().len)
    s.run()
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            bad = []
            for x in s.by[1]:
                if c.facts.eq(x.len(c), I(0)) is not True:
                    bad.append("leaves entries behind")
                if c.facts.eq(x.m(c).len, x.pre_m().len) is not True:
                    bad.append("does not retain the capacity")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("V01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def picks_made(s):
    """Makes an arena for given numbers of entries."""
    if s.by or s.name != "with_capacity" or not all(s.prog.types[t]["k"] == "int" for t in s.tys) or not s.tys:
        return False
    t = s.out_ty()
    return t["k"] == "adt" and t["path"] in s.L.kinds


def rule_made(s):
    """An arena made with a capacity has that much room in each storage."""
    L = s.L
    s.run()
    subs = [(path, L.role(aty)) for path, aty in L.subs(s.f["output"])]
    # keys before values, as in the name of the parameters
    subs.sort(key=lambda x: x[1] == "vals")
    if len(subs) != len(s.args):
        return [Finding("V01", s.path, "the storages asked for were not recognised")]
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            bad = []
            for (path, _), a in zip(subs, s.args):
                v = ret
                for _, k, i in path:
                    v = fld(v, k, i)
                m = s.ip.as_vec(fld(v, 0, L.a_m))
                if c.facts.eq(fld(v, 0, L.a_len), I(0)) is not True:
                    bad.append("a new arena has entries")
                if c.facts.decide_le(a, m.len) is not True:
                    bad.append("has less capacity than it was made for")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("V01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def picks_vector(s):
    return s.name in VEC and mem.picks_storage(s) and s.tys and mem.vec_ty(s, s.tys[0]) is not None


def rule_vector(s):
    """The slot vector keeps, gives up or extends its storage as documented."""
    s.ip.rawmem = True
    s.ip.models.rawmem = True
    s.ip.models.contracts.update(mem.TABLE)
    F = mem.Fields(s, mem.vec_ty(s, s.tys[0]))
    if not F.good:
        return [Finding("V01", s.path, "the slot vector's pointer, capacity and length were not recognised")]
    obj = s.args[0]
    _, cap0, len0 = F.of(T("deref", obj))
    s.st0.facts.assume_le(len0, cap0)
    s.run()
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            bad = []
            f = c.facts
            if s.ip.decide_eq(c, cap0, I(0)):
                f.assume_eq(len0, I(0))
            _, cap, ln = F.of(s.ip.read_loc(c, obj, ()))
            if s.name == "len" and f.eq(ret, len0) is not True or s.name == "capacity" and f.eq(ret, cap0) is not True:
                bad.append("does not give its own size")
            elif s.name == "is_empty":
                if f.eq(ret, TRUE if s.ip.decide_eq(c, len0, I(0)) else FALSE) is not True:
                    bad.append("does not give its own size")
            elif s.name == "reserve":
                if f.eq(ln, len0) is not True:
                    bad.append("reserving changes the length")
                if f.decide_le(lin_add(f.norm(len0), f.norm(s.args[1])), cap) is not True:
                    bad.append("reserves less than it was asked for")
            elif s.name == "clear":
                if not mem.empty(c, ln):
                    bad.append("leaves elements behind")
                if f.eq(cap, cap0) is not True:
                    bad.append("changes the capacity")
            elif s.name in ("clear_and_shrink", "drop"):
                if not mem.empty(c, ln):
                    bad.append("leaves elements behind")
                if f.eq(cap, I(0)) is not True:
                    bad.append("does not release the capacity")
            elif s.name == "shrink_to_fit":
                if f.eq(ln, len0) is not True:
                    bad.append("shrinking changes the length")
                if f.eq(cap, ln) is not True:
                    bad.append("keeps more capacity than its length")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("V01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out
