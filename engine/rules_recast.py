"""Recasting (R01): every stored value (and key) is handed to the recaster,
errors stop it, and recasters made from arenas map live pointers only."""
from terms import *
from interp import Limit
from layout import last
from models import target
from subject import cases
from rules_core import Finding, path_text, same_value, ptr_parts, valid
from rules_iter import trait_is
from rules_cmp import install_walk, walk_inx

ORDER = ("keys", "nodes", "chain", "chain_ng", "plain", "vals")


def picks_recast(s):
    return trait_is(s.f, "Recast") and s.name == "recast"


def data_place(s, z, p):
    """Place of the data of entry `p` that is to be recast."""
    L = s.L
    proj = z.proj + (("f", 0, L.a_m), ("ix", walk_inx(s, z, p)), ("f", L.alloc, L.e_t))
    if z.link:
        proj += (("f", 0, z.link[1]),)
    if z.role == "keys":
        proj += (("f", 0, L.k_k),)
    elif z.role == "vals":
        proj += (("f", 0, L.v_v),)
    elif z.role == "nodes":
        proj += (("f", 0, L.n_f["v"]),)
    return z.obj, proj


def recasts(s, events):
    return [e for e in events if e[0] == "opaque" and last(e[1]) in ("recast", "recast_item")]


def covers(s, c, a, b):
    """Whether the place `a` contains the place `b`."""
    (o, p), (o2, p2) = a, b
    if not (o is o2 or o == o2) or len(p) > len(p2):
        return False
    return all(x == y or x[0] == y[0] == "ix" and c.facts.eq(x[1], y[1]) is True for x, y in zip(p, p2))


def rule_recast(s):
    t = s.L.strip(s.tys[0])
    if t["path"] in s.L.kinds:
        return recast_arena(s)
    return recast_parts(s, t)


def judge_calls(s, c, calls, places, bad):
    """Calls of this stretch against the places they must cover; True if the
    last one failed."""
    left = list(places)
    for k, e in enumerate(calls):
        item, by = e[2][:2] if last(e[1]) == "recast" else e[2][1::-1]
        hit = [q for q in places if covers(s, c, target(c, item), q)]
        if not hit:
            bad.append("recasts something other than the data of the entry")
        elif any(q not in left for q in hit):
            bad.append("recasts the same data twice")
        left = [q for q in left if q not in hit]
        if target(c, by) != target(c, s.args[1]):
            bad.append("does not use the given recaster")
        if s.variant(c, T("ret", e[3])) == 1:
            if k + 1 < len(calls):
                bad.append("goes on after an error")
            return True, left
    return False, left


def failed_with(s, c, ret, e):
    return s.variant(c, ret) == 1 and same_value(s, c, fld(ret, 1, 0), fld(T("ret", e[3]), 1, 0))


def recast_arena(s):
    zs = sorted((z for z in s.by.get(1, ())), key=lambda z: ORDER.index(z.role))
    if not zs:
        return [Finding("R01", s.path, "no arena to recast was found")]
    install_walk(s, zs)
    s.run()
    out = []
    n = 0
    ends = [(it.back, None, len(it.head.events)) for it in s.ip.iterations]
    ends += [(st, ret, None) for st, ret in s.out]
    for st, ret, since in ends:
        def check(c):
            bad = []
            events = c.events[since:] if since is not None else c.events
            # stretches between loop heads
            runs = [[]]
            for e in events:
                if e[0] == "head":
                    runs.append([])
                else:
                    runs[-1].append(e)
            seen = set()
            for k, run in enumerate(runs):
                walk = [e for e in run if e[0] == "walk"]
                if any(e[2] == "foreign" for e in walk):
                    bad.append("walks the wrong arena")
                    continue
                places = [data_place(s, zs[e[1]], e[2]) for e in walk if e[2] is not None]
                calls = recasts(s, run)
                failed, left = judge_calls(s, c, calls, places, bad)
                if failed:
                    if ret is None or k + 1 < len(runs) or not failed_with(s, c, ret, calls[-1]):
                        bad.append("does not stop with the recaster's error")
                    return bad
                if left:
                    bad.append("an entry's data is not recast")
                seen |= {zs[e[1]].role for e in walk if e[2] is None}
            if ret is not None:
                if s.variant(c, ret) != 0:
                    bad.append("fails without an error of the recaster")
                elif seen != {z.role for z in zs}:
                    bad.append("not all entries are visited")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("R01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def recast_parts(s, t):
    """Links recast both parts; pointers hand themselves to the recaster."""
    s.run()
    obj = s.args[0]
    out = []
    n = 0
    for st, ret in s.out:
        def check(c):
            bad = []
            calls = recasts(s, c.events)
            places = [(obj, ())]
            if t["path"] in s.L.links:
                pn, d = s.L.links[t["path"]][:2]
                places = [(obj, (("f", 0, pn), ("f", 0, k), ("f", 1, 0))) for k in (0, 1)
                          if s.variant(c, fld(fld(T("deref", obj), 0, pn), 0, k)) == 1]
                places.append((obj, (("f", 0, d),)))
            failed, left = judge_calls(s, c, calls, places, bad)
            if failed:
                if not failed_with(s, c, ret, calls[-1]):
                    bad.append("does not stop with the recaster's error")
            elif left:
                bad.append("a part is not recast")
            elif s.variant(c, ret) != 0:
                bad.append("fails without an error of the recaster")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("R01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


def picks_mapper(s):
    return trait_is(s.f, "Recaster") and s.name == "recast_item" and s.self_kind() is not None


def rule_mapper(s):
    z = s.by[1][0]
    item = s.args[1]
    p0 = T("deref", item)
    out = []
    n = 0
    s.run()
    for st, ret in s.out:
        def check(c):
            bad = []
            v = s.ip.read_loc(c, item, ())
            if s.variant(c, ret) == 0:
                if not valid(s, c, z, p0):
                    return ["maps a pointer that is not live in the arena"]
                e = s.ip.vec_get(c, z.pre_m(), p_inx(p0))
                if not same_value(s, c, v, z.payload(e)):
                    bad.append("does not map to what the arena holds for the pointer")
                return bad
            if valid(s, c, z, p0):
                bad.append("refuses a live pointer")
            if not same_value(s, c, v, p0):
                bad.append("changes a pointer it does not know")
            if not same_value(s, c, fld(ret, 1, 0), p0):
                bad.append("does not say which pointer is unknown")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("R01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out
