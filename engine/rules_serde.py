"""Serialization (D01).

Calls into the serialization framework are opaque and recorded with the values
handed over. What a type writes is compared with where its deserialization puts
what it reads; validated types must have passed their validation, whose passes
are judged on data nothing is assumed about; the visitors that rebuild an arena
slot by slot are judged pass by pass and then by the content of an arbitrary
slot.
"""
import re
from terms import *
from facts import Contradiction
from interp import Limit
from layout import WF, last
from models import some, none, target
from subject import Subject, cases, loops
from rules_core import Finding, path_text, same_value, opt_val, pval_inx
from rules_iter import trait_is
from rules_cmp import install_walk, walk_inx, last_head, walked_sub
from sweep import contents, delta

PROP = "D01"
CHECKED = ("ChainArena", "ChainNoGenArena", "SurjectArena")


class Table(dict):
    """Models by path, then by a test of the path."""

    def __init__(self, base, rules):
        dict.__init__(self, base)
        self.rules = rules

    def get(self, p, default=None):
        m = dict.get(self, p)
        if m is not None:
            return m
        for test, m in self.rules:
            if test(p):
                return m
        return default


def tail(p):
    return p.split("::")[-1]


def framework(p):
    return p.startswith(("serde::", "serde_core::")) or tail(p) in ("serialize", "deserialize")


def result_of(s, f):
    """Type a fallible function makes, or None."""
    t = s.prog.types[f["output"]]
    if t["k"] != "adt" or last(t["path"]) != "Result":
        return None
    return s.prog.types[t["args"][0]]


def validates(s, f):
    """Kind of arena a function takes a look at and passes or refuses."""
    if f["key"] is None or len(f["inputs"]) != 1:
        return None
    t = s.prog.types[f["inputs"][0]]
    if t["k"] != "ref" or t["mut"]:
        return None
    o = result_of(s, f)
    if o is None or o["k"] != "tuple" or o["args"]:
        return None
    if s.prog.types[s.prog.types[f["output"]]["args"][1]]["k"] != "ref":
        return None
    return s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path"))


def install(s, validation=True):
    tab = s.ip.models.contracts

    def value(ip, st, a, ty):
        t = s.prog.types[ty]
        return ip.read_loc(st, *target(st, a)) if t["k"] == "ref" and s.prog.types[t["to"]]["k"] != "str" else a

    def call(ip, st, fn, args, tys, d, line):
        p = fn.get("rpath") or fn["path"]
        vals = tuple(value(ip, st, a, t) for a, t in zip(args, tys))
        st.fresh += 1
        n = st.fresh
        st.event("serde", tail(p), vals, T("ret", n), p, tuple(arenas(s, st)) if tail(p) in READS else ())
        return [(st, T("ret", n))]

    def valid(ip, st, fn, args, tys, d, line):
        st.fresh += 1
        v = T("ret", st.fresh)
        st.event("validated", ip.read_loc(st, *target(st, args[0])), v)
        return [(st, v)]
    s.ip.models.contracts = tab = Table(tab, [(framework, call)])
    if validation:
        for f in s.prog.fns:
            if validates(s, f) in CHECKED and f["path"] != s.path:
                tab[f["path"]] = valid


def of_serde(st, since=0):
    return [e for e in st.events[since:] if e[0] == "serde" and e[1] not in ("custom", "size_hint")]


# --- what is written is what is read back

def self_adt(s):
    t = s.L.strip(s.tys[0])
    return t["path"] if t["k"] == "adt" and t["local"] else None


def written_as_map(s):
    return s.L.kinds.get(self_adt(s)) in ("Arena", "OrdArena")


def picks_form(s):
    return trait_is(s.f, "Serialize") and s.name == "serialize" and self_adt(s) is not None and not written_as_map(s) \
        and "ptr" not in s.path.split("::")[-2]


def reader_of(s, path):
    for f in s.prog.fns:
        if f["key"] is not None and trait_is(f, "Deserialize") and f["name"] == "deserialize":
            o = result_of(s, f)
            if o is not None and o["k"] == "adt" and o["path"] == path:
                return f
    return None


def written(s, c, ret):
    """(form, error): the parts a successful path writes, in order."""
    evs = of_serde(c)
    if not evs:
        return None, "succeeds without writing anything"
    for e in evs[:-1]:
        if s.variant(c, e[3]) != 0:
            return None, "succeeds although a part could not be written"
    if not (same_value(s, c, ret, evs[-1][3]) or s.variant(c, evs[-1][3]) == 0):
        return None, "succeeds although a part could not be written"
    if evs[0][1] == "serialize":
        return (None, "writes more than itself") if len(evs) != 1 else (("whole", (evs[0][2][0],)), None)
    if evs[0][1] not in ("serialize_tuple", "serialize_seq"):
        raise Limit("another form of output")
    n = c.facts.norm(evs[0][2][1])
    parts = []
    for e in evs[1:-1]:
        if e[1] != "serialize_element":
            raise Limit("another form of output")
        parts.append(e[2][1])
    if evs[-1][1] != "end":
        return None, "does not finish what it writes"
    if not is_int(n):
        raise Limit("another form of output")
    if n.args[0] != len(parts):
        return None, "announces a different number of parts than it writes"
    return ("tuple", tuple(parts)), None


def rule_form(s):
    install(s)
    s.run()
    out = []
    forms = []
    n = 0

    def bad(s2, c, what):
        out.append(Finding(PROP, s2.path, what, path_text(c)))
    for st, ret in s.out:
        def one(c):
            if s.variant(c, ret) != 0:
                if all(s.variant(c, e[3]) == 0 for e in of_serde(c)):
                    return None, "fails although every part could be written"
                return None, None
            return written(s, c, ret)
        for c, (form, err) in cases(s.ip, st, one):
            n += 1
            if err:
                bad(s, c, err)
            elif form is not None and form not in forms:
                forms.append(form)
    f = reader_of(s, self_adt(s))
    if f is None:
        out.append(Finding(PROP, s.path, "has no deserialization"))
        return out
    r = Subject(s.prog, s.L, f, ())
    n += judge_reader(r, forms, T("deref", s.args[0]), out)
    s.checked = n
    return out


def judge_reader(r, forms, me, out):
    install(r)
    kind = r.L.kinds.get(result_of(r, r.f)["path"])
    r.run()
    n = 0

    def one(c, ret):
        evs = of_serde(c)
        checks = [e for e in c.events if e[0] == "validated"]
        if r.variant(c, ret) != 0:
            if all(r.variant(c, e[3]) == 0 for e in evs) and all(r.variant(c, e[2]) == 0 for e in checks):
                return "refuses input that was read and is well formed"
            return None
        if len(evs) != 1 or evs[0][1] != "deserialize":
            raise Limit("another form of input")
        if r.variant(c, evs[0][3]) != 0:
            return "succeeds although the input could not be read"
        x, d = fld(ret, 0, 0), fld(evs[0][3], 0, 0)
        m = re.search(r" for \(((?:T\d+(?:, )?)+)\)>::deserialize$", evs[0][4])
        arity = len(m.group(1).split(", ")) if m else None
        for form, parts in forms:
            if form == "tuple":
                if arity is None:
                    raise Limit("another form of input")
                if arity != len(parts):
                    return "reads a different number of parts than is written"
                want = [fld(d, 0, i) for i in range(arity)]
            else:
                if arity is not None:
                    raise Limit("another form of input")
                want = [d]
            for i, (p, w) in enumerate(zip(parts, want)):
                if not same_value(r, c, subst(p, {me: x}), w):
                    return "part %d is read into another place than it is written from" % (i + 1)
        return accepted(r, c, kind, x, checks)
    for st, ret in r.out:
        for c, e in cases(r.ip, st, lambda c: one(c, ret)):
            n += 1
            if e:
                out.append(Finding(PROP, r.path, e, path_text(c)))
    return n


def accepted(r, c, kind, x, checks):
    if kind not in CHECKED:
        return None
    if any(r.variant(c, e[2]) == 0 and same_value(r, c, e[1], x) for e in checks):
        return None
    if any(e[0] == "loop" for e in c.events):
        raise Limit("validation in another form")
    return "accepts an arena that was not validated"


# --- constructors from unvalidated parts

def picks_convert(s):
    o = result_of(s, s.f)
    return o is not None and o["k"] == "adt" and s.L.kinds.get(o["path"]) in CHECKED and len(s.tys) == 1 \
        and s.L.kinds.get(s.prog.types[s.tys[0]].get("path")) == "Arena"


def rule_convert(s):
    install(s)
    s.run()
    out = []

    def one(c, ret):
        checks = [e for e in c.events if e[0] == "validated"]
        if s.variant(c, ret) != 0:
            return "refuses a well-formed arena" if all(s.variant(c, e[2]) == 0 for e in checks) else None
        x = fld(ret, 0, 0)
        if not same_value(s, c, fld(x, 0, 0), s.args[0]):
            return "does not hold the given arena"
        return accepted(s, c, s.L.kinds[result_of(s, s.f)["path"]], x, checks)
    for st, ret in s.out:
        for c, e in cases(s.ip, st, lambda c: one(c, ret)):
            s.checked += 1
            if e:
                out.append(Finding(PROP, s.path, e, path_text(c)))
    return out


# --- validation of interlinks

def picks_interlinks(s):
    return validates(s, s.f) in ("ChainArena", "ChainNoGenArena")


def mutual(s, c, z, p):
    """Are the interlinks of the walked entry `p` answered?"""
    ip = s.ip
    x = walk_inx(s, z, p)
    e = ip.vec_get(c, z.pre_m(), x)
    for which in (0, 1):
        o = z.link_of(e, which)
        if s.variant(c, o) == 0:
            continue
        q = opt_val(c, o)
        i = p_inx(q) if z.link[2] else q
        m = z.pre_m()
        # an index is never zero
        c.facts.assume_le(I(1), i)
        if not ip.decide_le(c, i, m.len):
            return False
        t = ip.vec_get(c, m, i)
        if not z.is_alloc(c, t):
            return False
        if z.link[2] and not ip.decide_eq(c, z.egen(t), p_gen(q)):
            return False
        b = z.link_of(t, 1 - which)
        if s.variant(c, b) == 0:
            return False
        b = opt_val(c, b)
        if not z.link[2]:
            if not ip.decide_eq(c, b, x):
                return False
        elif not ip.decide_eq(c, p_inx(b), x) or not ip.decide_eq(c, p_gen(b), z.egen(e)):
            return False
    return True


def unassuming(s):
    """Nothing is known about what the arenas hold."""
    s.ip.wf = WF(s.L, [])


def walks(c, since):
    return [e for e in c.events[since:] if e[0] == "walk"]


def rule_interlinks(s):
    install(s)
    unassuming(s)
    z = walked_sub(s.by[1])
    install_walk(s, [z])
    s.run()
    out = []
    good = []
    whys = []
    for lp in s.ip.loops:
        ok = bool(lp.passes)
        for it in lp.passes:
            w = walks(it.back, len(it.head.events))
            if len(w) != 1 or w[0][2] is None:
                ok = False
                break
            for c, r in cases(s.ip, it.back, lambda c: mutual(s, c, z, w[0][2])):
                s.checked += 1
                if not r:
                    ok = False
                    whys.append((c, "goes on although an interlink of the visited entry is not answered"))
        if ok:
            good.append(lp.tag)
    for st, ret in s.out:
        def one(c):
            checks = [e for e in c.events if e[0] == "validated"]
            if s.variant(c, ret) == 0:
                if any(s.variant(c, e[2]) == 0 and same_value(s, c, e[1], T("deref", s.args[0])) for e in checks):
                    return None
                for i, e in enumerate(c.events):
                    if e[0] == "head" and e[1] in good:
                        w = next((x for x in c.events[i:] if x[0] == "walk"), None)
                        if w is not None and w[2] is None:
                            return None
                if any(e[0] == "opaque" and "::iter" in e[1] for e in c.events):
                    raise Limit("walks by a library adaptor")
                return "accepts without having looked at every interlink"
            i = last_head(c)
            w = walks(c, i)
            if c.events and c.events[i][0] == "head" and c.events[i][1] in good and w and w[-1][2] is not None:
                return "refuses although the interlinks of the visited entry are answered" if mutual(s, c, z, w[-1][2]) else None
            return None
        for c, e in cases(s.ip, st, one):
            s.checked += 1
            if e:
                out.append(Finding(PROP, s.path, e, path_text(c)))
    if out:
        for c, w in whys[:1]:
            out.append(Finding(PROP, s.path, w, path_text(c)))
    return out


# --- arenas written entry by entry

def picks_map(s):
    return trait_is(s.f, "Serialize") and s.name == "serialize" and self_adt(s) is not None and written_as_map(s)


def rule_map(s):
    install(s)
    z = walked_sub(s.by[1])
    install_walk(s, [z])
    s.run()
    out = []
    ordered = z.role == "nodes"

    def entry_of(c, p):
        e = s.ip.vec_get(c, z.pre_m(), walk_inx(s, z, p))
        if not ordered:
            return walk_inx(s, z, p), z.payload(e)
        t = z.inner(e)
        return fld(t, 0, s.L.n_f["k"]), fld(t, 0, s.L.n_f["v"])

    def stretch(c, since, ret):
        evs = of_serde(c, since)
        w = walks(c, since)
        items = [e for e in evs if e[1] in ("serialize_entry", "serialize_key", "serialize_value")]
        if any(e[1] in ("serialize_key", "serialize_value") for e in items):
            raise Limit("another form of output")
        others = [e for e in evs if e not in items]
        if any(e[2] == "foreign" for e in w):
            return "an advancer of one arena walks another"
        p = next((e[2] for e in w if e[2] is not None), None)
        if len(w) > 1:
            return "one pass takes several entries"
        if items and p is None:
            return "writes an entry it has not come to"
        for e in items:
            k, v = entry_of(c, p)
            if not same_value(s, c, e[2][1], k) or not same_value(s, c, e[2][2], v):
                return "writes something else than the visited entry"
        if len(items) > 1:
            return "writes an entry twice"
        if ret is None:
            if p is None:
                return "goes on without visiting an entry"
            if not items:
                return "leaves out an entry"
            if any(s.variant(c, e[3]) != 0 for e in evs):
                return "goes on although an entry could not be written"
            return None
        evs = of_serde(c)
        if not evs or evs[0][1] != "serialize_map":
            raise Limit("another form of output")
        if s.variant(c, ret) == 0:
            if not (others and others[-1][1] == "end" and (same_value(s, c, ret, others[-1][3]) or s.variant(c, others[-1][3]) == 0)):
                return "does not finish what it writes"
            if not w or p is not None:
                return "stops before the last entry"
            h = evs[0][2][1]
            if s.variant(c, h) == 1 and not same_value(s, c, opt_val(c, h), z.len(c)):
                return "announces a different number of entries than it writes"
            return None
        if all(s.variant(c, e[3]) == 0 for e in evs) and not ordered:
            return "fails although everything could be written"
        return None
    ends = [(it.back, None, len(it.head.events)) for it in s.ip.iterations]
    ends += [(st, ret, last_head(st)) for st, ret in s.out]
    for st, ret, since in ends:
        for c, e in cases(s.ip, st, lambda c: stretch(c, since, ret)):
            s.checked += 1
            if e:
                out.append(Finding(PROP, s.path, e, path_text(c)))
    if ordered:
        out += compressed_only(s, z)
    return out


def compressed_only(s, z):
    """An ordered arena is written only while the index of each entry is one
    more than that of the one before it, beginning with one: some variable of
    the loop keeps the last or the expected index."""
    ip = s.ip
    for lp in ip.loops:
        ps = [it for it in lp.passes if any(e[2] is not None for e in walks(it.back, len(it.head.events)))]
        if not ps:
            continue
        places = set(k for k in lp.entry.heap if not isinstance(k, Term))
        for k in sorted(places, key=str):
            for judge in (keeps_last, keeps_next):
                try:
                    r = judge(s, z, lp, ps, k)
                except Limit:
                    continue
                if r is not None:
                    return r
    return [Finding(PROP, s.path, "does not make sure that the arena is compressed")]


def index_text(c):
    return path_text(c)


def passes_fit(s, z, ps, fits):
    for it in ps:
        p = next(e[2] for e in walks(it.back, len(it.head.events)) if e[2] is not None)
        for c, r in cases(s.ip, it.back, lambda c: fits(c, it, walk_inx(s, z, p))):
            s.checked += 1
            if not r:
                return False
    return True


def refuses_rightly(s, z, lp, fits):
    out = []
    for st, ret in s.out:
        i = last_head(st)
        if st.events[i][0] != "head" or st.events[i][1] != lp.tag:
            continue
        w = [e for e in walks(st, i) if e[2] is not None]

        def one(c):
            if s.variant(c, ret) == 0 or not w or not all(s.variant(c, e[3]) == 0 for e in of_serde(c)):
                return None
            return "refuses a compressed arena" if fits(c, i, walk_inx(s, z, w[0][2])) else None
        for c, e in cases(s.ip, st, one):
            s.checked += 1
            if e:
                out.append(Finding(PROP, s.path, e, path_text(c)))
    return out


def head_value(s, lp, st, i, k):
    """Value of local `k` at the loop head this path last passed."""
    for h in lp.heads:
        if len(h.events) == i or h.events[:i + 1] == st.events[:i + 1]:
            return h.heap.get(k)
    return None


def keeps_last(s, z, lp, ps, k):
    """`k` is None before the first entry and then Some(index of the last)."""
    e0 = lp.entry.heap.get(k)
    if not isinstance(e0, (Agg, Term)) or not isinstance(e0, Agg) or e0.variant != 0 or e0.fields:
        return None

    def expected(c, h):
        if s.variant(c, h) == 0:
            return I(1)
        return lin_add(c.facts.norm(opt_val(c, h)), I(1))

    def fits(c, it, x):
        h, b = it.head.heap.get(k), it.back.heap.get(k)
        if h is None or b is None:
            return False
        return c.facts.eq(x, expected(c, h)) is True and s.variant(c, b) == 1 and c.facts.eq(opt_val(c, b), x) is True
    if not passes_fit(s, z, ps, fits):
        return None
    return refuses_rightly(s, z, lp, lambda c, i, x: c.facts.eq(x, expected(c, head_value(s, lp, c, i, k))) is True)


def keeps_next(s, z, lp, ps, k):
    """`k` is a number that grows with the expected index."""
    e0 = lp.entry.heap.get(k)
    e0 = lp.entry.facts.norm(e0) if isinstance(e0, Term) else e0
    if not (isinstance(e0, Term) and is_int(e0)):
        return None
    off = 1 - e0.args[0]

    def fits(c, it, x):
        h, b = it.head.heap.get(k), it.back.heap.get(k)
        if h is None or b is None:
            return False
        h = lin_add(c.facts.norm(h), I(off))
        return c.facts.eq(x, h) is True and c.facts.eq(lin_add(c.facts.norm(b), I(off - 1)), x) is True
    if not passes_fit(s, z, ps, fits):
        return None
    return refuses_rightly(s, z, lp, lambda c, i, x:
                           c.facts.eq(x, lin_add(c.facts.norm(head_value(s, lp, c, i, k)), I(off))) is True)


# --- arenas rebuilt from what is read

def picks_visitor(s):
    if not trait_is(s.f, "Visitor") or not s.name.startswith("visit_"):
        return False
    o = result_of(s, s.f)
    return o is not None and o["k"] == "adt" and s.L.kinds.get(o["path"]) in ("Arena", "OrdArena")


READS = ("next_entry", "next_element", "next_key", "next_value", "next_entry_seed")
TWO = T("inc", T("genone"))


def arenas(s, st):
    found = []

    def walk(v):
        if isinstance(v, Agg):
            if v.ty == s.L.arena:
                found.append(v)
            else:
                for _, x in v.fields:
                    walk(x)
    for k, v in st.heap.items():
        if not isinstance(k, Term):
            walk(v)
    return found


def the_arena(s, st):
    """The arena under construction."""
    found = arenas(s, st)
    if len(found) != 1:
        raise Limit("no single arena under construction")
    return found[0]


def storage(s, c, a):
    v = fld(a, 0, s.L.a_m)
    return s.ip.as_vec(c.facts.norm(v) if isinstance(v, Term) else v)


def read_result(s, c, since=0):
    """("none" | "error" | "end" | "item", item) of the last read."""
    evs = [e for e in of_serde(c, since) if e[1] in READS]
    if not evs:
        return "none", None
    if any(e[1] != "next_entry" for e in evs):
        raise Limit("another form of input")
    r = evs[-1][3]
    if s.variant(c, r) != 0:
        return "error", None
    o = fld(r, 0, 0)
    if s.variant(c, o) == 0:
        return "end", None
    return "item", opt_val(c, o)


def entry_variant(s, c, e):
    n = c.facts.norm(e) if isinstance(e, Term) else e
    if isinstance(n, Agg):
        return n.variant
    a = s.L.alloc
    return a if s.ip.decide_eq(c, T("discr", e, s.L.discr), I(s.L.discr[a])) else s.L.free


class Rebuild:
    """Judges a visitor: every read item becomes one entry."""

    def __init__(self, s):
        self.s, self.L, self.ip = s, s.L, s.ip
        self.out = []
        self.slot = T("nz", "slot")

    def bad(self, c, what):
        self.out.append(Finding(PROP, self.s.path, what, path_text(c)))

    def part(self, a, i):
        return fld(a, 0, i)

    def reading(self):
        return [it for it in self.ip.iterations
                if any(e[1] in READS for e in of_serde(it.back, len(it.head.events)))]

    def run(self):
        s = self.s
        passes = self.reading()
        if not passes:
            self.out.append(Finding(PROP, s.path, "reads no entries"))
        for it in passes:
            for c, e in cases(self.ip, it.back, lambda c: self.item(c, it)):
                s.checked += 1
                for x in e:
                    self.bad(c, x)
        for lp in {id(it.loop): it.loop for it in passes}.values():
            self.start(lp.entry)
        for st, ret in s.out:
            for c, e in cases(self.ip, st, lambda c: self.end(c, ret)):
                s.checked += 1
                if e and not self.impossible(c):
                    self.bad(c, e)
        return self.out

    def impossible(self, c):
        """Whether the path contradicts what some loop keeps between one of
        its optional places and the emptiness of the storage."""
        s = self.s
        for e in c.events:
            lp = self.ip.loop_by_no.get(e[3]) if e[0] == "head" else None
            if lp is None or len(lp.heads) != 1 or not lp.passes:
                continue
            try:
                h = lp.heads[0]
                size = storage(s, c, the_arena(s, h)).len
                empty = [self.empty(b, storage(s, b, the_arena(s, b)).len) for b in [lp.entry] + [it.back for it in lp.passes]]
            except Limit:
                continue
            now = self.empty(c, size)
            if now is None:
                continue
            for k in range(len(self.optional(h, lp.entry))):
                pick = [self.optional(st, lp.entry) for st in [h, lp.entry] + [it.back for it in lp.passes]]
                if any(len(p) <= k or p[k] is None for p in pick):
                    continue
                had = self.which(c, pick[0][k])
                rest = [self.which(st, p[k]) for st, p in zip([lp.entry] + [it.back for it in lp.passes], pick[1:])]
                if had == 1 and now and all(v == 0 or z is False for v, z in zip(rest, empty)):
                    return True
                if had == 0 and not now and all(v == 1 or z is True for v, z in zip(rest, empty)):
                    return True
        return False

    def optional(self, st, entry):
        """Values of the places (and free list roots) that hold an option at
        the entry of a loop, in one order for all states."""
        out = []
        for k in entry.heap:
            if isinstance(k, Term):
                continue
            a, v = entry.heap[k], st.heap.get(k)
            if isinstance(a, Agg) and a.variant in (0, 1) and len(a.fields) == a.variant:
                out.append(v)
        for a in arenas(self.s, st):
            out.append(self.part(a, self.L.a_root))
        return out

    def which(self, st, v):
        x = st.facts.norm(v) if isinstance(v, Term) else v
        if isinstance(x, Agg):
            return x.variant
        for n in (0, 1):
            if st.facts.eq(T("discr", v, (0, 1)), I(n)) is True:
                return n
        return None

    def empty(self, st, n):
        z = st.facts.eq(n, I(0))
        if z is None and st.facts.decide_le(I(1), n) is True:
            return False
        return z

    def start(self, st):
        L = self.L
        a = the_arena(self.s, st)
        m = storage(self.s, st, a)
        if st.facts.eq(m.len, I(0)) is not True or st.facts.eq(self.part(a, L.a_len), I(0)) is not True:
            self.bad(st, "does not begin with an empty arena")

    def item(self, c, it):
        s, L = self.s, self.L
        since = len(it.head.events)
        if len([e for e in of_serde(c, since) if e[1] in READS]) != 1:
            return ["one pass reads several entries"]
        how, item = read_result(s, c, since)
        if how != "item":
            return ["goes on after the input ended or failed"]
        a, b = the_arena(s, it.head), the_arena(s, c)
        m, n = storage(s, c, a), storage(s, c, b)
        if m.over:
            raise Limit("storage at the head of a loop")
        out = []
        if c.facts.eq(self.part(b, L.a_gen), TWO) is not True:
            out.append("the generation of the arena is not the initial one")
        return out + self.judge(c, a, b, m, n, item)

    def others(self, c, m, n, apart, fresh):
        """What slots other than `apart` hold after a pass."""
        s = self.s
        if any(c.facts.eq(self.slot, i) is True for i in apart):
            return None
        for i in apart:
            if self.ip.decide_eq(c, self.slot, i):
                return None
        if not self.ip.decide_le(c, self.slot, n.len):
            return None
        bads = []
        for c2, e, _ in contents(s, c, n, self.slot, m.base):
            if self.ip.decide_le(c2, self.slot, m.len):
                if not same_value(s, c2, e, self.ip.vec_get(c2, m, self.slot)):
                    bads.append("reading an entry changes another slot")
            elif entry_variant(s, c2, e) != self.L.free:
                bads.append("a slot that was not read is not vacant")
        return bads[0] if bads else None

    def sane(self, c):
        """The last read before a failing return."""
        return read_result(self.s, c)


class Plain(Rebuild):
    """Index and value are read; gaps become vacant and are linked."""

    def judge(self, c, a, b, m, n, item):
        s, L = self.s, self.L
        i, t = fld(item, 0, 0), fld(item, 0, 1)
        c.facts.assume_le(I(1), i)
        out = []
        if self.ip.decide_le(c, i, m.len):
            if entry_variant(s, c, self.ip.vec_get(c, m, i)) != L.free:
                out.append("accepts an index twice")
        if not self.ip.decide_le(c, i, n.len) or not self.ip.decide_le(c, m.len, n.len):
            return out + ["the storage does not reach the read index"]
        e = self.ip.vec_get(c, n, i)
        if entry_variant(s, c, e) != L.alloc or not same_value(s, c, fld(e, L.alloc, L.e_t), t):
            out.append("the read value is not stored at the read index")
        elif c.facts.eq(fld(e, L.alloc, L.e_gen), TWO) is not True:
            out.append("a read entry does not carry the initial generation")
        if c.facts.eq(self.part(b, L.a_len), lin_add(c.facts.norm(self.part(a, L.a_len)), I(1))) is not True:
            out.append("the length does not count a read entry")
        r = self.others(c, m, n, [i], True)
        return out + ([r] if r else [])

    def end(self, c, ret):
        s, L = self.s, self.L
        how, item = read_result(s, c)
        if how == "none":
            return "answers without reading"
        if s.variant(c, ret) != 0:
            if how == "error":
                return None
            if how == "end":
                return "refuses input that was read and is well formed"
            i = fld(item, 0, 0)
            c.facts.assume_le(I(1), i)
            e = [e for e in of_serde(c) if e[1] in READS][-1]
            if len(e[5]) != 1:
                raise Limit("no single arena under construction")
            m = storage(s, c, e[5][0])
            if self.ip.decide_le(c, i, m.len) and entry_variant(s, c, self.ip.vec_get(c, m, i)) == L.alloc:
                return None
            return "refuses an index that was not read before" if self.feasible(c, m.base) else None
        if how == "error":
            return "succeeds although the input could not be read"
        if how != "end":
            return "stops before the input ends"
        r = fld(ret, 0, 0)
        m = storage(s, c, r)
        if c.facts.eq(self.part(r, L.a_gen), TWO) is not True:
            return "the generation of the arena is not the initial one"
        root = self.part(r, L.a_root)
        if self.ip.decide_eq(c, m.len, I(0)):
            return None if s.variant(c, root) == 0 else "an empty arena has a free list"
        return self.linked(c, m, root)

    def feasible(self, c, stop):
        """Can slots written by loops hold what the path found in them?"""
        for f in list(c.facts.log):
            for v in f[1:]:
                if not (isinstance(v, Term) and v.op == "discr"):
                    continue
                x = v.args[0]
                if not (isinstance(x, Term) and x.op == "elem" and x.args[0].op == "w") or x.args[0] is stop:
                    continue
                ok = False
                for c2, e, _ in contents(self.s, c, vec(x.args[0], (), T("len", x.args[0])), x.args[1], stop):
                    c3 = c2.copy()
                    try:
                        k = entry_variant(self.s, c3, e)
                        c3.facts.assume_eq(v, I(self.L.discr[k]))
                        ok = True
                    except Contradiction:
                        pass
                if not ok:
                    return False
        return True

    def reads_in(self, e):
        lp = self.ip.loop_by_no.get(e[3])
        return lp is not None and any(x in lp.passes for x in self.reading())

    def linked(self, c, m, root):
        """The last loop swept all slots and threaded the vacant ones."""
        s = self.s
        h = next((e for e in reversed(c.events) if e[0] == "head"), None)
        lp = self.ip.loop_by_no.get(h[3]) if h is not None else None
        if lp is None or self.reads_in(h):
            return "vacant slots are not linked into the free list"
        key = (id(lp), "link")
        places = self.__dict__.setdefault("places", {})
        if key not in places:
            places[key] = self.threads(lp)
        why, n, k = places[key]
        if why:
            return why
        if c.facts.eq(n, m.len) is not True:
            return "the sweep that links vacant slots may stop early"
        for hs in lp.heads:
            a = the_arena(s, hs)
            if storage(s, hs, a).base is not m.base:
                continue
            last_ = at(hs, k)
            if s.variant(c, root) != s.variant(c, last_):
                return "the free list does not begin at the last vacant slot"
            if s.variant(c, root) == 1 and c.facts.eq(opt_val(c, root), opt_val(c, last_)) is not True:
                return "the free list does not begin at the last vacant slot"
        return None

    def threads(self, lp):
        """(error, count, place): each pass looks at the next slot, and links it
        to the one `place` names (itself if none) if it is vacant."""
        ns = list(lp.counts)
        if len(ns) != 1:
            raise Limit("a sweep that counts otherwise")
        n = ns[0]
        for it in lp.passes:
            if delta(self.ip, lp, it, n) != 1:
                raise Limit("a sweep that counts otherwise")
        err = None
        for k in options(lp.entry):
            err = self.threads_by(lp, n, k)
            if err is None:
                return None, n, k
        return err or "vacant slots are not linked into the free list", n, None

    def threads_by(self, lp, n, k):
        s, L = self.s, self.L

        def one(c, it):
            i = lin_add(n, I(1))
            m, b = storage(s, c, the_arena(s, it.head)), storage(s, c, the_arena(s, c))
            h, a = at(it.head, k), at(it.back, k)
            if h is None or a is None:
                return "vacant slots are not linked into the free list"
            if b.base is not m.base or m.over:
                raise Limit("storage replaced")
            e, x = self.ip.vec_get(c, m, i), self.ip.vec_get(c, b, i)
            for j, _ in b.over:
                if c.facts.eq(j, i) is not True:
                    return "the sweep that links vacant slots changes another slot"
            if entry_variant(s, c, e) == L.alloc:
                if b.over and not same_value(s, c, e, x):
                    return "the sweep that links vacant slots changes an entry"
                return None if same_value(s, c, h, a) else "an entry is linked into the free list"
            if entry_variant(s, c, x) != L.free:
                return "the sweep that links vacant slots makes an entry"
            want = i if s.variant(c, h) == 0 else opt_val(c, h)
            if c.facts.eq(fld(x, L.free, 0), want) is not True:
                return "a vacant slot is not linked to the one before it"
            if s.variant(c, a) != 1 or c.facts.eq(opt_val(c, a), i) is not True:
                return "a vacant slot is left out of the free list"
            return None
        for it in lp.passes:
            for c, e in cases(self.ip, it.back, lambda c: one(c, it)):
                s.checked += 1
                if e:
                    return e
        return None


class Ordered(Rebuild):
    """Keys and values are read in order; the entries fill the storage without
    gaps and form one chain."""

    def keeps_end(self, it):
        """A place that names the last entry read so far at every head of the
        loop: None when it is entered, the entry just pushed after each pass."""
        lp = it.loop
        for k in options(lp.entry):
            ok = True
            for p in lp.passes:
                for c, r in cases(self.ip, p.back, lambda c: self.names_last(c, p, k)):
                    ok = ok and r
            if ok:
                return k
        return None

    def names_last(self, c, p, k):
        v = at(c, k)
        if v is None or at(p.head, k) is None or self.s.variant(c, v) != 1:
            return False
        n = storage(self.s, c, the_arena(self.s, c))
        return c.facts.eq(opt_val(c, v), n.len) is True

    def judge(self, c, a, b, m, n, item):
        s, L = self.s, self.L
        k = self.keeps_end(it=self.cur)
        if k is not None:
            h = at(self.cur.head, k)
            if s.variant(c, h) == 0:
                c.facts.assume_eq(m.len, I(0))
            else:
                c.facts.assume_eq(opt_val(c, h), m.len)
                c.facts.assume_le(I(1), m.len)
        i = lin_add(c.facts.norm(m.len), I(1))
        if c.facts.eq(n.len, i) is not True:
            return ["a read entry does not take the next slot"]
        e = self.ip.vec_get(c, n, i)
        if entry_variant(s, c, e) != L.alloc:
            return ["a read entry is not stored"]
        out = []
        if c.facts.eq(fld(e, L.alloc, L.e_gen), TWO) is not True:
            out.append("a read entry does not carry the initial generation")
        l = next(v for p, v in L.links.items() if not v[2])
        x = fld(e, L.alloc, L.e_t)
        prev, nxt, t = fld(fld(x, 0, l[0]), 0, 0), fld(fld(x, 0, l[0]), 0, 1), fld(x, 0, l[1])
        for name, w in (("k", fld(item, 0, 0)), ("v", fld(item, 0, 1))):
            if not same_value(s, c, fld(t, 0, L.n_f[name]), w):
                out.append("the read key or value is not stored")
        for f in L.n_f:
            if f.startswith("p_") and s.variant(c, fld(t, 0, L.n_f[f])) != 0:
                out.append("a read entry starts with links into the tree")
        if s.variant(c, nxt) != 0:
            out.append("a read entry has a next entry already")
        if self.ip.decide_eq(c, m.len, I(0)):
            if s.variant(c, prev) != 0:
                out.append("the first entry has a previous one")
            r = self.others(c, m, n, [i], True)
            return out + ([r] if r else [])
        c.facts.assume_le(I(1), m.len)
        if s.variant(c, prev) != 1 or c.facts.eq(opt_val(c, prev), m.len) is not True:
            out.append("a read entry is not linked to the one before it")
        q, o = self.ip.vec_get(c, n, m.len), self.ip.vec_get(c, m, m.len)
        if isinstance(o, Term) and entry_variant(s, c, o) != L.alloc:
            return out
        if entry_variant(s, c, q) != L.alloc:
            return out + ["reading an entry changes another slot"]
        y = fld(q, L.alloc, L.e_t)
        z = fld(o, L.alloc, L.e_t)
        f = fld(fld(y, 0, l[0]), 0, 1)
        if s.variant(c, f) != 1 or c.facts.eq(opt_val(c, f), i) is not True:
            out.append("the entry before a read entry is not linked to it")
        if not same_value(s, c, fld(fld(y, 0, l[0]), 0, 0), fld(fld(z, 0, l[0]), 0, 0)) \
                or not same_value(s, c, fld(y, 0, l[1]), fld(z, 0, l[1])) \
                or not same_value(s, c, fld(q, L.alloc, L.e_gen), fld(o, L.alloc, L.e_gen)):
            out.append("reading an entry changes another slot")
        r = self.others(c, m, n, [i, m.len], True)
        return out + ([r] if r else [])

    def item(self, c, it):
        self.cur = it
        return Rebuild.item(self, c, it)

    def end(self, c, ret):
        s, L = self.s, self.L
        how, item = read_result(s, c)
        if how == "none":
            return "answers without reading"
        if s.variant(c, ret) != 0:
            return None if how == "error" else "refuses input that was read and is well formed"
        if how == "error":
            return "succeeds although the input could not be read"
        if how != "end":
            return "stops before the input ends"
        r = fld(ret, 0, 0)

        def inner(v):
            return fld(fld(v, 0, L.o_f["a"]), 0, 0)
        a = inner(r)
        m = storage(s, c, a)
        if c.facts.eq(self.part(a, L.a_gen), TWO) is not True:
            return "the generation of the arena is not the initial one"
        if c.facts.eq(self.part(a, L.a_len), m.len) is not True:
            return "the length does not count the read entries"
        if s.variant(c, self.part(a, L.a_root)) != 0:
            return "an arena without vacant slots has a free list"
        built = [e for e in c.events if e[0] == "rebuilt"]
        if self.ip.decide_eq(c, m.len, I(0)):
            return "rebuilds the tree of an empty arena" if built else None
        if not built:
            if any(e[0] == "loop" and e[1][0] != s.name for e in c.events):
                raise Limit("the tree is built in another way")
            return "does not build the tree"
        return None if same_value(s, c, inner(built[-1][1]), a) else "changes entries after building the tree"


def options(st):
    """Places of the state that hold None."""
    out = []

    def walk(v, p):
        if isinstance(v, Agg):
            if v.variant == 0 and not v.fields and v.base is None:
                out.append(p)
            for i, x in v.fields:
                walk(x, p + ((v.variant, i),))
    for k, v in st.heap.items():
        if not isinstance(k, Term):
            walk(v, (k,))
    return out


def at(st, p):
    v = st.heap.get(p[0])
    for var, i in p[1:]:
        if v is None or isinstance(v, Agg) and v.variant != var:
            return None
        v = fld(v, var, i)
    return v


def install_rebuild(s):
    """Methods that only rebuild the tree and the ends of an OrdArena."""
    def model(ip, st, fn, args, tys, d, line):
        obj, proj = target(st, args[0])
        v = ip.read_loc(st, obj, proj)
        st.event("rebuilt", v)
        for n in ("root", "first", "last"):
            ip.write_loc(st, obj, proj + (("f", 0, s.L.o_f[n]),), st.new("built"))
        return [(st, UNIT)]
    for f in s.prog.fns:
        if f["key"] is None or len(f["inputs"]) != 1 or f.get("trait"):
            continue
        t, o = s.prog.types[f["inputs"][0]], s.prog.types[f["output"]]
        if t["k"] == "ref" and t["mut"] and s.L.strip(f["inputs"][0]).get("path") == s.L.ord \
                and o["k"] == "tuple" and not o["args"] and not f["pub"]:
            s.ip.models.contracts[f["path"]] = model


def rule_visitor(s):
    install(s)
    kind = s.L.kinds[result_of(s, s.f)["path"]]
    if kind == "OrdArena":
        install_rebuild(s)
    s.run()
    return (Ordered if kind == "OrdArena" else Plain)(s).run()


def picks_reader(s):
    o = result_of(s, s.f)
    return trait_is(s.f, "Deserialize") and s.name == "deserialize" and o is not None and o["k"] == "adt" \
        and s.L.kinds.get(o["path"]) in ("Arena", "OrdArena")


def rule_reader(s):
    """Entry by entry arenas are read by their visitor, and by nothing else."""
    install(s)
    s.run()
    out = []

    def one(c, ret):
        evs = of_serde(c)
        if len(evs) != 1 or evs[0][1] not in ("deserialize_map", "deserialize_any"):
            raise Limit("another form of input")
        v = evs[0][2][1]
        v = c.facts.norm(v) if isinstance(v, Term) else v
        if not isinstance(v, Agg):
            raise Limit("another form of input")
        want = result_of(s, s.f)["path"]
        if not any(picks_visitor(r) and result_of(r, r.f)["path"] == want and r.L.strip(r.tys[0]).get("path") == v.ty
                   for r in (Subject(s.prog, s.L, f, ()) for f in s.prog.fns if f["key"] is not None and trait_is(f, "Visitor"))):
            return "is not read by the visitor for it"
        return None if same_value(s, c, ret, evs[0][3]) else "does not return what the visitor made"
    for st, ret in s.out:
        for c, e in cases(s.ip, st, lambda c: one(c, ret)):
            s.checked += 1
            if e:
                out.append(Finding(PROP, s.path, e, path_text(c)))
    return out


# --- validation of key sets

def picks_surjects(s):
    return validates(s, s.f) == "SurjectArena"


class Place:
    """An arena somewhere in the heap."""

    def __init__(self, s, obj, proj, ty):
        self.s, self.obj, self.proj, self.ty = s, obj, proj, ty
        p = s.prog.types[s.prog.types[ty]["args"][0]]
        self.nogen = p["k"] == "adt"

    def m(self, st):
        v = fld(self.s.ip.read_loc(st, self.obj, self.proj), 0, self.s.L.a_m)
        return self.s.ip.as_vec(st.facts.norm(v) if isinstance(v, Term) else v)

    def inx(self, p):
        return fld(p, 0, self.s.L.png_inx) if self.nogen else p_inx(p)

    def is_sub(self, z):
        return (self.obj is z.obj or self.obj == z.obj) and self.proj == z.proj


def install_places(s):
    """Walks over any arena: advancers carry the place they walk."""
    tab = s.ip.models.contracts
    places = []

    def place(st, a, ty):
        obj, proj = target(st, a)
        for path, aty in s.L.subs(ty):
            if s.L.role(aty) == "vals" and s.L.kinds.get(s.L.strip(ty).get("path")) != "Arena":
                continue
            pl = Place(s, obj, proj + tuple(x for x in path if x[0] != "d"), aty)
            for i, q in enumerate(places):
                if q.is_sub(pl):
                    return i
            places.append(pl)
            return len(places) - 1
        return None

    def start(ip, st, fn, args, tys, d, line):
        i = place(st, args[0], tys[0])
        return None if i is None else [(st, T("advancer", i))]

    def step(ip, st, fn, args, tys, d, line):
        v = st.facts.norm(ip.read_loc(st, *target(st, args[0])))
        i = place(st, args[1], tys[1])
        if i is None or not (isinstance(v, Term) and v.op == "advancer") or v.args[0] != i:
            raise Limit("walk of unknown start")
        st.fresh += 1
        k = st.fresh
        t = T("walked", k)
        if ip.decide_eq(st, T("discr", t, (0, 1)), I(0)):
            st.event("walk", i, None, k)
            return [(st, none())]
        p = fld(t, 1, 0)
        x = places[i].inx(p)
        m = places[i].m(st)
        st.facts.assume_le(I(1), x)
        st.facts.assume_le(x, m.len)
        e = ip.vec_get(st, m, x)
        n = st.facts.norm(e) if isinstance(e, Term) else e
        if isinstance(n, Agg):
            if n.variant != s.L.alloc:
                raise Contradiction()
        else:
            st.facts.assume_eq(T("discr", e, s.L.discr), I(s.L.discr[s.L.alloc]))
        if not places[i].nogen:
            st.facts.assume_eq(fld(e, s.L.alloc, s.L.e_gen), p_gen(p))
        st.event("walk", i, p, k)
        return [(st, some(p))]
    for f in s.prog.fns:
        if f["key"] is None:
            continue
        if trait_is(f, "Advancer") and f["name"] == "advance":
            tab[f["path"]] = step
        elif f["name"] == "advancer" and len(f["inputs"]) == 1 and s.L.kinds.get(s.L.strip(f["inputs"][0]).get("path")):
            tab[f["path"]] = start
    return places


class KeySets:
    """The check of key sets counts the keys of each value, compares the counts
    with the stored ones, and follows the keys of each value once round."""

    def __init__(self, s):
        self.s, self.ip, self.L = s, s.ip, s.L
        self.keys = next(z for z in s.by[1] if z.role == "keys")
        self.vals = next(z for z in s.by[1] if z.role == "vals")
        self.out = []
        self.kinds = {}
        self.why = {}

    def counter(self, c, st):
        return storage(self.s, c, the_arena(self.s, st))

    def count_at(self, c, m, v):
        """Count kept for value index `v`, None if the slot is vacant."""
        if not self.ip.decide_le(c, v, m.len):
            return None
        e = self.ip.vec_get(c, m, v)
        return fld(e, self.L.alloc, self.L.e_t) if entry_variant(self.s, c, e) == self.L.alloc else None

    def key(self, c, x):
        return self.ip.vec_get(c, self.keys.pre_m(), x)

    def value_of(self, c, x):
        v = pval_inx(self.s, self.keys, self.key(c, x))
        c.facts.assume_le(I(1), v)
        return v

    def visited(self, it, c):
        """(place, index) of the one entry a pass visits."""
        w = walks(c, len(it.head.events))
        if len(w) != 1 or w[0][2] is None:
            return None, None
        pl = self.s.places[w[0][1]]
        return pl, pl.inx(w[0][2])

    def counts(self, it, c):
        pl, x = self.visited(it, c)
        if pl is None or not pl.is_sub(self.keys):
            return "no walk over the keys counts the keys of each value"
        v = self.value_of(c, x)
        m, b = self.counter(c, it.head), self.counter(c, c)
        old = self.count_at(c, m, v)
        if old is None:
            return "goes on although a key has no value"
        for i, _ in b.over:
            if c.facts.eq(i, v) is not True:
                return "counts for another value"
        new = self.count_at(c, b, v)
        if b.base is not m.base or new is None or c.facts.eq(new, lin_add(c.facts.norm(old), I(1))) is not True:
            return "does not count every key"
        return None

    def compares(self, it, c):
        pl, x = self.visited(it, c)
        if pl is None or pl.is_sub(self.keys):
            return "no walk over the values compares the stored key counts"
        m, b = self.counter(c, it.head), self.counter(c, c)
        if b.base is not m.base or b.over:
            return "no walk over the values compares the stored key counts"
        n = self.count_at(c, m, x)
        if n is None:
            return "no walk over the values compares the stored key counts"
        return None if self.same_count(c, x, n) is True else "goes on although a stored key count is wrong"

    def same_count(self, c, x, n):
        e = self.ip.vec_get(c, self.vals.pre_m(), x)
        return c.facts.eq(fld(fld(e, self.L.alloc, self.L.e_t), 0, self.L.v_count), n)

    def follows(self, it, c):
        pl, x = self.visited(it, c)
        if pl is None or not pl.is_sub(self.keys):
            return "no walk over the keys follows their chains"
        v = self.value_of(c, x)
        m, b = self.counter(c, it.head), self.counter(c, c)
        if b.base is not m.base or any(c.facts.eq(i, v) is not True for i, _ in b.over):
            return "a key set that was not followed is taken as seen"
        n = self.count_at(c, m, v)
        if n is None:
            return None
        hs = [e for e in c.events[len(it.head.events) + 1:] if e[0] == "head"]
        if not hs:
            return None if c.facts.eq(n, I(0)) is True and not b.over else "a key chain is not followed"
        lp = self.ip.loop_by_no.get(hs[-1][3])
        k, kn, why = self.chain(lp, x, v, n)
        if why:
            return why
        for h in lp.heads:
            q, r = h.heap[k], h.heap[kn]
            e = self.key(c, q)
            o = self.keys.link_of(e, 1)
            if self.s.variant(c, o) != 1 or c.facts.eq(opt_val(c, o), x) is not True:
                return "a key chain need not return to its first key"
            if c.facts.eq(pval_inx(self.s, self.keys, e), v) is not True:
                return "a key chain may hold keys of another value"
            if c.facts.eq(lin_add(c.facts.norm(r), I(-1)), I(0)) is not True:
                return "a key chain need not hold all keys of the value"
        return None

    def chain(self, lp, x, v, n):
        """(cursor, countdown, error) of the loop along one chain."""
        tab = self.__dict__.setdefault("chains", {})
        if id(lp) in tab:
            return tab[id(lp)]
        cur = [k for k in lp.entry.heap if not isinstance(k, Term) and lp.entry.facts.eq(lp.entry.heap[k], x) is True] \
            if lp is not None else []
        num = [k for k in lp.entry.heap if not isinstance(k, Term) and lp.entry.facts.eq(lp.entry.heap[k], n) is True] \
            if lp is not None else []
        r = (None, None, "a key chain is not followed key by key")
        for k in cur:
            for kn in num:
                e = self.chain_by(lp, k, kn, v)
                if e is None:
                    tab[id(lp)] = (k, kn, None)
                    return tab[id(lp)]
                if any(it.back.facts.eq(it.back.heap[k], it.head.heap[k]) is not True for it in lp.passes
                       if k in it.back.heap and k in it.head.heap):
                    r = (None, None, e)
        tab[id(lp)] = r
        return r

    def chain_by(self, lp, k, kn, v):
        s = self.s

        def one(c, it):
            q, a = it.head.heap.get(k), it.back.heap.get(k)
            r, b = it.head.heap.get(kn), it.back.heap.get(kn)
            if None in (q, a, r, b):
                return "a key chain is not followed key by key"
            e = self.key(c, q)
            o = self.keys.link_of(e, 1)
            if s.variant(c, o) != 1 or c.facts.eq(opt_val(c, o), a) is not True:
                return "a key chain is not followed key by key"
            if c.facts.eq(pval_inx(s, self.keys, e), v) is not True:
                return "a key chain may hold keys of another value"
            if c.facts.eq(b, lin_add(c.facts.norm(r), I(-1))) is not True:
                return "the keys of a chain are not counted"
            return None
        for it in lp.passes:
            for c, e in cases(self.ip, it.back, lambda c: one(c, it)):
                s.checked += 1
                if e:
                    return e
        return None

    def starts(self, lp):
        """Before the keys are counted every value, and nothing else, has a
        count of zero."""
        s, L = self.s, self.L
        slot = T("nz", "slot")
        st = lp.entry

        def one(c):
            m, pre = self.counter(c, st), self.vals.pre_m()
            if not self.ip.decide_le(c, slot, m.len):
                return [(c, None)] if not self.ip.decide_le(c, slot, pre.len) else [(c, "gap")]
            return [(c2, e) for c2, e, _ in contents(s, c, m, slot)]
        for c, r in cases(self.ip, st, one):
            for c2, e in r:
                if e is None:
                    continue

                def two(c3):
                    live = self.ip.decide_le(c3, slot, self.vals.pre_m().len) \
                        and entry_variant(s, c3, self.ip.vec_get(c3, self.vals.pre_m(), slot)) == L.alloc
                    if e == "gap":
                        return "a value is not counted" if live else None
                    if (entry_variant(s, c3, e) == L.alloc) != live:
                        return "counts are kept for other slots than those of the values"
                    if live and c3.facts.eq(fld(e, L.alloc, L.e_t), I(0)) is not True:
                        return "counting does not begin at zero"
                    return None
                for c3, w in cases(self.ip, c2, two):
                    s.checked += 1
                    if w:
                        return w
        return None

    def run(self):
        s = self.s
        for lp in self.ip.loops:
            for name in ("counts", "compares", "follows"):
                e = self.loop_is(lp, getattr(self, name))
                if e is None and name == "counts" and lp.passes:
                    e = self.starts(lp)
                if e is None:
                    self.kinds.setdefault(name, []).append(lp)
                elif walks_in(lp):
                    self.why.setdefault(name, []).append(e)
        for st, ret in s.out:
            for c, e in cases(self.ip, st, lambda c: self.end(c, ret)):
                s.checked += 1
                if e:
                    self.out.append(Finding(PROP, s.path, e, path_text(c)))
        return self.out

    def loop_is(self, lp, test):
        for it in lp.passes:
            try:
                rs = cases(self.ip, it.back, lambda c: test(it, c))
            except Limit:
                return "unknown"
            for c, e in rs:
                self.s.checked += 1
                if e:
                    return e
        return None

    def end(self, c, ret):
        s = self.s
        checks = [e for e in c.events if e[0] == "validated"]
        if s.variant(c, ret) == 0:
            if any(s.variant(c, e[2]) == 0 and same_value(s, c, e[1], T("deref", s.args[0])) for e in checks):
                return None
            done = {}
            for i, e in enumerate(c.events):
                if e[0] != "head":
                    continue
                w = next((x for x in c.events[i + 1:] if x[0] in ("walk", "head")), None)
                if w is None or w[0] != "walk" or w[2] is not None:
                    continue
                lp = self.ip.loop_by_no.get(e[3])
                for k, lps in self.kinds.items():
                    if lp in lps and (k != "counts" or k not in done):
                        done[k] = i
            for k in ("counts", "compares", "follows"):
                if k not in done:
                    if any(e[0] == "opaque" and "::iter" in e[1] for e in c.events):
                        raise Limit("walks by a library adaptor")
                    ws = sorted(self.why.get(k, ["accepts without having looked at every key"]), key=self.rank)
                    return ws[0]
                if done[k] < done["counts"]:
                    return "compares counts before all keys are counted"
            return None
        return self.refuses(c)

    def rank(self, w):
        return (w.startswith("no walk") or w == "unknown", w)

    def refuses(self, c):
        """Refusals while counting and comparing need their reason."""
        i = last_head(c)
        if not c.events or c.events[i][0] != "head":
            return None
        lp = self.ip.loop_by_no.get(c.events[i][3])
        w = walks(c, i)
        if not w or w[-1][2] is None:
            return None
        pl = self.s.places[w[-1][1]]
        x = pl.inx(w[-1][2])
        h = lp.heads[0] if lp is not None and len(lp.heads) == 1 else None
        if h is None:
            return None
        if lp in self.kinds.get("counts", ()) and pl.is_sub(self.keys):
            v = self.value_of(c, x)
            if self.count_at(c, self.counter(c, h), v) is not None and lp not in self.kinds.get("follows", ()):
                return "refuses although the key has a value"
        elif lp in self.kinds.get("compares", ()) and not pl.is_sub(self.keys):
            n = self.count_at(c, self.counter(c, h), x)
            if n is not None and self.same_count(c, x, n) is not False:
                return "refuses although the stored key count is right"
        return None


def walks_in(lp):
    return any(walks(it.back, len(it.head.events)) for it in lp.passes)


def rule_surjects(s):
    install(s)
    unassuming(s)
    s.places = install_places(s)
    s.run()
    return KeySets(s).run()
